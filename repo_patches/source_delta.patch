From 4f221076c3f7c728c5e9647dbeed9472a4e9ef94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:34 +0000
Subject: [PATCH 01/51] fix: decode the smallest 64-bit integer

The sign was applied after parsing, so i-9223372036854775808e, which Encode
writes, was out of range.
---
 src/bencode/decode.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/bencode/decode.go b/src/bencode/decode.go
index 3e86f01..693d843 100644
--- a/src/bencode/decode.go
+++ b/src/bencode/decode.go
@@ -166,11 +166,10 @@ func (dc *decoder) decodeInt() (int64, error) {
 
 	dc.curs++
 	var strInt string
-	negMult := int64(1)
 
 	// Handle negative ints
 	if dc.curByte() == '-' {
-		negMult = -1
+		strInt += "-"
 		dc.curs++
 	}
 
@@ -201,7 +200,7 @@ func (dc *decoder) decodeInt() (int64, error) {
 		return 0, err
 	}
 
-	return val * negMult, nil
+	return val, nil
 }
 
 // ============================================================================
-- 
2.43.0


From 48b210b081ac7722b6d527897363bcd8808d0cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:34 +0000
Subject: [PATCH 02/51] fix: reject negative zero when decoding

---
 src/bencode/decode.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bencode/decode.go b/src/bencode/decode.go
index 693d843..b152901 100644
--- a/src/bencode/decode.go
+++ b/src/bencode/decode.go
@@ -195,6 +195,11 @@ func (dc *decoder) decodeInt() (int64, error) {
 		}
 	}
 
+	// There is no negative zero
+	if strInt == "-0" {
+		return 0, &DecoderError{"bad int (negative 0) at byte " + strconv.FormatUint(dc.curs, 10)}
+	}
+
 	val, err := strconv.ParseInt(strInt, 10, 64)
 	if err != nil {
 		return 0, err
-- 
2.43.0


From eea44e1e3cbedde14c061c72cecaae6ca4440b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:34 +0000
Subject: [PATCH 03/51] fix: reject a truncated string in a buffer with spare
 capacity

Slicing a []byte beyond its length is legal up to its capacity, so a string
that runs past the end of the data decoded to whatever follows it in memory.
---
 src/bencode/decode.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bencode/decode.go b/src/bencode/decode.go
index b152901..fd49cf7 100644
--- a/src/bencode/decode.go
+++ b/src/bencode/decode.go
@@ -150,6 +150,10 @@ func (dc *decoder) decodeString() (string, error) {
 		return "", err
 	}
 
+	if uint64(lenVal) > uint64(len(dc.data))-dc.curs {
+		return "", &DecoderError{"string runs past end of data"}
+	}
+
 	str := string(dc.data[dc.curs : dc.curs+uint64(lenVal)])
 	dc.curs += uint64(lenVal)
 
-- 
2.43.0


From d32435c4da826c0f01ef5f9471db174754e91458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:34 +0000
Subject: [PATCH 04/51] fix: do not read a negative integer as a huge unsigned
 one

---
 src/bencode/dict.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/bencode/dict.go b/src/bencode/dict.go
index fb0fe1c..7e5ed53 100644
--- a/src/bencode/dict.go
+++ b/src/bencode/dict.go
@@ -75,6 +75,14 @@ func (d Dict) GetUint(key string) (uint64, error) {
 	if err != nil {
 		return 0, err
 	}
+	if v < 0 {
+		return 0, &DictBadTypeError{
+			key:   key,
+			tWant: "uint64",
+			tHave: "negative int64",
+			dict:  d,
+		}
+	}
 	return uint64(v), nil
 }
 
-- 
2.43.0


From 2f8c0d65b2acacefbf65500237970544dcade53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:48 +0000
Subject: [PATCH 05/51] fix: limit the nesting depth when decoding

A few megabytes of 'l' from a tracker exhaust the stack, which kills the
process and cannot be recovered from.
---
 src/bencode/decode.go | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/bencode/decode.go b/src/bencode/decode.go
index fd49cf7..292ace9 100644
--- a/src/bencode/decode.go
+++ b/src/bencode/decode.go
@@ -57,6 +57,11 @@ func (dc *decoder) decodeDict() (Dict, error) {
 		return nil, &DecoderError{"not pointing to dict"}
 	}
 
+	if err := dc.enter(); err != nil {
+		return nil, err
+	}
+	defer dc.leave()
+
 	dc.curs++
 	dict := make(map[string]interface{})
 
@@ -98,6 +103,11 @@ func (dc *decoder) decodeList() (List, error) {
 		return nil, &DecoderError{"not pointing to dict"}
 	}
 
+	if err := dc.enter(); err != nil {
+		return nil, err
+	}
+	defer dc.leave()
+
 	dc.curs++
 	var list List
 
@@ -215,9 +225,28 @@ func (dc *decoder) decodeInt() (int64, error) {
 // ============================================================================
 // Decoder Struct =============================================================
 
+// maxDepth bounds the nesting of lists and dictionaries, which are decoded
+// recursively: running out of stack cannot be recovered from.
+const maxDepth = 10000
+
 type decoder struct {
-	data []byte
-	curs uint64
+	data  []byte
+	curs  uint64
+	depth int
+}
+
+// enter counts one more open list or dictionary
+func (dc *decoder) enter() error {
+	dc.depth++
+	if dc.depth > maxDepth {
+		return &DecoderError{"nested too deeply"}
+	}
+	return nil
+}
+
+// leave counts one open list or dictionary less
+func (dc *decoder) leave() {
+	dc.depth--
 }
 
 func (dc *decoder) curByte() byte {
-- 
2.43.0


From f4413988250606147d988863ceae692bfae147a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:27 +0000
Subject: [PATCH 06/51] fix: encode request messages in full

The three fields were written over the length prefix of a 5 byte buffer.
---
 src/p2p/request.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/p2p/request.go b/src/p2p/request.go
index d494bce..5cfeef7 100644
--- a/src/p2p/request.go
+++ b/src/p2p/request.go
@@ -61,10 +61,11 @@ func (mr *MsgRequest) ReqLen() uint32 {
 // IMPL =======================================================================
 
 func (mr *MsgRequest) Encode() []byte {
-	pl := mr.msgBase.Encode()
-	binary.BigEndian.PutUint32(pl, mr.index)
-	binary.BigEndian.PutUint32(pl, mr.begin)
-	binary.BigEndian.PutUint32(pl, mr.reqlen)
+	pl := make([]byte, MsgRequestTotalLen, MsgRequestTotalLen)
+	mr.msgBase.fillBase(pl)
+	binary.BigEndian.PutUint32(pl[PayloadStart:], mr.index)
+	binary.BigEndian.PutUint32(pl[PayloadStart+4:], mr.begin)
+	binary.BigEndian.PutUint32(pl[PayloadStart+8:], mr.reqlen)
 	return pl
 }
 
-- 
2.43.0


From 17c7fde42dd8ee24ae7960d44dbdc0b88dec1aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:27 +0000
Subject: [PATCH 07/51] fix: decode piece messages

The announced length includes the id byte, so it never equals the length of
the payload and every piece message was refused.
---
 src/p2p/piece.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/p2p/piece.go b/src/p2p/piece.go
index 85ff91f..e4f1f6b 100644
--- a/src/p2p/piece.go
+++ b/src/p2p/piece.go
@@ -78,8 +78,9 @@ func (mp *MsgPiece) String() string {
 // FUNC =======================================================================
 
 func DecodeMsgPiece(payload []byte, length uint32) (*MsgPiece, error) {
-	if uint32(len(payload)) != length {
-		return nil, fmt.Errorf("piece message must have %v byte payload, got %v", MsgHavePayloadLen, len(payload))
+	// length includes the message's id
+	if uint64(len(payload))+1 != uint64(length) {
+		return nil, fmt.Errorf("piece message must have %v byte payload, got %v", int64(length)-1, len(payload))
 	}
 	if uint32(len(payload)) < MsgPieceMinPayloadLen {
 		return nil, fmt.Errorf("piece message payload must be at least %v bytes, got %v", MsgPieceMinPayloadLen, len(payload))
-- 
2.43.0


From a159ab1f2577642c731817316092e705cf86699a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:27 +0000
Subject: [PATCH 08/51] fix: do not crash on a malformed piece message

The length of the nil message was taken before looking at the error.
---
 src/p2p/message.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/p2p/message.go b/src/p2p/message.go
index 2f4c281..0642009 100644
--- a/src/p2p/message.go
+++ b/src/p2p/message.go
@@ -208,7 +208,10 @@ func Decode(data []byte) (DecodeResult, error) {
 		n = uint64(MsgRequestTotalLen)
 	case TypePiece:
 		msg, err = DecodeMsgPiece(payload, msglen)
-		n = uint64(uint32(MsgLengthPrefixLen) + msg.Length())
+		if err != nil {
+			return badResult, err
+		}
+		n = uint64(MsgLengthPrefixLen) + uint64(msg.Length())
 	default:
 		msg = nil
 		err = fmt.Errorf("unknown message type %v", mtype)
-- 
2.43.0


From f2ca272d279537384573453931317552266513de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:27 +0000
Subject: [PATCH 09/51] fix: do not loop forever on an empty bitfield message

The failed decode reported 0 bytes read, so DecodeAll never moved on.
---
 src/p2p/message.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/p2p/message.go b/src/p2p/message.go
index 0642009..a91b90a 100644
--- a/src/p2p/message.go
+++ b/src/p2p/message.go
@@ -200,9 +200,10 @@ func Decode(data []byte) (DecodeResult, error) {
 		n = uint64(MsgHaveTotalLen)
 	case TypeBitfield:
 		msg, err = DecodeMsgBitfield(data, msglen)
-		if err == nil {
-			n = uint64(uint32(MsgLengthPrefixLen) + msg.Length())
+		if err != nil {
+			return badResult, err
 		}
+		n = uint64(uint32(MsgLengthPrefixLen) + msg.Length())
 	case TypeRequest:
 		msg, err = DecodeMsgRequest(payload)
 		n = uint64(MsgRequestTotalLen)
-- 
2.43.0


From fe4ddfc42f9322fd87168a044d1e9321183bc2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:27 +0000
Subject: [PATCH 10/51] fix: do not crash on a length prefix near 2^32

Adding the prefix length overflowed, so the check for a complete message
passed and slicing the payload panicked.
---
 src/p2p/message.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/p2p/message.go b/src/p2p/message.go
index a91b90a..a286e93 100644
--- a/src/p2p/message.go
+++ b/src/p2p/message.go
@@ -165,7 +165,7 @@ func Decode(data []byte) (DecodeResult, error) {
 		// Type 2 = Interested
 		// Type 3 = Not Interested
 		return badResult, fmt.Errorf("invalid message, length for id [0-3] must be 1, got %v", msglen)
-	} else if uint32(len(data)) < 4+msglen {
+	} else if uint64(len(data)) < 4+uint64(msglen) {
 		// Messages with payload
 		return badResult, fmt.Errorf("length specified as %v, payload length is %v", msglen, len(data))
 	}
-- 
2.43.0


From 875812742b603f391535552f03ec63c197118a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:27 +0000
Subject: [PATCH 11/51] fix: refuse to shrink a bitfield to fewer bytes

8(n-1) bits fit into n-1 bytes.
---
 src/bf/bitfield.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bf/bitfield.go b/src/bf/bitfield.go
index 5a4ab05..cbcbdbf 100644
--- a/src/bf/bitfield.go
+++ b/src/bf/bitfield.go
@@ -162,7 +162,7 @@ func (bf *Bitfield) Nset() int64 {
 // 00000000 00000000 00000xxx
 
 func (bf *Bitfield) SetNbits(nbits int64) {
-	if nbits < (bf.nbytes-1)*8 || nbits > (bf.nbytes)*8 {
+	if nbits <= (bf.nbytes-1)*8 || nbits > (bf.nbytes)*8 {
 		panic("cannot set nbits such that nbytes would change")
 	}
 	bf.nbits = nbits
-- 
2.43.0


From c514e2a01522e7d79b3f575479453d8197f14a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:27 +0000
Subject: [PATCH 12/51] fix: fill only the bits of a bitfield

Fill overwrote the message prefix and set the spare bits, which must be zero
on the wire.
---
 src/bf/bitfield.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/bf/bitfield.go b/src/bf/bitfield.go
index cbcbdbf..dd36d62 100644
--- a/src/bf/bitfield.go
+++ b/src/bf/bitfield.go
@@ -101,8 +101,12 @@ func (bf *Bitfield) calcNset() {
 }
 
 func (bf *Bitfield) Fill() {
-	for i, _ := range bf.data5 {
-		bf.data5[i] = 255
+	for i := range bf.data {
+		bf.data[i] = 255
+	}
+	// Spare bits are never set
+	if rem := bf.nbits % 8; rem != 0 {
+		bf.data[len(bf.data)-1] = ^(uint8(255) >> rem)
 	}
 	bf.nset = bf.nbits
 }
-- 
2.43.0


From 43663f69c95aa5fbe0323c7e197e101d0efaa132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:28 +0000
Subject: [PATCH 13/51] fix: do not write into a shared bitfield when encoding
 it

Handlers of several incoming peers encode the client's bitfield at once.
---
 src/p2p/bitfield.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/p2p/bitfield.go b/src/p2p/bitfield.go
index 214c661..4e37197 100644
--- a/src/p2p/bitfield.go
+++ b/src/p2p/bitfield.go
@@ -41,7 +41,8 @@ func (bf *MsgBitfield) Bitfield() *bf.Bitfield {
 // IMPL =======================================================================
 
 func (bf *MsgBitfield) Encode() []byte {
-	data := bf.bitfield.Data5()
+	// The bitfield may be shared with other peer handlers, leave its prefix
+	data := append([]byte(nil), bf.bitfield.Data5()...)
 	bf.msgBase.fillBase(data[:5])
 	return data
 }
-- 
2.43.0


From 4ae5cda3010c8e8016fd583a954b4925285f66ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:26 +0000
Subject: [PATCH 14/51] fix: list only the members of a set

Items started with as many zero values as the set has members.
---
 src/utils/ds/set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/ds/set.go b/src/utils/ds/set.go
index 9bb8687..5f593c0 100644
--- a/src/utils/ds/set.go
+++ b/src/utils/ds/set.go
@@ -38,7 +38,7 @@ func (s *Set[T]) Size() int {
 }
 
 func (s *Set[T]) Items() []T {
-	items := make([]T, len(s.set))
+	items := make([]T, 0, len(s.set))
 	for _, v := range s.set {
 		items = append(items, v)
 	}
-- 
2.43.0


From 27a9bc632c4416ec1c103c1652a33d4c89550cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:27 +0000
Subject: [PATCH 15/51] fix: do not assign a piece to several peers

The active mark was set on a copy of the piece.
---
 src/swarm/piecetracker.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/swarm/piecetracker.go b/src/swarm/piecetracker.go
index d18999d..79e409d 100644
--- a/src/swarm/piecetracker.go
+++ b/src/swarm/piecetracker.go
@@ -155,14 +155,14 @@ func (ppt *PeerPieceTracker) NextPiece(whom *PeerHandler) (uint32, bool) {
 
 		cur := ppt.buckets[i].Head()
 		for cur != nil {
-			curPiece := cur.Data
+			curPiece := &cur.Data
 			// If the piece is needed
 			if !ppt.bf.Get(int64(curPiece.index)) {
 				// If the piece isn't taken by another peer, and
 				// the peer has the piece
 				if !curPiece.active && curPiece.peerSet.Has(whom) {
 					curPiece.active = true
-					ppt.requests[whom] = append(ppt.requests[whom], &curPiece)
+					ppt.requests[whom] = append(ppt.requests[whom], curPiece)
 					return curPiece.index, true
 				}
 			}
-- 
2.43.0


From d1f1e412d0c1da011bd6ed84d3762b85e4c09657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:27 +0000
Subject: [PATCH 16/51] fix: forget the requests of a peer that left

When the peer leaves again, pieces that meanwhile went to others were released.
---
 src/swarm/piecetracker.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/swarm/piecetracker.go b/src/swarm/piecetracker.go
index 79e409d..7d5cfd4 100644
--- a/src/swarm/piecetracker.go
+++ b/src/swarm/piecetracker.go
@@ -123,6 +123,7 @@ func (ppt *PeerPieceTracker) Unregister(whom *PeerHandler) {
 	for _, p := range ppt.requests[whom] {
 		p.active = false
 	}
+	delete(ppt.requests, whom)
 
 	// Remove peer from all index peer sets
 	for _, node := range ppt.nodes {
-- 
2.43.0


From 450ea4826dc90dea4e0f0b45a9b69206cf3f1528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:28 +0000
Subject: [PATCH 17/51] fix: do not crash when 64 peers have a piece

The largest bucket is numBuckets-1.
---
 src/swarm/piecetracker.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/swarm/piecetracker.go b/src/swarm/piecetracker.go
index 7d5cfd4..aa80468 100644
--- a/src/swarm/piecetracker.go
+++ b/src/swarm/piecetracker.go
@@ -104,7 +104,7 @@ func (ppt *PeerPieceTracker) register(whom *PeerHandler, index uint32) {
 	if !node.Data.peerSet.Has(whom) {
 		// Move to next bucket, unless this is the largest bucket
 		oldCount := node.Data.peerSet.Size()
-		if oldCount < numBuckets {
+		if oldCount < numBuckets-1 {
 			ppt.buckets[oldCount].Remove(node)
 			ppt.buckets[oldCount+1].AddNodeFront(node)
 		}
@@ -133,7 +133,7 @@ func (ppt *PeerPieceTracker) Unregister(whom *PeerHandler) {
 			// leaves it in the largest bucket. I.e, numBuckets = 50
 			// and oldCount = 52, then the node should remain in bucket 50.
 			oldCount := node.Data.peerSet.Size()
-			if oldCount <= numBuckets {
+			if oldCount < numBuckets {
 				ppt.buckets[oldCount].Remove(node)
 				ppt.buckets[oldCount-1].AddNodeFront(node)
 			}
-- 
2.43.0


From d3887a8ba9f7573483a0337ef64dac2221524775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:29 +0000
Subject: [PATCH 18/51] fix: do not crash on an empty file path

---
 src/torrent/filesd/entrybase.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/torrent/filesd/entrybase.go b/src/torrent/filesd/entrybase.go
index 269abcd..db49e2b 100644
--- a/src/torrent/filesd/entrybase.go
+++ b/src/torrent/filesd/entrybase.go
@@ -70,6 +70,10 @@ func FromBenList(benlist bencode.List) ([]EntryBase, error) {
 			return nil, err
 		}
 
+		if len(fPathList) == 0 {
+			return nil, errors.New("file entry contains empty path")
+		}
+
 		// Read through list of path strings
 		strb := strings.Builder{}
 
-- 
2.43.0


From 868f0422f8276e1b7ad6a1e537f75a1e650e32f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:21 +0000
Subject: [PATCH 19/51] fix: reject bad piece and file lengths

A piece length of 0 divided by zero; negative and overflowing lengths gave an
inconsistent piece map.
---
 src/torrent/info/info.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/torrent/info/info.go b/src/torrent/info/info.go
index c948d57..5c74005 100644
--- a/src/torrent/info/info.go
+++ b/src/torrent/info/info.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"os"
 	"path/filepath"
 	"strings"
@@ -156,6 +157,10 @@ func CreateTorInfo(paths []string, workingDir string, name string, pieceLen int6
 
 func NewTorInfo(name string, pieceLen int64, hashes string, files []filesd.EntryBase) (*TorInfo, error) {
 
+	if pieceLen <= 0 {
+		return nil, errors.New("piece length must be positive")
+	}
+
 	if len(hashes)%20 != 0 {
 		return nil, errors.New("hashes must be multiple of 20")
 	}
@@ -163,6 +168,9 @@ func NewTorInfo(name string, pieceLen int64, hashes string, files []filesd.Entry
 	length := int64(0)
 
 	for _, fentry := range files {
+		if fentry.Length() < 0 || fentry.Length() > math.MaxInt64-length {
+			return nil, errors.New("file length out of range")
+		}
 		length += fentry.Length()
 	}
 
-- 
2.43.0


From 5968b633850229bae050d7b8fb51195e484dbe6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:22 +0000
Subject: [PATCH 20/51] fix: reject surplus piece hashes

Pieces without any bytes made the last piece's length negative.
---
 src/torrent/info/info.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/torrent/info/info.go b/src/torrent/info/info.go
index 5c74005..0c5002a 100644
--- a/src/torrent/info/info.go
+++ b/src/torrent/info/info.go
@@ -174,9 +174,13 @@ func NewTorInfo(name string, pieceLen int64, hashes string, files []filesd.Entry
 		length += fentry.Length()
 	}
 
+	npieces := int64(len(hashes) / 20)
+	if npieces != filesd.CalcNumPieces(files, pieceLen) {
+		return nil, fmt.Errorf("have %v hashes for %v bytes in pieces of %v", npieces, length, pieceLen)
+	}
+
 	flist := filesd.MakeFileList(files, pieceLen)
 
-	npieces := int64(len(hashes) / 20)
 	pm, e := MakePieceMap(flist, npieces, pieceLen, length)
 	if e != nil {
 		return nil, e
-- 
2.43.0


From 4079317f6769a7b1c20fd385f904b4849a1a444b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:23 +0000
Subject: [PATCH 21/51] fix: keep a torrent's files inside the working
 directory

Names and path components such as '..' could point anywhere, and opening a
torrent truncates or extends the files it names.
---
 src/torrent/filesd/entrybase.go | 10 ++++++++++
 src/torrent/info/info.go        |  3 +++
 2 files changed, 13 insertions(+)

diff --git a/src/torrent/filesd/entrybase.go b/src/torrent/filesd/entrybase.go
index db49e2b..720fbc5 100644
--- a/src/torrent/filesd/entrybase.go
+++ b/src/torrent/filesd/entrybase.go
@@ -3,6 +3,7 @@ package filesd
 import (
 	"errors"
 	"fmt"
+	"os"
 	"strings"
 
 	"gotor/bencode"
@@ -82,6 +83,9 @@ func FromBenList(benlist bencode.List) ([]EntryBase, error) {
 			if !ok {
 				return nil, fmt.Errorf(fmt.Sprintf("file entry contains invalid path [%v]", fPathEntry))
 			}
+			if !ValidName(pathPiece) {
+				return nil, fmt.Errorf("file entry contains unsafe path [%v]", fPathEntry)
+			}
 			strb.WriteString(pathPiece)
 			strb.WriteByte('/')
 		}
@@ -94,6 +98,12 @@ func FromBenList(benlist bencode.List) ([]EntryBase, error) {
 	return entries, nil
 }
 
+// ValidName says whether a name from a torrent is that of a file or directory
+// directly below the one it is used in.
+func ValidName(name string) bool {
+	return name != "" && name != "." && name != ".." && !strings.ContainsAny(name, "/"+string(os.PathSeparator))
+}
+
 func (fe *EntryBase) Bencode() bencode.Dict {
 	pathTokens := strings.Split(fe.TorPath(), "/")
 	pathList := make(bencode.List, 0, len(pathTokens))
diff --git a/src/torrent/info/info.go b/src/torrent/info/info.go
index 0c5002a..a43ca30 100644
--- a/src/torrent/info/info.go
+++ b/src/torrent/info/info.go
@@ -211,6 +211,9 @@ func FromDict(info bencode.Dict, workingDir string) (*TorInfo, error) {
 	if err != nil {
 		return nil, err
 	}
+	if !filesd.ValidName(name) {
+		return nil, &FileMetaError{msg: fmt.Sprintf("unsafe name [%v]", name)}
+	}
 
 	pieceLen, err := info.GetInt("piece length")
 	if err != nil {
-- 
2.43.0


From 2173f7efc01365d35e8144044733482ad7200eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:23 +0000
Subject: [PATCH 22/51] fix: reject a torrent that has two files with one path

---
 src/torrent/info/info.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/torrent/info/info.go b/src/torrent/info/info.go
index a43ca30..6d3e4ff 100644
--- a/src/torrent/info/info.go
+++ b/src/torrent/info/info.go
@@ -252,8 +252,13 @@ func FromDict(info bencode.Dict, workingDir string) (*TorInfo, error) {
 
 		// Modify local path
 		workingDir = filepath.Join(workingDir, name) // Torrent paths don't include base dir
+		seen := make(map[string]bool)
 		for i, fe := range fentries {
 			localPath := filepath.Join(workingDir, fe.TorPath())
+			if seen[localPath] {
+				return nil, &FileMetaError{msg: fmt.Sprintf("duplicate path [%v]", fe.TorPath())}
+			}
+			seen[localPath] = true
 			fentries[i].SetLocalPath(localPath)
 		}
 	}
-- 
2.43.0


From 9c22fe10e280f097caa880fc658f261edea5d89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:24 +0000
Subject: [PATCH 23/51] fix: create torrents with pieces of more than 5 MiB

The buffer had no room for a piece, so hashing never ended. A piece length of
0 divided by zero.
---
 src/torrent/info/info.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/torrent/info/info.go b/src/torrent/info/info.go
index 6d3e4ff..599b923 100644
--- a/src/torrent/info/info.go
+++ b/src/torrent/info/info.go
@@ -81,10 +81,17 @@ func (ti *TorInfo) LastPieceLen() int64 {
 func CreateTorInfo(paths []string, workingDir string, name string, pieceLen int64) (*TorInfo, error) {
 	fentries := make([]filesd.EntryBase, 0, len(paths))
 
+	if pieceLen <= 0 {
+		return nil, errors.New("piece length must be positive")
+	}
+
 	const mib = 1048576
 	const maxBuf = 5 * mib
 
 	npieces := maxBuf / pieceLen
+	if npieces == 0 {
+		npieces = 1
+	}
 	bufSize := npieces * pieceLen
 
 	buf := make([]byte, bufSize, bufSize)
-- 
2.43.0


From 860c16e9c967e403ca670e906a3f3ce14141de08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:18 +0000
Subject: [PATCH 24/51] fix: take the infohash from the bytes in the torrent
 file

The decoded info dictionary was encoded again, ignoring errors, which gives
another infohash for a file that is not canonical.
---
 src/bencode/decode.go  | 28 ++++++++++++++++++++++++++++
 src/torrent/torrent.go |  9 +++++++--
 2 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/src/bencode/decode.go b/src/bencode/decode.go
index 292ace9..7385f3b 100644
--- a/src/bencode/decode.go
+++ b/src/bencode/decode.go
@@ -19,6 +19,10 @@ func (de *DecoderError) Error() string {
 func Decode(data []byte) (ret interface{}, err error) {
 
 	dc := decoder{data: data, curs: 0}
+	return dc.decode()
+}
+
+func (dc *decoder) decode() (ret interface{}, err error) {
 
 	defer func() {
 		r := recover()
@@ -48,6 +52,23 @@ func Decode(data []byte) (ret interface{}, err error) {
 	return ret, err
 }
 
+// RawValue returns the exact bytes that encode key's value in the dictionary
+// that data starts with. If the key is repeated its last value counts, as for
+// Decode.
+func RawValue(data []byte, key string) ([]byte, error) {
+
+	dc := decoder{data: data, curs: 0, rawKey: key}
+
+	_, err := dc.decode()
+	if err != nil {
+		return nil, err
+	}
+	if dc.raw == nil {
+		return nil, &DecoderError{"missing key " + key}
+	}
+	return dc.raw, nil
+}
+
 // ============================================================================
 // Private ====================================================================
 
@@ -77,6 +98,7 @@ func (dc *decoder) decodeDict() (Dict, error) {
 		}
 
 		var val interface{}
+		start := dc.curs
 
 		switch dc.curByte() {
 		case 'i':
@@ -93,6 +115,9 @@ func (dc *decoder) decodeDict() (Dict, error) {
 			return nil, err
 		}
 		dict[key] = val
+		if dc.depth == 1 && key == dc.rawKey {
+			dc.raw = dc.data[start:dc.curs]
+		}
 	}
 
 	return dict, nil
@@ -233,6 +258,9 @@ type decoder struct {
 	data  []byte
 	curs  uint64
 	depth int
+
+	rawKey string // Key of the outermost dictionary that RawValue looks for
+	raw    []byte // Its encoded value
 }
 
 // enter counts one more open list or dictionary
diff --git a/src/torrent/torrent.go b/src/torrent/torrent.go
index 3fd7168..af9103f 100644
--- a/src/torrent/torrent.go
+++ b/src/torrent/torrent.go
@@ -97,8 +97,13 @@ func FromTorrentFile(torpath string, workingDir string) (*Torrent, error) {
 		return nil, err
 	}
 
-	enc, _ := bencode.Encode(infodict)
-	tor.infohash = utils.SHA1(enc)
+	// Hash the info dictionary as it is in the file, re-encoding it may give
+	// something else
+	raw, err := bencode.RawValue(fdata, "info")
+	if err != nil {
+		return nil, err
+	}
+	tor.infohash = utils.SHA1(raw)
 
 	torInfo, err := info.FromDict(infodict, workingDir)
 	if err != nil {
-- 
2.43.0


From d91e4b1ebaaac3b954c2c6736696d77a5380ff8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:37 +0000
Subject: [PATCH 25/51] fix: refuse to write data that is not of the piece's
 length

A torrent can give the hash of shorter or longer data, which crashed or lost
the surplus.
---
 src/torrent/fileio/fileio.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/torrent/fileio/fileio.go b/src/torrent/fileio/fileio.go
index 38eedcc..641efc1 100644
--- a/src/torrent/fileio/fileio.go
+++ b/src/torrent/fileio/fileio.go
@@ -142,6 +142,15 @@ func (fio *FileIO) read(fpath string, seekAmnt int64, buf []byte) (int64, error)
 	}
 }
 
+// pieceSize is the number of bytes in the piece with the given locations.
+func pieceSize(plocs []info.PieceLocation) int64 {
+	size := int64(0)
+	for _, ploc := range plocs {
+		size += ploc.Loc.ReadAmnt
+	}
+	return size
+}
+
 func (fio *FileIO) ReadPiece(index int64, buf []byte) (int64, error) {
 
 	plocs, e := fio.torInfo.PieceLookup(index)
@@ -171,6 +180,11 @@ func (fio *FileIO) WritePiece(index int64, data []byte) (int64, error) {
 
 	knownHash := fio.torInfo.PieceHash(index)
 
+	// The torrent may hold the hash of something shorter or longer
+	if int64(len(data)) != pieceSize(plocs) {
+		return 0, errors.New("invalid length, refusing write")
+	}
+
 	if utils.SHA1(data) != knownHash {
 		return 0, errors.New("invalid hash, refusing write")
 	}
-- 
2.43.0


From 81642a73b9becd582759169f2a4995b7850a30fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:38 +0000
Subject: [PATCH 26/51] fix: do not crash when reading a piece into a short
 buffer

---
 src/torrent/fileio/fileio.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/torrent/fileio/fileio.go b/src/torrent/fileio/fileio.go
index 641efc1..b5f735f 100644
--- a/src/torrent/fileio/fileio.go
+++ b/src/torrent/fileio/fileio.go
@@ -158,6 +158,10 @@ func (fio *FileIO) ReadPiece(index int64, buf []byte) (int64, error) {
 		return 0, e
 	}
 
+	if int64(len(buf)) < pieceSize(plocs) {
+		return 0, errors.New("buffer is too small for piece")
+	}
+
 	offset := int64(0)
 	for _, ploc := range plocs {
 		subbuf := buf[offset : offset+ploc.Loc.ReadAmnt]
-- 
2.43.0


From 460b829339f8b5edfdbecbc23126384ba09cf7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:55 +0000
Subject: [PATCH 27/51] fix: do not crash on a request for a piece that does
 not exist

---
 src/swarm/msghandler.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/swarm/msghandler.go b/src/swarm/msghandler.go
index d2bfadc..47a0022 100644
--- a/src/swarm/msghandler.go
+++ b/src/swarm/msghandler.go
@@ -59,6 +59,9 @@ func (ph *PeerHandler) handleRequest(reqMsg *p2p.MsgRequest) error {
 	// TODO: Cache pieces
 	s := ph.swarm
 	idx := int64(reqMsg.Index())
+	if idx >= s.Tor.Info().NumPieces() {
+		return errors.New("request for a piece that does not exist")
+	}
 	if s.Bf.Complete() || s.Bf.Get(idx) {
 		_, e := s.Fileio.ReadPiece(idx, ph.buf)
 		if e != nil {
-- 
2.43.0


From 0993d8f26e08953fd22e7ea6e130749a8c7700a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:56 +0000
Subject: [PATCH 28/51] fix: do not serve bytes outside of the requested piece

A range past the piece's end crashed, or sent what an earlier piece left in the
buffer.
---
 src/swarm/msghandler.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/swarm/msghandler.go b/src/swarm/msghandler.go
index 47a0022..d04e5cb 100644
--- a/src/swarm/msghandler.go
+++ b/src/swarm/msghandler.go
@@ -63,10 +63,13 @@ func (ph *PeerHandler) handleRequest(reqMsg *p2p.MsgRequest) error {
 		return errors.New("request for a piece that does not exist")
 	}
 	if s.Bf.Complete() || s.Bf.Get(idx) {
-		_, e := s.Fileio.ReadPiece(idx, ph.buf)
+		n, e := s.Fileio.ReadPiece(idx, ph.buf)
 		if e != nil {
 			return e
 		}
+		if uint64(reqMsg.Begin())+uint64(reqMsg.ReqLen()) > uint64(n) {
+			return errors.New("request for bytes outside of a piece")
+		}
 		subdata := ph.buf[reqMsg.Begin() : reqMsg.Begin()+reqMsg.ReqLen()]
 		mPiece := p2p.NewMsgPiece(reqMsg.Index(), reqMsg.Begin(), subdata)
 		e = s.RLIO.Write(ph.conn, mPiece.Encode())
-- 
2.43.0


From 0458df9bf2c7b51947d3043bd5134c4982ad598b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:57 +0000
Subject: [PATCH 29/51] fix: request the whole piece

The offset never moved, so making the requests never ended.
---
 src/swarm/peerhandler.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/swarm/peerhandler.go b/src/swarm/peerhandler.go
index 0eb1fdc..106a59c 100644
--- a/src/swarm/peerhandler.go
+++ b/src/swarm/peerhandler.go
@@ -276,6 +276,7 @@ func (ph *PeerHandler) createReqMessages(index uint32) []*p2p.MsgRequest {
 	for offset < length {
 		reqlen := uint32(math.Min(requestLength, float64(length-offset)))
 		msgs = append(msgs, p2p.NewMsgRequest(index, offset, reqlen))
+		offset += reqlen
 	}
 
 	return msgs
-- 
2.43.0


From 2c3080d014c599f123cd6484ede5e6ae2e52f5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:57 +0000
Subject: [PATCH 30/51] fix: send a choke message to choke a peer

---
 src/swarm/peerhandler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/swarm/peerhandler.go b/src/swarm/peerhandler.go
index 106a59c..4881e75 100644
--- a/src/swarm/peerhandler.go
+++ b/src/swarm/peerhandler.go
@@ -131,7 +131,7 @@ func NewPeerHandler(pInfo peer.Info, swarm *Swarm, conn net.Conn) *PeerHandler {
 // ============================================================================
 
 func (ph *PeerHandler) Choke() error {
-	msg := p2p.NewMsgUnchoke()
+	msg := p2p.NewMsgChoke()
 	_, e := ph.conn.Write(msg.Encode())
 	return e
 }
-- 
2.43.0


From 955b0e44c801d18d39b7cab756f6ee05d93050b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:45 +0000
Subject: [PATCH 31/51] fix: accept a handshake that arrives in parts

---
 src/swarm/peerhandler.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/swarm/peerhandler.go b/src/swarm/peerhandler.go
index 4881e75..49a5c76 100644
--- a/src/swarm/peerhandler.go
+++ b/src/swarm/peerhandler.go
@@ -3,6 +3,7 @@ package swarm
 import (
 	"errors"
 	"fmt"
+	stdio "io"
 	"log"
 	"math"
 	"net"
@@ -81,8 +82,8 @@ func FromIncoming(conn net.Conn, swarm *Swarm) (*PeerHandler, error) {
 		return nil, e
 	}
 
-	// Read the handshake
-	_, e = conn.Read(buf)
+	// Read the handshake, which may arrive in parts
+	_, e = stdio.ReadFull(conn, buf)
 	if e != nil {
 		return nil, e
 	}
-- 
2.43.0


From e31919e9923d0f2b39aa5d03c79f7e9226272b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:45 +0000
Subject: [PATCH 32/51] fix: close refused connections

---
 src/swarm/peerhandler.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/swarm/peerhandler.go b/src/swarm/peerhandler.go
index 49a5c76..b149377 100644
--- a/src/swarm/peerhandler.go
+++ b/src/swarm/peerhandler.go
@@ -66,7 +66,14 @@ func FromBootstrap(pInfo peer.Info, swarm *Swarm) (*PeerHandler, error) {
 
 // FromIncoming receives a new peer connection. It will first check for the correct
 // BitTorrent handshake, add to the peer list, then send a handshake and bitfield back.
-func FromIncoming(conn net.Conn, swarm *Swarm) (*PeerHandler, error) {
+func FromIncoming(conn net.Conn, swarm *Swarm) (ph *PeerHandler, err error) {
+
+	// Do not leave a refused connection open
+	defer func() {
+		if err != nil {
+			_ = conn.Close()
+		}
+	}()
 
 	// Must be using TCP (for now atleast)
 	tcpAddr, ok := conn.RemoteAddr().(*net.TCPAddr)
@@ -89,7 +96,6 @@ func FromIncoming(conn net.Conn, swarm *Swarm) (*PeerHandler, error) {
 	}
 	peerHs := Handshake(buf)
 	if !ValidHandshake(peerHs, swarm.Tor.Infohash()) {
-		_ = conn.Close() // TODO: Handle?
 		return nil, fmt.Errorf("bad peer handshake")
 	}
 	log.Printf("good handshake from %v", conn.RemoteAddr())
-- 
2.43.0


From 5995ca48e28c28eca4253cd92a1f962d5eaa13c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:46 +0000
Subject: [PATCH 33/51] fix: check the handshake of a peer we connect to

The peer's handshake was neither read nor verified, its bytes were decoded as
messages.
---
 src/swarm/peerhandler.go | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/swarm/peerhandler.go b/src/swarm/peerhandler.go
index b149377..abf85c5 100644
--- a/src/swarm/peerhandler.go
+++ b/src/swarm/peerhandler.go
@@ -54,16 +54,38 @@ func FromBootstrap(pInfo peer.Info, swarm *Swarm) (*PeerHandler, error) {
 		return nil, e
 	}
 
-	hs := MakeHandshake(swarm.Tor.Infohash(), swarm.Id)
-
-	_, e = conn.Write(hs)
+	e = handshake(conn, swarm)
 	if e != nil {
+		_ = conn.Close()
 		return nil, e
 	}
 
 	return NewPeerHandler(pInfo, swarm, conn), nil
 }
 
+// handshake sends our handshake to a peer and waits for the peer's.
+func handshake(conn net.Conn, swarm *Swarm) error {
+	_, e := conn.Write(MakeHandshake(swarm.Tor.Infohash(), swarm.Id))
+	if e != nil {
+		return e
+	}
+
+	e = conn.SetReadDeadline(time.Now().Add(HandshakeTimeout))
+	if e != nil {
+		return e
+	}
+
+	peerHs := make(Handshake, HandshakeLen)
+	_, e = stdio.ReadFull(conn, peerHs)
+	if e != nil {
+		return e
+	}
+	if !ValidHandshake(peerHs, swarm.Tor.Infohash()) {
+		return errors.New("bad peer handshake")
+	}
+	return nil
+}
+
 // FromIncoming receives a new peer connection. It will first check for the correct
 // BitTorrent handshake, add to the peer list, then send a handshake and bitfield back.
 func FromIncoming(conn net.Conn, swarm *Swarm) (ph *PeerHandler, err error) {
-- 
2.43.0


From d951f14c1bef6f4bb6672dc173c19dbf52893ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:47 +0000
Subject: [PATCH 34/51] fix: handle messages that are split over several reads

The parts were dropped, and a message of an unknown type took whatever came in
the same read with it.
---
 src/swarm/msghandler.go  | 30 ++++++++++++++++++++++++++++++
 src/swarm/peerhandler.go | 13 ++-----------
 2 files changed, 32 insertions(+), 11 deletions(-)

diff --git a/src/swarm/msghandler.go b/src/swarm/msghandler.go
index d04e5cb..ba71dd3 100644
--- a/src/swarm/msghandler.go
+++ b/src/swarm/msghandler.go
@@ -1,12 +1,42 @@
 package swarm
 
 import (
+	"encoding/binary"
 	"errors"
 	"log"
 
 	"gotor/p2p"
 )
 
+// maxMsgLen bounds the announced length of messages other than bitfields
+const maxMsgLen = 1 << 20
+
+// handleData handles the messages that the received data completes. The start
+// of an incomplete message is kept until the rest arrives.
+func (ph *PeerHandler) handleData(data []byte) error {
+	buf := append(ph.pending, data...)
+
+	for len(buf) >= int(p2p.MsgLengthPrefixLen) {
+		msglen := int64(binary.BigEndian.Uint32(buf))
+		if msglen > maxMsgLen && msglen > ph.swarm.Bf.Nbytes()+1 {
+			return errors.New("message is too long")
+		}
+
+		total := int64(p2p.MsgLengthPrefixLen) + msglen
+		if int64(len(buf)) < total {
+			break
+		}
+		e := ph.handleMessage(buf[:total])
+		if e != nil {
+			return e
+		}
+		buf = buf[total:]
+	}
+
+	ph.pending = append(ph.pending[:0], buf...)
+	return nil
+}
+
 // handleMessage decodes the data in the buffer and handles the messages appropriately.
 func (ph *PeerHandler) handleMessage(buf []byte) error {
 	var e error
diff --git a/src/swarm/peerhandler.go b/src/swarm/peerhandler.go
index abf85c5..ef8bba7 100644
--- a/src/swarm/peerhandler.go
+++ b/src/swarm/peerhandler.go
@@ -39,6 +39,7 @@ type PeerHandler struct {
 	bf        *bf.Bitfield
 	procs     sync.WaitGroup // How many loops are running for this handler
 	buf       []byte         // Buffer for file io operations
+	pending   []byte         // Start of a message that was not fully received
 
 	chErr chan<- error // Report errors
 }
@@ -215,16 +216,6 @@ func (ph *PeerHandler) Loop() {
 // recvLoop handles reading in data from the peer and sending
 // replies if needed.
 func (ph *PeerHandler) recvLoop(chErr chan<- error, chKill <-chan bool) {
-	// TODO: Should probably handle split messages
-	// What if we need to recv more than we can handle?
-	// 1. Decode all messages
-	// 2. Any subsections of bytes that were not decoded AND come
-	//    before any successfully decoded messages are discarded
-	// 3. This could leave a tail of non-decoded bytes. These should
-	//    be stored in another buffer. When we go to read again,
-	//    append new data to previous data and try decoding all again.
-	// 4. Rinse repeat.
-
 	ph.procs.Add(1)
 	defer ph.procs.Done()
 
@@ -240,7 +231,7 @@ func (ph *PeerHandler) recvLoop(chErr chan<- error, chKill <-chan bool) {
 
 		select {
 		case buf := <-readLoop.ReadData():
-			e = ph.handleMessage(buf)
+			e = ph.handleData(buf)
 			readLoop.Ready()
 		case e = <-readLoop.ReadError():
 			done = true
-- 
2.43.0


From 98961951285978ea958e88981bd16ccc70090a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:44 +0000
Subject: [PATCH 35/51] fix: end the read loop in every case

Finish blocked while Run was reading or had already ended, Run blocked when
nobody waited for its error, and the deadline that cancels a read could be
overwritten. Data that came together with an error was lost.
---
 src/io/readloop.go | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/io/readloop.go b/src/io/readloop.go
index c1e5ea8..b886514 100644
--- a/src/io/readloop.go
+++ b/src/io/readloop.go
@@ -3,6 +3,7 @@ package io
 import (
 	"log"
 	"net"
+	"sync"
 	"time"
 )
 
@@ -20,6 +21,7 @@ type ReadLoop struct {
 
 	conn    net.Conn
 	timeout time.Duration
+	finish  sync.Once
 }
 
 func NewReadLoop(bufSize int64, conn net.Conn, timeout time.Duration) *ReadLoop {
@@ -27,7 +29,7 @@ func NewReadLoop(bufSize int64, conn net.Conn, timeout time.Duration) *ReadLoop
 		buf:     make([]byte, bufSize, bufSize),
 		chBuf:   make(chan []byte, 1),
 		chReady: make(chan struct{}, 1),
-		chErr:   make(chan error),
+		chErr:   make(chan error, 1),
 		chDone:  make(chan struct{}),
 		conn:    conn,
 		timeout: timeout,
@@ -52,7 +54,7 @@ func (rl *ReadLoop) ReadError() <-chan error {
 
 // Finish cancels the current conn.Read() call and terminates the call to Run().
 func (rl *ReadLoop) Finish() {
-	rl.chDone <- struct{}{}
+	rl.finish.Do(func() { close(rl.chDone) })
 	// Set the cancel time to now. Rather than using time.Now() which involves
 	// a syscall, use Unix(1,0)
 	_ = rl.conn.SetReadDeadline(time.Unix(1, 0))
@@ -66,26 +68,34 @@ func (rl *ReadLoop) Run() {
 	log.Printf("started read loop for %v", rl.conn.RemoteAddr())
 	defer log.Printf("ended read loop for %v", rl.conn.RemoteAddr())
 
-	done := false
-	for !done {
+	for {
 		e := rl.conn.SetReadDeadline(time.Now().Add(rl.timeout))
 		if e != nil {
 			rl.chErr <- e
-			break
+			return
+		}
+
+		// Finish may have been called before the deadline was set
+		select {
+		case <-rl.chDone:
+			return
+		default:
 		}
 
 		n, e := rl.conn.Read(rl.buf)
-		if n == 0 || e != nil {
-			rl.chErr <- e
-			break
-		} else {
-			rl.chBuf <- rl.buf[:n]
 
+		// An error may come with the last data
+		if n > 0 {
+			rl.chBuf <- rl.buf[:n]
 			select {
 			case <-rl.chReady:
 			case <-rl.chDone:
-				done = true
+				return
 			}
 		}
+		if e != nil {
+			rl.chErr <- e
+			return
+		}
 	}
 }
-- 
2.43.0


From 53a11b962877c1c919baafb8bf8363fb5c1483d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:44 +0000
Subject: [PATCH 36/51] fix: end a failed peer session cleanly

Only one of the three goroutines was told to stop and others blocked reporting
their own errors, so Loop waited forever. The connection stayed open, the peer's
pieces stayed assigned, and without an error channel Loop never returned.
---
 src/swarm/peerhandler.go | 65 +++++++++++++++++++++-------------------
 1 file changed, 35 insertions(+), 30 deletions(-)

diff --git a/src/swarm/peerhandler.go b/src/swarm/peerhandler.go
index ef8bba7..1cf2efc 100644
--- a/src/swarm/peerhandler.go
+++ b/src/swarm/peerhandler.go
@@ -174,49 +174,55 @@ func (ph *PeerHandler) Loop() {
 	// Any goroutines spawned should report errors on this chan
 	chErr := make(chan error)
 
-	// Use to stop to all spawned goroutines
+	// Closed to stop all spawned goroutines
 	chDone := make(chan bool)
 
 	// For now, just unchoke everyone
 	msg := p2p.NewMsgUnchoke()
 	_, e := ph.conn.Write(msg.Encode())
-	if e != nil {
-		log.Printf("error unchoking: %v\n", e)
-	}
 
-	go ph.pingLoop(chErr, chDone)
+	if e == nil {
+		ph.procs.Add(3)
 
-	go ph.recvLoop(chErr, chDone)
+		go ph.pingLoop(chErr, chDone)
 
-	go ph.requestLoop(chErr, chDone)
+		go ph.recvLoop(chErr, chDone)
 
-	done := false
-	for {
-		if done {
-			break
-		}
+		go ph.requestLoop(chErr, chDone)
 
-		select {
 		// For now, just kill ourselves if we receive any error.
 		// We will fine-tune this later
-		case e = <-chErr:
-			done = true
-			log.Printf("error peer [%v] (killing): %v", ph.peerInfo.String(), e)
-			chDone <- true
-			ph.procs.Wait()
-			// We will eventually wrap this in a struct so that we can
-			// tell the main loop which PeerHandler has errored
-			ph.chErr <- e
-		}
+		e = <-chErr
+	}
+
+	log.Printf("error peer [%v] (killing): %v", ph.peerInfo.String(), e)
+
+	// Closing the connection ends reads and writes that are in progress
+	close(chDone)
+	_ = ph.conn.Close()
+	ph.procs.Wait()
+	ph.swarm.PPT.Unregister(ph)
+
+	// We will eventually wrap this in a struct so that we can
+	// tell the main loop which PeerHandler has errored
+	if ph.chErr != nil {
+		ph.chErr <- e
 	}
 
 	log.Printf("peer %v done", ph.peerInfo.Addr())
 }
 
+// report tells Loop about an error, unless it is already ending the session.
+func report(e error, chErr chan<- error, chDone <-chan bool) {
+	select {
+	case chErr <- e:
+	case <-chDone:
+	}
+}
+
 // recvLoop handles reading in data from the peer and sending
 // replies if needed.
-func (ph *PeerHandler) recvLoop(chErr chan<- error, chKill <-chan bool) {
-	ph.procs.Add(1)
+func (ph *PeerHandler) recvLoop(chErr chan<- error, chDone <-chan bool) {
 	defer ph.procs.Done()
 
 	defer log.Printf("end recvLoop [%v]", ph.peerInfo.String())
@@ -224,6 +230,7 @@ func (ph *PeerHandler) recvLoop(chErr chan<- error, chKill <-chan bool) {
 
 	readLoop := io.NewReadLoop(RecvBufSize, ph.conn, GetKeepAlive)
 	go readLoop.Run()
+	defer readLoop.Finish()
 
 	var e error
 	done := false
@@ -235,13 +242,12 @@ func (ph *PeerHandler) recvLoop(chErr chan<- error, chKill <-chan bool) {
 			readLoop.Ready()
 		case e = <-readLoop.ReadError():
 			done = true
-		case <-chKill:
-			readLoop.Finish()
+		case <-chDone:
 			done = true
 		}
 
 		if e != nil {
-			chErr <- e
+			report(e, chErr, chDone)
 			done = true
 		}
 	}
@@ -249,7 +255,6 @@ func (ph *PeerHandler) recvLoop(chErr chan<- error, chKill <-chan bool) {
 
 // requestLoop sends out piece requests to the peer.
 func (ph *PeerHandler) requestLoop(chErr chan<- error, chDone <-chan bool) {
-	ph.procs.Add(1)
 	defer ph.procs.Done()
 
 	log.Printf("start requestLoop [%v]", ph.peerInfo.String())
@@ -306,7 +311,6 @@ func (ph *PeerHandler) createReqMessages(index uint32) []*p2p.MsgRequest {
 // defined by SendKeepAlive.
 func (ph *PeerHandler) pingLoop(chErr chan<- error, chDone <-chan bool) {
 
-	ph.procs.Add(1)
 	defer ph.procs.Done()
 	defer log.Printf("end pingLoop [%v]", ph.peerInfo.String())
 
@@ -314,6 +318,7 @@ func (ph *PeerHandler) pingLoop(chErr chan<- error, chDone <-chan bool) {
 
 	addr := ph.peerInfo.Addr()
 	ticker := time.NewTicker(SendKeepAlive)
+	defer ticker.Stop()
 	ka := p2p.KeepAliveSingleton
 	data := ka.Encode()
 
@@ -323,7 +328,7 @@ func (ph *PeerHandler) pingLoop(chErr chan<- error, chDone <-chan bool) {
 		case <-ticker.C:
 			_, e := ph.conn.Write(data)
 			if e != nil {
-				chErr <- e
+				report(e, chErr, chDone)
 				log.Printf("error with keep alive to %v", addr)
 				done = true
 			}
-- 
2.43.0


From 96d53a51f7ccc9c9031184f53f55649b7a5c6a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:45 +0000
Subject: [PATCH 37/51] fix: stop requesting pieces when the session ends

The request loop spun without looking at the done channel and ignored write
errors, so a session never ended before the download was complete.
---
 src/swarm/peerhandler.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/swarm/peerhandler.go b/src/swarm/peerhandler.go
index 1cf2efc..ca8b240 100644
--- a/src/swarm/peerhandler.go
+++ b/src/swarm/peerhandler.go
@@ -24,6 +24,9 @@ const (
 	SendKeepAlive    = 60 * time.Second
 	HandshakeTimeout = 1 * time.Second
 
+	// requestInterval is how often we look for pieces to request
+	requestInterval = 100 * time.Millisecond
+
 	// requestLength is the same piece request length as qBittorrent
 	requestLength = 16384
 )
@@ -262,9 +265,15 @@ func (ph *PeerHandler) requestLoop(chErr chan<- error, chDone <-chan bool) {
 
 	reqs := make([]uint32, 0, 5)
 
-	// TODO: Yikes
 	for !ph.swarm.Bf.Complete() {
 
+		// TODO: Wait for something to change instead
+		select {
+		case <-chDone:
+			return
+		case <-time.After(requestInterval):
+		}
+
 		// Fill up requests
 		for i := len(reqs); i < 5; i++ {
 			next, ok := ph.swarm.PPT.NextPiece(ph)
@@ -277,8 +286,11 @@ func (ph *PeerHandler) requestLoop(chErr chan<- error, chDone <-chan bool) {
 			// Make the request. qBittorrent uses 16KiB requests
 			msgs := ph.createReqMessages(next)
 			for _, msg := range msgs {
-				// TODO: Handle
-				_ = ph.swarm.RLIO.Write(ph.conn, msg.Encode())
+				e := ph.swarm.RLIO.Write(ph.conn, msg.Encode())
+				if e != nil {
+					report(e, chErr, chDone)
+					return
+				}
 				fmt.Printf("sent request for %v : %v", msg.Index(), msg.ReqLen())
 			}
 			fmt.Printf("sent %v msgs", len(msgs))
-- 
2.43.0


From 649eb64a6dadcb1bbd703585c7eeee51c58b148e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:45 +0000
Subject: [PATCH 38/51] fix: access the rate limit's counters atomically

The counters are reset by Run while a transfer waits for it, and the rates may
be set at any time.
---
 src/io/ratelimit.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/io/ratelimit.go b/src/io/ratelimit.go
index 5edfe5a..84a0044 100644
--- a/src/io/ratelimit.go
+++ b/src/io/ratelimit.go
@@ -42,7 +42,7 @@ func (rl *RateLimitIO) SetReadRate(limit int64) {
 	}
 	rl.rlock.Lock()
 	defer rl.rlock.Unlock()
-	rl.rRate = limit // Only place this is modified, don't need atomic
+	atomic.StoreInt64(&rl.rRate, limit)
 }
 
 func (rl *RateLimitIO) SetWriteRate(limit int64) {
@@ -51,14 +51,14 @@ func (rl *RateLimitIO) SetWriteRate(limit int64) {
 	}
 	rl.wlock.Lock()
 	defer rl.wlock.Unlock()
-	rl.wRate = limit // Only place this is modified, don't need atomic
+	atomic.StoreInt64(&rl.wRate, limit)
 }
 
 // Run will maintain the set rate limit in an infinite loop, until Stop() is
 // called. This method should almost certainly be in its own goroutine.
 func (rl *RateLimitIO) Run() {
-	rl.rUsed = 0
-	rl.wUsed = 0
+	atomic.StoreInt64(&rl.rUsed, 0)
+	atomic.StoreInt64(&rl.wUsed, 0)
 
 	done := false
 	for !done {
@@ -88,7 +88,7 @@ func (rl *RateLimitIO) Write(writer io.Writer, data []byte) error {
 	// No sense locking here, if we introduce a limit during a call to Write,
 	// the lock would only be acquired after the in-progress Write finishes
 	// and the rate-limit would be effectively ignored.
-	if rl.wRate == NoLimit {
+	if atomic.LoadInt64(&rl.wRate) == NoLimit {
 		_, e := writer.Write(data)
 		atomic.AddInt64(&rl.wUsed, lenData)
 		atomic.AddInt64(&rl.wTotal, lenData)
@@ -101,7 +101,7 @@ func (rl *RateLimitIO) Write(writer io.Writer, data []byte) error {
 	defer unlocker.Do(rl.wlock.Unlock)
 
 	for {
-		if rl.wUsed < rl.wRate {
+		if atomic.LoadInt64(&rl.wUsed) < atomic.LoadInt64(&rl.wRate) {
 			break
 		}
 	}
@@ -125,7 +125,7 @@ func (rl *RateLimitIO) Read(reader io.Reader, buf []byte) error {
 	// No sense locking here, if we introduce a limit during a call to Read,
 	// the lock would only be acquired after the in-progress Read finishes
 	// and the rate-limit would be effectively ignored.
-	if rl.rRate == NoLimit {
+	if atomic.LoadInt64(&rl.rRate) == NoLimit {
 		_, e := reader.Read(buf)
 		atomic.AddInt64(&rl.rUsed, lenBuf)
 		atomic.AddInt64(&rl.rTotal, lenBuf)
@@ -138,7 +138,7 @@ func (rl *RateLimitIO) Read(reader io.Reader, buf []byte) error {
 	defer unlocker.Do(rl.rlock.Unlock)
 
 	for {
-		if rl.rUsed < rl.rRate {
+		if atomic.LoadInt64(&rl.rUsed) < atomic.LoadInt64(&rl.rRate) {
 			break
 		}
 	}
-- 
2.43.0


From 47f097efcdf9a4c74eff3fcfad96c966a9ba43ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:24 +0000
Subject: [PATCH 39/51] fix: do not crash on a malformed announce URL

---
 src/tracker/tracker.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/tracker/tracker.go b/src/tracker/tracker.go
index 0ccb16a..fcd5c0b 100644
--- a/src/tracker/tracker.go
+++ b/src/tracker/tracker.go
@@ -75,7 +75,10 @@ func (s State) Leechers() uint64 {
 // FUNK =======================================================================
 
 func Get(tor *torrent.Torrent, stats *Stats, port uint16, peerId string) (*Response, error) {
-	req := newRequest(tor, stats, port, peerId)
+	req, e := newRequest(tor, stats, port, peerId)
+	if e != nil {
+		return nil, e
+	}
 	resp, e := do(req)
 	if e != nil {
 		return nil, e
@@ -83,8 +86,11 @@ func Get(tor *torrent.Torrent, stats *Stats, port uint16, peerId string) (*Respo
 	return resp, nil
 }
 
-func newRequest(tor *torrent.Torrent, stats *Stats, port uint16, peerId string) *http.Request {
-	req, _ := http.NewRequest("GET", tor.Announce(), nil)
+func newRequest(tor *torrent.Torrent, stats *Stats, port uint16, peerId string) (*http.Request, error) {
+	req, err := http.NewRequest("GET", tor.Announce(), nil)
+	if err != nil {
+		return nil, err
+	}
 	query := req.URL.Query()
 	query.Add("info_hash", tor.Infohash())
 	query.Add("peer_id", url.QueryEscape(peerId))
@@ -94,7 +100,7 @@ func newRequest(tor *torrent.Torrent, stats *Stats, port uint16, peerId string)
 	query.Add("left", fmt.Sprintf("%v", stats.Left()))
 	query.Add("compact", "1") // For compact peer list (BEP_0023)
 	req.URL.RawQuery = query.Encode()
-	return req
+	return req, nil
 }
 
 func do(req *http.Request) (*Response, error) {
-- 
2.43.0


From 7dd7ce8ca875732ab375db86e5a73fec81d3f750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:24 +0000
Subject: [PATCH 40/51] fix: do not escape the peer id twice in the announce
 request

---
 src/tracker/tracker.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/tracker/tracker.go b/src/tracker/tracker.go
index fcd5c0b..02bfc66 100644
--- a/src/tracker/tracker.go
+++ b/src/tracker/tracker.go
@@ -6,7 +6,6 @@ import (
 	"io/ioutil"
 	"net"
 	"net/http"
-	"net/url"
 	"strings"
 
 	"gotor/bencode"
@@ -93,7 +92,7 @@ func newRequest(tor *torrent.Torrent, stats *Stats, port uint16, peerId string)
 	}
 	query := req.URL.Query()
 	query.Add("info_hash", tor.Infohash())
-	query.Add("peer_id", url.QueryEscape(peerId))
+	query.Add("peer_id", peerId)
 	query.Add("port", fmt.Sprintf("%v", port))
 	query.Add("uploaded", fmt.Sprintf("%v", stats.Uploaded()))
 	query.Add("downloaded", fmt.Sprintf("%v", stats.Dnloaded()))
-- 
2.43.0


From 2364005fec9868735f0dbf9227a6d1c46a6f3d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:25 +0000
Subject: [PATCH 41/51] fix: reject peers with an unusable address

Ports were truncated to 16 bits and unparsable addresses became nil.
---
 src/tracker/tracker.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/tracker/tracker.go b/src/tracker/tracker.go
index 02bfc66..e5d7293 100644
--- a/src/tracker/tracker.go
+++ b/src/tracker/tracker.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io/ioutil"
+	"math"
 	"net"
 	"net/http"
 	"strings"
@@ -249,7 +250,12 @@ func (l listSource) GetPeers() (peer.List, error) {
 		if err != nil {
 			return nil, err
 		}
-		peerList = append(peerList, peer.MakePeer(id, net.ParseIP(ip), uint16(port)))
+		addr := net.ParseIP(ip)
+		if addr == nil || port > math.MaxUint16 {
+			return nil, &Error{msg: fmt.Sprintf("invalid peer address [%v:%v]", ip, port)}
+		}
+
+		peerList = append(peerList, peer.MakePeer(id, addr, uint16(port)))
 	}
 	return peerList, nil
 }
-- 
2.43.0


From 7b5ace5cbba4ecdc415cd23ba389c6338be00a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:25 +0000
Subject: [PATCH 42/51] fix: bracket IPv6 addresses

The address could not be dialed.
---
 src/peer/info.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/peer/info.go b/src/peer/info.go
index 927832c..aa4ce9d 100644
--- a/src/peer/info.go
+++ b/src/peer/info.go
@@ -3,7 +3,6 @@ package peer
 import (
 	"fmt"
 	"net"
-	"strings"
 )
 
 type Info struct {
@@ -15,16 +14,13 @@ type Info struct {
 }
 
 func MakePeer(id string, ip net.IP, port uint16) Info {
-	strb := strings.Builder{}
-	strb.WriteString(ip.String())
-	strb.WriteByte(':')
-	strb.WriteString(fmt.Sprintf("%v", port))
+	addr := net.JoinHostPort(ip.String(), fmt.Sprintf("%v", port))
 
 	return Info{
 		id:   id,
 		ip:   ip,
 		port: port,
-		addr: strb.String(),
+		addr: addr,
 		str:  fmt.Sprintf("%v @ %v:%v", id, ip, port),
 	}
 }
-- 
2.43.0


From 69f0be34ed5cd9c9556b262d308abb088fab965f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:25 +0000
Subject: [PATCH 43/51] fix: reject sizes that do not fit

Large values wrapped around to small or negative limits.
---
 src/utils/opts.go | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/utils/opts.go b/src/utils/opts.go
index 92f3bb4..f6c106b 100644
--- a/src/utils/opts.go
+++ b/src/utils/opts.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"flag"
 	"fmt"
+	"math"
 	"strconv"
 	"strings"
 )
@@ -99,14 +100,12 @@ func parseSizeUnits(str string) (int64, error) {
 	}
 
 	i := 0
-	mult := int64(1)
+	strb := strings.Builder{}
 	if str[0] == '-' {
-		mult = -1
+		strb.WriteByte('-')
 		i++
 	}
 
-	strb := strings.Builder{}
-
 	// Read the numbers
 	for ; i < lenstr; i++ {
 		if str[i] >= '0' && str[i] <= '9' {
@@ -116,11 +115,10 @@ func parseSizeUnits(str string) (int64, error) {
 		}
 	}
 
-	v, e := strconv.Atoi(strb.String())
+	val, e := strconv.ParseInt(strb.String(), 10, 64)
 	if e != nil {
 		return 0, e
 	}
-	val := int64(v) * mult
 
 	// No letter, assume units BYTES
 	if i == lenstr {
@@ -138,16 +136,24 @@ func parseSizeUnits(str string) (int64, error) {
 	case 'B':
 		return val, nil
 	case 'K':
-		return val * 1024, nil
+		return mulUnit(val, 1024)
 	case 'M':
-		return val * 1024 * 1024, nil
+		return mulUnit(val, 1024*1024)
 	case 'G':
-		return val * 1024 * 1024 * 1024, nil
+		return mulUnit(val, 1024*1024*1024)
 	default:
 		return 0, errors.New("invalid units")
 	}
 }
 
+// mulUnit multiplies unless the result does not fit.
+func mulUnit(val int64, unit int64) (int64, error) {
+	if val > math.MaxInt64/unit || val < math.MinInt64/unit {
+		return 0, errors.New("value out of range")
+	}
+	return val * unit, nil
+}
+
 func (o *Opts) Input() string {
 	return *o.input
 }
-- 
2.43.0


From 15ed2ab8089ca728c635ab1180cfea7637fc15e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:26 +0000
Subject: [PATCH 44/51] fix: reject ports that do not fit

They were truncated to 16 bits.
---
 src/utils/opts.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utils/opts.go b/src/utils/opts.go
index f6c106b..846a367 100644
--- a/src/utils/opts.go
+++ b/src/utils/opts.go
@@ -66,6 +66,10 @@ func (o *Opts) Validate() error {
 		return errors.New("missing argument 'working directory'")
 	}
 
+	if *o.port > math.MaxUint16 {
+		return fmt.Errorf("invalid port given, [%v]", *o.port)
+	}
+
 	switch *o.cmd {
 	case StartSwarm, TorInfo:
 		break
-- 
2.43.0


From 05c1c8ee6fbb65923cba795ae411020fd6a407b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:51 +0000
Subject: [PATCH 45/51] fix: do not delay transfers when the limit is lifted

---
 src/io/ratelimit.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/io/ratelimit.go b/src/io/ratelimit.go
index 84a0044..da88ca3 100644
--- a/src/io/ratelimit.go
+++ b/src/io/ratelimit.go
@@ -101,7 +101,8 @@ func (rl *RateLimitIO) Write(writer io.Writer, data []byte) error {
 	defer unlocker.Do(rl.wlock.Unlock)
 
 	for {
-		if atomic.LoadInt64(&rl.wUsed) < atomic.LoadInt64(&rl.wRate) {
+		rate := atomic.LoadInt64(&rl.wRate)
+		if rate == NoLimit || atomic.LoadInt64(&rl.wUsed) < rate {
 			break
 		}
 	}
@@ -138,7 +139,8 @@ func (rl *RateLimitIO) Read(reader io.Reader, buf []byte) error {
 	defer unlocker.Do(rl.rlock.Unlock)
 
 	for {
-		if atomic.LoadInt64(&rl.rUsed) < atomic.LoadInt64(&rl.rRate) {
+		rate := atomic.LoadInt64(&rl.rRate)
+		if rate == NoLimit || atomic.LoadInt64(&rl.rUsed) < rate {
 			break
 		}
 	}
-- 
2.43.0


From 2245adffcc90efb16684dc29d5908cda59e60c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:10 +0000
Subject: [PATCH 46/51] fix: do not mix up sessions with the same peer

---
 src/swarm/peerhandler.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/swarm/peerhandler.go b/src/swarm/peerhandler.go
index ca8b240..5e6e99a 100644
--- a/src/swarm/peerhandler.go
+++ b/src/swarm/peerhandler.go
@@ -351,6 +351,7 @@ func (ph *PeerHandler) pingLoop(chErr chan<- error, chDone <-chan bool) {
 	}
 }
 
+// Key identifies the session, a peer that reconnects has another one.
 func (ph *PeerHandler) Key() string {
-	return ph.peerInfo.String()
+	return fmt.Sprintf("%v [%p]", ph.peerInfo.String(), ph)
 }
-- 
2.43.0


From 5a448de3823ce9d9c6b838489b20234c074c0bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:57 +0000
Subject: [PATCH 47/51] fix: announce how many bytes are left to download

The first announce said that nothing is left, also when pieces are missing.
---
 src/swarm/swarm.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/swarm/swarm.go b/src/swarm/swarm.go
index fa301a1..f5ad3ae 100644
--- a/src/swarm/swarm.go
+++ b/src/swarm/swarm.go
@@ -72,9 +72,7 @@ func NewSwarm(opts *utils.Opts) (*Swarm, error) {
 	pcent := 100 * float64(_bf.Nset()) / float64(_bf.Nbits())
 	log.Printf("have %v/%v (%v%%) pieces", _bf.Nset(), _bf.Nbits(), pcent)
 
-	// TODO: Compute remaining bytes left
-	//swarm.Stats = tracker.NewStats(0, 0, swarm.Tor.Length())  // Full leech
-	swarm.Stats = tracker.NewStats(0, 0, 0) // Seed
+	swarm.Stats = tracker.NewStats(0, 0, swarm.bytesLeft())
 
 	// Make first contact with tracker
 	log.Printf("sending get to tracker [%v]\n", swarm.Tor.Announce())
@@ -117,6 +115,25 @@ func (s *Swarm) Validate() error {
 	return nil
 }
 
+// bytesLeft is the total length of the pieces that we do not have.
+func (s *Swarm) bytesLeft() uint64 {
+	torInfo := s.Tor.Info()
+	left := uint64(0)
+
+	for i := int64(0); i < torInfo.NumPieces(); i++ {
+		if s.Bf.Get(i) {
+			continue
+		}
+		if i == torInfo.NumPieces()-1 {
+			left += uint64(torInfo.LastPieceLen())
+		} else {
+			left += uint64(torInfo.PieceLen())
+		}
+	}
+
+	return left
+}
+
 func (s *Swarm) Start() {
 
 	go s.runListener()
-- 
2.43.0


From 2238667abb50b49af30e64f97e534f0978ac425f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:00 +0000
Subject: [PATCH 48/51] fix: data race between incoming connections

Every session appended its handler to a shared slice without a lock. Nothing
reads the slice, and it kept the handlers of ended sessions alive.
---
 src/swarm/swarm.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/swarm/swarm.go b/src/swarm/swarm.go
index f5ad3ae..fa6051f 100644
--- a/src/swarm/swarm.go
+++ b/src/swarm/swarm.go
@@ -161,8 +161,6 @@ func (s *Swarm) runListener() {
 	}
 	log.Printf("Listening on port %v\n", opts.Port())
 
-	phs := make([]*PeerHandler, 0, 4)
-
 	for {
 		conn, err := listener.Accept()
 		if err != nil {
@@ -175,7 +173,6 @@ func (s *Swarm) runListener() {
 			if e != nil {
 				log.Println(e)
 			} else {
-				phs = append(phs, ph)
 				ph.Loop()
 			}
 		}(conn)
-- 
2.43.0


From 9cd4b9e0935f8466f92fd8696055c906989f387b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:37 +0000
Subject: [PATCH 49/51] fix: CloseAll left files open after an error

---
 src/torrent/fileio/fileio.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/torrent/fileio/fileio.go b/src/torrent/fileio/fileio.go
index b5f735f..8019f49 100644
--- a/src/torrent/fileio/fileio.go
+++ b/src/torrent/fileio/fileio.go
@@ -100,22 +100,22 @@ func (fio *FileIO) Close(fpath string) error {
 	}
 }
 
+// CloseAll closes every file, and returns the first error.
 func (fio *FileIO) CloseAll() error {
-	var e error
+	var first error
 
 	for _, lfp := range fio.lfps {
 		func() {
 			lfp.lock.Lock()
 			defer lfp.lock.Unlock()
-			e = lfp.fp.Close()
+			e := lfp.fp.Close()
+			if e != nil && first == nil {
+				first = e
+			}
 		}()
-
-		if e != nil {
-			return e
-		}
 	}
 
-	return nil
+	return first
 }
 
 func (fio *FileIO) write(fpath string, seekAmnt int64, data []byte) (int64, error) {
-- 
2.43.0


From fd636f008150f2cabed85d75d6dc560ff6c6f66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:25 +0000
Subject: [PATCH 50/51] fix: a connection that could not be accepted ended the
 client

---
 src/swarm/swarm.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/swarm/swarm.go b/src/swarm/swarm.go
index fa6051f..db79c64 100644
--- a/src/swarm/swarm.go
+++ b/src/swarm/swarm.go
@@ -5,6 +5,7 @@ import (
 	"log"
 	"net"
 	"strings"
+	"time"
 
 	"gotor/bf"
 	"gotor/io"
@@ -15,6 +16,9 @@ import (
 	"gotor/utils"
 )
 
+// acceptRetryInterval is how long we wait after failing to accept a connection
+const acceptRetryInterval = 100 * time.Millisecond
+
 // ============================================================================
 // STRUCTS ====================================================================
 
@@ -164,7 +168,11 @@ func (s *Swarm) runListener() {
 	for {
 		conn, err := listener.Accept()
 		if err != nil {
-			panic(err)
+			// Too many open connections, for example. Sessions go on, and
+			// others may end
+			log.Printf("failed to accept: %v", err)
+			time.Sleep(acceptRetryInterval)
+			continue
 		}
 		log.Printf("new client @ %v", conn.RemoteAddr())
 
-- 
2.43.0


From ac92cbc5a79088aa26989d7150ba37ef430a69e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:03 +0000
Subject: [PATCH 51/51] fix: a peer that stops reading is never disconnected

A write to such a peer blocked for ever, and with it the handling of what
the peer sends, so that its silence went unnoticed.
---
 src/swarm/peerhandler.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/swarm/peerhandler.go b/src/swarm/peerhandler.go
index 5e6e99a..49e7653 100644
--- a/src/swarm/peerhandler.go
+++ b/src/swarm/peerhandler.go
@@ -338,7 +338,11 @@ func (ph *PeerHandler) pingLoop(chErr chan<- error, chDone <-chan bool) {
 	for !done {
 		select {
 		case <-ticker.C:
-			_, e := ph.conn.Write(data)
+			// Do not wait forever for a peer that stopped reading
+			e := ph.conn.SetWriteDeadline(time.Now().Add(GetKeepAlive))
+			if e == nil {
+				_, e = ph.conn.Write(data)
+			}
 			if e != nil {
 				report(e, chErr, chDone)
 				log.Printf("error with keep alive to %v", addr)
-- 
2.43.0

