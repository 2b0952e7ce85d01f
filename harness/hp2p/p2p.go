// Package hp2p: peer wire messages (C05-C07).
package hp2p

import (
	"gotor/bf"
	"gotor/p2p"
	"gotor/zzverif/vsym"
)

func be32(v uint32) []byte { return []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)} }

func cat(parts ...[]byte) []byte {
	var r []byte
	for _, p := range parts {
		r = append(r, p...)
	}
	return r
}

func eq(a, b []byte) bool { return string(a) == string(b) }

// blockLens are block and bitfield sizes around the interesting limits.
func blockLens() []int {
	l := []int{0, 1, 2, 3, 7, 8, 9, 255, 256, 257, 16383, 16384, 16385, 65535, 65536}
	if vsym.Thorough() {
		l = append(l, 1<<20-1, 1<<20, 1<<24)
	}
	return l
}

func content(n int) []byte {
	if n <= 9 {
		return vsym.Bytes("content", n)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i * 7)
	}
	copy(b, vsym.Bytes("head", 3))
	copy(b[n-3:], vsym.Bytes("tail", 3))
	return b
}

func check(m p2p.Message, id byte, fields []byte) {
	want := cat(be32(uint32(len(fields)+1)), []byte{id}, fields)
	got := m.Encode()
	vsym.Assert(eq(got, want), "a message is not encoded as the wire format says")
	vsym.Assert(m.Length() == uint32(len(fields)+1) && m.Mtype() == id, "a message reports another length or type")
	// encoding again gives the same
	vsym.Assert(eq(m.Encode(), want), "encoding a message changes it")
	// what is encoded stays as it is while others encode their messages and
	// send them off
	for _, o := range others() {
		b := o.Encode()
		for i := range b {
			b[i] = 0x5a
		}
	}
	vsym.Assert(eq(got, want), "an encoded message is changed by encoding another one")
	vsym.Assert(eq(m.Encode(), want), "what is done with one encoding shows in the next")
}

// others are messages of every type.
func others() []p2p.Message {
	f := bf.NewBitfield(12)
	f.Fill()
	return []p2p.Message{p2p.NewMsgChoke(), p2p.NewMsgUnchoke(), p2p.NewMsgInterested(), p2p.NewMsgNotInterested(),
		p2p.NewMsgHave(77), p2p.NewMsgBitfield(f), p2p.NewMsgRequest(77, 78, 79), p2p.NewMsgPiece(77, 78, []byte("block"))}
}

// C05_Fixed: messages of fixed size, for every field value.
//
//gosym:bounds all 32-bit index, begin and length values
//gosym:cover choke unchoke interested notinterested have request keepalive
func C05_Fixed() {
	switch vsym.Choose("type", 7) {
	case 0:
		check(p2p.NewMsgChoke(), 0, nil)
		vsym.Cover("choke")
	case 1:
		check(p2p.NewMsgUnchoke(), 1, nil)
		vsym.Cover("unchoke")
	case 2:
		check(p2p.NewMsgInterested(), 2, nil)
		vsym.Cover("interested")
	case 3:
		check(p2p.NewMsgNotInterested(), 3, nil)
		vsym.Cover("notinterested")
	case 4:
		i := vsym.Uint32("index")
		m := p2p.NewMsgHave(i)
		check(m, 4, be32(i))
		vsym.Assert(m.Index() == i, "a have message reports another index")
		vsym.Cover("have")
	case 5:
		i, b, l := vsym.Uint32("index"), vsym.Uint32("begin"), vsym.Uint32("length")
		m := p2p.NewMsgRequest(i, b, l)
		check(m, 6, cat(be32(i), be32(b), be32(l)))
		vsym.Assert(m.Index() == i && m.Begin() == b && m.ReqLen() == l, "a request message reports other fields")
		vsym.Cover("request")
	case 6:
		m := &p2p.KeepAliveSingleton
		vsym.Assert(eq(m.Encode(), []byte{0, 0, 0, 0}), "keep-alive is not four zero bytes")
		vsym.Assert(eq(m.Encode(), []byte{0, 0, 0, 0}), "encoding keep-alive changes it")
		for _, o := range others() {
			o.Encode()
		}
		vsym.Assert(eq(m.Encode(), []byte{0, 0, 0, 0}), "encoding another message changes keep-alive")
		vsym.Cover("keepalive")
	}
}

// C05_Piece: piece messages with any block.
//
//gosym:bounds all 32-bit index and begin values; blocks of 0-3, 7-9, 255-257, 16383-16385, 65535, 65536 (thorough 2^20-1, 2^20, 2^24) bytes, arbitrary up to 9 bytes, else arbitrary first and last 3 bytes
//gosym:cover done
func C05_Piece() {
	ls := blockLens()
	n := ls[vsym.Choose("len", len(ls))]
	block := content(n)
	if n == 0 && vsym.Choose("nil", 2) == 1 {
		block = nil
	}
	keep := append([]byte(nil), block...)
	i, b := vsym.Uint32("index"), vsym.Uint32("begin")
	m := p2p.NewMsgPiece(i, b, block)
	check(m, 7, cat(be32(i), be32(b), keep))
	vsym.Assert(m.Index() == i && m.Begin() == b && eq(m.Block(), keep), "a piece message reports other fields")
	vsym.Assert(eq(block, keep), "encoding changes the caller's block")
	vsym.Cover("done")
}

// C05_Bitfield: bitfield messages of any size and content, made from a fresh
// bitfield or from imported bytes with any five bytes in front.
//
//gosym:bounds fields of 1-3, 7-9, 255-257, 16383-16385, 65535, 65536 bytes, all contents up to 9 bytes, else arbitrary first and last 3 bytes; 0-7 spare bits; arbitrary prefix bytes
//gosym:cover new imported
//gosym:cpu 80 600
func C05_Bitfield() {
	ls := blockLens()
	n := ls[1+vsym.Choose("len", len(ls)-1)]
	if vsym.Choose("new", 2) == 1 {
		b := bf.NewBitfield(int64(n)*8 - int64(vsym.Choose("spare", 8)))
		b.Set(0, true)
		if b.Nbits() > 9 {
			b.Set(9, true)
		}
		want := append([]byte(nil), b.Data()...)
		vsym.Assert(want[0] == 0x80, "a set bit is exported elsewhere")
		check(p2p.NewMsgBitfield(b), 5, want)
		vsym.Cover("new")
		return
	}
	data := content(n)
	buf := cat(vsym.Bytes("prefix", 5), data)
	b, err := bf.FromBytes(buf, int64(n)*8-int64(vsym.Choose("spare", 8)))
	vsym.Assert(err == nil, "a bitfield of the right size is refused")
	check(p2p.NewMsgBitfield(b), 5, data)
	vsym.Assert(eq(b.Data(), data), "encoding changes the bitfield")
	vsym.Cover("imported")
}

// denotes is an independent reading of the wire format: whether data begins
// with a whole message that fits its type, and its size.
func denotes(data []byte) (size int, ok bool) {
	if len(data) < 4 {
		return 0, false
	}
	l := uint64(data[0])<<24 | uint64(data[1])<<16 | uint64(data[2])<<8 | uint64(data[3])
	if l == 0 {
		return 4, true
	}
	if len(data) < 5 || uint64(len(data)) < 4+l {
		return 0, false
	}
	switch data[4] {
	case 0, 1, 2, 3:
		ok = l == 1
	case 4:
		ok = l == 5
	case 5:
		ok = l >= 2
	case 6:
		ok = l == 13
	case 7:
		ok = l >= 9
	}
	if !ok {
		return 0, false
	}
	return int(vsym.Concrete(int64(4 + l))), true
}

func rd32(b []byte) uint32 {
	return uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
}

// carries checks the fields of a decoded message against its bytes.
func carries(m p2p.Message, enc []byte) {
	vsym.Assert(m != nil, "a message is decoded to nothing")
	if len(enc) == 4 {
		_, ok := m.(*p2p.MsgKeepAlive)
		vsym.Assert(ok, "keep-alive is decoded to another message")
		vsym.Cover("keepalive")
		return
	}
	id, f := enc[4], enc[5:]
	vsym.Assert(m.Mtype() == id && m.Length() == uint32(len(enc)-4), "a decoded message has another type or length")
	switch x := m.(type) {
	case *p2p.MsgChoke:
		vsym.Assert(id == 0, "a message is decoded to choke")
		vsym.Cover("choke")
	case *p2p.MsgUnchoke:
		vsym.Assert(id == 1, "a message is decoded to unchoke")
	case *p2p.MsgInterested:
		vsym.Assert(id == 2, "a message is decoded to interested")
	case *p2p.MsgNotInterested:
		vsym.Assert(id == 3, "a message is decoded to not interested")
	case *p2p.MsgHave:
		vsym.Assert(id == 4 && x.Index() == rd32(f), "a have message has another index")
		vsym.Cover("have")
	case *p2p.MsgBitfield:
		vsym.Assert(id == 5 && eq(x.Bitfield().Data(), f), "a bitfield message has other bytes")
		vsym.Assert(x.Bitfield().Nbytes() == int64(len(f)), "a bitfield message has another size")
		vsym.Cover("bitfield")
	case *p2p.MsgRequest:
		vsym.Assert(id == 6 && x.Index() == rd32(f) && x.Begin() == rd32(f[4:]) && x.ReqLen() == rd32(f[8:]), "a request message has other fields")
		vsym.Cover("request")
	case *p2p.MsgPiece:
		vsym.Assert(id == 7 && x.Index() == rd32(f) && x.Begin() == rd32(f[4:]) && eq(x.Block(), f[8:]), "a piece message has other fields")
		vsym.Cover("piece")
	default:
		vsym.Assert(false, "a message is decoded to an unknown type")
	}
}

func decodeOne(data []byte) {
	r, err := p2p.Decode(data)
	size, ok := denotes(data)
	vsym.ObsBool("ok", err == nil)
	if !ok {
		vsym.Assert(err != nil, "a message that is incomplete or does not fit its type is decoded")
		vsym.Cover("refused")
		return
	}
	vsym.Assert(err == nil, "a well-formed message is refused")
	vsym.Assert(r.Read == uint64(size), "the reported size is not prefix plus announced length")
	carries(r.Msg, data[:size])
}

// C06_Any: every short buffer.
//
//gosym:bounds all buffers of 0-18 (thorough 0-26) arbitrary bytes
//gosym:cover refused keepalive choke have bitfield request piece
//gosym:cpu 100 1500
func C06_Any() {
	max := 19
	if vsym.Thorough() {
		max = 27
	}
	decodeOne(vsym.Bytes("b", vsym.Choose("len", max)))
}

// C06_Large: every length prefix and type before larger buffers.
//
//gosym:bounds buffers of 255-262, 16388-16400, 65540 (thorough 2^20+13) bytes, all length prefixes and types, arbitrary first 8 payload bytes and last byte
//gosym:cover refused bitfield piece keepalive
//gosym:cpu 100 1500
func C06_Large() {
	sizes := []int{255, 259, 260, 261, 262, 16388, 16396, 16397, 16400, 65540}
	if vsym.Thorough() {
		sizes = append(sizes, 1<<20+13)
	}
	n := sizes[vsym.Choose("size", len(sizes))]
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i * 3)
	}
	copy(b, vsym.Bytes("head", 13))
	b[n-1] = vsym.Byte("last")
	// the announced length is near the size of the buffer, or hugely off
	l := uint64(b[0])<<24 | uint64(b[1])<<16 | uint64(b[2])<<8 | uint64(b[3])
	vsym.Assume(l < 10 || l > uint64(n)-12)
	decodeOne(b)
}

// message makes one arbitrary valid message and its bytes.
func message() []byte {
	sizes := []int{0, 1, 5}
	switch vsym.Choose("type", 6) {
	case 0:
		return []byte{0, 0, 0, 0}
	case 1:
		id := vsym.Byte("id")
		vsym.Assume(id <= 3)
		return []byte{0, 0, 0, 1, id}
	case 2:
		return cat(be32(5), []byte{4}, vsym.Bytes("index", 4))
	case 3:
		n := 1 + vsym.Choose("bytes", 3)
		return cat(be32(uint32(1+n)), []byte{5}, vsym.Bytes("field", n))
	case 4:
		return cat(be32(13), []byte{6}, vsym.Bytes("request", 12))
	}
	n := sizes[vsym.Choose("block", len(sizes))]
	return cat(be32(uint32(9+n)), []byte{7}, vsym.Bytes("piece", 8+n))
}

// C07_Stream: concatenations of valid messages.
//
//gosym:bounds every sequence of up to 3 (thorough 4) messages of every type with arbitrary fields; bitfields of 1-3 bytes, blocks of 0, 1 or 5 bytes
//gosym:cover done keepalive choke have bitfield request piece
//gosym:cpu 120 1500
func C07_Stream() {
	max := 4
	if vsym.Thorough() {
		max = 5
	}
	n := vsym.Choose("n", max)
	var buf []byte
	var encs [][]byte
	for i := 0; i < n; i++ {
		m := message()
		encs = append(encs, m)
		buf = append(buf, m...)
	}
	r := p2p.DecodeAll(buf)
	vsym.Assert(len(r.Msgs) == n, "a stream of messages decodes to another number of messages")
	vsym.Assert(r.Read == uint64(len(buf)), "not every byte of a stream of messages is reported as read")
	for i := range encs {
		carries(r.Msgs[i], encs[i])
	}
	vsym.Cover("done")
}

// C07_Long: a stream of many messages with an arbitrary one among them.
//
//gosym:bounds 40 messages of all types, one of them arbitrary, one of 16384 bytes
//gosym:cover done
func C07_Long() {
	at := vsym.Choose("at", 3) * 19
	var buf []byte
	var encs [][]byte
	for i := 0; i < 40; i++ {
		var m []byte
		switch {
		case i == at:
			m = message()
		case i == 30:
			m = cat(be32(9+16384), []byte{7, 0, 0, 0, 3, 0, 0, 64, 0}, make([]byte, 16384))
		case i%4 == 0:
			m = []byte{0, 0, 0, 0}
		case i%4 == 1:
			m = []byte{0, 0, 0, 1, byte(i % 3)}
		case i%4 == 2:
			m = cat(be32(5), []byte{4}, be32(uint32(i)))
		default:
			m = cat(be32(3), []byte{5, byte(i), byte(i * 9)})
		}
		encs = append(encs, m)
		buf = append(buf, m...)
	}
	r := p2p.DecodeAll(buf)
	vsym.Assert(len(r.Msgs) == 40 && r.Read == uint64(len(buf)), "a stream of messages decodes to another number of messages or bytes")
	for i := range encs {
		carries(r.Msgs[i], encs[i])
	}
	vsym.Cover("done")
}

// C07_Any: any buffer terminates, and what is reported as read is what the
// returned messages take.
//
//gosym:bounds all buffers of 0-13 (thorough 0-17) arbitrary bytes
//gosym:cover none some
//gosym:cpu 100 1500
func C07_Any() {
	max := 14
	if vsym.Thorough() {
		max = 18
	}
	buf := vsym.Bytes("b", vsym.Choose("len", max))
	tail(buf, nil)
}

func tail(buf []byte, encs [][]byte) {
	r := p2p.DecodeAll(buf)
	var total uint64
	for _, m := range r.Msgs {
		vsym.Assert(m != nil, "a message is decoded to nothing")
		total += uint64(len(m.Encode()))
	}
	vsym.Assert(r.Read == total, "what is reported as read is not what the returned messages take")
	vsym.Assert(r.Read <= uint64(len(buf)), "more is reported as read than there is")
	vsym.Assert(len(r.Msgs) >= len(encs), "valid messages before garbage are lost")
	for i := range encs {
		carries(r.Msgs[i], encs[i])
	}
	if len(r.Msgs) == 0 {
		vsym.Cover("none")
	} else {
		vsym.Cover("some")
	}
}

// C07_Garbage: valid messages followed by anything.
//
//gosym:bounds up to 2 arbitrary valid messages followed by 0-6 (thorough 0-10) arbitrary bytes
//gosym:cover some none
//gosym:cpu 100 1500
func C07_Garbage() {
	g := 7
	if vsym.Thorough() {
		g = 11
	}
	n := vsym.Choose("n", 3)
	var buf []byte
	var encs [][]byte
	for i := 0; i < n; i++ {
		m := message()
		encs = append(encs, m)
		buf = append(buf, m...)
	}
	buf = append(buf, vsym.Bytes("garbage", vsym.Choose("len", g))...)
	tail(buf, encs)
}

// C07_Reuse: a decoded bitfield does not share the receive buffer.
//
//gosym:bounds bitfield messages of 1-4, 16, 300 bytes at any of three places of a stream; every later content of the whole buffer (all bytes flipped or arbitrary)
//gosym:cover done
func C07_Reuse() {
	sizes := []int{1, 2, 3, 4, 16, 300}
	n := sizes[vsym.Choose("bytes", len(sizes))]
	f := make([]byte, n)
	copy(f, vsym.Bytes("field", 2))
	var buf []byte
	k := vsym.Choose("before", 3)
	for i := 0; i < k; i++ {
		buf = append(buf, 0, 0, 0, 1, 1)
	}
	at := len(buf)
	buf = append(buf, cat(be32(uint32(1+n)), []byte{5}, f)...)
	buf = append(buf, 0, 0, 0, 0)
	var m p2p.Message
	if vsym.Choose("all", 2) == 1 {
		r := p2p.DecodeAll(buf)
		vsym.Assert(len(r.Msgs) == k+2, "messages are lost")
		m = r.Msgs[k]
	} else {
		r, err := p2p.Decode(buf[at:])
		vsym.Assert(err == nil, "a well-formed message is refused")
		m = r.Msg
	}
	x, ok := m.(*p2p.MsgBitfield)
	vsym.Assert(ok, "a bitfield message is decoded to another one")
	set := x.Bitfield().Nset()
	over := vsym.Bytes("over", 8)
	for i := range buf {
		buf[i] = ^buf[i]
	}
	copy(buf[at:], over)
	vsym.Assert(eq(x.Bitfield().Data(), f), "overwriting the receive buffer changes a decoded bitfield")
	for i := 0; i < 8; i++ {
		vsym.Assert(x.Bitfield().Get(int64(i)) == (f[0]>>uint(7-i)&1 == 1), "overwriting the receive buffer changes a decoded bit")
	}
	vsym.Assert(x.Bitfield().Nset() == set, "overwriting the receive buffer changes the set count")
	enc := m.Encode()
	vsym.Assert(eq(enc, cat(be32(uint32(1+n)), []byte{5}, f)), "overwriting the receive buffer changes the message")
	vsym.Cover("done")
}
