package hswarm

import (
	"encoding/binary"

	"gotor/zzverif/vsym"
)

// eligible are the pieces that the client takes from a peer: those asked for
// and those that are still to be handed out.
func (s *session) eligible() map[uint32]bool {
	set := map[uint32]bool{}
	for _, i := range s.w.drain(s.ph) {
		vsym.Assert(!set[i], "a piece is handed out twice")
		set[i] = true
	}
	vsym.Settle() // a piece that was just taken may still have to be asked for
	for _, m := range s.asked() {
		set[binary.BigEndian.Uint32(m[5:])] = true
	}
	return set
}

// knows checks that the peer is eligible for exactly the announced pieces
// that we lack.
func (s *session) knows(bits []byte) {
	set := s.eligible()
	for i := int64(0); i < s.w.n; i++ {
		want := bits != nil && bits[i/8]&(0x80>>(i%8)) != 0 && !s.w.sw.Bf.Get(i)
		_, got := set[uint32(i)]
		vsym.Assert(got == want, "a peer is not eligible for exactly the pieces it announced")
		delete(set, uint32(i))
	}
	vsym.Assert(len(set) == 0, "a piece that does not exist is handed out")
}

// C28_Contents: bitfields of the right size.
//
//gosym:bounds 1-10 (thorough 18) pieces with the first or none ours; every content of the bitfield including the spare bits
//gosym:cpu 250 2500
func C28_Contents() {
	max := 10
	if vsym.Thorough() {
		max = 18
	}
	n := int64(1 + vsym.Choose("pieces", max))
	w := newSparse(n, 1, n)
	if vsym.Choose("ours", 2) == 1 {
		w.sw.Bf.Set(0, true)
	}
	s := w.admit(1)
	s.start()
	bits := vsym.Bytes("bits"+string(rune('a'+n)), int((n+7)/8))
	s.conn.Feed(msg(5, bits...))
	vsym.Settle()
	vsym.Assert(!s.ended(), "a bitfield of the right size ends the session")
	s.knows(bits)
	s.stop()
}

// C28_Many: bitfields of many bytes.
//
//gosym:bounds 16, 23, 24, 64, 65 or 200 pieces, all announced except one at any place of the first 12 or the last 8, or only one of these announced, with the spare bits set or not; the announced pieces are counted, with any one of three ours
//gosym:cpu 250 2500
//gosym:spin 100000
func C28_Many() {
	n := []int64{16, 23, 24, 64, 65, 200}[vsym.Choose("pieces", 6)]
	w := newSparse(n, 1, n)
	w.sw.Bf.Set([]int64{0, n / 2, n - 1}[vsym.Choose("ours", 3)], true)
	k := int64(vsym.Choose("place", 20))
	if k >= 12 {
		k = n - 1 - (k - 12)
	}
	if k >= n {
		vsym.Stop()
	}
	bits := make([]byte, (n+7)/8)
	all := vsym.Choose("all", 2) == 1
	for i := int64(0); i < n; i++ {
		if (i == k) != all {
			bits[i/8] |= 0x80 >> (i % 8)
		}
	}
	if vsym.Choose("spare", 2) == 1 {
		for i := n; i < 8*int64(len(bits)); i++ {
			bits[i/8] |= 0x80 >> (i % 8)
		}
	}
	s := w.admit(1)
	s.start()
	s.conn.Feed(msg(5, bits...))
	vsym.Settle()
	vsym.Assert(!s.ended(), "a bitfield of the right size ends the session")
	s.knows(bits)
	s.stop()
}

// C28_Size: bitfields of any size.
//
//gosym:bounds 1, 7, 8, 9, 16, 17 or 24 pieces; bitfields of 0-5 bytes with any content (of right ones longer than a byte, any first and last bit of each byte)
//gosym:cover right wrong
//gosym:cpu 250 2500
func C28_Size() {
	n := []int64{1, 7, 8, 9, 16, 17, 24}[vsym.Choose("pieces", 7)]
	w := newSparse(n, 1, n)
	s := w.admit(1)
	s.start()
	size := vsym.Choose("size", 6)
	bits := vsym.Bytes("bits"+string(rune('a'+size)), size)
	if int64(size) == (n+7)/8 && size > 1 {
		for i := range bits {
			bits[i] &= 0x81
		}
	}
	s.conn.Feed(msg(5, bits...))
	vsym.Settle()
	if int64(size) == (n+7)/8 {
		vsym.Assert(!s.ended(), "a bitfield of the right size ends the session")
		vsym.Cover("right")
		s.knows(bits)
		s.stop()
		return
	}
	if size > 0 {
		vsym.Assert(s.ended(), "a bitfield of a wrong size does not end the session")
	}
	vsym.Assert(len(w.drain(s.ph)) == 0, "a bitfield of a wrong size is used")
	s.stop()
	vsym.Cover("wrong")
}

// C28_Later: the bitfield comes after other messages and a second peer has
// some of the pieces, too.
//
//gosym:bounds nine pieces; two peers with any bitfield of 9 bits, of which the first 3 and the last are arbitrary; a keepalive, a have, an interested or an unknown message before it; the first peer's session ends or not before the other is looked at
//gosym:cpu 250 2500
func C28_Later() {
	w := newSparse(9, 1, 9)
	a, b := w.admit(1), w.admit(2)
	first := [][]byte{{0, 0, 0, 0}, msg(4, 0, 0, 0, 1), msg(2), msg(99, 1, 2)}[vsym.Choose("before", 4)]
	one, two := []byte{vsym.Byte("a") & 0xe0, vsym.Byte("a2") & 0x80}, []byte{vsym.Byte("b") & 0xe0, vsym.Byte("b2") & 0x80}
	a.start()
	b.start()
	a.conn.Feed(first)
	a.conn.Feed(msg(5, one...))
	b.conn.Feed(msg(5, two...))
	vsym.Settle()
	vsym.Assert(!a.ended() && !b.ended(), "a bitfield of the right size ends the session")
	if vsym.Choose("leaves", 2) == 1 {
		a.conn.FeedEOF()
		vsym.Settle()
		b.knows(two)
		b.conn.FeedEOF()
		<-a.done
		<-b.done
		return
	}
	a.knows(one)
	for i := range two {
		two[i] &^= one[i]
	}
	b.knows(two)
	a.conn.FeedEOF()
	<-a.done
	b.stop()
}

// C28_Again: a peer sends a bitfield whenever it has more pieces.
//
//gosym:bounds eight or nine pieces of which the third is ours; 2-3 bitfields, each with any four of the bits in addition to the former ones' (or the same again), in one part or one after another
//gosym:cpu 250 2500
func C28_Again() {
	n := int64(8 + vsym.Choose("pieces", 2))
	w := newSparse(n, 1, n)
	w.sw.Bf.Set(2, true)
	s := w.admit(1)
	s.start()
	bits := make([]byte, (n+7)/8)
	var all []byte
	parts := vsym.Choose("parts", 2) == 1
	for k := 2 + vsym.Choose("times", 2); k > 0; k-- {
		for i := range bits {
			b := vsym.Byte("more" + string(rune('a'+8*k+i)))
			bits[i] |= b & []byte{0x31, 0x80}[i]
		}
		all = append(all, msg(5, bits...)...)
		if parts {
			s.conn.Feed(all)
			all = nil
			vsym.Settle()
		}
	}
	s.conn.Feed(all)
	vsym.Settle()
	vsym.Assert(!s.ended(), "a bitfield of the right size ends the session")
	s.knows(bits)
	s.stop()
}

// C28_Crash: no stream of bytes crashes the client.
//
//gosym:bounds every stream of up to 8 (thorough 10) bytes, and every message of up to 18 (thorough 30) bytes whose length prefix is right, followed by end of stream; 5 pieces (8 for messages of 13 bytes) of which one is ours
//gosym:cpu 700 4000
func C28_Crash() {
	kind := vsym.Choose("kind", 3)
	w := newWorld(9+7*int64(kind/2), 2, true)
	w.sw.Bf.Set(1, true)
	s := w.admit(1)
	s.start()
	if kind == 0 {
		max := 9
		if vsym.Thorough() {
			max = 11
		}
		n := vsym.Choose("length", max)
		s.conn.Feed(vsym.Bytes("stream"+string(rune('a'+n)), n))
	} else {
		max := 19
		if vsym.Thorough() {
			max = 31
		}
		n := 13
		if kind == 1 {
			n = vsym.Choose("size", max)
		}
		b := append(be(uint32(n)), vsym.Bytes("message"+string(rune('a'+n)), n)...)
		s.conn.Feed(b)
	}
	s.conn.FeedEOF()
	<-s.done
	vsym.Settle()
	vsym.Assert(vsym.Alive() == 0, "a session leaves something running")
	vsym.Assert(vsym.HeldLocks() == 0, "a lock stays held")
}
