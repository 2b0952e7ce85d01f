package hswarm

import (
	"encoding/binary"

	"gotor/zzverif/vsym"
)

// tiles checks that requests cover pieces exactly, each in order.
func tiles(reqs [][]byte, want map[uint32]int64) {
	next := map[uint32]int64{}
	for _, r := range reqs {
		vsym.Assert(len(r) == 17, "a request has another size than 17 bytes")
		i := binary.BigEndian.Uint32(r[5:])
		begin := int64(binary.BigEndian.Uint32(r[9:]))
		n := int64(binary.BigEndian.Uint32(r[13:]))
		_, ok := want[i]
		vsym.Assert(ok, "a piece is requested that the peer does not have or that we have")
		vsym.Assert(begin == next[i], "requests of a piece do not follow each other from 0")
		vsym.Assert(n >= 1 && n <= 16384, "a request is empty or larger than 16384 bytes")
		next[i] = begin + n
	}
	for i, n := range want {
		vsym.Assert(next[i] == n, "requests do not cover exactly the piece")
	}
}

// asked are the requests the client has sent.
func (s *session) asked() [][]byte {
	var out [][]byte
	for _, m := range s.sent() {
		if len(m) > 4 && m[4] == 6 {
			out = append(out, m)
		}
	}
	return out
}

// wants runs a session in which the peer has the given pieces.
func (w *world) wants(set ...int) *session {
	s := w.admit(1)
	bits := make([]byte, (w.n+7)/8)
	for _, i := range set {
		bits[i/8] |= 0x80 >> (i % 8)
	}
	s.start()
	s.conn.Feed(msg(5, bits...))
	vsym.Settle()
	vsym.Advance(350e6)
	vsym.Settle()
	for n := -1; !vsym.Symbolic() && n != len(s.conn.Sent()); {
		n = len(s.conn.Sent())
		vsym.Advance(300e6)
	}
	return s
}

// stop ends a session and checks that nothing stays behind.
func (s *session) stop() {
	s.conn.FeedEOF()
	<-s.done
	s.done <- true
	vsym.Settle()
	vsym.Assert(vsym.Alive() == 0, "a session leaves something running")
}

// C25_Last: last pieces of any length.
//
//gosym:bounds three pieces of 16384, 16385 or 65536 bytes, the last one of every length from 1 to that; any subset of the pieces announced
//gosym:cpu 200 1500
func C25_Last() {
	pl := []int64{16384, 16385, 65536}[vsym.Choose("pl", 3)]
	last := vsym.Range("last", 1, pl)
	w := newSparse(2*pl+last, pl, 3)
	want := map[uint32]int64{}
	var set []int
	for i := 0; i < 3; i++ {
		if vsym.Bool("announced") {
			set = append(set, i)
			want[uint32(i)] = pl
		}
	}
	if _, ok := want[2]; ok {
		want[2] = last
	}
	s := w.wants(set...)
	tiles(s.asked(), want)
	s.stop()
}

// C25_Only: torrents of one piece that is shorter than the piece length.
//
//gosym:bounds one piece of every length from 1 to 100000 (thorough 300000), that being the piece length
//gosym:cpu 200 1500
func C25_Only() {
	max := int64(100000)
	if vsym.Thorough() {
		max = 300000
	}
	last := vsym.Range("last", 1, max)
	w := newSparse(last, max, 1)
	s := w.wants(0)
	tiles(s.asked(), map[uint32]int64{0: last})
	s.stop()
}

// C25_Sizes: pieces of many lengths.
//
//gosym:bounds piece lengths 1, 2, 16383, 16384, 16385, 32767, 32768, 32769, 49152, 65535, 65536, 65537, 2^20-1, 2^20, 2^20+1 and 2^21+1 (thorough also 2^24+1), 1-2 pieces, last piece complete or 1 byte long; one of the pieces ours or none
//gosym:cpu 200 1500
//gosym:steps 200000000
func C25_Sizes() {
	sizes := []int64{1, 2, 16383, 16384, 16385, 32767, 32768, 32769, 49152, 65535, 65536, 65537, 1<<20 - 1, 1 << 20, 1<<20 + 1, 1<<21 + 1}
	if vsym.Thorough() {
		sizes = append(sizes, 1<<24+1)
	}
	pl := sizes[vsym.Choose("pl", len(sizes))]
	n := int64(1 + vsym.Choose("pieces", 2))
	last := pl
	if vsym.Choose("short", 2) == 1 {
		last = 1
	}
	w := newSparse((n-1)*pl+last, pl, n)
	want := map[uint32]int64{}
	var set []int
	for i := 0; i < int(n); i++ {
		set = append(set, i)
		want[uint32(i)] = pl
	}
	want[uint32(n-1)] = last
	if k := vsym.Choose("ours", int(n)+1); k < int(n) {
		w.sw.Bf.Set(int64(k), true)
		delete(want, uint32(k))
	}
	s := w.wants(set...)
	tiles(s.asked(), want)
	s.stop()
}

// C25_Huge: pieces whose length does not fit in 31 bits.
//
//gosym:bounds one piece of 2^31+1 or 2^32-1 (thorough also 2^31-1, 2^31, 2^32-16384) bytes
//gosym:cpu 600 3000
//gosym:steps 250000000
//gosym:huge
//gosym:spin 10000000
//gosym:native-ms 120000
func C25_Huge() {
	sizes := []int64{1<<31 + 1, 1<<32 - 1}
	if vsym.Thorough() {
		sizes = append(sizes, 1<<32-16384, 1<<31, 1<<31-1)
	}
	pl := sizes[vsym.Choose("pl", len(sizes))]
	w := newSparse(pl, pl, 1)
	s := w.wants(0)
	tiles(s.asked(), map[uint32]int64{0: pl})
	s.stop()
}
