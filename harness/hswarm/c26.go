package hswarm

import (
	"gotor/zzverif/vsym"
)

// serving admits a peer to a world that has the chosen pieces.
func serving(total, pl int64) (*world, []bool) {
	w := newWorld(total, pl, true)
	have := make([]bool, w.n)
	for i := range have {
		if vsym.Choose("have", 2) == 1 {
			have[i] = true
			w.sw.Bf.Set(int64(i), true)
		}
	}
	return w, have
}

// want is the reply to a request, nil if there must be none.
func (w *world) want(have []bool, i, begin, n uint32) []byte {
	if int64(i) >= w.n || !have[i] {
		return nil
	}
	a, b := w.span(int64(i))
	if uint64(begin)+uint64(n) > uint64(b-a) {
		return nil
	}
	return piece(i, begin, w.data[a+int64(begin):a+int64(begin)+int64(n)])
}

// C26_One: any request.
//
//gosym:bounds three pieces of 4, 4 and 3 bytes, any of them ours; every 32-bit index, begin and length
//gosym:cover served refused
//gosym:cpu 250 2500
func C26_One() {
	w, have := serving(11, 4)
	s := w.admit(1)
	s.start()
	i, begin, n := vsym.Uint32("index"), vsym.Uint32("begin"), vsym.Uint32("length")
	s.conn.Feed(request(i, begin, n))
	vsym.Settle()
	got := s.replies()
	if want := w.want(have, i, begin, n); want != nil {
		vsym.Assert(len(got) == 1, "a request for verified bytes is not answered once")
		vsym.Assert(same(got[0], want), "a reply does not carry exactly the requested bytes")
		vsym.Assert(!s.ended(), "a right request ends the session")
		vsym.Cover("served")
	} else {
		vsym.Assert(len(got) == 0, "a request that must not be served yields data")
		vsym.Cover("refused")
	}
	s.stop()
}

// C26_Several: requests after each other, while pieces arrive.
//
//gosym:bounds three pieces of 4, 4 and 3 bytes, any of them ours; three requests, each for any piece of 3 bytes at 0 or 1 (only those that leave the session open are followed by another), a piece completed between two of them or not
//gosym:cpu 250 2500
func C26_Several() {
	w, have := serving(11, 4)
	s := w.admit(1)
	s.start()
	var want [][]byte
	for k := 0; k < 3; k++ {
		i := uint32(vsym.Choose("index", 3))
		begin, n := uint32(vsym.Choose("begin", 2)), uint32(3)
		if k == 1 {
			if j := vsym.Choose("completed", 4); j < 3 && !have[j] {
				have[j] = true
				w.sw.Bf.Set(int64(j), true)
			}
		}
		s.conn.Feed(request(i, begin, n))
		vsym.Settle()
		r := w.want(have, i, begin, n)
		if r != nil {
			want = append(want, r)
		}
		got := s.replies()
		vsym.Assert(len(got) == len(want), "a request is not answered exactly when it is for verified bytes")
		for j := range got {
			vsym.Assert(same(got[j], want[j]), "a reply does not carry exactly the requested bytes")
		}
		if s.ended() {
			vsym.Assert(r == nil, "a right request ends the session")
			break
		}
	}
	s.stop()
}

// C26_Bytes: what is stored is what is served.
//
//gosym:bounds two pieces over a file of 6 arbitrary bytes, piece length 3 (thorough also 4), both ours; every request for one of the pieces
//gosym:cpu 250 2500
func C26_Bytes() {
	pl := int64(3)
	if vsym.Thorough() {
		pl += int64(vsym.Choose("pl", 2))
	}
	w := newWorld(6, pl, true)
	w.data = vsym.Bytes("stored", 6)
	w.write(w.data)
	have := []bool{true, true}
	w.sw.Bf.Fill()
	s := w.admit(1)
	s.start()
	i, begin, n := uint32(vsym.Choose("index", 2)), vsym.Uint32("begin"), vsym.Uint32("length")
	s.conn.Feed(request(i, begin, n))
	vsym.Settle()
	got := s.replies()
	if want := w.want(have, i, begin, n); want != nil {
		vsym.Assert(len(got) == 1, "a request for verified bytes is not answered once")
		vsym.Assert(same(got[0], want), "a reply does not carry exactly the requested bytes")
	} else {
		vsym.Assert(len(got) == 0, "a request that must not be served yields data")
	}
	s.stop()
}

// C26_Large: blocks of real sizes.
//
//gosym:bounds two pieces of 40000 and 24999 bytes, both ours; requests of 16384, 40000, 16385, 0 or 1 bytes at 0, 16384, 24998, 24999, 39999, 40000 and 2^32-1
func C26_Large() {
	w := newWorld(64999, 40000, true)
	w.sw.Bf.Fill()
	have := []bool{true, true}
	s := w.admit(1)
	s.start()
	i := uint32(vsym.Choose("index", 3))
	begin := []uint32{0, 16384, 24998, 24999, 39999, 40000, 1<<32 - 1}[vsym.Choose("begin", 7)]
	n := []uint32{16384, 40000, 16385, 0, 1, 1<<32 - 1}[vsym.Choose("length", 6)]
	s.conn.Feed(request(i, begin, n))
	vsym.Settle()
	got := s.replies()
	if want := w.want(have, i, begin, n); want != nil {
		vsym.Assert(len(got) == 1, "a request for verified bytes is not answered once")
		vsym.Assert(same(got[0], want), "a reply does not carry exactly the requested bytes")
	} else {
		vsym.Assert(len(got) == 0, "a request that must not be served yields data")
	}
	s.stop()
}

// C26_Pieces: torrents of more pieces.
//
//gosym:bounds 8, 10, 20, 33, 64, 65 or 100 pieces of 4 bytes (the last one of 3), all ours but one or two neighbours anywhere, or none ours but one or two; requests for these, for the first and last piece and those next to them, for 4, 3 or 2 bytes at any begin
//gosym:cover served refused
//gosym:cpu 200 2000
func C26_Pieces() {
	n := []int64{8, 10, 20, 33, 64, 65, 100}[vsym.Choose("pieces", 7)]
	w := newWorld(4*n-1, 4, true)
	have := make([]bool, n)
	most := vsym.Choose("most", 2) == 1
	a := []int64{0, 1, n / 2, n - 2, n - 1}[vsym.Choose("odd", 5)]
	b := a
	if vsym.Choose("two", 2) == 1 && a < n-1 {
		b++
	}
	for i := range have {
		have[i] = most != (int64(i) >= a && int64(i) <= b)
		if have[i] {
			w.sw.Bf.Set(int64(i), true)
		}
	}
	s := w.admit(1)
	s.start()
	is := []int64{0, a - 1, a, b + 1, n - 1, n}
	i := is[vsym.Choose("index", len(is))]
	vsym.Assume(i >= 0)
	begin, l := vsym.Uint32("begin"), uint32(2+vsym.Choose("length", 3))
	s.conn.Feed(request(uint32(i), begin, l))
	vsym.Settle()
	got := s.replies()
	if want := w.want(have, uint32(i), begin, l); want != nil {
		vsym.Assert(len(got) == 1, "a request for verified bytes is not answered once")
		vsym.Assert(same(got[0], want), "a reply does not carry exactly the requested bytes")
		vsym.Cover("served")
	} else {
		vsym.Assert(len(got) == 0, "a request that must not be served yields data")
		vsym.Cover("refused")
	}
	s.stop()
}

// C26_Offsets: blocks far into large pieces.
//
//gosym:bounds two pieces of 140000 and 133617 bytes, both ours; requests of 16384 or 1 bytes at 65535, 65536, 117233, 131072, 133616 and 139999
func C26_Offsets() {
	w := newWorld(273617, 140000, true)
	w.sw.Bf.Fill()
	have := []bool{true, true}
	s := w.admit(1)
	s.start()
	i := uint32(vsym.Choose("index", 2))
	begin := []uint32{65535, 65536, 117233, 131072, 133616, 139999}[vsym.Choose("begin", 6)]
	n := []uint32{16384, 1}[vsym.Choose("length", 2)]
	s.conn.Feed(request(i, begin, n))
	vsym.Settle()
	got := s.replies()
	if want := w.want(have, i, begin, n); want != nil {
		vsym.Assert(len(got) == 1, "a request for verified bytes is not answered once")
		vsym.Assert(same(got[0], want), "a reply does not carry exactly the requested bytes")
	} else {
		vsym.Assert(len(got) == 0, "a request that must not be served yields data")
	}
	s.stop()
}
