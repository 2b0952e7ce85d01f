package hswarm

import (
	"gotor/zzverif/vsym"
)

// C24_Counts: every two neighbouring counts.
//
//gosym:bounds two pieces announced by c and c+1 peers for every c from 1 to 62, the peers announcing them in four orders; one peer that holds both takes one and another
//gosym:cpu 150 600
func C24_Counts() {
	c := 1 + vsym.Choose("count", 62)
	t := newMirror(newWorld(2, 1, false), c+1)
	t.rare = true
	common := vsym.Choose("common", 2)
	last := vsym.Choose("last", 2) == 1
	for k := 0; k <= c; k++ {
		// the last peer holds both; the others but one hold the rare one too
		if last && k == c-1 || !last && k == 0 && c > 0 {
			t.announce(k, common)
			continue
		}
		t.announce(k, 0)
		t.announce(k, 1)
	}
	t.next(c)
	t.next(c)
}

// C26_Huge: blocks and pieces far larger than usual.
//
//gosym:bounds two pieces of 300000 and 150000 bytes, both ours; requests for 131072, 131073, 150000, 262145 or 300000 bytes at 0 or 1
//gosym:cpu 150 600
func C26_Huge() {
	w := newWorld(450000, 300000, true)
	w.sw.Bf.Fill()
	have := []bool{true, true}
	s := w.admit(1)
	s.start()
	i := uint32(vsym.Choose("index", 2))
	begin := uint32(vsym.Choose("begin", 2))
	n := []uint32{131072, 131073, 150000, 262145, 300000}[vsym.Choose("length", 5)]
	s.conn.Feed(request(i, begin, n))
	vsym.Settle()
	got := s.replies()
	if want := w.want(have, i, begin, n); want != nil {
		vsym.Assert(len(got) == 1, "a request for verified bytes is not answered once")
		vsym.Assert(same(got[0], want), "a reply does not carry exactly the requested bytes")
	} else {
		vsym.Assert(len(got) == 0, "a request that must not be served yields data")
	}
	s.stop()
}

// C29_Huge: messages of up to the largest size in many reads.
//
//gosym:bounds a request, a piece message or unknown message of 140000, 2^18+1, 500000 or 2^20-9 payload bytes, a request; in reads of up to 16384 bytes, or with the first 1-5 bytes of the large message in a read of their own
//gosym:cpu 150 600
func C29_Huge() {
	n := []int{140000, 1<<18 + 1, 500000, 1<<20 - 9}[vsym.Choose("size", 4)]
	t := []byte{7, 77}[vsym.Choose("type", 2)]
	ms := [][]byte{request(0, 1, 2), append(append(be(uint32(n+9)), t), make([]byte, n+8)...), request(2, 0, 3)}
	all := append(append(append([]byte(nil), ms[0]...), ms[1]...), ms[2]...)
	s := talker()
	k := vsym.Choose("start", 6)
	if k > 0 {
		k += 17
		s.conn.Feed(all[:k])
	}
	s.conn.Feed(all[k:])
	r := s.result()
	vsym.Assert(len(r.replies) == 2 && same(r.replies[0], piece(0, 1, s.w.data[1:3])) && same(r.replies[1], piece(2, 0, s.w.data[8:11])), "requests around a large message are not answered")
	vsym.Assert(!r.ended, "a large message ends the session")
	s.stop()
}
