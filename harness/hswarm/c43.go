package hswarm

import (
	"encoding/binary"
	"errors"
	"time"

	"gotor/zzverif/vsym"
)

// C43_Replies: peers that ask at the same time.
//
//gosym:bounds two sessions, each with two requests (one of the four for any range of a piece), served at the same time; all schedules with at most 1 (thorough 2) deviations from running each activity until it blocks
//gosym:race
//gosym:stress 50
//gosym:cpu 300 3000
func C43_Replies() {
	w := newWorld(11, 4, true)
	w.sw.Bf.Fill()
	var ss []*session
	var want [][][]byte
	for k := 0; k < 2; k++ {
		s := w.admit(1 + k)
		i := uint32(k)
		a, n := uint32(1), uint32(2)
		if k == 0 {
			a, n = vsym.Uint32("begin"), vsym.Uint32("length")
			vsym.Assume(n <= 4 && a <= 4 && a+n <= 4)
		}
		j := uint32(2 - k)
		s.conn.Feed(append(request(i, a, n), request(j, 1, 2)...))
		p := w.data[4*i:]
		ss = append(ss, s)
		want = append(want, [][]byte{piece(i, a, p[a:a+n]), piece(j, 1, w.data[4*j+1:4*j+3])})
	}
	bound := 1
	if vsym.Thorough() {
		bound = 2
	}
	vsym.Races()
	vsym.Delays(bound)
	for _, s := range ss {
		s.start()
	}
	vsym.Settle()
	vsym.Sequential()
	for k, s := range ss {
		got := s.replies()
		vsym.Assert(!s.ended() && len(got) == 2, "a session does not get its own replies")
		for i := range got {
			vsym.Assert(same(got[i], want[k][i]), "a session does not get its own replies")
		}
	}
}

// who asks for which pieces, and that no piece is asked for twice.
func askers(ss []*session, n int64) []int {
	by := make([]int, n)
	for i := range by {
		by[i] = -1
	}
	for k, s := range ss {
		for _, m := range s.asked() {
			i := binary.BigEndian.Uint32(m[5:])
			vsym.Assert(int64(i) < n, "a piece that does not exist is asked for")
			vsym.Assert(by[i] < 0, "a piece is asked for twice")
			by[i] = k
		}
	}
	return by
}

// C43_Shares: peers that have some of the same pieces.
//
//gosym:bounds two (thorough three) sessions for three pieces of which none or the first is ours, with peers of different or the same address and id, every content of the peers' bitfields (spare bits zero), two rounds of requests at the same times; for full bitfields all schedules with at most 2 (thorough 3) deviations from running each activity until it blocks
//gosym:race
//gosym:faketime
//gosym:stress 20
//gosym:cpu 300 3000
func C43_Shares() {
	w := newWorld(11, 4, true)
	if vsym.Choose("ours", 2) == 1 {
		w.sw.Bf.Set(0, true)
	}
	n := 2
	if vsym.Thorough() {
		n = 3
	}
	anyBits := vsym.Choose("bitfields", 2) == 0
	twins := vsym.Choose("twins", 2) == 1
	var ss []*session
	var bits []byte
	for k := 0; k < n; k++ {
		var s *session
		if twins {
			// the same peer again, or another one behind the same address
			s = w.admitFrom(1, 5000)
		} else {
			s = w.admit(1 + k)
		}
		b := byte(0xe0)
		if anyBits {
			b = vsym.Byte("bits")
			vsym.Assume(b&0x1f == 0)
		}
		s.conn.Feed(msg(5, b))
		ss, bits = append(ss, s), append(bits, b)
	}
	vsym.Races()
	for _, s := range ss {
		s.start()
	}
	vsym.Settle()
	if !anyBits {
		bound := 2
		if vsym.Thorough() {
			bound = 3
		}
		vsym.Delays(bound)
	}
	time.Sleep(250 * time.Millisecond)
	vsym.Settle()
	vsym.Sequential()
	by := askers(ss, w.n)
	for i, k := range by {
		m := byte(0x80 >> i)
		any := byte(0)
		for _, b := range bits {
			any |= b
		}
		if any&m == 0 || w.sw.Bf.Get(int64(i)) {
			vsym.Assert(k < 0, "a piece is asked for that nobody has or that is ours")
		} else {
			vsym.Assert(k >= 0 && bits[k]&m != 0, "a piece that a peer has is not asked for, or from a peer without it")
		}
	}
	for _, s := range ss {
		vsym.Assert(!s.ended(), "a session ends without a reason")
	}
}

// C43_End: the end of one session leaves the others alone.
//
//gosym:bounds two sessions with peers that have all four pieces (the first is ours); one ends by end of stream, a read or write error, a message that is too long or a request for a piece that does not exist (any), while the other one's request (any range) is served; all schedules with at most 1 (thorough 2) deviations; then a third peer arrives
//gosym:race
//gosym:faketime
//gosym:stress 20
//gosym:cpu 300 3000
func C43_End() {
	w := newWorld(15, 4, true)
	w.sw.Bf.Set(0, true)
	a, b := w.admit(1), w.admit(2)
	a.conn.Feed(msg(5, 0xf0))
	b.conn.Feed(msg(5, 0xf0))
	a.start()
	b.start()
	vsym.Settle()
	time.Sleep(150 * time.Millisecond)
	vsym.Settle()
	by := askers([]*session{a, b}, w.n)
	for i, k := range by {
		vsym.Assert(i == 0 && k < 0 || i > 0 && k >= 0, "a piece that a peer has is not asked for")
	}
	had := len(b.asked())
	bound := 1
	if vsym.Thorough() {
		bound = 2
	}
	vsym.Races()
	vsym.Delays(bound)
	x, n := vsym.Uint32("begin"), vsym.Uint32("length")
	vsym.Assume(n <= 4 && x <= 4 && x+n <= 4)
	switch vsym.Choose("how", 5) {
	case 0:
		a.conn.FeedEOF()
	case 1:
		a.conn.FeedError(errors.New("reset"))
	case 2:
		a.conn.FailWrites(errors.New("broken pipe"))
		a.conn.Feed(request(0, 0, 1))
	case 3:
		l := vsym.Byte("long")
		vsym.Assume(l >= 0x10)
		a.conn.Feed([]byte{l, 0, 0, 0, 6})
	case 4:
		i := vsym.Uint32("index")
		vsym.Assume(i >= 4)
		a.conn.Feed(request(i, 0, 1))
	}
	b.conn.Feed(request(0, x, n))
	vsym.Settle()
	vsym.Sequential()
	vsym.Assert(a.ended() && a.conn.Closed(), "a failed session goes on")
	vsym.Assert(!b.ended() && !b.conn.Closed(), "the end of one session ends another")
	got := b.replies()
	vsym.Assert(len(got) == 1 && same(got[0], piece(0, x, w.data[x:x+n])), "the end of one session disturbs another's replies")
	time.Sleep(250 * time.Millisecond)
	vsym.Settle()
	// b is still responsible for its pieces, a is not
	c := w.admit(3)
	c.conn.Feed(msg(5, 0xf0))
	c.start()
	vsym.Settle()
	time.Sleep(250 * time.Millisecond)
	vsym.Settle()
	askers([]*session{b, c}, w.n)
	vsym.Assert(len(b.asked())+len(c.asked()) == 3 && len(b.asked()) >= had, "the pieces of an ended session are not asked for again, or those of another one are")
	vsym.Assert(!b.ended() && !c.ended(), "a session ends without a reason")
}

// C43_Stalled: a peer that stops reading for a while.
//
//gosym:bounds two sessions for four pieces of which the first is ours; a peer that asks for any range of it, has all pieces or none, and reads 0, 3, 16, 17, 20 or 40 bytes of what it is sent, then one that asks for any range and has all pieces; after 250 ms the first peer reads on
//gosym:faketime
//gosym:cpu 300 3000
func C43_Stalled() {
	w := newWorld(15, 4, true)
	w.sw.Bf.Set(0, true)
	a, b := w.admit(1), w.admit(2)
	a.conn.Room = 5 + []int{0, 3, 16, 17, 20, 40}[vsym.Choose("room", 6)]
	x, n := vsym.Uint32("begin"), vsym.Uint32("length")
	vsym.Assume(n <= 4 && x <= 4 && x+n <= 4)
	a.conn.Feed(request(0, x, n))
	if vsym.Choose("has", 2) == 1 {
		a.conn.Feed(msg(5, 0xf0))
	}
	a.start()
	vsym.Settle()
	time.Sleep(150 * time.Millisecond)
	vsym.Settle()
	b.conn.Feed(append(msg(5, 0xf0), request(0, x, n)...))
	b.start()
	vsym.Settle()
	got := b.replies()
	vsym.Assert(len(got) == 1 && same(got[0], piece(0, x, w.data[x:x+n])), "a slow peer delays another's replies")
	time.Sleep(250 * time.Millisecond)
	vsym.Settle()
	asked := len(b.asked())
	all, whole := split(a.conn.Sent()[a.pre:])
	for _, m := range all {
		if len(m) > 4 && m[4] == 6 {
			asked++
		}
	}
	if !whole {
		// it may be a request
		asked++
	}
	vsym.Assert(asked >= 2, "a slow peer keeps others from being asked for pieces")
	vsym.Assert(!a.ended() && !b.ended(), "a session ends because a peer is slow")
	a.conn.Drain(-1)
	time.Sleep(250 * time.Millisecond)
	vsym.Settle()
	got = a.replies()
	vsym.Assert(len(got) == 1 && same(got[0], piece(0, x, w.data[x:x+n])), "a peer that reads on does not get its reply")
	for i, k := range askers([]*session{a, b}, w.n) {
		vsym.Assert(i == 0 && k < 0 || i > 0 && k >= 0, "a piece that a peer has is not asked for")
	}
	vsym.Assert(!a.ended() && !b.ended(), "a session ends because a peer is slow")
}
