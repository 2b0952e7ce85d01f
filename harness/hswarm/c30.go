package hswarm

import (
	"errors"
	"time"

	"gotor/bf"
	"gotor/zzverif/vsym"
)

var errReset = errors.New("connection reset")

// failing is a session of a peer for six pieces, of which the first is ours,
// in a world that reports errors.
func failing(report int) (*session, chan error) {
	w := newWorld(22, 4, true)
	w.sw.Bf.Set(0, true)
	var ch chan error
	if report > 0 {
		n := 0
		if report == 2 {
			n = 8
		}
		ch = make(chan error, n)
		w.sw.ChErr = ch
	}
	s := w.admit(1)
	s.late = report == 3
	s.conn.Expire = true
	return s, ch
}

// over checks everything about a session that has failed.
func (s *session) over(ch chan error) {
	start := time.Now()
	if ch != nil && cap(ch) == 0 {
		if s.late {
			vsym.Settle()
			vsym.Advance(400e6)
			vsym.Settle()
		}
		e := <-ch
		vsym.Assert(e != nil, "the end of a session is reported without an error")
	}
	<-s.done
	s.at = time.Now()
	vsym.Assert(s.slow || s.at.Sub(start) < 5*time.Second, "a failure does not end a session soon")
	s.done <- true
	vsym.Settle()
	vsym.Sequential()
	vsym.Assert(s.conn.Closed(), "the connection of a failed session stays open")
	vsym.Assert(vsym.Alive() == 0, "a failed session leaves something running")
	vsym.Assert(vsym.HeldLocks() == 0, "a lock stays held")
	if cap(ch) > 0 {
		vsym.Assert(len(ch) == 1, "the end of a session is not reported once")
		vsym.Assert(<-ch != nil, "the end of a session is reported without an error")
	}
	// nothing more is sent
	n := len(s.conn.Sent())
	vsym.Advance(61e9 / int64(vsym.Repeat(1, 600)))
	vsym.Assert(len(s.conn.Sent()) == n, "something is sent after the end of a session")
	vsym.Assert(len(s.w.drain(s.ph)) == 0, "a session that ended is still given pieces")
	// another peer gets everything that we lack
	o := s.w.handler(7)
	s.w.sw.PPT.RegisterBF(o, full(s.w))
	vsym.Assert(int64(len(s.w.drain(o))) == s.w.n-1, "the pieces of a session that ended are not released")
	s.w.sw.PPT.Unregister(o)
}

// C30_Points: a failure at any point.
//
//gosym:bounds a peer that has all six pieces (one is ours) and asks for one of ours; the stream ends or fails after any of its bytes (cut at 10 places), or the k-th write fails for k from 0 to 7; errors reported to nobody, to a waiting reader, to a reader that comes later or to a queue
//gosym:cpu 200 1000
//gosym:loose
//gosym:stress 1
func C30_Points() {
	report := vsym.Choose("report", 4)
	s, ch := failing(report)
	all := append(msg(5, 0xfc), request(0, 1, 2)...)
	all = append(all, request(0, 0, 1)...)
	if vsym.Choose("which", 2) == 0 {
		s.conn.Feed(all[:4*vsym.Choose("bytes", len(all)/4+1)])
		if vsym.Choose("settles", 2) == 1 {
			s.start()
			vsym.Settle()
			if vsym.Choose("later", 2) == 1 {
				vsym.Advance(250e6)
				vsym.Settle()
			}
			s.fail()
		} else {
			s.fail()
			s.start()
		}
	} else {
		s.conn.WFail = vsym.Choose("write", 8)
		s.conn.Feed(all)
		s.start()
	}
	s.over(ch)
}

func (s *session) fail() {
	if vsym.Choose("how", 2) == 0 {
		s.conn.FeedEOF()
	} else {
		s.conn.FeedError(errReset)
	}
}

// C30_Protocol: protocol errors.
//
//gosym:bounds after nothing or a bitfield: a bitfield of 2 bytes, a request outside of a piece or for a piece that does not exist (any index from 6 on), or a message of any length over 2^20; with a read error or end of stream right after it, or none
//gosym:cpu 200 1000
func C30_Protocol() {
	s, ch := failing(vsym.Choose("report", 4))
	if vsym.Choose("before", 2) == 1 {
		s.conn.Feed(msg(5, 0xfc))
	}
	switch vsym.Choose("error", 4) {
	case 0:
		s.conn.Feed(msg(5, 0xfc, 0))
	case 1:
		b, n := vsym.Uint32("begin"), vsym.Uint32("length")
		vsym.Assume(uint64(b)+uint64(n) > 4)
		s.conn.Feed(request(0, b, n))
	case 2:
		i := vsym.Uint32("index")
		vsym.Assume(i >= 6)
		s.conn.Feed(request(i, 0, 1))
	case 3:
		n := vsym.Uint32("size")
		vsym.Assume(n > 1<<20)
		s.conn.Feed(be(n))
	}
	switch vsym.Choose("and", 3) {
	case 1:
		s.conn.FeedEOF()
	case 2:
		s.conn.FeedError(errReset)
	}
	s.start()
	s.over(ch)
}

// C30_Silent: peers that fall silent, and connections that break while nothing
// is sent.
//
//gosym:bounds a peer that sends nothing, a keepalive or a bitfield, 0, 50, 70 or 119 s after the start, then nothing; keepalives that can be sent or that fail from the first, second or third on
//gosym:cpu 200 1000
//gosym:nonative
func C30_Silent() {
	s, ch := failing(vsym.Choose("report", 4))
	s.slow = true
	start := time.Now()
	s.start()
	at := []int64{0, 50, 70, 119}[vsym.Choose("at", 4)]
	vsym.Settle()
	if at > 0 {
		vsym.Advance(at * 1e9)
		vsym.Settle()
	}
	last := int64(0)
	switch vsym.Choose("message", 3) {
	case 1:
		s.conn.Feed([]byte{0, 0, 0, 0})
		last = at
	case 2:
		s.conn.Feed(msg(5, 0x80))
		last = at
	}
	vsym.Settle()
	k := vsym.Choose("fails", 4)
	want := last + 120
	if k < 3 {
		s.conn.WFail = k
		if t := at - at%60 + 60*int64(k+1); t < want {
			want = t
		}
	}
	s.over(ch)
	took := int64(s.at.Sub(start) / time.Second)
	vsym.Assert(took >= want-1 && took <= want+1, "a session does not end when the peer has been silent for 120 s or a keepalive fails")
}

// C30_Schedules: failures under all schedules.
//
//gosym:bounds a peer that has all six pieces and asks for one of ours, every schedule with up to 2 (thorough 3) deviations, at any lock or channel operation or block, from running each goroutine until it blocks; one or two of: end of stream, a read error, a protocol error, failing writes from the 2nd, 3rd, 4th or 6th on, with more data arriving at the same time or not; errors reported to nobody, to a waiting reader, to a reader that comes later or to a queue (quick: one of them for each failure)
//gosym:cpu 1200 6000
//gosym:race
//gosym:stress 200
//gosym:loose
func C30_Schedules() {
	how := vsym.Choose("how", 10)
	report := how % 4
	bound := 2
	if vsym.Thorough() {
		report = vsym.Choose("report", 4)
		bound = 3
	}
	s, ch := failing(report)
	vsym.Races()
	vsym.Delays(bound)
	s.conn.Feed(append(msg(5, 0xfc), request(0, 1, 2)...))
	if how == 2 || how == 8 {
		s.conn.Feed(request(9, 1, 2))
	}
	if k := how - 3; k >= 0 && k < 4 {
		s.conn.WFail = []int{1, 2, 3, 5}[k]
	}
	if how == 9 {
		// more arrives when a request fails
		s.conn.WFail = 2
		go func() {
			vsym.Advance(100e6)
			s.conn.Feed(msg(5, 0xfc))
			s.conn.Feed([]byte{0, 0, 0, 0})
		}()
	}
	if how == 7 || how == 8 {
		s.conn.WFail = 2
	}
	s.start()
	switch how {
	case 0, 7:
		s.conn.FeedEOF()
	case 1:
		s.conn.FeedError(errReset)
	}
	s.over(ch)
}

// C30_Stalled: a peer that stops reading, and then a failure.
//
//gosym:bounds a peer that has all six pieces (one is ours), asks for none or one of ours, and reads 0, 3, 17, 20 or 40 bytes of what it is sent; then end of stream, a read error, a protocol error (any request beyond the torrent) or a broken connection; errors reported to nobody, to a waiting reader, to a reader that comes later or to a queue
//gosym:cpu 300 2000
//gosym:loose
//gosym:stress 1
func C30_Stalled() {
	s, ch := failing(vsym.Choose("report", 4))
	room := []int{0, 3, 17, 20, 40}[vsym.Choose("room", 5)]
	asks := vsym.Choose("asks", 2) == 1
	s.conn.Room = 5 + room
	s.conn.Feed(msg(5, 0xfc))
	if asks {
		s.conn.Feed(request(0, 0, 4))
	}
	s.start()
	vsym.Settle()
	vsym.Advance(150e6)
	vsym.Settle()
	vsym.Assert(!s.ended(), "a session ends because the peer is slow")
	how := 3
	if !asks || room >= 17 {
		// the client is still reading
		how = vsym.Choose("how", 4)
	}
	switch how {
	case 0:
		s.conn.FeedEOF()
	case 1:
		s.conn.FeedError(errReset)
	case 2:
		i := vsym.Uint32("index")
		vsym.Assume(i >= 6)
		s.conn.Feed(request(i, 0, 1))
	case 3:
		s.conn.FailWrites(errReset)
		s.conn.FeedError(errReset)
	}
	s.over(ch)
}

// C30_Ping: a keep-alive that fails when something else does.
//
//gosym:bounds after 60 s the keep-alive can not be sent (sending fails or waits), and at the same time or a second later the stream ends, a read fails or there is a protocol error, or none of it; errors reported to nobody or to a waiting reader; all schedules with at most 2 (thorough 3) deviations from running each goroutine until it blocks
//gosym:race
//gosym:faketime
//gosym:stress 100
//gosym:cpu 300 3000
func C30_Ping() {
	w := newWorld(8, 4, true)
	w.sw.Bf.Fill()
	if vsym.Choose("report", 2) == 1 {
		w.sw.ChErr = make(chan error, 8)
	}
	how := vsym.Choose("how", 4)
	s := w.admit(1)
	s.conn.Expire = true
	s.start()
	vsym.Settle()
	stalls := vsym.Choose("stalls", 2) == 1
	at := 60 * time.Second
	if stalls {
		s.conn.Room = vsym.Choose("room", 4)
		at += time.Second
		vsym.Assume(how < 3)
	} else {
		s.conn.FailWrites(errReset)
	}
	vsym.Races()
	go func() {
		time.Sleep(at)
		switch how {
		case 0:
			s.conn.FeedEOF()
		case 1:
			s.conn.FeedError(errReset)
		case 2:
			s.conn.Feed(request(9, 0, 1))
		}
	}()
	time.Sleep(59 * time.Second)
	bound := 2
	if vsym.Thorough() {
		bound = 3
	}
	if stalls {
		bound = 0
	}
	vsym.Delays(bound)
	time.Sleep(time.Second)
	<-s.done
	vsym.Settle()
	vsym.Sequential()
	vsym.Assert(s.conn.Closed(), "the connection of a failed session stays open")
	vsym.Assert(vsym.Alive() == 0, "a failed session leaves something running")
	vsym.Assert(vsym.HeldLocks() == 0, "a lock stays held")
	vsym.Assert(w.sw.ChErr == nil || len(w.sw.ChErr) == 1, "the end of a session is not reported once")
}

// C30_Both: two sessions fail at the same time.
//
//gosym:bounds two peers that have all six pieces; the streams of both end at the same time, every schedule with up to 2 (thorough 3) deviations from running each goroutine until it blocks
//gosym:cpu 500 4000
//gosym:race
//gosym:stress 100
func C30_Both() {
	a, _ := failing(0)
	b := a.w.admit(2)
	vsym.Races()
	bound := 2
	if vsym.Thorough() {
		bound = 3
	}
	a.conn.Feed(msg(5, 0xfc))
	b.conn.Feed(msg(5, 0xfc))
	a.start()
	b.start()
	vsym.Settle()
	vsym.Delays(bound)
	a.conn.FeedEOF()
	b.conn.FeedEOF()
	<-a.done
	<-b.done
	a.done <- true
	b.done <- true
	a.over(nil)
	b.over(nil)
}

func full(w *world) *bf.Bitfield {
	b := bf.NewBitfield(w.n)
	b.Fill()
	return b
}
