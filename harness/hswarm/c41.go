package hswarm

import (
	"errors"
	"sync"
	"time"

	"gotor/zzverif/vsym"
)

// beat notes when the client sends what.
type beat struct {
	mu    sync.Mutex
	start time.Time
	at    []time.Duration // of keep-alives
	other int
}

func (b *beat) note(m []byte) {
	b.mu.Lock()
	defer b.mu.Unlock()
	if len(m) == 4 && string(m) == "\x00\x00\x00\x00" {
		b.at = append(b.at, time.Since(b.start))
	} else {
		b.other++
	}
}

// regular checks the keep-alives sent until now.
func (b *beat) regular(until time.Duration) {
	b.mu.Lock()
	defer b.mu.Unlock()
	n := 0
	for _, d := range b.at {
		n++
		at := time.Duration(n) * time.Minute
		vsym.Assert(d > at-time.Second && d < at+time.Second, "keep-alives are not sent every 60 s")
	}
	at := time.Duration(n+1) * time.Minute
	vsym.Assert(until < at+time.Second, "keep-alives stop while the session lasts")
}

// long admits a peer to a session in which deadlines pass.
func long(w *world) (*session, *beat) {
	s := w.admit(1)
	s.conn.Expire = true
	b := &beat{start: time.Now()}
	s.conn.OnWrite = b.note
	s.start()
	vsym.Settle()
	return s, b
}

// C41_Gaps: a peer that says something now and then.
//
//gosym:bounds 2 (thorough 3) messages of 5 kinds (keep-alive, have of any index, request for any range of a piece, any unknown message, half a message), each 1, 61 or 119 s after the one before, then silence for 119 s
//gosym:faketime
//gosym:cover half request
//gosym:cpu 200 2000
func C41_Gaps() {
	w := newWorld(8, 4, true)
	w.sw.Bf.Fill()
	s, b := long(w)
	gaps := []time.Duration{1, 61, 119}
	n := 2
	if vsym.Thorough() {
		n = 3
	}
	replies := 0
	half := false
	var all time.Duration
	for i := 0; i < n; i++ {
		g := gaps[vsym.Choose("gap", len(gaps))] * time.Second
		time.Sleep(g)
		all += g
		vsym.Settle()
		vsym.Assert(!s.ended() && !s.conn.Closed(), "a peer that is not silent is dropped")
		if half {
			s.conn.Feed([]byte{20, 0})
			half = false
			continue
		}
		switch vsym.Choose("kind", 5) {
		case 0:
			s.conn.Feed([]byte{0, 0, 0, 0})
		case 1:
			s.conn.Feed(msg(4, vsym.Bytes("index", 4)...))
		case 2:
			a, l := vsym.Uint32("begin"), vsym.Uint32("length")
			vsym.Assume(l > 0 && uint64(a)+uint64(l) <= 4)
			s.conn.Feed(request(1, a, l))
			replies++
			vsym.Cover("request")
		case 3:
			k := vsym.Byte("type")
			vsym.Assume(k > 9)
			s.conn.Feed(msg(k, 1, 2))
		case 4:
			s.conn.Feed([]byte{0, 0, 0, 2})
			half = true
			vsym.Cover("half")
		}
		vsym.Settle()
		vsym.Assert(len(s.replies()) == replies, "a request is not answered after a while")
	}
	time.Sleep(119 * time.Second)
	all += 119 * time.Second
	vsym.Settle()
	vsym.Assert(!s.ended() && !s.conn.Closed(), "a peer that is not silent is dropped")
	b.regular(all)
	ka := 0
	for _, m := range s.sent() {
		if len(m) == 4 {
			ka++
		}
	}
	vsym.Assert(ka == len(b.at), "a keep-alive is sent in the middle of another message")
}

// C41_Silent: a peer that falls silent.
//
//gosym:bounds a message after 0, 1, 59 or 119 s or none, then silence, with pieces missing or not
//gosym:faketime
//gosym:cpu 200 2000
func C41_Silent() {
	w := newWorld(8, 4, true)
	if vsym.Choose("complete", 2) == 1 {
		w.sw.Bf.Fill()
	}
	s, b := long(w)
	var all time.Duration
	if k := vsym.Choose("last", 5); k < 4 {
		g := []time.Duration{0, 1, 59, 119}[k] * time.Second
		time.Sleep(g)
		all += g
		s.conn.Feed([]byte{0, 0, 0, 0})
		vsym.Settle()
	}
	time.Sleep(119 * time.Second)
	all += 119 * time.Second
	vsym.Settle()
	vsym.Assert(!s.ended() && !s.conn.Closed(), "a peer is dropped before 120 s of silence")
	time.Sleep(3 * time.Second)
	vsym.Settle()
	vsym.Assert(s.ended() && s.conn.Closed(), "a peer that stays silent for 120 s is kept")
	b.regular(all)
	n := len(b.at)
	time.Sleep(200 * time.Second)
	vsym.Settle()
	vsym.Assert(len(b.at) == n, "keep-alives are sent after the end of the session")
}

// C41_Long: a long session.
//
//gosym:bounds 20 (thorough 60) minutes in which the peer sends a keep-alive every 100 s; the connection breaks then
//gosym:faketime
//gosym:cpu 200 2000
func C41_Long() {
	w := newWorld(8, 4, true)
	w.sw.Bf.Fill()
	s, b := long(w)
	n := 12
	if vsym.Thorough() {
		n = 36
	}
	for i := 0; i < n; i++ {
		time.Sleep(100 * time.Second)
		s.conn.Feed([]byte{0, 0, 0, 0})
		vsym.Settle()
		vsym.Assert(!s.ended() && !s.conn.Closed(), "a peer that is not silent is dropped")
	}
	b.regular(time.Duration(n) * 100 * time.Second)
	if vsym.Choose("write", 2) == 1 {
		s.conn.FailWrites(errors.New("broken"))
		time.Sleep(61 * time.Second)
	} else {
		s.conn.FeedError(errors.New("broken"))
	}
	vsym.Settle()
	vsym.Assert(s.ended() && s.conn.Closed(), "a session goes on over a broken connection")
}

// C41_Unread: a peer that stops reading.
//
//gosym:bounds a peer that, 0, 30 or 119 s into the session, asks for any range of a piece and from then on takes 0, 3, 12 or 40 bytes of what it is sent; it stays silent, or says something every 50 s all the same, or reads on after 20, 50 or 110 s and says something then
//gosym:faketime
//gosym:cover stays back
//gosym:cpu 200 2000
func C41_Unread() {
	w := newWorld(8, 4, true)
	w.sw.Bf.Fill()
	s, _ := long(w)
	time.Sleep([]time.Duration{0, 30, 119}[vsym.Choose("after", 3)] * time.Second)
	vsym.Settle()
	s.conn.Room = []int{0, 3, 12, 40}[vsym.Choose("room", 4)]
	a, l := vsym.Uint32("begin"), vsym.Uint32("length")
	vsym.Assume(l > 0 && uint64(a)+uint64(l) <= 4)
	s.conn.Feed(request(1, a, l))
	vsym.Settle()
	k := vsym.Choose("then", 5)
	if k > 1 {
		time.Sleep([]time.Duration{20, 50, 110}[k-2] * time.Second)
		vsym.Settle()
		vsym.Assert(!s.ended() && !s.conn.Closed(), "a peer that is slow is dropped")
		s.conn.Drain(-1)
		s.conn.Feed([]byte{0, 0, 0, 0})
		time.Sleep(100 * time.Second)
		s.conn.Feed([]byte{0, 0, 0, 0})
		time.Sleep(100 * time.Second)
		vsym.Settle()
		vsym.Assert(!s.ended() && !s.conn.Closed(), "a peer that is not silent is dropped")
		vsym.Assert(len(s.replies()) == 1 && same(s.replies()[0], piece(1, a, w.data[4+a:4+a+l])), "a request is not answered after a while")
		vsym.Cover("back")
		return
	}
	time.Sleep(110 * time.Second)
	vsym.Settle()
	vsym.Assert(!s.ended() && !s.conn.Closed(), "a peer is dropped before 120 s of silence")
	if k == 1 && s.conn.Room > 0 {
		// it still takes what there is
		return
	}
	if k == 1 {
		s.conn.Feed([]byte{0, 0, 0, 0})
		time.Sleep(50 * time.Second)
		s.conn.Feed([]byte{0, 0, 0, 0})
	} else {
		time.Sleep(50 * time.Second)
	}
	time.Sleep(23 * time.Second)
	vsym.Settle()
	vsym.Assert(s.ended() && s.conn.Closed(), "a peer that takes nothing of what it is sent for 180 s is kept")
	vsym.Cover("stays")
}
