package hswarm

import (
	"sync"
	"time"

	"gotor/zzverif/vsym"
)

// meter notes what the client sends through all its connections.
type meter struct {
	mu    sync.Mutex
	start time.Time
	at    []time.Duration
	size  []int64
}

func (m *meter) note(b []byte) {
	if len(b) < 5 || b[4] != 6 && b[4] != 7 {
		return
	}
	m.mu.Lock()
	m.at = append(m.at, time.Since(m.start))
	m.size = append(m.size, int64(len(b)))
	m.mu.Unlock()
}

// bounded checks that a message went out only while fewer bytes than the rate
// had gone out in its window.
func (m *meter) bounded(rate int64) {
	m.mu.Lock()
	defer m.mu.Unlock()
	used := map[int64]int64{}
	for i, at := range m.at {
		w := int64(at / time.Second)
		vsym.Assert(used[w] < rate, "more is sent in a second than the upload limit allows")
		used[w] += m.size[i]
	}
}

// limited makes a world whose uploads are limited.
func limited(total, pl, rate int64) (*world, *meter) {
	m := &meter{start: time.Now()}
	w := newWorld(total, pl, true)
	w.sw.RLIO.SetWriteRate(rate)
	go w.sw.RLIO.Run()
	return w, m
}

// C46_Blocks: peers that ask for much.
//
//gosym:bounds every positive 64-bit upload limit; one or two sessions with 4 requests in all (each of 1 or 8 bytes)
//gosym:spin 2000
//gosym:loose
//gosym:stress 1
//gosym:native-ms 30000
//gosym:cpu 300 2500
//gosym:cover waits
func C46_Blocks() {
	rate := vsym.Int64("rate")
	vsym.Assume(rate > 0)
	w, m := limited(16, 8, rate)
	w.sw.Bf.Fill()
	n := 1 + vsym.Choose("sessions", 2)
	var ss []*session
	want := make([]int, n)
	var feed [2][]byte
	for i := 0; i < 4; i++ {
		l := []uint32{1, 8}[vsym.Choose("length", 2)]
		k := i % n
		feed[k] = append(feed[k], request(uint32(k), 0, l)...)
		want[k]++
	}
	for k := 0; k < n; k++ {
		s := w.admit(1 + k)
		s.conn.OnWrite = m.note
		s.conn.Feed(feed[k])
		ss = append(ss, s)
	}
	for _, s := range ss {
		s.start()
	}
	time.Sleep(4500 * time.Millisecond)
	vsym.Settle()
	m.bounded(rate)
	for k, s := range ss {
		vsym.Assert(len(s.replies()) == want[k] && !s.ended(), "a limited upload does not go on when it may")
	}
	if m.at[2] > 900*time.Millisecond {
		vsym.Cover("waits")
	}
}

// C46_Requests: the requests of the client count as well.
//
//gosym:bounds every positive 64-bit upload limit; a peer that has both missing pieces of three and asks for 8 bytes of the third
//gosym:spin 2000
//gosym:loose
//gosym:stress 1
//gosym:native-ms 30000
//gosym:cpu 300 2500
func C46_Requests() {
	rate := vsym.Int64("rate")
	vsym.Assume(rate > 0)
	w, m := limited(24, 8, rate)
	w.sw.Bf.Set(2, true)
	s := w.admit(1)
	s.conn.OnWrite = m.note
	s.conn.Feed(append(msg(5, 0xc0), request(2, 0, 8)...))
	s.start()
	time.Sleep(4500 * time.Millisecond)
	vsym.Settle()
	m.bounded(rate)
	vsym.Assert(len(s.replies()) == 1 && len(s.asked()) == 2 && !s.ended(), "limited traffic does not go on when it may")
}

// C46_NoLimit: without a limit nothing waits.
//
//gosym:bounds no limit; a request for 8 bytes and two pieces to ask for
//gosym:loose
//gosym:stress 1
func C46_NoLimit() {
	w, m := limited(24, 8, -1)
	w.sw.Bf.Set(2, true)
	s := w.admit(1)
	s.conn.OnWrite = m.note
	s.conn.Feed(append(msg(5, 0xc0), request(2, 0, 8)...))
	s.start()
	time.Sleep(500 * time.Millisecond)
	vsym.Settle()
	vsym.Assert(len(s.replies()) == 1 && len(s.asked()) == 2 && !s.ended(), "traffic without a limit is delayed")
}

// C46_Stalled: a peer that does not read what it is sent.
//
//gosym:bounds every positive 64-bit upload limit; a peer that asks for 8 bytes twice and reads 0-3 bytes of the first reply, and another one that asks for 8 bytes twice
//gosym:spin 2000
//gosym:loose
//gosym:stress 1
//gosym:native-ms 30000
//gosym:cpu 300 2500
func C46_Stalled() {
	rate := vsym.Int64("rate")
	vsym.Assume(rate > 0)
	w, m := limited(16, 8, rate)
	w.sw.Bf.Fill()
	a, b := w.admit(1), w.admit(2)
	a.conn.Room = 5 + vsym.Choose("room", 4)
	a.conn.Feed(append(request(0, 0, 8), request(1, 0, 8)...))
	a.start()
	vsym.Settle()
	b.conn.OnWrite = m.note
	b.conn.Feed(append(request(1, 0, 8), request(0, 0, 8)...))
	b.start()
	time.Sleep(4500 * time.Millisecond)
	vsym.Settle()
	m.bounded(rate)
	vsym.Assert(len(b.replies()) == 2 && !b.ended(), "a peer that does not read keeps others from being served")
}
