package hio

import (
	"errors"
	"time"

	gio "gotor/io"
	"gotor/zzverif/vsym"
)

func same(a, b []byte) bool { return string(a) == string(b) }

var errEnd = errors.New("end of the line")

// sink is the far end of a transfer: it notes when each transfer got through.
type sink struct {
	start time.Time
	calls int
	at    []time.Duration
	size  []int64
	got   []byte
	err   error
	fill  []byte
	mode  int
}

func (s *sink) note(n int) {
	s.calls++
	s.at = append(s.at, time.Since(s.start))
	s.size = append(s.size, int64(n))
}

func (s *sink) Write(b []byte) (int, error) {
	s.note(len(b))
	s.got = append([]byte(nil), b...)
	if s.err != nil {
		// some of it may have gone through
		return len(b) / 2, s.err
	}
	return len(b), nil
}

func (s *sink) Read(b []byte) (int, error) {
	s.note(len(b))
	n := copy(b, s.fill)
	if s.err != nil {
		return n, s.err
	}
	return n, nil
}

// one does one transfer of n bytes and checks that it went through once,
// unchanged, with the error of the other end.
func one(rl *gio.RateLimitIO, s *sink, write bool, n int64) {
	data := make([]byte, n)
	for i := range data {
		data[i] = byte(i + 1)
	}
	if n > 0 {
		data[n-1] = vsym.Byte("last")
	}
	s.err = nil
	if vsym.Bool("fails") {
		s.err = errEnd
	}
	before := s.calls
	var e error
	if write {
		cp := append([]byte(nil), data...)
		e = rl.Write(s, data)
		vsym.Assert(same(data, cp), "a write changes the caller's data")
		vsym.Assert(same(s.got, cp), "a write does not pass the caller's bytes on")
	} else {
		buf := make([]byte, n)
		s.fill = data
		e = rl.Read(s, buf)
		vsym.Assert(same(buf, data), "a read does not return what was read")
	}
	vsym.Assert(s.calls == before+1, "a transfer is not made exactly once")
	vsym.Assert(e == s.err, "a transfer does not return the error of the other end")
}

func set(rl *gio.RateLimitIO, write bool, rate int64) {
	if write {
		rl.SetWriteRate(rate)
	} else {
		rl.SetReadRate(rate)
	}
}

// C31_Window: one caller, several transfers.
//
//gosym:bounds every positive 64-bit rate; 3 (thorough 4) transfers of 0, 1, 2 or 5 bytes (one arbitrary byte each, succeeding or failing), with an idle time of 0, 0.4 or 1.2 s before one of them; both directions
//gosym:spin 2000
//gosym:loose
//gosym:stress 1
//gosym:native-ms 20000
//gosym:cpu 200 2000
//gosym:cover room full
func C31_Window() {
	steps := 3
	if vsym.Thorough() {
		steps = 4
	}
	window([]int64{0, 1, 2, 5}, steps)
}

// C31_Big: transfers of the sizes of blocks and pieces.
//
//gosym:bounds every positive 64-bit rate; 2 (thorough 3) transfers of 256, 16384, 40000 or 65536 (thorough also 32768 and 70000) bytes (one arbitrary byte each, succeeding or failing), with an idle time of 0, 0.4 or 1.2 s before one of them; both directions
//gosym:spin 2000
//gosym:loose
//gosym:stress 1
//gosym:native-ms 20000
//gosym:cpu 200 2000
//gosym:steps 40000000
//gosym:cover room full
func C31_Big() {
	steps := 2
	sizes := []int64{256, 16384, 40000, 65536}
	if vsym.Thorough() {
		steps = 3
		sizes = append(sizes, 32768, 70000)
	}
	window(sizes, steps)
}

// window makes transfers and looks at when they get through.
func window(sizes []int64, steps int) {
	write := vsym.Bool("write")
	rate := vsym.Int64("rate")
	vsym.Assume(rate > 0)
	start := time.Now()
	rl := gio.NewRateLimitIO()
	set(rl, write, rate)
	set(rl, !write, 1)
	go rl.Run()
	vsym.Settle()
	s := &sink{start: start}
	pause := vsym.Choose("pauseat", steps)
	used := map[int64]int64{}
	for i := 0; i < steps; i++ {
		if i == pause {
			switch vsym.Choose("pause", 3) {
			case 1:
				vsym.Advance(400e6)
			case 2:
				vsym.Advance(1200e6)
			}
			vsym.Settle()
		}
		n := sizes[vsym.Choose("size", len(sizes))]
		asked := time.Since(start)
		room := used[int64(asked/time.Second)] < rate
		one(rl, s, write, n)
		at := s.at[i]
		w := int64(at / time.Second)
		vsym.Assert(used[w] < rate, "a transfer starts in a window that is used up")
		used[w] += n
		if room {
			vsym.Cover("room")
			vsym.Assert(at-asked < 500*time.Millisecond, "a transfer is delayed although the window has room")
		} else {
			vsym.Cover("full")
			vsym.Assert(w <= int64(asked/time.Second)+1, "a transfer is delayed past the next window")
		}
	}
	vsym.Assert(vsym.HeldLocks() == 0, "a lock stays held")
	rl.Stop()
	vsym.Settle()
	vsym.Assert(vsym.Alive() == 0, "Stop does not end Run")
}

// C31_NoLimit: without a limit nothing waits, with or without Run.
//
//gosym:bounds every negative 64-bit limit, or none set, with or without Run; 3 transfers of 0, 1 or 700 bytes (one arbitrary byte each, succeeding or failing); both directions, the other one limited to 1 byte and used up
//gosym:loose
//gosym:stress 1
//gosym:native-ms 20000
func C31_NoLimit() {
	write := vsym.Bool("write")
	rl := gio.NewRateLimitIO()
	if vsym.Bool("set") {
		rate := vsym.Int64("rate")
		vsym.Assume(rate < 0)
		set(rl, write, rate)
	}
	set(rl, !write, 1)
	run := vsym.Bool("run")
	if run {
		go rl.Run()
		vsym.Settle()
	}
	s := &sink{start: time.Now()}
	if vsym.Bool("other") {
		one(rl, s, !write, 5)
	}
	sizes := []int64{0, 1, 700}
	for i := 0; i < 3; i++ {
		asked := time.Since(s.start)
		one(rl, s, write, sizes[vsym.Choose("size", len(sizes))])
		vsym.Assert(s.at[s.calls-1]-asked < 500*time.Millisecond, "a transfer without a limit is delayed")
	}
	vsym.Assert(vsym.HeldLocks() == 0, "a lock stays held")
	if run {
		rl.Stop()
		vsym.Settle()
	}
	vsym.Assert(vsym.Alive() == 0, "Stop does not end Run")
}

// gate is a far end whose transfers take until it is opened.
type gate struct {
	open chan bool
	in   chan bool
}

func (g *gate) Write(b []byte) (int, error) {
	g.in <- true
	<-g.open
	return len(b), nil
}

func (g *gate) Read(b []byte) (int, error) { return g.Write(b) }

// C31_Others: transfers while others wait or take long.
//
//gosym:bounds a transfer of 3 bytes that takes as long as the other one, or that waits for a window, in either direction, with that direction's limit 4 (used up when it waits) or none; meanwhile another transfer of 2 bytes in the same direction (unless one waits) or in the other one, with a limit of 1 or 4 or none
//gosym:cover slow waits
//gosym:spin 2000
//gosym:loose
//gosym:stress 1
//gosym:native-ms 20000
func C31_Others() {
	rl := gio.NewRateLimitIO()
	first := vsym.Choose("first", 2) == 0
	second := vsym.Choose("second", 2) == 0
	waits := vsym.Choose("waits", 2) == 1
	limit := []int64{4, -1}[vsym.Choose("limit", 2)]
	if waits && (first == second || limit < 0) {
		vsym.Stop()
	}
	set(rl, first, limit)
	if first != second {
		set(rl, second, []int64{1, 4, -1}[vsym.Choose("other", 3)])
	}
	move := func(write bool, end interface {
		Write([]byte) (int, error)
		Read([]byte) (int, error)
	}, n int) {
		if write {
			rl.Write(end, make([]byte, n))
		} else {
			rl.Read(end, make([]byte, n))
		}
	}
	go rl.Run()
	vsym.Settle()
	g := &gate{open: make(chan bool), in: make(chan bool, 1)}
	ended := make(chan bool, 1)
	if waits {
		move(first, &sink{start: time.Now()}, 4)
		vsym.Cover("waits")
	}
	go func() {
		move(first, g, 3)
		ended <- true
	}()
	if waits {
		vsym.Yield()
	} else {
		<-g.in
		vsym.Cover("slow")
	}
	other := make(chan bool, 1)
	go func() {
		move(second, &sink{start: time.Now()}, 2)
		other <- true
	}()
	slow := time.After(700 * time.Millisecond)
	select {
	case <-other:
	case <-slow:
		vsym.Assert(false, "a transfer that may start waits for another one")
	}
	if waits {
		<-g.in
	}
	g.open <- true
	<-ended
}
