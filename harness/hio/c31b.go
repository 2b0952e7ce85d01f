package hio

import (
	"sync"
	"time"

	gio "gotor/io"
	"gotor/zzverif/vsym"
)

type tally struct {
	mu    sync.Mutex
	total int64
	bytes [256]int
}

func (t *tally) Write(b []byte) (int, error) {
	t.mu.Lock()
	t.total += int64(len(b))
	for _, c := range b {
		t.bytes[c]++
	}
	t.mu.Unlock()
	return len(b), nil
}

func (t *tally) Read(b []byte) (int, error) {
	t.mu.Lock()
	t.total += int64(len(b))
	t.mu.Unlock()
	for i := range b {
		b[i] = 7
	}
	return len(b), nil
}

func (t *tally) sum() int64 {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.total
}

// C31_Concurrent: callers that transfer at the same time, without a tick.
//
//gosym:bounds 2-3 callers with transfers of 1 to 3 bytes in one window, rates 1-6, two callers with up to 2 and three with 1 (thorough: one more) preemptions at any shared access or lock; then Run frees those who wait
//gosym:spin 2000
//gosym:race
//gosym:stress 100
//gosym:native-ms 20000
//gosym:cpu 250 2500
//gosym:paths 60000 600000
func C31_Concurrent() {
	write := vsym.Bool("write")
	rate := vsym.Range("rate", 1, 6)
	rl := gio.NewRateLimitIO()
	set(rl, write, rate)
	plans := [][]int{{3, 3}, {2, 2, 2}, {1, 3, 1}}
	plan := plans[vsym.Choose("plan", len(plans))]
	t := &tally{}
	vsym.Races()
	bound := 4 - len(plan)
	if vsym.Thorough() {
		bound++
	}
	vsym.Explore(bound)
	var wg sync.WaitGroup
	wg.Add(len(plan))
	for i, n := range plan {
		i, n := i, n
		go func() {
			b := make([]byte, n)
			for j := range b {
				b[j] = byte(i + 1)
			}
			if write {
				vsym.Assert(rl.Write(t, b) == nil, "a write fails")
			} else {
				vsym.Assert(rl.Read(t, b) == nil, "a read fails")
				for j := range b {
					vsym.Assert(b[j] == 7, "a read returns other data")
				}
			}
			wg.Done()
		}()
	}
	vsym.Settle()
	vsym.Sequential()
	// no tick was handled so far: everything is in one window
	max := 0
	all := 0
	for _, n := range plan {
		all += n
		if n > max {
			max = n
		}
	}
	got := t.sum()
	vsym.Assert(got < rate+int64(max), "a window admits more than the rate and one transfer")
	vsym.Assert(got >= rate || got == int64(all), "a transfer waits although the window has room")
	go rl.Run()
	wg.Wait()
	vsym.Assert(t.sum() == int64(all), "a transfer is not made exactly once")
	if write {
		for i, n := range plan {
			vsym.Assert(t.bytes[i+1] == n, "a write does not pass the caller's bytes on once")
		}
	}
	vsym.Assert(vsym.HeldLocks() == 0, "a lock stays held")
	rl.Stop()
	vsym.Settle()
	vsym.Assert(vsym.Alive() == 0, "Stop does not end Run")
}

// C31_Change: the limit changes while transfers are under way.
//
//gosym:bounds 2 callers with 1-2 transfers each, the rate going from 1 to no limit (or to 1 or 100) at any time, with up to 1 (thorough 2) preemptions at any shared access or lock
//gosym:spin 2000
//gosym:race
//gosym:stress 100
//gosym:native-ms 20000
//gosym:cpu 250 2500
//gosym:paths 60000 600000
func C31_Change() {
	write := vsym.Bool("write")
	rl := gio.NewRateLimitIO()
	set(rl, write, 1)
	to := []int64{-1, 1, 100}[vsym.Choose("to", 3)]
	go rl.Run()
	vsym.Settle()
	start := time.Now()
	t := &tally{}
	vsym.Races()
	bound := 1
	if vsym.Thorough() {
		bound = 2
	}
	vsym.Explore(bound)
	var wg sync.WaitGroup
	plan := []int{2, 1}
	wg.Add(len(plan) + 1)
	for _, k := range plan {
		k := k
		go func() {
			for ; k > 0; k-- {
				b := make([]byte, 1)
				if write {
					vsym.Assert(rl.Write(t, b) == nil, "a write fails")
				} else {
					vsym.Assert(rl.Read(t, b) == nil, "a read fails")
				}
			}
			wg.Done()
		}()
	}
	go func() {
		set(rl, write, to)
		wg.Done()
	}()
	wg.Wait()
	vsym.Assert(time.Since(start) < 5*time.Second, "a transfer is delayed past its turn")
	vsym.Assert(t.sum() == 3, "a transfer is not made exactly once")
	vsym.Sequential()
	vsym.Assert(vsym.HeldLocks() == 0, "a lock stays held")
	rl.Stop()
	vsym.Settle()
	vsym.Assert(vsym.Alive() == 0, "Stop does not end Run")
}
