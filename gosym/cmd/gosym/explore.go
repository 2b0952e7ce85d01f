package main

import (
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"

	"gosym/exec"
	"gosym/smt"
)

// hstate is the exploration state of one harness.
type hstate struct {
	h        *harness
	fn       *ssa.Function
	work     []exec.Work
	running  int
	cpu      float64
	maxCPU   float64
	maxPaths int
	done     bool

	paths, transitions int64
	steps              int64
	outcomes           map[string]int64
	details            map[string]int64
	reached, covers    map[string]bool
	incompl            map[string]int
	samples            []sample
	picks              int
	okSeen             int
	viol               map[string]*cand // by key
	dropped            int
	exhausted          bool
	funcs              map[string]int64
}

type sample struct {
	Inputs  map[string]string
	Obs     map[string]string
	Outcome string
	Sched   bool
}

// cand is a candidate violation: a concrete counterexample from the solver.
type cand struct {
	key  string
	h    *harness
	alts []*exec.Violation
	tier int
}

type explorer struct {
	mu       sync.Mutex
	cond     *sync.Cond
	hs       []*hstate
	prog     *exec.Program
	deadline time.Time
	thorough bool
	stop     bool
	rng      *rand.Rand
	onCand   func(c *cand, v *exec.Violation)
	stats    smt.Stats
	funcs    map[string]int64
	merges   int64
	terms    int64
	initN    map[string]int
	workers  int
	verbose  bool
	solverMS int
}

// pick prefers the harness the worker is already on: its solver then has most
// of the terms and of the path condition.
func (x *explorer) pick(cur *hstate) (*hstate, exec.Work, bool) {
	for {
		if x.stop || time.Now().After(x.deadline) {
			return nil, exec.Work{}, false
		}
		var best *hstate
		any := false
		for _, h := range x.hs {
			if h.running > 0 {
				any = true
			}
			if len(h.work) == 0 {
				continue
			}
			if h.cpu > h.maxCPU || int(h.paths) >= h.maxPaths {
				h.dropped += len(h.work)
				h.work = nil
				continue
			}
			if best == nil || h.cpu/h.maxCPU < best.cpu/best.maxCPU {
				best = h
			}
		}
		if cur != nil && len(cur.work) > 0 {
			best = cur
		}
		if best != nil {
			n := len(best.work) - 1
			// Mostly depth first; one pick in eight comes from anywhere, early
			// branches preferred, so that a budget that runs out has not been
			// spent on one corner.
			if best.picks++; best.picks%8 == 0 {
				u := x.rng.Float64()
				k := int(u * u * float64(n+1))
				best.work[k], best.work[n] = best.work[n], best.work[k]
			}
			w := best.work[n]
			best.work[n] = exec.Work{}
			best.work = best.work[:n]
			best.running++
			return best, w, true
		}
		if !any {
			return nil, exec.Work{}, false
		}
		x.cond.Wait()
	}
}

func (x *explorer) run() {
	x.cond = sync.NewCond(&x.mu)
	tick := time.NewTicker(200 * time.Millisecond)
	quit := make(chan bool)
	go func() {
		for {
			select {
			case <-tick.C:
				x.mu.Lock()
				x.cond.Broadcast()
				x.mu.Unlock()
			case <-quit:
				return
			}
		}
	}()
	var wg sync.WaitGroup
	for i := 0; i < x.workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			x.worker()
		}()
	}
	wg.Wait()
	close(quit)
	tick.Stop()
	for _, h := range x.hs {
		h.dropped += len(h.work)
		h.exhausted = h.dropped == 0 && h.running == 0
	}
}

func (x *explorer) worker() {
	// a machine for each of the last few harnesses
	ms := map[*hstate]*exec.Machine{}
	drop := func(k *hstate) {
		m := ms[k]
		s := m.Stats()
		x.mu.Lock()
		x.stats.Queries += s.Queries
		x.stats.SatN += s.SatN
		x.stats.UnsatN += s.UnsatN
		x.stats.UnknownN += s.UnknownN
		x.stats.Fallbacks += s.Fallbacks
		x.stats.ModelHits += s.ModelHits
		x.stats.Time += s.Time
		x.merges += m.Merges
		x.terms += int64(m.Terms())
		for k, v := range m.Funcs {
			x.funcs[k] += v
		}
		for k, v := range m.InitNotes {
			x.initN[k] += v
		}
		x.mu.Unlock()
		m.Close()
		delete(ms, k)
	}
	defer func() {
		for k := range ms {
			drop(k)
		}
	}()
	var cur *hstate
	for {
		x.mu.Lock()
		h, w, ok := x.pick(cur)
		x.mu.Unlock()
		if !ok {
			return
		}
		cur = h
		m := ms[h]
		if m == nil || m.Terms() > 6_000_000 {
			if m != nil {
				drop(h)
			}
			for k := range ms {
				if len(ms) >= 3 {
					drop(k)
				}
			}
			m = exec.NewMachine(x.prog, exec.Config{Thorough: x.thorough, StepLimit: h.h.Steps, SpinQuantum: h.h.SpinQuantum, Huge: h.h.Huge, SolverMS: x.solverMS})
			ms[h] = m
		}
		t0 := time.Now()
		m.Stop = func() bool {
			return x.stop || time.Now().After(x.deadline)
		}
		res := m.Run(h.fn, w)
		dt := time.Since(t0).Seconds()
		x.mu.Lock()
		x.record(h, res, dt, m)
		h.running--
		x.cond.Broadcast()
		x.mu.Unlock()
	}
}

func (x *explorer) record(h *hstate, r exec.PathResult, dt float64, m *exec.Machine) {
	h.cpu += dt
	h.steps += r.Steps
	h.work = append(h.work, r.Alts...)
	h.transitions += int64(r.Decs)
	if r.Outcome == "infeasible" {
		h.outcomes[r.Outcome]++
		return
	}
	h.paths++
	h.outcomes[r.Outcome]++
	if r.Outcome != "ok" {
		d := r.Outcome + ": " + r.Detail
		if len(d) > 400 && !exec.Debug {
			d = d[:400]
		}
		h.details[d]++
	}
	for k := range r.Reached {
		h.reached[k] = true
	}
	for k := range r.Covers {
		h.covers[k] = true
	}
	for _, s := range r.Incompl {
		h.incompl[s]++
	}
	if x.verbose && r.Outcome != "ok" {
		fmt.Fprintf(os.Stderr, "[%s] %s: %s\n", h.h.Name, r.Outcome, r.Detail)
	}
	// reservoir of paths for native replay; odd outcomes are kept too
	sm := sample{r.Inputs, r.Obs, r.Outcome, r.Sched}
	max := 8
	if x.thorough {
		max = 40
	}
	if n, err := strconv.Atoi(os.Getenv("GOSYM_SAMPLES")); err == nil {
		max = n
	}
	if len(r.Viol) == 0 || r.Outcome != "ok" {
		h.okSeen++
		if len(h.samples) < max {
			h.samples = append(h.samples, sm)
		} else if k := x.rng.Intn(h.okSeen); k < max {
			h.samples[k] = sm
		}
	}
	vs := r.Viol
	switch r.Outcome {
	case "limit":
		vs = append(vs, &exec.Violation{Kind: "hang", Msg: "no termination within the step bound: " + r.Detail, Where: r.Detail, Inputs: r.Inputs, Sched: r.Sched})
	case "exit":
		vs = append(vs, &exec.Violation{Kind: "exit", Msg: r.Detail, Where: r.Detail, Inputs: r.Inputs, Sched: r.Sched})
	}
	for _, v := range vs {
		k := h.h.Name + "|" + v.Kind + "|" + v.Msg + "|" + v.Known
		if v.Kind != "assert" {
			k += "|" + v.Where
		}
		c := h.viol[k]
		if c == nil {
			c = &cand{key: k, h: h.h}
			h.viol[k] = c
		}
		if len(c.alts) < 12 {
			c.alts = append(c.alts, v)
			if x.onCand != nil {
				x.onCand(c, v)
			}
		}
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
