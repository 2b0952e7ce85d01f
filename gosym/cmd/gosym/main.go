// gosym decides the properties of /verif/properties.jsonl by symbolic
// execution of the repository's code with an SMT solver.
//
//	gosym check C05      the registered check of one property
//	gosym run NAME...    explore single harnesses (development)
//	gosym replay FILE    run a recorded counterexample against the real code
//	gosym list
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"gosym/exec"
)

type known struct {
	ID       string `json:"id"`
	Property string `json:"property"`
	What     string `json:"what"`
	Where    string `json:"where"`
	Fixed    string `json:"fixed,omitempty"`
}

func loadKnown() (map[string]known, error) {
	r := map[string]known{}
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.json"))
	if os.IsNotExist(err) {
		return r, nil
	}
	if err != nil {
		return nil, err
	}
	var f struct {
		Findings []known `json:"findings"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		return nil, err
	}
	for _, k := range f.Findings {
		r[k.ID] = k
	}
	return r, nil
}

func main() {
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(7 << 30)
	go exec.WatchMemory()
	verbose := flag.Bool("v", false, "report every unusual path")
	cpu := flag.Float64("cpu", 0, "override the CPU budget of every harness (seconds)")
	nonative := flag.Bool("nonative", false, "no native runs")
	keep := flag.Bool("k", false, "keep going after a violation")
	workers := flag.Int("j", runtime.NumCPU(), "workers")
	wall := flag.Float64("wall", 0, "wall-clock limit (seconds)")
	dump := flag.Bool("dump", false, "print samples")
	flag.Parse()
	args := flag.Args()
	if len(args) == 0 {
		fmt.Fprintln(os.Stderr, "usage: gosym check ID | run NAME... | replay FILE | list")
		os.Exit(2)
	}
	all, err := scan()
	if err != nil {
		fmt.Fprintln(os.Stderr, "gosym:", err)
		os.Exit(2)
	}
	thorough := os.Getenv("VERIF_TIER") == "thorough"
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	switch args[0] {
	case "list":
		for _, h := range all {
			fmt.Println(h.Prop, h.Pkg, h.Name)
		}
		return
	case "replay":
		os.Exit(replay(all, args[1]))
	case "check", "run":
	default:
		fmt.Fprintln(os.Stderr, "unknown command", args[0])
		os.Exit(2)
	}
	var hs []*harness
	for _, h := range all {
		take := false
		for _, a := range args[1:] {
			if args[0] == "check" && h.Prop == a && (thorough || !h.ThoroughOnly) {
				take = true
			}
			if args[0] == "run" {
				if ok, _ := regexp.MatchString("^(?:"+a+")$", h.Name); ok {
					take = true
				}
			}
		}
		if take {
			if *cpu > 0 {
				h.CPUQ, h.CPUT = *cpu, *cpu
			}
			if *nonative {
				h.NoNative = true
			}
			hs = append(hs, h)
		}
	}
	if len(hs) == 0 {
		fmt.Fprintln(os.Stderr, "no such harness")
		os.Exit(2)
	}
	c := &checker{hs: hs, thorough: thorough, seed: seed, prop: args[1], verbose: *verbose, keep: *keep, workers: *workers, dump: *dump, isCheck: args[0] == "check"}
	c.wall = 420
	if thorough {
		c.wall = 3300
	}
	if *wall > 0 {
		c.wall = *wall
	}
	os.Exit(c.main())
}

type checker struct {
	hs       []*harness
	thorough bool
	seed     int64
	prop     string
	verbose  bool
	keep     bool
	isCheck  bool
	dump     bool
	workers  int
	wall     float64

	nat   *native
	x     *explorer
	kn    map[string]known
	start time.Time

	mu        sync.Mutex
	violation *confirmed
	found     []*confirmed
	knownSeen map[string]*confirmed
	unconf    map[string]string
	natRuns   int
	natMatch  int
	natOther  int
	mismatch  []string
	inconcl   []string
	queue     chan candJob
	done      map[string]int // per candidate key: attempts
	confirmed map[string]bool
	wg        sync.WaitGroup
}

type candJob struct {
	c *cand
	v *exec.Violation
}

type confirmed struct {
	H      *harness
	V      *exec.Violation
	How    string
	Native nresult
	Path   string
}

func (c *checker) main() int {
	c.start = time.Now()
	c.knownSeen = map[string]*confirmed{}
	c.unconf = map[string]string{}
	c.done = map[string]int{}
	c.confirmed = map[string]bool{}
	var err error
	if c.kn, err = loadKnown(); err != nil {
		fmt.Fprintln(os.Stderr, "gosym: known findings:", err)
		return 2
	}
	c.nat, err = newNative(c.hs)
	if err != nil {
		fmt.Fprintln(os.Stderr, "gosym:", err)
		return 2
	}
	defer c.nat.close()
	go c.nat.binary(false)
	for _, h := range c.hs {
		if h.Race {
			go c.nat.binary(true)
			break
		}
	}
	pk := map[string]bool{}
	var pkgs []string
	for _, h := range c.hs {
		if !pk[h.Pkg] {
			pk[h.Pkg] = true
			pkgs = append(pkgs, h.Pkg)
		}
	}
	P, sp, err := load(pkgs)
	if err != nil {
		fmt.Fprintln(os.Stderr, "gosym: cannot load:", err)
		return 2
	}
	loadS := time.Since(c.start).Seconds()
	x := &explorer{prog: P, thorough: c.thorough, rng: rand.New(rand.NewSource(c.seed)), funcs: map[string]int64{}, initN: map[string]int{},
		workers: c.workers, verbose: c.verbose, solverMS: 10000}
	if c.thorough {
		x.solverMS = 60000
	}
	c.x = x
	x.deadline = c.start.Add(time.Duration(c.wall * float64(time.Second)))
	for _, h := range c.hs {
		fn := sp[h.Pkg].Func(h.Name)
		if fn == nil {
			fmt.Fprintln(os.Stderr, "gosym: no function", h.Name)
			return 2
		}
		hst := &hstate{h: h, fn: fn, work: []exec.Work{{}}, outcomes: map[string]int64{}, details: map[string]int64{}, reached: map[string]bool{},
			covers: map[string]bool{}, incompl: map[string]int{}, viol: map[string]*cand{}, maxCPU: h.CPUQ, maxPaths: h.PathsQ}
		if c.thorough {
			hst.maxCPU, hst.maxPaths = h.CPUT, h.PathsT
		}
		x.hs = append(x.hs, hst)
	}
	c.queue = make(chan candJob, 100000)
	for i := 0; i < 4; i++ {
		c.wg.Add(1)
		go c.confirmer()
	}
	x.onCand = func(cd *cand, v *exec.Violation) {
		c.queue <- candJob{cd, v}
	}
	x.run()
	close(c.queue)
	c.wg.Wait()
	exploreS := time.Since(c.start).Seconds() - loadS
	if c.violation == nil || c.keep {
		c.validate()
	}
	code := c.report(loadS, exploreS)
	return code
}

func (c *checker) stopped() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.violation != nil && !c.keep
}

func (c *checker) confirmer() {
	defer c.wg.Done()
	for j := range c.queue {
		if c.stopped() {
			continue
		}
		c.mu.Lock()
		skip := c.confirmed[j.c.key] || c.done[j.c.key] >= 8
		c.done[j.c.key]++
		first := c.done[j.c.key] == 1
		c.mu.Unlock()
		if skip {
			continue
		}
		cf, why := c.confirm(j.c.h, j.v, first)
		c.mu.Lock()
		if cf == nil {
			b, _ := json.Marshal(j.v.Inputs)
			c.unconf[j.c.key] = why + " inputs " + trunc(string(b), 300)
			c.mu.Unlock()
			continue
		}
		c.confirmed[j.c.key] = true
		delete(c.unconf, j.c.key)
		c.mu.Unlock()
		c.add(cf)
	}
}

// add records a confirmed finding.
func (c *checker) add(cf *confirmed) {
	c.mu.Lock()
	defer c.mu.Unlock()
	id := cf.V.Known
	if k, ok := c.kn[id]; ok && id != "" && k.Property == cf.H.Prop && k.Fixed == "" {
		if c.knownSeen[id] == nil {
			c.knownSeen[id] = cf
		}
		return
	}
	c.found = append(c.found, cf)
	if c.violation == nil {
		c.violation = cf
	}
	if !c.keep {
		c.x.mu.Lock()
		c.x.stop = true
		c.x.mu.Unlock()
	}
}

// confirm replays a solver counterexample against the real code.
func (c *checker) confirm(h *harness, v *exec.Violation, first bool) (*confirmed, string) {
	if h.NoNative {
		return &confirmed{H: h, V: v, How: "engine only"}, ""
	}
	n := 1
	if v.Sched || h.Loose || v.Kind == "race" {
		n = h.Stress
		if !first {
			n = 3
		}
	}
	race := v.Kind == "race"
	last := ""
	t0 := time.Now()
	for i := 0; i < n; i++ {
		if c.stopped() {
			return nil, "stopped"
		}
		if i > 0 && time.Since(t0) > 40*time.Second {
			break
		}
		r := c.nat.run(h, v.Inputs, race, c.thorough, 0)
		c.mu.Lock()
		c.natRuns++
		c.mu.Unlock()
		ok := false
		switch r.Outcome {
		case "assert":
			ok = true
			vv := *v
			if r.Msg != v.Msg || r.Known != v.Known {
				// what the real code shows counts
				vv.Msg, vv.Known = r.Msg, r.Known
			}
			v = &vv
		case "panic", "race":
			ok = true
			if v.Known != "" {
				vv := *v
				vv.Known = ""
				v = &vv
			}
		case "hang":
			// also: what must come soon does not come
			ok = v.Kind == "hang" || v.Kind == "deadlock" || v.Kind == "assert"
		case "deadlock":
			// also: what the engine sees held is waited for at the end
			ok = v.Kind == "hang" || v.Kind == "deadlock" || v.Kind == "assert"
		case "exit":
			ok = v.Kind == "exit"
		}
		if ok {
			return &confirmed{H: h, V: v, How: "native", Native: r}, ""
		}
		last = r.Outcome + " " + r.Msg
	}
	if v.Sched || v.Kind == "race" {
		// the schedule cannot be forced natively: replay it in the engine,
		// which runs the real code's instructions deterministically
		if c.engineReplay(h, v) {
			return &confirmed{H: h, V: v, How: "schedule replayed in the engine (native attempts: " + strconv.Itoa(n) + ")"}, ""
		}
	}
	return nil, "native run: " + last
}

func (c *checker) engineReplay(h *harness, v *exec.Violation) bool {
	fn := (*hstate)(nil)
	for _, s := range c.x.hs {
		if s.h == h {
			fn = s
		}
	}
	m := exec.NewMachine(c.x.prog, exec.Config{Thorough: c.thorough, StepLimit: h.Steps, SpinQuantum: h.SpinQuantum, Huge: h.Huge, SolverMS: c.x.solverMS})
	defer m.Close()
	r := m.Run(fn.fn, exec.Work{Prefix: v.Prefix})
	for _, w := range r.Viol {
		if w.Kind == v.Kind && w.Msg == v.Msg {
			return true
		}
	}
	return v.Kind == "hang" && r.Outcome == "limit"
}

// validate replays sampled paths natively and compares the engine's
// prediction with what the real code does.
func (c *checker) validate() {
	type job struct {
		h *hstate
		s sample
	}
	var jobs []job
	for _, h := range c.x.hs {
		if h.h.NoNative {
			continue
		}
		for _, s := range h.samples {
			jobs = append(jobs, job{h, s})
		}
	}
	var wg sync.WaitGroup
	ch := make(chan job)
	for i := 0; i < 6; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				c.validateOne(j.h, j.s)
			}
		}()
	}
	for _, j := range jobs {
		if c.stopped() {
			break
		}
		ch <- j
	}
	close(ch)
	wg.Wait()
}

func (c *checker) validateOne(h *hstate, s sample) {
	r := c.nat.run(h.h, s.Inputs, false, c.thorough, 0)
	c.mu.Lock()
	c.natRuns++
	c.mu.Unlock()
	for i := 0; i < 2 && s.Outcome == "ok" && !h.h.Loose && r.Outcome != "ok"; i++ {
		// a busy machine may have upset a run that involves real time
		r = c.nat.run(h.h, s.Inputs, false, c.thorough, 0)
	}
	bad := func(f string, a ...any) {
		c.mu.Lock()
		defer c.mu.Unlock()
		if len(c.mismatch) < 20 {
			b, _ := json.Marshal(s.Inputs)
			c.mismatch = append(c.mismatch, h.h.Name+": "+fmt.Sprintf(f, a...)+" inputs "+trunc(string(b), 300))
		}
	}
	match := func() {
		c.mu.Lock()
		c.natMatch++
		c.mu.Unlock()
	}
	switch r.Outcome {
	case "assert", "panic":
		if s.Outcome == "panic" && r.Outcome == "panic" {
			match()
			return
		}
		if h.h.Loose && r.Outcome == "assert" {
			return
		}
		v := &exec.Violation{Kind: r.Outcome, Msg: r.Msg, Known: r.Known, Inputs: s.Inputs}
		if s.Outcome == "ok" && !s.Sched && r.Known == "" {
			bad("engine ok, native %s %s", r.Outcome, r.Msg)
		}
		c.add(&confirmed{H: h.h, V: v, How: "native run of a solver model", Native: r})
	case "ok":
		if s.Outcome != "ok" {
			c.mu.Lock()
			c.natOther++
			c.mu.Unlock()
			return
		}
		if h.h.Loose || s.Sched {
			match()
			return
		}
		for k, v := range s.Obs {
			if r.Obs[k] != v {
				bad("%s: engine %s, native %s", k, trunc(v, 200), trunc(r.Obs[k], 200))
				return
			}
		}
		for k := range r.Obs {
			if _, ok := s.Obs[k]; !ok {
				bad("%s only natively", k)
				return
			}
		}
		match()
	case "hang", "deadlock":
		if s.Outcome == "limit" || s.Outcome == "deadlock" {
			match()
			return
		}
		if s.Outcome == "ok" {
			bad("engine ok, native %s %s", r.Outcome, r.Msg)
			return
		}
		// outside the engine's reach, but the real code does not end
		if !h.h.Loose && !s.Sched {
			r2 := c.nat.run(h.h, s.Inputs, false, c.thorough, 3*h.h.NativeMS)
			if r2.Outcome == "hang" || r2.Outcome == "deadlock" {
				c.add(&confirmed{H: h.h, V: &exec.Violation{Kind: "hang", Msg: "does not end: " + s.Outcome, Inputs: s.Inputs}, How: "native run of a solver model", Native: r2})
			}
		}
	case "assume":
		if s.Outcome == "ok" {
			bad("assumption fails natively: %s", r.Msg)
		}
	default:
		bad("native %s %s", r.Outcome, trunc(r.Msg, 2000))
	}
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

type replayFile struct {
	Property string            `json:"property"`
	Harness  string            `json:"harness"`
	Kind     string            `json:"kind"`
	Message  string            `json:"message"`
	Where    string            `json:"where,omitempty"`
	How      string            `json:"confirmed_by"`
	Inputs   map[string]string `json:"inputs"`
	Native   string            `json:"native,omitempty"`
	Stderr   string            `json:"stderr,omitempty"`
	Schedule []exec.Dec        `json:"decisions,omitempty"`
	Command  string            `json:"command"`
}

func (c *checker) writeReplay(cf *confirmed, tag string) string {
	dir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(dir, 0755)
	p := filepath.Join(dir, fmt.Sprintf("replay-%s-%s%s.json", cf.H.Prop, cf.H.Name, tag))
	rf := replayFile{Property: cf.H.Prop, Harness: cf.H.Name, Kind: cf.V.Kind, Message: cf.V.Msg, Where: cf.V.Where, How: cf.How, Inputs: cf.V.Inputs,
		Native: cf.Native.Outcome + " " + cf.Native.Msg, Stderr: trunc(cf.Native.Stderr, 4000), Command: "bin/gosym replay " + p}
	if cf.V.Sched {
		rf.Schedule = cf.V.Prefix
	}
	b, _ := json.MarshalIndent(rf, "", " ")
	os.WriteFile(p, b, 0644)
	return p
}

func replay(all []*harness, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, h := range all {
		if h.Name == rf.Harness {
			n, err := newNative([]*harness{h})
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				return 2
			}
			defer n.close()
			r := n.run(h, rf.Inputs, rf.Kind == "race", false, 0)
			fmt.Printf("%s: %s %s\n%s\n", h.Name, r.Outcome, r.Msg, r.Stderr)
			if r.Outcome != "ok" {
				return 1
			}
			return 0
		}
	}
	return 2
}

func (c *checker) report(loadS, exploreS float64) int {
	x := c.x
	var paths, trans, steps int64
	type hrep struct {
		Name       string           `json:"harness"`
		Bounds     []string         `json:"bounds"`
		Paths      int64            `json:"paths"`
		Outcomes   map[string]int64 `json:"outcomes"`
		Exhaustive bool             `json:"exhausted_within_bounds"`
		Dropped    int              `json:"unexplored_alternatives,omitempty"`
		CPU        float64          `json:"cpu_s"`
		Details    map[string]int64 `json:"non_ok_paths,omitempty"`
		Incompl    map[string]int   `json:"limits_hit,omitempty"`
		Reached    []string         `json:"reached,omitempty"`
	}
	var hr []hrep
	exh := true
	var samples []any
	assume := map[string]bool{}
	vacuous := []string{}
	for _, h := range x.hs {
		paths += h.paths
		trans += h.transitions
		steps += h.steps
		r := hrep{Name: h.h.Name, Bounds: h.h.Bounds, Paths: h.paths, Outcomes: h.outcomes, Exhaustive: h.exhausted, Dropped: h.dropped, CPU: round(h.cpu), Incompl: h.incompl}
		r.Reached = sortedKeys(h.covers)
		odd := int64(0)
		for k, v := range h.outcomes {
			if k != "ok" && k != "infeasible" {
				odd += v
			}
		}
		r.Details = map[string]int64{}
		i := 0
		for _, k := range sortedKeys(h.details) {
			if i++; i < 10 {
				r.Details[k] = h.details[k]
			}
		}
		if !h.exhausted || odd > 0 {
			exh = false
			r.Exhaustive = false
		}
		hr = append(hr, r)
		for i, s := range h.samples {
			if i < 3 {
				in := map[string]string{}
				for k, v := range s.Inputs {
					in[k] = trunc(v, 200)
				}
				samples = append(samples, map[string]any{"harness": h.h.Name, "inputs": in, "outcome": s.Outcome})
			}
		}
		for _, a := range h.h.Assume {
			assume[a] = true
		}
		if c.violation == nil {
			for _, cv := range h.h.Cover {
				if !h.covers[cv] {
					vacuous = append(vacuous, h.h.Name+" never reached "+cv)
				}
			}
			if h.outcomes["ok"] == 0 {
				vacuous = append(vacuous, h.h.Name+" has no completed path")
			}
		}
		if c.dump {
			for _, s := range h.samples {
				b, _ := json.Marshal(s)
				fmt.Println(h.h.Name, trunc(string(b), 1500))
			}
		}
		fmt.Printf("%-34s paths %d %v exhausted=%v cpu=%.1fs\n", h.h.Name, h.paths, h.outcomes, h.exhausted, h.cpu)
		for _, k := range sortedKeys(h.details) {
			fmt.Printf("    %6d %s\n", h.details[k], trunc(k, lim()))
		}
		for _, k := range sortedKeys(h.incompl) {
			fmt.Printf("    limit: %6d %s\n", h.incompl[k], trunc(k, lim()))
		}
	}
	var fl []string
	for k := range x.funcs {
		if strings.HasPrefix(k, "gotor/") || strings.Contains(k, "(*gotor/") || strings.Contains(k, "(gotor/") || strings.Contains(k, " gotor/") {
			if !strings.Contains(k, "zzverif") {
				fl = append(fl, k)
			}
		}
	}
	sort.Strings(fl)
	if len(samples) == 0 {
		samples = append(samples, "no completed path")
	}
	for _, k := range sortedKeys(c.unconf) {
		fmt.Println("INCONCLUSIVE (counterexample not reproduced on the real code):", trunc(k, 300), "--", trunc(c.unconf[k], 600))
	}
	for _, s := range c.mismatch {
		fmt.Println("TRANSLATION MISMATCH:", trunc(s, 1000))
	}
	for _, s := range vacuous {
		fmt.Println("VACUOUS:", s)
	}
	st := x.stats
	cov := map[string]any{
		"states": paths, "transitions": trans, "traces_validated_against_impl": c.natMatch, "samples": samples,
		"exhaustive":              exh && c.violation == nil,
		"what":                    "states = feasible symbolic paths of the harnesses over the real code (each stands for all inputs satisfying its path condition), transitions = solver-decided branch, schedule and fault decisions",
		"harnesses":               hr,
		"functions_encoded":       fl,
		"ssa_instructions":        steps,
		"queries":                 map[string]int64{"total": int64(st.Queries), "sat": int64(st.SatN), "unsat": int64(st.UnsatN), "unknown": int64(st.UnknownN), "decided_by_cached_model": int64(st.ModelHits), "second_solver": int64(st.Fallbacks)},
		"solver_s":                round(st.Time.Seconds()),
		"merged_branches":         x.merges,
		"native_runs":             c.natRuns,
		"native_mismatches":       c.mismatch,
		"unconfirmed":             c.unconf,
		"vacuity":                 vacuous,
		"native_ok_beyond_engine": c.natOther,
		"load_s":                  round(loadS), "explore_s": round(exploreS),
	}
	as := []string{}
	for k := range assume {
		as = append(as, k)
	}
	sort.Strings(as)
	as = append(as, "the Go standard library functions replaced by models behave as modelled (os files, net connections, net/http transport, crypto/sha1 as a collision-free function, clocks, math/rand); everything else is executed from its SSA",
		"go/ssa translates the sources faithfully; sampled paths are replayed natively and compared")
	nv := 0
	for _, id := range sortedKeys(c.knownSeen) {
		cf := c.knownSeen[id]
		p := c.writeReplay(cf, "-known-"+id)
		fmt.Printf("KNOWN-FINDING: property=%s %s (%s; replay %s)\n", cf.H.Prop, c.kn[id].What, id, p)
	}
	cov["known_findings"] = sortedKeys(c.knownSeen)
	if c.violation != nil {
		nv = len(c.found)
	}
	tier := "quick"
	if c.thorough {
		tier = "thorough"
	}
	ev := map[string]any{"property": c.prop, "tier": tier, "seed": c.seed, "level": "model_checking", "coverage": cov, "assumptions": as,
		"wall_s": round(time.Since(c.start).Seconds()), "violations": nv}
	if c.isCheck {
		os.MkdirAll(filepath.Join(verifDir, "evidence"), 0755)
		b, err := json.MarshalIndent(ev, "", " ")
		if err == nil {
			err = os.WriteFile(filepath.Join(verifDir, "evidence", c.prop+".json"), b, 0644)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "gosym: evidence:", err)
			return 2
		}
	}
	fmt.Printf("%s: %d paths, %d queries (%.1fs solver), %d native runs (%d agree), %.1fs\n", c.prop, paths, st.Queries, st.Time.Seconds(), c.natRuns, c.natMatch, time.Since(c.start).Seconds())
	if len(x.initN) > 0 && c.verbose {
		for _, k := range sortedKeys(x.initN) {
			fmt.Println("init:", k)
		}
	}
	if c.violation == nil {
		return 0
	}
	list := c.found
	if !c.keep {
		list = []*confirmed{c.violation}
	}
	for i, cf := range list {
		tag := ""
		if i > 0 {
			tag = "-" + strconv.Itoa(i)
		}
		p := c.writeReplay(cf, tag)
		fmt.Printf("  %s %s: %s [%s] %s\n", cf.H.Name, cf.V.Kind, cf.V.Msg, cf.How, trunc(cf.V.Where, 300))
		b, _ := json.Marshal(cf.V.Inputs)
		fmt.Printf("  inputs %s\n", trunc(string(b), 800))
		fmt.Printf("VIOLATION property=%s replay=%s\n", cf.H.Prop, p)
	}
	return 1
}

func round(f float64) float64 { return float64(int(f*100+0.5)) / 100 }

func lim() int {
	if exec.Debug {
		return 5000
	}
	return 250
}
