package exec

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"

	"gosym/smt"
)

// Program is the shared, read-only input of all machines.
type Program struct {
	SSA    *ssa.Program
	Models *ssa.Package // package of Go-source models
	Vsym   string       // import path of the vsym package
	Sizes  types.Sizes
}

type Config struct {
	StepLimit   int64
	DepthLimit  int
	Thorough    bool
	SolverMS    int
	ConcMax     int // distinct values one concretisation may enumerate
	NoMerge     bool
	Trace       bool
	SpinQuantum int64
	Huge        bool // slices of up to 2^32 bytes, read-only
}

// Machine executes paths; one per worker.
type Machine struct {
	P      *Program
	cfg    Config
	ctx    *smt.Ctx
	solver *smt.Solver

	tcache map[types.Type]*tinfo
	tmap   typeutil.Map
	sizes  types.Sizes
	fns    map[*ssa.Function]*fnInfo
	glob   map[*ssa.Global]*value
	pkgs   map[*ssa.Package]int // 1 running, 2 done

	undo    []undoEnt
	logging bool
	initing int

	path *Path
	sch  *sched
	race *raceDet

	Funcs     map[string]int64 // executed functions of the program under test
	InitNotes map[string]int
	spec      int
	mergeFail map[any]int
	Merges    int64
	needInit  *code
	Stop      func() bool
	tErrStr   *tinfo
	uniques   map[string]*value
}

type dkind uint8

const (
	dBranch    dkind = iota // v = 0/1, constraint added
	dImplied                // v = 0/1, other side infeasible
	dConcYes                // t == v
	dConcNo                 // t != v
	dChoice                 // v of n
	dMerge                  // branch if-converted
	dMergeCall              // v = 1: call summarised
)

type Dec struct {
	K dkind
	V uint64
	W string `json:",omitempty"` // where, in debug mode
}

// dbg describes a decision in debug mode and reports the first divergence of
// a replay.
func (m *Machine) dbg(what string, c T) string {
	if !Debug {
		return ""
	}
	w := what
	if m.sch.cur != nil && m.sch.cur.top != nil {
		w += " " + m.sch.cur.top.where()
	}
	if c != nil {
		w += " " + c.Show(6)
	}
	p := m.path
	if p.pos < len(p.prefix) && p.prefix[p.pos].W != "" && p.prefix[p.pos].W != w && !p.flags["div"] {
		p.flags["div"] = true
		fmt.Fprintf(os.Stderr, "DIVERGED at decision %d of %d:\n  was %v\n  now %s\n", p.pos, len(p.prefix), p.prefix[p.pos], w)
	}
	return w
}

type Input struct {
	Name  string
	Kind  string // "int" or "bytes"
	Terms []T
	Sign  bool
}

type Violation struct {
	Kind   string // assert, panic, deadlock, hang, race
	Msg    string
	Known  string // known-finding id of the region, if any
	Inputs map[string]string
	Prefix []Dec
	Where  string
	Sched  bool // depends on explored scheduling decisions
}

// Path is the state of one execution.
type Path struct {
	prefix   []Dec
	pos      int
	trace    []Dec
	pc       []T
	maps     [][]byte       // memory of huge slices
	ptrs     map[*value]int // addresses shown by %p
	pcSet    map[int32]bool
	bounds   map[int32][2]uint64
	model    smt.Model
	ev       *smt.Evaluator
	steps    int64
	inputs   []*Input
	names    map[string]int
	obs      []obsEnt
	reached  map[string]bool
	covers   map[string]bool
	viol     []*Violation
	alts     []Work
	outcome  string
	detail   string
	noModel  bool // no usable solver model (unknown)
	incompl  []string
	hashes   []hashEnt
	decs     map[T][]T // digits of numbers already formatted
	wgState  map[*value]*wgState
	muState  map[*value]*muState
	conds    map[*value]*condState
	floatFmt []T
	symDig   bool
	mapOrder bool
	symNow   T
	nowCalls int
	hostFS   bool
	flags    map[string]bool
	schedDec bool
	preempts int
}

type obsEnt struct {
	label string
	kind  string
	terms []T
}

type Work struct {
	Prefix []Dec
	Model  smt.Model
}

type abortKind int

const (
	abInfeasible abortKind = iota
	abUnsupported
	abSteps
	abDepth
	abExit
	abKilled
	abStop
	abUnknown
	abDeadlock
	abMem
)

type abort struct {
	k   abortKind
	msg string
}

type targetPanic struct {
	v     iface
	where string
}

func NewMachine(p *Program, cfg Config) *Machine {
	if cfg.StepLimit == 0 {
		cfg.StepLimit = 30_000_000
	}
	if cfg.DepthLimit == 0 {
		cfg.DepthLimit = 60000
	}
	if cfg.SolverMS == 0 {
		cfg.SolverMS = 10000
	}
	if cfg.ConcMax == 0 {
		cfg.ConcMax = 300
	}
	if cfg.SpinQuantum == 0 {
		cfg.SpinQuantum = 5000
	}
	m := &Machine{P: p, cfg: cfg, ctx: smt.NewCtx(), solver: smt.NewSolver(cfg.SolverMS),
		tcache: map[types.Type]*tinfo{}, fns: map[*ssa.Function]*fnInfo{}, glob: map[*ssa.Global]*value{},
		pkgs: map[*ssa.Package]int{}, sizes: p.Sizes, Funcs: map[string]int64{}, InitNotes: map[string]int{}, mergeFail: map[any]int{}}
	return m
}

func (m *Machine) Close()               { m.solver.Close() }
func (m *Machine) Stats() smt.Stats     { return m.solver.Stats }
func (m *Machine) Terms() int           { return m.ctx.NumTerms() }
func (m *Machine) unsupported(s string) { panic(&abort{abUnsupported, s}) }

func (m *Machine) errStr() *tinfo {
	if m.tErrStr == nil {
		rt := m.P.SSA.ImportedPackage("runtime")
		m.tErrStr = m.ti(rt.Type("errorString").Type())
	}
	return m.tErrStr
}

func (m *Machine) rtPanic(msg string) {
	panic(&targetPanic{v: iface{m.errStr(), msg}})
}

// ---------------------------------------------------------------- decisions

func (m *Machine) addPC(c T) {
	p := m.path
	// split conjunctions so that slicing works on small parts
	if c.Op == smt.OAnd {
		m.addPC(c.A)
		m.addPC(c.B)
		return
	}
	if p.pcSet[c.ID] || c.IsTrue() {
		return
	}
	p.pcSet[c.ID] = true
	p.pc = append(p.pc, c)
	switch c.Op {
	case smt.OUlt:
		if c.B.Op == smt.OConst && c.B.K > 0 {
			p.bound(c.A, 0, c.B.K-1)
		}
		if c.A.Op == smt.OConst {
			p.bound(c.B, c.A.K+1, c.B.Hi)
		}
	case smt.OEq:
		if c.A.Op == smt.OConst && c.A.W > 0 && !c.A.Fp {
			p.bound(c.B, c.A.K, c.A.K)
		} else if c.B.Op == smt.OConst && c.B.W > 0 && !c.B.Fp {
			p.bound(c.A, c.B.K, c.B.K)
		}
	}
}

// bound narrows what the path condition says about one term.
func (p *Path) bound(t T, lo, hi uint64) {
	b, ok := p.bounds[t.ID]
	if !ok {
		b = [2]uint64{t.Lo, t.Hi}
	}
	if lo > b[0] {
		b[0] = lo
	}
	if hi < b[1] {
		b[1] = hi
	}
	p.bounds[t.ID] = b
}

func (p *Path) boundsOf(t T) (uint64, uint64) {
	if b, ok := p.bounds[t.ID]; ok {
		return b[0], b[1]
	}
	return t.Lo, t.Hi
}

func (m *Machine) known(c T) (bool, bool) {
	if c.IsConst() {
		return c.K == 1, true
	}
	p := m.path
	if p.pcSet[c.ID] {
		return true, true
	}
	if p.pcSet[m.ctx.Not(c).ID] {
		return false, true
	}
	switch c.Op {
	case smt.OUlt, smt.OUle:
		al, ah := p.boundsOf(c.A)
		bl, bh := p.boundsOf(c.B)
		if c.Op == smt.OUlt {
			if ah < bl {
				return true, true
			}
			if al >= bh {
				return false, true
			}
		} else {
			if ah <= bl {
				return true, true
			}
			if al > bh {
				return false, true
			}
		}
	case smt.OEq:
		if c.A.W > 0 && !c.A.Fp && !c.B.Fp {
			al, ah := p.boundsOf(c.A)
			bl, bh := p.boundsOf(c.B)
			if ah < bl || bh < al {
				return false, true
			}
			if al == ah && bl == bh && al == bl {
				return true, true
			}
		}
	case smt.ONot:
		if c.A.Op == smt.OEq {
			v, ok := m.known(c.A)
			return !v, ok
		}
	}
	return false, false
}

func (m *Machine) setModel(md smt.Model) {
	m.path.model = md
	m.path.ev = smt.NewEval(md)
}

// branch decides a condition, scheduling the other side when it is feasible.
func (m *Machine) branch(c T) bool {
	if v, ok := m.known(c); ok {
		return v
	}
	if m.initing > 0 {
		m.unsupported("symbolic branch during package initialisation")
	}
	m.noSpec()
	p := m.path
	w := m.dbg("branch", c)
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.pos++
		p.trace = append(p.trace, d)
		switch d.K {
		case dBranch, dImplied:
			if d.V == 1 {
				m.addPC(c)
			} else {
				m.addPC(m.ctx.Not(c))
			}
			return d.V == 1
		}
		panic(&abort{abUnsupported, "replay diverged (branch)"})
	}
	side := p.ev.Eval(c) == 1
	cur, oth := c, m.ctx.Not(c)
	if !side {
		cur, oth = oth, cur
	}
	r, md := m.solver.Check(p.pc, oth, p.model)
	v := uint64(0)
	if side {
		v = 1
	}
	switch r {
	case smt.Sat:
		m.pushAlt(Dec{dBranch, 1 - v, w}, md)
		p.trace = append(p.trace, Dec{dBranch, v, w})
	case smt.Unsat:
		p.trace = append(p.trace, Dec{dImplied, v, w})
	default:
		p.incompl = append(p.incompl, "solver returned unknown on a branch")
		p.trace = append(p.trace, Dec{dBranch, v, w})
	}
	p.pos = len(p.trace)
	p.prefix = p.trace
	m.addPC(cur)
	return side
}

// noSpec gives up a speculation that would need a decision.
func (m *Machine) noSpec() {
	if m.spec > 0 {
		panic(specAbort{})
	}
}

func (m *Machine) pushAlt(d Dec, md smt.Model) {
	p := m.path
	pre := make([]Dec, len(p.trace)+1)
	copy(pre, p.trace)
	pre[len(p.trace)] = d
	p.alts = append(p.alts, Work{pre, md})
}

func (m *Machine) assume(c T) {
	if v, ok := m.known(c); ok {
		if !v {
			panic(&abort{abInfeasible, "assumption"})
		}
		return
	}
	m.noSpec()
	p := m.path
	if p.pos < len(p.prefix) || p.ev.Eval(c) == 1 {
		// inside the prefix the carried model satisfies the assumption
		if p.ev.Eval(c) == 1 {
			m.addPC(c)
			return
		}
	}
	r, md := m.solver.Check(p.pc, c, p.model)
	switch r {
	case smt.Sat:
		m.setModel(md)
		m.addPC(c)
	case smt.Unsat:
		panic(&abort{abInfeasible, "assumption"})
	default:
		panic(&abort{abUnknown, "solver returned unknown on an assumption"})
	}
}

// concretize enumerates the feasible values of t.
func (m *Machine) concretize(t T) uint64 {
	if t.IsConst() {
		return t.K
	}
	m.noSpec()
	if m.initing > 0 {
		m.unsupported("symbolic value during package initialisation")
	}
	p := m.path
	c := m.ctx
	cnt := 0
	for {
		// a value the path condition already fixes is no decision, on the
		// first run and on a replay alike
		kv := p.ev.Eval(t)
		if v, ok := m.known(c.Eq(t, c.BV(kv, t.W))); ok && v {
			return kv
		}
		w := m.dbg("value", t)
		if p.pos < len(p.prefix) {
			d := p.prefix[p.pos]
			p.pos++
			p.trace = append(p.trace, d)
			e := c.Eq(t, c.BV(d.V, t.W))
			switch d.K {
			case dConcYes:
				m.addPC(e)
				return d.V
			case dConcNo:
				m.addPC(c.Not(e))
				cnt++
				continue
			}
			panic(&abort{abUnsupported, "replay diverged (value)"})
		}
		v := kv
		e := c.Eq(t, c.BV(v, t.W))
		if cnt >= m.cfg.ConcMax {
			p.incompl = append(p.incompl, fmt.Sprintf("more than %d values of one size or index in %s", m.cfg.ConcMax, m.sch.cur.top.where()))
		} else {
			r, md := m.solver.Check(p.pc, c.Not(e), p.model)
			switch r {
			case smt.Sat:
				m.pushAlt(Dec{K: dConcNo, V: v, W: w}, md)
			case smt.Unknown:
				p.incompl = append(p.incompl, "solver returned unknown on a value")
			}
		}
		p.trace = append(p.trace, Dec{K: dConcYes, V: v, W: w})
		p.pos = len(p.trace)
		p.prefix = p.trace
		m.addPC(e)
		return v
	}
}

// choose explores n alternatives without the solver.
func (m *Machine) choose(n int) int {
	if n <= 1 {
		return 0
	}
	m.noSpec()
	p := m.path
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		if d.K != dChoice || d.V >= uint64(n) {
			panic(&abort{abUnsupported, "replay diverged (choice)"})
		}
		p.pos++
		p.trace = append(p.trace, d)
		return int(d.V)
	}
	for i := n - 1; i >= 1; i-- {
		m.pushAlt(Dec{K: dChoice, V: uint64(i)}, p.model)
	}
	p.trace = append(p.trace, Dec{K: dChoice})
	p.pos = len(p.trace)
	p.prefix = p.trace
	return 0
}

// check looks for a model of pc and not c.
func (m *Machine) check(c T) (smt.Result, smt.Model) {
	if c.IsTrue() {
		return smt.Unsat, nil
	}
	p := m.path
	if p.ev.Eval(c) == 0 {
		return smt.Sat, p.model
	}
	return m.solver.Check(p.pc, m.ctx.Not(c), p.model)
}

func (m *Machine) inputsUnder(md smt.Model) map[string]string {
	ev := smt.NewEval(md)
	r := map[string]string{}
	for _, in := range m.path.inputs {
		if in.Kind == "bytes" {
			var sb strings.Builder
			for _, t := range in.Terms {
				fmt.Fprintf(&sb, "%02x", ev.Eval(t))
			}
			r[in.Name] = sb.String()
		} else {
			v := ev.Eval(in.Terms[0])
			if in.Sign {
				r[in.Name] = fmt.Sprint(smt.SExtV(v, in.Terms[0].W))
			} else {
				r[in.Name] = fmt.Sprint(v)
			}
		}
	}
	return r
}

func (m *Machine) violation(kind, msg, where, knownID string, md smt.Model) {
	p := m.path
	p.viol = append(p.viol, &Violation{Kind: kind, Msg: msg, Known: knownID, Where: where,
		Inputs: m.inputsUnder(md), Prefix: append([]Dec{}, p.trace...), Sched: p.schedDec})
}

// ---------------------------------------------------------------- running paths

// PathResult summarises one finished path.
type PathResult struct {
	Outcome string // ok, panic, infeasible, unsupported, limit, unknown, exit, deadlock
	Detail  string
	Viol    []*Violation
	Alts    []Work
	Inputs  map[string]string
	Obs     map[string]string
	Reached map[string]bool
	Covers  map[string]bool
	Incompl []string
	Steps   int64
	Decs    int
	PC      int
	Sched   bool
	Flags   map[string]bool
}

// Run executes the harness once along the given prefix.
func (m *Machine) Run(fn *ssa.Function, w Work) (res PathResult) {
	p := &Path{prefix: w.Prefix, pcSet: map[int32]bool{}, bounds: map[int32][2]uint64{}, names: map[string]int{}, reached: map[string]bool{}, covers: map[string]bool{},
		wgState: map[*value]*wgState{}, muState: map[*value]*muState{}, conds: map[*value]*condState{}, flags: map[string]bool{}}
	if m.path != nil {
		for _, b := range m.path.maps {
			syscall.Munmap(b)
		}
	}
	m.path = p
	md := w.Model
	if md == nil {
		md = smt.Model{}
	}
	m.setModel(md)
	m.sch = newSched(m)
	m.race = nil
	m.logging = true
	m.undo = m.undo[:0]
	defer func() {
		m.rollback(0)
		if cap(m.undo) > 1<<22 {
			m.undo = nil
		}
	}()
	out, detail := m.sch.runMain(fn)
	p.outcome, p.detail = out, detail
	res = PathResult{Outcome: out, Detail: detail, Viol: p.viol, Alts: p.alts, Reached: p.reached, Covers: p.covers, Incompl: p.incompl,
		Steps: p.steps, Decs: len(p.trace), PC: len(p.pc), Sched: p.schedDec, Flags: p.flags}
	if out != "infeasible" {
		res.Inputs = m.inputsUnder(p.model)
		res.Obs = map[string]string{}
		for _, o := range p.obs {
			var sb strings.Builder
			for _, t := range o.terms {
				if o.kind == "bytes" {
					fmt.Fprintf(&sb, "%02x", p.ev.Eval(t))
				} else {
					fmt.Fprint(&sb, smt.SExtV(p.ev.Eval(t), t.W))
				}
			}
			res.Obs[o.label] = sb.String()
		}
	}
	return res
}

func sortedKeys[V any](mm map[string]V) []string {
	var r []string
	for k := range mm {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func hostStack() string {
	s := string(debug.Stack())
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

var Debug = os.Getenv("GOSYM_DEBUG") != ""
