package smt

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

func (r Result) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

func sort2(t *Term) string {
	if t.Fp {
		if t.W == 32 {
			return "(_ FloatingPoint 8 24)"
		}
		return "(_ FloatingPoint 11 53)"
	}
	if t.W == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", t.W)
}

func constStr(t *Term) string {
	if t.Op == OFConst {
		if t.W == 32 {
			return fmt.Sprintf("((_ to_fp 8 24) #x%08x)", uint32(t.K))
		}
		return fmt.Sprintf("((_ to_fp 11 53) #x%016x)", t.K)
	}
	if t.W == 0 {
		if t.K == 1 {
			return "true"
		}
		return "false"
	}
	if t.W%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(t.W)/4, t.K)
	}
	return fmt.Sprintf("(_ bv%d %d)", t.K, t.W)
}

func vname(n string) string { return "|" + n + "|" }

// body prints one node with child references by name.
func body(t *Term, ref func(*Term) string) string {
	a := func() string { return ref(t.A) }
	b := func() string { return ref(t.B) }
	bin := func(op string) string { return "(" + op + " " + a() + " " + b() + ")" }
	fpw := func(w uint8) string {
		if w == 32 {
			return "8 24"
		}
		return "11 53"
	}
	switch t.Op {
	case ONot:
		return "(not " + a() + ")"
	case OAnd:
		return bin("and")
	case OOr:
		return bin("or")
	case OEq:
		return bin("=")
	case OUlt:
		return bin("bvult")
	case OUle:
		return bin("bvule")
	case OSlt:
		return bin("bvslt")
	case OSle:
		return bin("bvsle")
	case OAdd:
		return bin("bvadd")
	case OSub:
		return bin("bvsub")
	case OMul:
		return bin("bvmul")
	case OUDiv:
		return bin("bvudiv")
	case OURem:
		return bin("bvurem")
	case OSDiv:
		return bin("bvsdiv")
	case OSRem:
		return bin("bvsrem")
	case OBAnd:
		return bin("bvand")
	case OBOr:
		return bin("bvor")
	case OBXor:
		return bin("bvxor")
	case OBNot:
		return "(bvnot " + a() + ")"
	case OShl:
		return bin("bvshl")
	case OLShr:
		return bin("bvlshr")
	case OAShr:
		return bin("bvashr")
	case OZExt:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.W-t.A.W, a())
	case OSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.W-t.A.W, a())
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.K+uint64(t.W)-1, t.K, a())
	case OIte:
		return "(ite " + a() + " " + b() + " " + ref(t.C) + ")"
	case OFFromS:
		return fmt.Sprintf("((_ to_fp %s) RNE %s)", fpw(t.W), a())
	case OFFromU:
		return fmt.Sprintf("((_ to_fp_unsigned %s) RNE %s)", fpw(t.W), a())
	case OFToS:
		return fmt.Sprintf("((_ fp.to_sbv %d) RTZ %s)", t.W, a())
	case OFToU:
		return fmt.Sprintf("((_ fp.to_ubv %d) RTZ %s)", t.W, a())
	case OFAdd:
		return "(fp.add RNE " + a() + " " + b() + ")"
	case OFSub:
		return "(fp.sub RNE " + a() + " " + b() + ")"
	case OFMul:
		return "(fp.mul RNE " + a() + " " + b() + ")"
	case OFDiv:
		return "(fp.div RNE " + a() + " " + b() + ")"
	case OFNeg:
		return "(fp.neg " + a() + ")"
	case OFAbs:
		return "(fp.abs " + a() + ")"
	case OFLt:
		return bin("fp.lt")
	case OFLe:
		return bin("fp.leq")
	case OFEq:
		return bin("fp.eq")
	case OFIsNaN:
		return "(fp.isNaN " + a() + ")"
	case OFToF:
		return fmt.Sprintf("((_ to_fp %s) RNE %s)", fpw(t.W), a())
	}
	panic("body")
}

// emitter writes definitions of terms once each.
type emitter struct {
	done map[int32]bool
	w    *strings.Builder
	vars []*Term
}

func (e *emitter) ref(t *Term) string {
	switch t.Op {
	case OConst, OFConst:
		return constStr(t)
	case OVar:
		return vname(t.Name)
	}
	return "t" + strconv.Itoa(int(t.ID))
}

func (e *emitter) define(root *Term) {
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{root, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		t := f.t
		if t.Op == OConst || t.Op == OFConst || e.done[t.ID] {
			st = st[:len(st)-1]
			continue
		}
		var nx *Term
		for f.i < 3 && nx == nil {
			switch f.i {
			case 0:
				nx = t.A
			case 1:
				nx = t.B
			case 2:
				nx = t.C
			}
			f.i++
		}
		if nx != nil {
			if !e.done[nx.ID] {
				st = append(st, fr{nx, 0})
			}
			continue
		}
		st = st[:len(st)-1]
		e.done[t.ID] = true
		if t.Op == OVar {
			fmt.Fprintf(e.w, "(declare-fun %s () %s)\n", vname(t.Name), sort2(t))
			e.vars = append(e.vars, t)
		} else {
			fmt.Fprintf(e.w, "(define-fun t%d () %s %s)\n", t.ID, sort2(t), body(t, e.ref))
		}
	}
}

// Script renders a complete one-shot query.
func Script(as []*Term, withModel bool) (string, []*Term) {
	var sb strings.Builder
	e := &emitter{done: map[int32]bool{}, w: &sb}
	sb.WriteString("(set-logic ALL)\n")
	if withModel {
		sb.WriteString("(set-option :produce-models true)\n")
	}
	for _, t := range as {
		e.define(t)
	}
	for _, t := range as {
		sb.WriteString("(assert " + e.ref(t) + ")\n")
	}
	sb.WriteString("(check-sat)\n")
	if withModel && len(e.vars) > 0 {
		sb.WriteString("(get-value (")
		for _, v := range e.vars {
			sb.WriteString(vname(v.Name) + " ")
		}
		sb.WriteString("))\n")
	}
	return sb.String(), e.vars
}

// incMS bounds a query to the incremental solver, which does not preprocess;
// what it cannot do quickly goes to fresh solver processes.
const incMS = 400

var slowDir = os.Getenv("GOSYM_SLOW")

type Stats struct {
	Queries, SatN, UnsatN, UnknownN, Fallbacks, ModelHits int
	Time                                                  time.Duration
}

// Solver drives an incremental solver process.
type Solver struct {
	Bin       []string
	TimeoutMS int
	Stats     Stats
	cmd       *exec.Cmd
	in        io.WriteCloser
	out       *bufio.Reader
	em        *emitter
	stack     []*Term
	Log       io.Writer
	vcache    map[int32][]*Term
	NoFall    bool
}

func NewSolver(timeoutMS int) *Solver {
	return &Solver{TimeoutMS: timeoutMS, Bin: []string{envOr("GOSYM_Z3", "z3-new"), "-in", "-smt2"}, vcache: map[int32][]*Term{}}
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) Reset() { s.Close(); s.stack = nil; s.em = nil; s.vcache = map[int32][]*Term{} }

func (s *Solver) start() error {
	s.cmd = exec.Command(s.Bin[0], s.Bin[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<16)
	s.stack = nil
	s.em = &emitter{done: map[int32]bool{}, w: &strings.Builder{}}
	fmt.Fprintf(s.em.w, "(set-option :global-declarations true)\n(set-option :timeout %d)\n(set-option :produce-models true)\n", incMS)
	return nil
}

func (s *Solver) flush() error {
	str := s.em.w.String()
	s.em.w.Reset()
	if s.Log != nil {
		io.WriteString(s.Log, str)
	}
	_, err := io.WriteString(s.in, str)
	return err
}

// VarsOf returns the variables of a term (cached for the roots asked about).
func (s *Solver) VarsOf(root *Term) []*Term {
	if v, ok := s.vcache[root.ID]; ok {
		return v
	}
	seen := map[int32]bool{}
	var vs []*Term
	st := []*Term{root}
	for len(st) > 0 {
		t := st[len(st)-1]
		st = st[:len(st)-1]
		if t == nil || seen[t.ID] {
			continue
		}
		seen[t.ID] = true
		if t.Op == OVar {
			vs = append(vs, t)
			continue
		}
		if c, ok := s.vcache[t.ID]; ok {
			for _, v := range c {
				if !seen[v.ID] {
					seen[v.ID] = true
					vs = append(vs, v)
				}
			}
			continue
		}
		st = append(st, t.A, t.B, t.C)
	}
	s.vcache[root.ID] = vs
	return vs
}

// Slice keeps the constraints connected to q through shared variables.
func (s *Solver) Slice(pc []*Term, q *Term) []*Term {
	need := map[int32]bool{}
	for _, v := range s.VarsOf(q) {
		need[v.ID] = true
	}
	in := make([]bool, len(pc))
	for changed := true; changed; {
		changed = false
		for i, p := range pc {
			if in[i] {
				continue
			}
			vs := s.VarsOf(p)
			hit := false
			for _, v := range vs {
				if need[v.ID] {
					hit = true
					break
				}
			}
			if hit {
				in[i] = true
				for _, v := range vs {
					if !need[v.ID] {
						need[v.ID] = true
						changed = true
					}
				}
			}
		}
	}
	var out []*Term
	for i, p := range pc {
		if in[i] {
			out = append(out, p)
		}
	}
	return out
}

// ranges prepends the ranges of the variables that occur.
func (s *Solver) ranges(sl []*Term, q *Term) []*Term {
	seen := map[int32]bool{}
	var rs []*Term
	add := func(t *Term) {
		for _, v := range s.VarsOf(t) {
			if v.Rng != nil && !seen[v.ID] {
				seen[v.ID] = true
				rs = append(rs, v.Rng)
			}
		}
	}
	for _, t := range sl {
		add(t)
	}
	add(q)
	if rs == nil {
		return sl
	}
	sort.Slice(rs, func(i, j int) bool { return rs[i].ID < rs[j].ID })
	return append(rs, sl...)
}

// Check decides pc /\ q. base supplies values for variables outside the slice.
func (s *Solver) Check(pc []*Term, q *Term, base Model) (Result, Model) {
	if q.IsFalse() {
		return Unsat, nil
	}
	t0 := time.Now()
	defer func() { s.Stats.Time += time.Since(t0) }()
	s.Stats.Queries++
	sl := s.Slice(pc, q)
	sl = s.ranges(sl, q)
	r, m := s.checkInc(sl, q)
	if r == Unknown && !s.NoFall {
		if slowDir != "" {
			sc, _ := Script(append(append([]*Term{}, sl...), q), false)
			os.WriteFile(fmt.Sprintf("%s/f%d.smt2", slowDir, time.Now().UnixNano()), []byte(sc), 0644)
		}
		s.Stats.Fallbacks++
		r, m = OneShot(append(append([]*Term{}, sl...), q), s.TimeoutMS)
	}
	switch r {
	case Sat:
		s.Stats.SatN++
		full := Model{}
		for k, v := range base {
			full[k] = v
		}
		for k, v := range m {
			full[k] = v
		}
		// guard against a solver or encoding error
		ev := NewEval(full)
		for _, t := range sl {
			if ev.Eval(t) != 1 {
				fmt.Fprintln(os.Stderr, "gosym: solver model does not satisfy the path condition")
				s.Stats.SatN--
				s.Stats.UnknownN++
				return Unknown, nil
			}
		}
		if ev.Eval(q) != 1 {
			fmt.Fprintln(os.Stderr, "gosym: solver model does not satisfy the query")
			s.Stats.SatN--
			s.Stats.UnknownN++
			return Unknown, nil
		}
		return Sat, full
	case Unsat:
		s.Stats.UnsatN++
	default:
		s.Stats.UnknownN++
	}
	return r, nil
}

func (s *Solver) checkInc(pc []*Term, q *Term) (Result, Model) {
	if s.cmd == nil || len(s.em.done) > 300000 {
		s.Close()
		if err := s.start(); err != nil {
			fmt.Fprintln(os.Stderr, "gosym: cannot start solver:", err)
			return Unknown, nil
		}
	}
	w := s.em.w
	k := 0
	for k < len(s.stack) && k < len(pc) && s.stack[k] == pc[k] {
		k++
	}
	if n := len(s.stack) - k; n > 0 {
		fmt.Fprintf(w, "(pop %d)\n", n)
		s.stack = s.stack[:k]
	}
	for _, t := range pc[k:] {
		s.em.define(t)
		w.WriteString("(push 1)\n(assert " + s.em.ref(t) + ")\n")
		s.stack = append(s.stack, t)
	}
	s.em.define(q)
	w.WriteString("(push 1)\n(assert " + s.em.ref(q) + ")\n(check-sat)\n(echo \"--\")\n")
	if err := s.flush(); err != nil {
		s.Close()
		return Unknown, nil
	}
	// z3 does not always honour its own timeout
	proc := s.cmd.Process
	guard := time.AfterFunc(incMS*time.Millisecond*4, func() { proc.Kill() })
	t0 := time.Now()
	lines, err := s.readUntil("--")
	guard.Stop()
	if slowDir != "" && time.Since(t0) > time.Second {
		sc, _ := Script(append(append([]*Term{}, pc...), q), false)
		os.WriteFile(fmt.Sprintf("%s/q%d-%d.smt2", slowDir, time.Now().UnixNano(), time.Since(t0).Milliseconds()), []byte(sc), 0644)
	}
	if err != nil {
		s.Close()
		return Unknown, nil
	}
	res := Unknown
	for _, l := range lines {
		switch {
		case l == "sat":
			res = Sat
		case l == "unsat":
			res = Unsat
		case strings.Contains(l, "error"):
			fmt.Fprintln(os.Stderr, "gosym: solver:", l)
			s.Close()
			return Unknown, nil
		}
	}
	var m Model
	if res == Sat {
		m = Model{}
		seen := map[int32]bool{}
		var vs []*Term
		for _, t := range append(append([]*Term{}, pc...), q) {
			for _, v := range s.VarsOf(t) {
				if !seen[v.ID] {
					seen[v.ID] = true
					vs = append(vs, v)
				}
			}
		}
		if len(vs) > 0 {
			w.WriteString("(get-value (")
			for _, v := range vs {
				w.WriteString(vname(v.Name) + " ")
			}
			w.WriteString("))\n(echo \"--\")\n")
			if s.flush() != nil {
				s.Close()
				return Unknown, nil
			}
			ls, err := s.readUntil("--")
			if err != nil || !parseModel(strings.Join(ls, " "), m) {
				s.Close()
				return Unknown, nil
			}
		}
	}
	w.WriteString("(pop 1)\n")
	return res, m
}

func (s *Solver) readUntil(mark string) ([]string, error) {
	var ls []string
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return nil, err
		}
		l = strings.TrimSpace(l)
		if l == mark {
			return ls, nil
		}
		ls = append(ls, l)
	}
}

func parseModel(txt string, m Model) bool {
	i := 0
	for {
		j := strings.IndexByte(txt[i:], '|')
		if j < 0 {
			return true
		}
		i += j + 1
		e := strings.IndexByte(txt[i:], '|')
		if e < 0 {
			return false
		}
		name := txt[i : i+e]
		i += e + 1
		for i < len(txt) && txt[i] == ' ' {
			i++
		}
		rest := txt[i:]
		switch {
		case strings.HasPrefix(rest, "#x"), strings.HasPrefix(rest, "#b"):
			n := 2
			for n < len(rest) && rest[n] != ')' && rest[n] != ' ' {
				n++
			}
			base := 16
			if rest[1] == 'b' {
				base = 2
			}
			v, err := strconv.ParseUint(rest[2:n], base, 64)
			if err != nil {
				return false
			}
			m[name] = v
			i += n
		case strings.HasPrefix(rest, "true"):
			m[name] = 1
		case strings.HasPrefix(rest, "false"):
			m[name] = 0
		case strings.HasPrefix(rest, "(_ bv"):
			n := 5
			for n < len(rest) && rest[n] != ' ' {
				n++
			}
			v, err := strconv.ParseUint(rest[5:n], 10, 64)
			if err != nil {
				return false
			}
			m[name] = v
		default:
			return false
		}
	}
}

// OneShot tries other solvers on a whole query.
func OneShot(as []*Term, timeoutMS int) (Result, Model) {
	script, _ := Script(as, true)
	type ans struct {
		r Result
		m Model
	}
	cmds := [][]string{
		{"z3-new", "-in", "-smt2", fmt.Sprintf("-T:%d", timeoutMS/1000+1)},
		{"cvc5", "--lang=smt2", "--produce-models", fmt.Sprintf("--tlimit=%d", timeoutMS), "-"},
	}
	ch := make(chan ans, len(cmds))
	var procs []*exec.Cmd
	n := 0
	for _, c := range cmds {
		cmd := exec.Command(c[0], c[1:]...)
		cmd.Stdin = strings.NewReader(script)
		var sb strings.Builder
		cmd.Stdout = &sb
		if cmd.Start() != nil {
			continue
		}
		n++
		procs = append(procs, cmd)
		go func() {
			cmd.Wait()
			o := strings.TrimSpace(sb.String())
			a := ans{r: Unknown}
			if strings.HasPrefix(o, "unsat") {
				a.r = Unsat
			} else if strings.HasPrefix(o, "sat") {
				m := Model{}
				if parseModel(strings.ReplaceAll(o[3:], "\n", " "), m) {
					a = ans{Sat, m}
				}
			} else if strings.Contains(o, "(error") {
				a.r = Unknown
			}
			ch <- a
		}()
	}
	res := ans{r: Unknown}
	for i := 0; i < n; i++ {
		a := <-ch
		if a.r != Unknown {
			res = a
			break
		}
	}
	for _, p := range procs {
		p.Process.Kill()
	}
	return res.r, res.m
}

func (m Model) String() string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&sb, "%s=%d ", k, m[k])
	}
	return sb.String()
}

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}
