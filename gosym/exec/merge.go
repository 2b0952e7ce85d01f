package exec

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// If-conversion: a symbolic branch whose two sides reach a common join through
// side-effect free instructions is evaluated once with ite terms, and a call of
// a side-effect free function is summarised the same way. Nothing is assumed:
// anything that could panic, block, write or split aborts the attempt and the
// branch is explored by forking instead.

type specAbort struct{}

const (
	specBudget = 1500
	specEdges  = 40
)

type edge struct {
	guard T
	pred  int
	vals  []value // phi operands of the join, or return values
}

type merger struct {
	m      *Machine
	fr     *frame
	join   *cblock
	start  *ssa.BasicBlock // the branching block, when there is a join
	edges  []edge
	budget int
}

func (mg *merger) fail() { panic(specAbort{}) }

// pureInstr says whether an instruction may be evaluated speculatively.
func (m *Machine) pureInstr(ci *cinst) bool {
	switch in := ci.in.(type) {
	case *ssa.BinOp, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.Field, *ssa.Index, *ssa.Extract,
		*ssa.FieldAddr, *ssa.IndexAddr, *ssa.MakeInterface, *ssa.Jump, *ssa.If, *ssa.Return, *ssa.Convert:
		return true
	case *ssa.UnOp:
		return in.Op != token.ARROW
	case *ssa.Slice:
		return true
	case *ssa.Lookup:
		return false
	case *ssa.Call:
		if ci.b == "len" || ci.b == "cap" || ci.b == "min" || ci.b == "max" {
			return true
		}
		if ci.fi != nil && ci.fi.code != nil && ci.fi.intr == nil {
			if ci.fi.code.blocks == nil {
				m.compile(ci.fi.code)
			}
			return m.isPureFn(ci.fi.code)
		}
	}
	return false
}

func (m *Machine) isPureFn(cd *code) bool {
	switch cd.pure {
	case 1:
		return true
	case 2:
		return false
	}
	cd.pure = 2 // recursion is not pure
	if cd.fn.Recover != nil || len(cd.blocks) > 60 {
		return false
	}
	for _, b := range cd.blocks {
		for i := range b.code {
			if !m.pureInstr(&b.code[i]) {
				return false
			}
		}
	}
	cd.pure = 1
	return true
}

func symbolicArg(args []value) bool {
	for _, a := range args {
		switch x := a.(type) {
		case T:
			if !x.IsConst() && !x.IsFConst() {
				return true
			}
		case *symStr:
			return true
		case sliceV:
			if len(x) <= 64 {
				for _, e := range x {
					if t, ok := e.(T); ok && !t.IsConst() {
						return true
					}
				}
			}
		}
	}
	return false
}

func (m *Machine) speculate(f func()) (ok bool) {
	m.spec++
	n := len(m.undo)
	steps, top := m.path.steps, m.sch.cur.top
	defer func() {
		m.spec--
		if r := recover(); r != nil {
			m.rollback(n)
			m.path.steps, m.sch.cur.top = steps, top
			switch x := r.(type) {
			case specAbort, *targetPanic:
				ok = false
			case *abort:
				if x.k == abUnsupported || x.k == abDepth {
					ok = false
					return
				}
				panic(r)
			default:
				panic(r)
			}
		}
	}()
	f()
	return true
}

func (m *Machine) mergeCall(fr *frame, args []value) (value, bool) {
	cd := fr.cd
	var v value
	ok := m.withInit(func() bool {
		var ok bool
		v, ok = m.mergeCall1(fr, args)
		return ok
	})
	if !ok {
		m.mergeFail[cd]++
	}
	return v, ok
}

// withInit retries a speculation after running package initialisers that it
// turned out to need, so that its result does not depend on earlier paths.
func (m *Machine) withInit(f func() bool) bool {
	for i := 0; i < 20; i++ {
		m.needInit = nil
		if f() {
			return true
		}
		if m.needInit == nil {
			return false
		}
		m.ensureInit(m.needInit)
	}
	return false
}

func (m *Machine) mergeCall1(fr *frame, args []value) (value, bool) {
	cd := fr.cd
	for i := len(cd.fn.Params); i < len(fr.regs); i++ {
		if i >= len(cd.fn.Params)+len(cd.fn.FreeVars) {
			fr.regs[i] = nil
		}
	}
	fr.block, fr.prev = cd.blocks[0], -1
	mg := &merger{m: m, fr: fr, budget: specBudget}
	var res value
	ok := m.speculate(func() {
		mg.walk(cd.blocks[0], -1, m.ctx.True)
		res = mg.combine(len(mg.edges[0].vals))
	})
	if !ok {
		return nil, false
	}
	m.Merges++
	return res, true
}

func (mg *merger) combine(n int) value {
	r := make(tupleV, n)
	for i := 0; i < n; i++ {
		r[i] = mg.combineAt(i)
	}
	if n == 1 {
		return r[0]
	}
	return r
}

func (mg *merger) combineAt(i int) value {
	k := len(mg.edges) - 1
	acc := mg.edges[k].vals[i]
	for k--; k >= 0; k-- {
		acc = mg.ite(mg.edges[k].guard, mg.edges[k].vals[i], acc)
	}
	return acc
}

func (mg *merger) ite(g T, a, b value) value {
	m := mg.m
	switch x := a.(type) {
	case T:
		y, ok := b.(T)
		if !ok || x.W != y.W || x.Fp != y.Fp {
			mg.fail()
		}
		if x.Fp && x != y {
			// keep floating point out of merges unless exactly equal
			mg.fail()
		}
		return m.ctx.Ite(g, x, y)
	case string, *symStr:
		switch b.(type) {
		case string, *symStr:
		default:
			mg.fail()
		}
		if m.strLen(a) != m.strLen(b) {
			mg.fail()
		}
		p, q := m.strTerms(a), m.strTerms(b)
		r := make([]T, len(p))
		for i := range p {
			r[i] = m.ctx.Ite(g, p[i], q[i])
		}
		return mkStr(r)
	case iface:
		y, ok := b.(iface)
		if !ok || x.t != y.t {
			mg.fail()
		}
		if x.t == nil {
			return x
		}
		return iface{x.t, mg.ite(g, x.v, y.v)}
	case structV:
		y, ok := b.(structV)
		if !ok || len(x) != len(y) {
			mg.fail()
		}
		r := make(structV, len(x))
		for i := range x {
			if x[i] == nil && y[i] == nil {
				continue
			}
			if x[i] == nil || y[i] == nil {
				mg.fail()
			}
			r[i] = mg.ite(g, x[i], y[i])
		}
		return r
	case tupleV:
		y, ok := b.(tupleV)
		if !ok || len(x) != len(y) {
			mg.fail()
		}
		r := make(tupleV, len(x))
		for i := range x {
			r[i] = mg.ite(g, x[i], y[i])
		}
		return r
	case sliceV:
		y, ok := b.(sliceV)
		if !ok || len(x) != len(y) || cap(x) != cap(y) || (x == nil) != (y == nil) {
			mg.fail()
		}
		if len(x) > 0 && &x[0] != &y[0] || len(x) == 0 && cap(x) > 0 {
			mg.fail()
		}
		return x
	case *value:
		if y, ok := b.(*value); ok && x == y {
			return x
		}
	case *mapV:
		if y, ok := b.(*mapV); ok && x == y {
			return x
		}
	case *closure:
		if y, ok := b.(*closure); ok && x == y {
			return x
		}
	case *chanV:
		if y, ok := b.(*chanV); ok && x == y {
			return x
		}
	}
	mg.fail()
	return nil
}

func (mg *merger) addEdge(e edge) {
	mg.edges = append(mg.edges, e)
	if len(mg.edges) > specEdges {
		mg.fail()
	}
}

// walk evaluates the region from b, entered from pred under guard.
func (mg *merger) walk(b *cblock, pred int, guard T) {
	m, fr := mg.m, mg.fr
	for {
		if b == mg.join {
			k := -1
			for i, p := range b.preds {
				if p == pred {
					k = i
					break
				}
			}
			vals := make([]value, len(b.phis))
			for i := range b.phis {
				vals[i] = fr.get(b.phis[i].a[k])
			}
			mg.addEdge(edge{guard, pred, vals})
			return
		}
		if mg.start != nil && fr.cd.fn.Blocks[b.idx].Dominates(mg.start) {
			// a loop back to the branch redefines values that are live after
			// the join without passing through its phis
			mg.fail()
		}
		fr.prev = pred
		if len(b.phis) > 0 {
			fr.doPhis(b)
		}
		var next *cblock
		for i := range b.code {
			ci := &b.code[i]
			mg.budget--
			m.path.steps++
			if mg.budget < 0 {
				mg.fail()
			}
			switch ci.in.(type) {
			case *ssa.Jump:
				next = b.succs[0]
			case *ssa.If:
				c := fr.get(ci.a[0]).(T)
				v, ok := m.known(c)
				if ok {
					if v {
						next = b.succs[0]
					} else {
						next = b.succs[1]
					}
					break
				}
				gt := m.ctx.And(guard, c)
				gf := m.ctx.And(guard, m.ctx.Not(c))
				if gt.IsFalse() {
					next = b.succs[1]
					break
				}
				if gf.IsFalse() {
					next = b.succs[0]
					break
				}
				sv := append([]value(nil), fr.regs...)
				mg.walk(b.succs[0], b.idx, gt)
				copy(fr.regs, sv)
				mg.walk(b.succs[1], b.idx, gf)
				return
			case *ssa.Return:
				if mg.join != nil {
					mg.fail()
				}
				vals := make([]value, len(ci.a))
				for i, o := range ci.a {
					vals[i] = fr.get(o)
				}
				mg.addEdge(edge{guard, b.idx, vals})
				return
			default:
				if !m.pureInstr(ci) {
					mg.fail()
				}
				if c, ok := ci.in.(*ssa.Call); ok {
					_ = c
					args := make([]value, len(ci.a)-1)
					for i := 1; i < len(ci.a); i++ {
						args[i-1] = fr.get(ci.a[i])
					}
					if ci.b != "" {
						fr.regs[ci.dst] = m.builtin(fr, ci, args)
						break
					}
					sub := &frame{m: m, g: fr.g, cd: ci.fi.code, caller: fr, depth: fr.depth + 1}
					if sub.depth > m.cfg.DepthLimit {
						mg.fail()
					}
					if !ci.fi.code.inited && m.pkgsPending(ci.fi.code) {
						// run the initialisers outside the speculation, then try again
						m.needInit = ci.fi.code
						mg.fail()
					}
					sub.regs = make([]value, sub.cd.nregs)
					copy(sub.regs, args)
					mg2 := &merger{m: m, fr: sub, budget: mg.budget}
					mg2.walk(sub.cd.blocks[0], -1, m.ctx.True)
					mg.budget = mg2.budget
					fr.regs[ci.dst] = mg2.combine(len(mg2.edges[0].vals))
					break
				}
				fr.regs[ci.dst] = fr.eval(ci)
			}
		}
		if next == nil {
			mg.fail()
		}
		pred = b.idx
		b = next
	}
}

func (m *Machine) pkgsPending(cd *code) bool {
	for _, p := range cd.pkgs {
		if m.pkgs[p] != 2 {
			return true
		}
	}
	return false
}

// mergeIf tries to evaluate both sides of the current block's branch.
func (m *Machine) mergeIf(fr *frame, c T) bool {
	b := fr.block
	ok := m.withInit(func() bool { return m.mergeIf1(fr, c) })
	if ok {
		m.mergeFail[b] = 0
	} else {
		m.mergeFail[b]++
	}
	return ok
}

func (m *Machine) mergeIf1(fr *frame, c T) bool {
	b := fr.block
	j := b.ipdom
	if j == nil || j == b || m.race != nil {
		return false
	}
	sv := append([]value(nil), fr.regs...)
	prev := fr.prev
	mg := &merger{m: m, fr: fr, join: j, start: fr.cd.fn.Blocks[b.idx], budget: specBudget}
	var vals []value
	ok := m.speculate(func() {
		mg.walk(b.succs[0], b.idx, c)
		copy(fr.regs, sv)
		mg.walk(b.succs[1], b.idx, m.ctx.Not(c))
		vals = make([]value, len(j.phis))
		for i := range vals {
			vals[i] = mg.combineAt(i)
		}
	})
	if !ok {
		copy(fr.regs, sv)
		fr.prev = prev
		return false
	}
	m.Merges++
	copy(fr.regs, sv)
	for i := range j.phis {
		fr.regs[j.phis[i].dst] = vals[i]
	}
	fr.prev = -2 // phis already set
	fr.block = j
	return true
}

// Merges are recorded in the trace so that a replay on another worker takes
// the same decisions.
func (m *Machine) tryMergeIf(fr *frame, c T) bool {
	p := m.path
	if p.pos < len(p.prefix) {
		if p.prefix[p.pos].K != dMerge {
			return false
		}
		m.dbg("merge", c)
		if !m.mergeIf(fr, c) {
			panic(&abort{abUnsupported, "replay diverged (merge)"})
		}
		p.pos++
		p.trace = append(p.trace, Dec{K: dMerge})
		return true
	}
	w := m.dbg("merge", c)
	if m.mergeFail[fr.block] > 30 || !m.mergeIf(fr, c) {
		return false
	}
	p.trace = append(p.trace, Dec{K: dMerge, W: w})
	p.pos = len(p.trace)
	p.prefix = p.trace
	return true
}

func (m *Machine) tryMergeCall(fr *frame, args []value) (value, bool) {
	cd := fr.cd
	if cd.fn.Signature.Results().Len() == 0 || !symbolicArg(args) || m.race != nil || m.spec > 0 {
		return nil, false
	}
	p := m.path
	w := m.dbg("call "+cd.fn.String(), nil)
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		if d.K != dMergeCall {
			panic(&abort{abUnsupported, "replay diverged (call merge)"})
		}
		p.pos++
		p.trace = append(p.trace, d)
		if d.V == 0 {
			return nil, false
		}
		v, ok := m.mergeCall(fr, args)
		if !ok {
			panic(&abort{abUnsupported, "replay diverged (call merge)"})
		}
		return v, true
	}
	var v value
	ok := false
	if m.mergeFail[cd] <= 30 {
		v, ok = m.mergeCall(fr, args)
	}
	d := Dec{K: dMergeCall, W: w}
	if ok {
		d.V = 1
	}
	p.trace = append(p.trace, d)
	p.pos = len(p.trace)
	p.prefix = p.trace
	return v, ok
}
