package exec

import (
	"fmt"
	"go/token"
	"go/types"
	"runtime"
	"runtime/debug"
	"syscall"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

type deferred struct {
	ci   *cinst
	fv   value
	args []value
	recv bool
	next *deferred
}

type frame struct {
	m         *Machine
	g         *gor
	cd        *code
	regs      []value
	block     *cblock
	prev      int
	defers    *deferred
	result    value
	panicking bool
	pval      any
	caller    *frame
	depth     int
	deferring *frame // frame whose deferred call this is
	pos       token.Pos
}

func (fr *frame) get(o opnd) value {
	if o.r >= 0 {
		v := fr.regs[o.r]
		if p, ok := v.(poison); ok {
			fr.m.unsupported("poison: " + p.why)
		}
		return v
	}
	return o.v
}

func (fr *frame) where() string {
	for f := fr; f != nil; f = f.caller {
		if f.cd != nil && f.pos.IsValid() {
			ps := f.m.P.SSA.Fset.Position(f.pos)
			return fmt.Sprintf("%s (%s:%d)", f.cd.fn, ps.Filename, ps.Line)
		}
	}
	return ""
}

// whereOwn names the innermost function of the code under test on the stack.
func (fr *frame) whereOwn() string {
	for f := fr; f != nil; f = f.caller {
		if f.cd != nil && f.m.info(f.cd.fn).own {
			if f.pos.IsValid() {
				ps := f.m.P.SSA.Fset.Position(f.pos)
				return fmt.Sprintf("%s (%s:%d)", f.cd.fn, ps.Filename, ps.Line)
			}
			return f.cd.fn.String()
		}
	}
	return fr.where()
}

// call invokes a function value.
func (m *Machine) call(fr *frame, fv value, args []value) value {
	switch f := fv.(type) {
	case *closure:
		if f == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		return m.callFn(fr, m.info(f.fn), args, f.env)
	case *ssa.Builtin:
		m.unsupported("builtin value " + f.Name())
	case poison:
		m.unsupported("poison: " + f.why)
	case nil:
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	m.unsupported(fmt.Sprintf("call of %T", fv))
	return nil
}

func (m *Machine) callFn(caller *frame, fi *fnInfo, args, env []value) value {
	if fi.intr != nil {
		v := fi.intr(m, caller, args)
		if _, ft := v.(fallthru); !ft {
			return v
		}
	}
	cd := fi.code
	if cd.blocks == nil {
		m.compile(cd)
	}
	if !cd.inited && !(m.initing > 0 && cd.fn.Name() == "init" && cd.fn.Synthetic != "") {
		m.ensureInit(cd)
	}
	if fi.own {
		m.Funcs[fi.name]++
	}
	fr := &frame{m: m, g: caller.g, cd: cd, caller: caller, depth: caller.depth + 1}
	if fr.depth > m.cfg.DepthLimit {
		panic(&abort{abDepth, "call depth limit in " + cd.fn.String()})
	}
	fr.regs = make([]value, cd.nregs)
	copy(fr.regs, args)
	copy(fr.regs[len(cd.fn.Params):], env)
	fr.block = cd.blocks[0]
	fr.prev = -1
	if !m.cfg.NoMerge && m.initing == 0 && len(cd.blocks) > 1 && m.isPureFn(cd) {
		if v, ok := m.tryMergeCall(fr, args); ok {
			return v
		}
		for i := len(cd.fn.Params) + len(env); i < len(fr.regs); i++ {
			fr.regs[i] = nil
		}
		fr.block = cd.blocks[0]
		fr.prev = -1
	}
	fr.g.top = fr
	for fr.block != nil {
		fr.run()
	}
	fr.g.top = caller
	return fr.result
}

func (fr *frame) run() {
	if fr.cd.fn.Recover != nil || hasDefer(fr.cd) {
		defer fr.onPanic()
	}
	fr.loop()
}

func hasDefer(cd *code) bool {
	for _, b := range cd.blocks {
		for i := range b.code {
			if _, ok := b.code[i].in.(*ssa.Defer); ok {
				return true
			}
		}
	}
	return false
}

func (fr *frame) onPanic() {
	if fr.block == nil {
		return // normal return
	}
	r := recover()
	if r == nil {
		return
	}
	switch x := r.(type) {
	case *targetPanic:
		if x.where == "" {
			x.where = fr.g.top.whereOwn()
		}
		fr.panicking = true
		fr.pval = x
		fr.g.top = fr
		fr.runDefers()
		// recovered: runDefers panics otherwise
		fr.block = fr.cd.recover
		if fr.block == nil {
			fr.result = nil
			res := fr.cd.fn.Signature.Results()
			switch res.Len() {
			case 0:
			case 1:
				fr.result = zero(fr.m.ti(res.At(0).Type()))
			default:
				fr.result = zero(fr.m.ti(res))
			}
		}
	default:
		panic(r)
	}
}

func (fr *frame) runDefers() {
	for fr.defers != nil {
		d := fr.defers
		fr.defers = d.next
		fr.runDefer(d)
	}
	if fr.panicking {
		panic(fr.pval)
	}
}

func (fr *frame) runDefer(d *deferred) {
	ok := false
	defer func() {
		if !ok {
			r := recover()
			tp, is := r.(*targetPanic)
			if !is {
				panic(r)
			}
			fr.panicking = true
			fr.pval = tp
		}
	}()
	sub := &frame{m: fr.m, g: fr.g, caller: fr, depth: fr.depth, deferring: fr}
	fr.m.invoke(sub, d.ci, d.fv, d.args)
	ok = true
}

func recoverIn(fr *frame) value {
	// recover() is called from the deferred function: its caller frame is the
	// pseudo frame created by runDefer.
	if fr.caller != nil && fr.caller.deferring != nil && fr.caller.cd == nil {
		d := fr.caller.deferring
		if d.panicking {
			d.panicking = false
			p := d.pval.(*targetPanic)
			d.pval = nil
			return p.v
		}
	}
	return iface{}
}

// prepCall evaluates the callee and arguments of a call instruction.
func (fr *frame) prepCall(ci *cinst) (value, []value) {
	m := fr.m
	if ci.flag { // invoke
		recv := fr.get(ci.a[0])
		it, ok := recv.(iface)
		if !ok {
			m.unsupported(fmt.Sprintf("invoke on %T", recv))
		}
		if it.t == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		cc := ci.in.(ssa.CallInstruction).Common()
		f := m.method(it.t, cc.Method)
		if f == nil {
			m.unsupported("no method " + cc.Method.Name() + " on " + it.t.String())
		}
		args := make([]value, len(ci.a))
		args[0] = it.v
		for i := 1; i < len(ci.a); i++ {
			args[i] = fr.get(ci.a[i])
		}
		return &closure{fn: f}, args
	}
	args := make([]value, len(ci.a)-1)
	for i := 1; i < len(ci.a); i++ {
		args[i-1] = fr.get(ci.a[i])
	}
	return fr.get(ci.a[0]), args
}

func (m *Machine) method(ti *tinfo, meth *types.Func) *ssa.Function {
	id := meth.Id()
	if f, ok := ti.meths[id]; ok {
		return f
	}
	sel := m.P.SSA.MethodSets.MethodSet(ti.t).Lookup(meth.Pkg(), meth.Name())
	var f *ssa.Function
	if sel != nil {
		f = m.P.SSA.MethodValue(sel)
	}
	if ti.meths == nil {
		ti.meths = map[string]*ssa.Function{}
	}
	ti.meths[id] = f
	return f
}

// methodByName finds a method usable without package qualification.
func (m *Machine) methodByName(ti *tinfo, name string) *ssa.Function {
	if f, ok := ti.meths["."+name]; ok {
		return f
	}
	sel := m.P.SSA.MethodSets.MethodSet(ti.t).Lookup(nil, name)
	var f *ssa.Function
	if sel != nil {
		f = m.P.SSA.MethodValue(sel)
	}
	if ti.meths == nil {
		ti.meths = map[string]*ssa.Function{}
	}
	ti.meths["."+name] = f
	return f
}

func (m *Machine) invoke(fr *frame, ci *cinst, fv value, args []value) value {
	if ci.b != "" {
		return m.builtin(fr, ci, args)
	}
	return m.call(fr, fv, args)
}

func (fr *frame) loop() {
	m := fr.m
	p := m.path
	tolerant := m.initing > 0 && fr.cd.fn.Name() == "init" && fr.cd.fn.Synthetic != ""
	for fr.block != nil {
		b := fr.block
		if len(b.phis) > 0 && fr.prev != -2 {
			fr.doPhis(b)
		}
		if fr.prev == -2 {
			fr.prev = -3
		}
	instrs:
		for i := range b.code {
			ci := &b.code[i]
			p.steps++
			fr.g.quantum++
			fr.g.turn++
			if p.steps&1023 == 0 {
				m.tick(fr)
			}
			if ps := ci.in.Pos(); ps.IsValid() {
				fr.pos = ps
			}
			if tolerant {
				if fr.tolerantExec(ci) {
					break instrs
				}
				continue
			}
			switch fr.exec(ci) {
			case kNext:
			case kJump:
				break instrs
			case kReturn:
				return
			}
		}
	}
}

type cont uint8

const (
	kNext cont = iota
	kJump
	kReturn
)

func (fr *frame) tolerantExec(ci *cinst) (jumped bool) {
	defer func() {
		if r := recover(); r != nil {
			why := ""
			switch x := r.(type) {
			case *abort:
				if x.k != abUnsupported {
					panic(r)
				}
				why = x.msg
			case *targetPanic:
				why = "panic in initialiser"
			case runtime.Error:
				why = "engine: " + x.Error()
			default:
				panic(r)
			}
			fr.m.InitNotes[fr.cd.fn.String()+": "+why]++
			if ci.dst >= 0 {
				fr.regs[ci.dst] = poison{why}
			}
			if st, ok := ci.in.(*ssa.Store); ok {
				if g, ok := st.Addr.(*ssa.Global); ok {
					*fr.m.globalCell(g) = poison{why}
				}
			}
			jumped = false
		}
	}()
	if c, ok := ci.in.(*ssa.Call); ok {
		if f, ok := c.Call.Value.(*ssa.Function); ok && f.Name() == "init" && f.Synthetic != "" && f.Pkg != fr.cd.fn.Pkg {
			return false // other packages are initialised on demand
		}
	}
	return fr.exec(ci) != kNext
}

func (fr *frame) doPhis(b *cblock) {
	k := -1
	for i, p := range b.preds {
		if p == fr.prev {
			k = i
			break
		}
	}
	if k < 0 {
		panic(fmt.Sprintf("gosym: phi predecessor %d of block %d in %v", fr.prev, b.idx, fr.cd.fn))
	}
	if len(b.phis) == 1 {
		ph := &b.phis[0]
		fr.regs[ph.dst] = fr.getRaw(ph.a[k])
		return
	}
	tmp := make([]value, len(b.phis))
	for i := range b.phis {
		tmp[i] = fr.getRaw(b.phis[i].a[k])
	}
	for i := range b.phis {
		fr.regs[b.phis[i].dst] = tmp[i]
	}
}

func (fr *frame) getRaw(o opnd) value {
	if o.r >= 0 {
		return fr.regs[o.r]
	}
	return o.v
}

func (fr *frame) jump(to *cblock) cont {
	fr.prev = fr.block.idx
	fr.block = to
	return kJump
}

func (fr *frame) exec(ci *cinst) cont {
	m := fr.m
	switch in := ci.in.(type) {
	case *ssa.Jump:
		return fr.jump(fr.block.succs[0])
	case *ssa.If:
		c := fr.get(ci.a[0]).(T)
		if !c.IsConst() {
			if _, ok := m.known(c); !ok && !m.cfg.NoMerge && m.initing == 0 {
				if m.tryMergeIf(fr, c) {
					return kJump
				}
			}
			c = m.ctx.Bool(m.branch(c))
		}
		if c.K == 1 {
			return fr.jump(fr.block.succs[0])
		}
		return fr.jump(fr.block.succs[1])
	case *ssa.Return:
		switch len(ci.a) {
		case 0:
		case 1:
			fr.result = fr.get(ci.a[0])
		default:
			r := make(tupleV, len(ci.a))
			for i, o := range ci.a {
				r[i] = fr.get(o)
			}
			fr.result = r
		}
		fr.block = nil
		return kReturn
	case *ssa.RunDefers:
		fr.runDefers()
	case *ssa.Panic:
		v := fr.get(ci.a[0]).(iface)
		if v.t == nil {
			m.rtPanic("panic called with nil argument (use GODEBUG=panicnil=1 to disable)")
		}
		panic(&targetPanic{v: v, where: fr.whereOwn()})
	case *ssa.Store:
		// a goroutine that stores is at work, not waiting
		if fr.g.quantum -= 50; fr.g.quantum < 0 {
			fr.g.quantum = 0
		}
		m.store(fr, ci.t, fr.get(ci.a[0]), fr.get(ci.a[1]))
	case *ssa.MapUpdate:
		mv, ok := fr.get(ci.a[0]).(*mapV)
		if !ok {
			m.unsupported("map update")
		}
		if mv == nil {
			m.rtPanicPlain("assignment to entry in nil map")
		}
		if m.race != nil {
			m.race.writeObj(fr.g, mv)
		}
		m.mapSet(mv, fr.get(ci.a[1]), fr.get(ci.a[2]))
	case *ssa.Send:
		ch, _ := fr.get(ci.a[0]).(*chanV)
		m.sch.sel(fr.g, []selCase{{ch: ch, send: true, val: fr.get(ci.a[1])}}, true)
	case *ssa.Go:
		fv, args := fr.prepCall(ci)
		m.sch.spawn(fr, ci, fv, args)
	case *ssa.Defer:
		fv, args := fr.prepCall(ci)
		if in.DeferStack != nil {
			m.unsupported("defer in range-over-func")
		}
		fr.defers = &deferred{ci: ci, fv: fv, args: args, next: fr.defers}
	case *ssa.Call:
		if ci.b == "" && ci.fi != nil {
			args := make([]value, len(ci.a)-1)
			for i := 1; i < len(ci.a); i++ {
				args[i-1] = fr.get(ci.a[i])
			}
			fr.regs[ci.dst] = m.callFn(fr, ci.fi, args, nil)
			return kNext
		}
		fv, args := fr.prepCall(ci)
		fr.regs[ci.dst] = m.invoke(fr, ci, fv, args)
	case *ssa.Select:
		fr.regs[ci.dst] = fr.execSelect(ci, in)
	default:
		fr.regs[ci.dst] = fr.eval(ci)
	}
	return kNext
}

func (m *Machine) rtPanicPlain(msg string) {
	rt := m.P.SSA.ImportedPackage("runtime")
	panic(&targetPanic{v: iface{m.ti(rt.Type("plainError").Type()), msg}})
}

// eval computes value instructions other than calls and selects.
func (fr *frame) eval(ci *cinst) value {
	m := fr.m
	switch in := ci.in.(type) {
	case *ssa.Alloc:
		p := new(value)
		*p = zero(ci.t)
		return p
	case *ssa.BinOp:
		return m.binop(ci.op, ci.t, ci.t2, fr.get(ci.a[0]), fr.get(ci.a[1]))
	case *ssa.UnOp:
		x := fr.get(ci.a[0])
		switch ci.op {
		case token.MUL:
			return m.load(fr, ci.t, x)
		case token.ARROW:
			ch, _ := x.(*chanV)
			_, v, ok := m.sch.sel(fr.g, []selCase{{ch: ch}}, true)
			v = orZero(ci.t, v)
			if ci.flag {
				return tupleV{v, m.ctx.Bool(ok)}
			}
			return v
		}
		return m.unop(ci.op, ci.t, x)
	case *ssa.ChangeType:
		return fr.get(ci.a[0])
	case *ssa.ChangeInterface:
		return fr.get(ci.a[0])
	case *ssa.Convert:
		return m.convert(ci.t, ci.t2, fr.get(ci.a[0]))
	case *ssa.MultiConvert:
		return m.convert(ci.t, ci.t2, fr.get(ci.a[0]))
	case *ssa.SliceToArrayPointer:
		s := fr.get(ci.a[0]).(sliceV)
		if len(s) < ci.t.n {
			m.rtPanic("cannot convert slice to array pointer: length too short")
		}
		p := new(value)
		*p = arrayV(s[:ci.t.n:ci.t.n])
		return p
	case *ssa.MakeInterface:
		return iface{ci.t, fr.get(ci.a[0])}
	case *ssa.MakeClosure:
		env := make([]value, len(ci.a)-1)
		for i := range env {
			env[i] = fr.get(ci.a[i+1])
		}
		return &closure{fn: in.Fn.(*ssa.Function), env: env}
	case *ssa.MakeMap:
		return &mapV{ti: ci.t, idx: map[any]*mentry{}}
	case *ssa.MakeChan:
		n := smtSigned(m.concretize(fr.get(ci.a[0]).(T)))
		if n < 0 || n > 1<<24 {
			m.rtPanicPlain("makechan: size out of range")
		}
		return &chanV{cap: int(n), ti: ci.t}
	case *ssa.MakeSlice:
		return m.makeSlice(ci, fr.get(ci.a[0]).(T), fr.get(ci.a[1]).(T))
	case *ssa.Slice:
		return fr.execSlice(ci)
	case *ssa.FieldAddr:
		x := fr.get(ci.a[0])
		switch p := x.(type) {
		case *value:
			if p == nil {
				m.rtPanic("invalid memory address or nil pointer dereference")
			}
			return &m.agg(ci.t, p)[ci.idx]
		case *symPtr:
			i := m.concretize(p.idx)
			return &m.agg(ci.t, &p.base[i])[ci.idx]
		}
		m.unsupported(fmt.Sprintf("field address of %T (%s)", x, ci.t))
	case *ssa.Field:
		fs := m.fieldsOf(ci.t, fr.get(ci.a[0]))
		return orZero(ci.t.fields[ci.idx], fs[ci.idx])
	case *ssa.IndexAddr:
		x := fr.get(ci.a[0])
		idx := fr.get(ci.a[1]).(T)
		var base []value
		et := ci.t.elem
		switch p := x.(type) {
		case sliceV:
			base = p
		case *value:
			if p == nil {
				m.rtPanic("invalid memory address or nil pointer dereference")
			}
			base = m.agg(ci.t.elem, p)
			et = ci.t.elem.elem
		case *symPtr:
			i := m.concretize(p.idx)
			base = m.agg(ci.t.elem, &p.base[i])
			et = ci.t.elem.elem
		default:
			m.unsupported(fmt.Sprintf("index address of %T", x))
		}
		idx = m.bound(idx, ci.t2, len(base))
		if idx.IsConst() {
			return &base[idx.K]
		}
		return &symPtr{base: base, idx: idx, et: et}
	case *ssa.Index:
		x := fr.get(ci.a[0])
		idx := fr.get(ci.a[1]).(T)
		if ci.t.k == kString {
			n := m.strLen(x)
			idx = m.bound(idx, ci.t2, n)
			if idx.IsConst() {
				return m.strAt(x, int(idx.K))
			}
			return m.mux(idx, idx.Lo, min(idx.Hi, uint64(n-1)), func(i uint64) T { return m.strAt(x, int(i)) })
		}
		fs := m.fieldsOf(ci.t, x)
		idx = m.bound(idx, ci.t2, len(fs))
		if idx.IsConst() {
			return orZero(ci.t.elem, fs[idx.K])
		}
		return m.loadSym(&symPtr{base: fs, idx: idx, et: ci.t.elem})
	case *ssa.Lookup:
		x := fr.get(ci.a[0])
		if ci.t.k == kString {
			idx := m.bound(fr.get(ci.a[1]).(T), ci.t2, m.strLen(x))
			if idx.IsConst() {
				return m.strAt(x, int(idx.K))
			}
			return m.mux(idx, idx.Lo, min(idx.Hi, uint64(m.strLen(x)-1)), func(i uint64) T { return m.strAt(x, int(i)) })
		}
		mv, ok := x.(*mapV)
		if !ok {
			m.unsupported(fmt.Sprintf("lookup in %T", x))
		}
		if m.race != nil && mv != nil {
			m.race.readObj(fr.g, mv)
		}
		k := fr.get(ci.a[1])
		if mv == nil {
			m.hashKey(ci.t.key, k)
		}
		e := m.mapFind(mv, k)
		var v value
		if e != nil {
			v = copyVal(orZero(ci.t.elem, e.v))
		} else {
			v = zero(ci.t.elem)
		}
		if ci.flag {
			return tupleV{v, m.ctx.Bool(e != nil)}
		}
		return v
	case *ssa.Range:
		x := fr.get(ci.a[0])
		if ci.t.k == kString {
			return &strIter{s: x}
		}
		mv := x.(*mapV)
		if m.race != nil && mv != nil {
			m.race.readObj(fr.g, mv)
		}
		it := &mapIter{mv: mv, seen: map[*mentry]bool{}}
		return it
	case *ssa.Next:
		return fr.execNext(ci)
	case *ssa.TypeAssert:
		return m.typeAssert(ci, fr.get(ci.a[0]))
	case *ssa.Extract:
		t := fr.getRaw(ci.a[0])
		tv, ok := t.(tupleV)
		if !ok {
			if p, isP := t.(poison); isP {
				m.unsupported("poison: " + p.why)
			}
			m.unsupported(fmt.Sprintf("extract from %T", t))
		}
		return orZero(ci.t, tv[ci.idx])
	}
	m.unsupported(fmt.Sprintf("instruction %T", ci.in))
	return nil
}

func smtSigned(v uint64) int64 { return int64(v) }

// bound checks 0 <= idx < n, panicking in the target when it can fail.
func (m *Machine) bound(idx T, it *tinfo, n int) T {
	c := m.ctx
	if it.k == kInt && it.w < 64 {
		if it.signed {
			idx = c.SExt(idx, 64)
		} else {
			idx = c.ZExt(idx, 64)
		}
	}
	if !m.branch(c.Ult(idx, c.BV(uint64(n), 64))) {
		i := ""
		if idx.IsConst() {
			i = fmt.Sprint(int64(idx.K))
		}
		m.rtPanic(fmt.Sprintf("index out of range [%s] with length %d", i, n))
	}
	if !idx.IsConst() && n == 1 {
		return c.BV(0, 64)
	}
	return idx
}

const maxAlloc = 1 << 27 // elements the engine will allocate

func (m *Machine) makeSlice(ci *cinst, l, cp T) value {
	c := m.ctx
	ext := func(t T) T {
		if t.W < 64 {
			if ci.t2.signed {
				return c.SExt(t, 64)
			}
			return c.ZExt(t, 64)
		}
		return t
	}
	l, cp = ext(l), ext(cp)
	// the runtime's own limit depends on the element size
	lim := uint64(1) << 47
	if ci.t.elem.size > 1 {
		lim /= uint64(ci.t.elem.size)
	}
	if !m.branch(c.Ule(l, c.BV(lim, 64))) {
		m.rtPanic("makeslice: len out of range")
	}
	if l != cp && !m.branch(c.And(c.Ule(l, cp), c.Ule(cp, c.BV(lim, 64)))) {
		m.rtPanic("makeslice: cap out of range")
	}
	if m.cfg.Huge && ci.t.elem.size == 1 && cp.IsConst() && l == cp && cp.K > 1<<24 && cp.K <= 1<<32 {
		return m.hugeSlice(cp.K)
	}
	if !m.branch(c.Ule(cp, c.BV(maxAlloc, 64))) {
		panic(&abort{abMem, "allocation of more than 2^27 elements"})
	}
	k := m.concretize(cp)
	n := k
	if l != cp {
		n = m.concretize(l)
	}
	return make(sliceV, n, k)
}

// hugeSlice is a slice of zeros that takes no memory. It can only be read.
func (m *Machine) hugeSlice(n uint64) value {
	b, e := syscall.Mmap(-1, 0, int(n)*int(unsafe.Sizeof(value(nil))), syscall.PROT_READ, syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_NORESERVE)
	if e != nil {
		panic(&abort{abMem, "mmap: " + e.Error()})
	}
	m.path.maps = append(m.path.maps, b)
	debug.SetPanicOnFault(true)
	return sliceV(unsafe.Slice((*value)(unsafe.Pointer(&b[0])), n))
}

func (fr *frame) execSlice(ci *cinst) value {
	m := fr.m
	c := m.ctx
	x := fr.get(ci.a[0])
	var ln, cp int
	var base []value
	isStr := ci.t2.k == kString
	switch {
	case isStr:
		ln = m.strLen(x)
		cp = ln
	default:
		switch p := x.(type) {
		case sliceV:
			base = p
			ln, cp = len(p), cap(p)
		case *value:
			if p == nil {
				m.rtPanic("invalid memory address or nil pointer dereference")
			}
			base = m.agg(ci.t2.elem, p)
			ln, cp = len(base), len(base)
		default:
			m.unsupported(fmt.Sprintf("slice of %T", x))
		}
	}
	arg := func(i int) (T, bool) {
		v := fr.get(ci.a[i])
		if v == nil {
			return nil, false
		}
		t := v.(T)
		if t.W < 64 {
			var tt *tinfo
			s := ci.in.(*ssa.Slice)
			switch i {
			case 1:
				tt = m.ti(s.Low.Type())
			case 2:
				tt = m.ti(s.High.Type())
			default:
				tt = m.ti(s.Max.Type())
			}
			if tt.signed {
				t = c.SExt(t, 64)
			} else {
				t = c.ZExt(t, 64)
			}
		}
		return t, true
	}
	lo, okL := arg(1)
	hi, okH := arg(2)
	mx, okM := arg(3)
	if !okL {
		lo = c.BV(0, 64)
	}
	if !okM {
		mx = c.BV(uint64(cp), 64)
	}
	if !okH {
		hi = c.BV(uint64(ln), 64)
	}
	if okM && !m.branch(c.Ule(mx, c.BV(uint64(cp), 64))) {
		m.rtPanic("slice bounds out of range")
	}
	if okH || okM {
		if !m.branch(c.Ule(hi, mx)) {
			m.rtPanic("slice bounds out of range")
		}
	}
	if !m.branch(c.Ule(lo, hi)) {
		m.rtPanic("slice bounds out of range")
	}
	// concretise the difference-friendly way: low first, then high
	l := int(m.concretize(lo))
	h := int(m.concretize(hi))
	k := int(m.concretize(mx))
	if isStr {
		return m.strSlice(x, l, h)
	}
	if s, ok := x.(sliceV); ok && s == nil {
		return sliceV(nil)
	}
	return sliceV(base[l:h:k])
}

func (fr *frame) execNext(ci *cinst) value {
	m := fr.m
	c := m.ctx
	it := fr.get(ci.a[0])
	if si, ok := it.(*strIter); ok {
		n := m.strLen(si.s)
		if si.i >= n {
			return tupleV{c.False, c.BV(0, 64), c.BV(0, 32)}
		}
		at := si.i
		r, sz := m.decodeRune(fr, si.s, at)
		old := *si
		m.onUndo(func() { *si = old })
		si.i += sz
		return tupleV{c.True, c.BV(uint64(at), 64), r}
	}
	mi := it.(*mapIter)
	tv := ci.t
	done := tupleV{c.False, zero(tv.fields[1]), zero(tv.fields[2])}
	if mi.mv == nil {
		return done
	}
	var cand []*mentry
	for _, e := range mi.mv.ents {
		if !e.dead && !mi.seen[e] {
			cand = append(cand, e)
		}
	}
	if len(cand) == 0 {
		return done
	}
	k := 0
	if m.path != nil && m.path.mapOrder && m.initing == 0 {
		k = m.choose(len(cand))
	}
	e := cand[k]
	mi.seen[e] = true
	var kv, vv value = copyVal(e.k), copyVal(e.v)
	if kv == nil {
		kv = zero(mi.mv.ti.key)
	}
	if vv == nil {
		vv = zero(mi.mv.ti.elem)
	}
	return tupleV{c.True, kv, vv}
}

// decodeRune decodes one rune at a position; symbolic bytes split on the
// encoding class.
func (m *Machine) decodeRune(fr *frame, s value, at int) (T, int) {
	c := m.ctx
	b := m.strAt(s, at)
	if m.branch(c.Ult(b, c.BV(0x80, 8))) {
		return c.ZExt(b, 32), 1
	}
	f := m.P.SSA.ImportedPackage("unicode/utf8")
	if f == nil {
		m.unsupported("range over non-ASCII string without unicode/utf8")
	}
	n := m.strLen(s)
	hi := at + 4
	if hi > n {
		hi = n
	}
	r := m.callFn(fr, m.info(f.Func("DecodeRuneInString")), []value{m.strSlice(s, at, hi)}, nil).(tupleV)
	return r[0].(T), int(m.concretize(r[1].(T)))
}

func (m *Machine) implements(ti, it *tinfo) bool {
	if r, ok := ti.impl[it]; ok {
		return r
	}
	iu := it.t.Underlying().(*types.Interface)
	r := types.Implements(ti.t, iu)
	if ti.impl == nil {
		ti.impl = map[*tinfo]bool{}
	}
	ti.impl[it] = r
	return r
}

func (m *Machine) typeAssert(ci *cinst, x value) value {
	it, ok := x.(iface)
	if !ok {
		m.unsupported(fmt.Sprintf("type assertion on %T", x))
	}
	good := false
	var v value
	if it.t != nil {
		if ci.t.k == kIface {
			good = m.implements(it.t, ci.t)
			v = it
		} else {
			good = it.t == ci.t
			v = it.v
		}
	}
	if good {
		v = copyVal(v)
	}
	if ci.flag {
		if !good {
			v = zero(ci.t)
		}
		return tupleV{v, m.ctx.Bool(good)}
	}
	if !good {
		have := "nil"
		if it.t != nil {
			have = it.t.String()
		}
		rt := m.P.SSA.ImportedPackage("runtime")
		panic(&targetPanic{v: iface{m.ti(rt.Type("errorString").Type()), "interface conversion: interface is " + have + ", not " + ci.t.String()}})
	}
	return v
}

func (fr *frame) execSelect(ci *cinst, in *ssa.Select) value {
	m := fr.m
	cases := make([]selCase, len(ci.a))
	for i := range ci.a {
		ch, _ := fr.get(ci.a[i]).(*chanV)
		cases[i] = selCase{ch: ch}
		if in.States[i].Dir == types.SendOnly {
			cases[i].send = true
			cases[i].val = fr.get(ci.sel[i])
		}
	}
	k, v, ok := m.sch.sel(fr.g, cases, ci.flag)
	r := tupleV{m.ctx.BV(uint64(k), 64), m.ctx.Bool(ok)}
	for i, s := range in.States {
		if s.Dir == types.RecvOnly {
			et := m.ti(s.Chan.Type().Underlying().(*types.Chan).Elem())
			if i == k {
				r = append(r, orZero(et, v))
			} else {
				r = append(r, zero(et))
			}
		}
	}
	return r
}
