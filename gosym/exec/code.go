package exec

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type opnd struct {
	r int32 // register, or -1
	v value
}

type cinst struct {
	in   ssa.Instruction
	dst  int32
	a    []opnd
	t    *tinfo // result or element type
	t2   *tinfo // operand type
	fi   *fnInfo
	op   token.Token
	idx  int
	flag bool
	b    string // builtin name
	sel  []opnd
}

type cblock struct {
	idx   int
	phis  []cinst
	code  []cinst
	succs []*cblock
	preds []int
	ipdom *cblock // nil = exit
	bb    *ssa.BasicBlock
}

type code struct {
	fn      *ssa.Function
	nregs   int
	blocks  []*cblock
	recover *cblock
	pkgs    []*ssa.Package
	inited  bool
	pure    int // 0 unknown 1 yes 2 no
	model   bool
	own     bool
}

type fnInfo struct {
	fn      *ssa.Function
	name    string
	intr    intrinsic
	code    *code
	own     bool // belongs to the program under test
	harness bool
	model   bool
	count   int64
}

type intrinsic func(m *Machine, fr *frame, args []value) value

const modPrefix = "gotor/"

func (m *Machine) info(fn *ssa.Function) *fnInfo {
	if fi, ok := m.fns[fn]; ok {
		return fi
	}
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	fi := &fnInfo{fn: fn, name: name}
	m.fns[fn] = fi
	if fn.Synthetic == "" || fn.Origin() != nil || fn.Blocks == nil || fn.Name() == "init" {
		if f, ok := intrinsics[name]; ok {
			fi.intr = f
			if fn.Blocks != nil {
				fi.code = &code{fn: fn}
			}
			return fi
		}
		if f, ok := redirects[name]; ok && m.P.Models != nil {
			if mf := m.P.Models.Func(f); mf != nil {
				*fi = *m.info(mf)
				fi.name = name
				return fi
			}
			panic("gosym: no model function " + f)
		}
	}
	pk := fn.Pkg
	if pk == nil && fn.Origin() != nil {
		pk = fn.Origin().Pkg
	}
	if pk == nil {
		for q := fn.Parent(); q != nil && pk == nil; q = q.Parent() {
			pk = q.Pkg
			if pk == nil && q.Origin() != nil {
				pk = q.Origin().Pkg
			}
		}
	}
	if pk == nil && fn.Object() != nil && fn.Object().Pkg() != nil {
		pk = m.P.SSA.Package(fn.Object().Pkg())
	}
	if pk != nil {
		path := pk.Pkg.Path()
		if strings.HasPrefix(path, modPrefix) || path == "gotor" {
			if strings.Contains(path, "/zzverif/") {
				fi.harness = true
				fi.model = strings.HasSuffix(path, "/zzverif/models")
			} else {
				fi.own = true
			}
		}
		if strings.HasSuffix(path, "/zzverif/vsym") {
			if f, ok := intrinsics["vsym."+fn.Name()]; ok {
				fi.intr = f
				return fi
			}
		}
	}
	if fn.Blocks == nil {
		fi.intr = func(m *Machine, fr *frame, args []value) value {
			m.unsupported("function without body: " + name)
			return nil
		}
		return fi
	}
	fi.code = &code{fn: fn, model: fi.model, own: fi.own}
	return fi
}

func (m *Machine) constVal(k *ssa.Const) value {
	ti := m.ti(k.Type())
	if k.Value == nil {
		return zero(ti)
	}
	c := m.ctx
	switch ti.k {
	case kBool:
		return c.Bool(constant.BoolVal(k.Value))
	case kInt:
		v := constant.ToInt(k.Value)
		if i, ok := constant.Int64Val(v); ok {
			return c.BV(uint64(i), ti.w)
		}
		u, _ := constant.Uint64Val(v)
		return c.BV(u, ti.w)
	case kFloat:
		f, _ := constant.Float64Val(k.Value)
		return c.FConst(f, ti.w)
	case kComplex:
		re, _ := constant.Float64Val(constant.Real(k.Value))
		im, _ := constant.Float64Val(constant.Imag(k.Value))
		return complex(re, im)
	case kString:
		if k.Value.Kind() == constant.String {
			return constant.StringVal(k.Value)
		}
		i, _ := constant.Int64Val(k.Value)
		return string(rune(i))
	case kIface:
		m.unsupported("constant of interface type")
	}
	m.unsupported("constant " + k.String())
	return nil
}

func (m *Machine) globalCell(g *ssa.Global) *value {
	if p, ok := m.glob[g]; ok {
		return p
	}
	p := new(value)
	et := m.ti(g.Type().Underlying().(*types.Pointer).Elem())
	*p = zero(et)
	m.glob[g] = p
	return p
}

func (m *Machine) compile(cd *code) {
	fn := cd.fn
	done := false
	defer func() {
		if !done {
			cd.blocks = nil // not to be run half compiled
		}
	}()
	regs := map[ssa.Value]int32{}
	n := int32(0)
	add := func(v ssa.Value) { regs[v] = n; n++ }
	for _, p := range fn.Params {
		add(p)
	}
	for _, f := range fn.FreeVars {
		add(f)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	cd.nregs = int(n)
	pkgs := map[*ssa.Package]bool{}
	if fn.Pkg != nil {
		pkgs[fn.Pkg] = true
	} else if o := fn.Origin(); o != nil && o.Pkg != nil {
		pkgs[o.Pkg] = true
	}
	op := func(v ssa.Value) opnd {
		switch x := v.(type) {
		case nil:
			return opnd{r: -1}
		case *ssa.Const:
			return opnd{r: -1, v: m.constVal(x)}
		case *ssa.Global:
			if x.Pkg != nil {
				pkgs[x.Pkg] = true
			}
			return opnd{r: -1, v: m.globalCell(x)}
		case *ssa.Function:
			return opnd{r: -1, v: &closure{fn: x}}
		case *ssa.Builtin:
			return opnd{r: -1, v: x}
		}
		r, ok := regs[v]
		if !ok {
			panic(fmt.Sprintf("gosym: no register for %v in %v", v, fn))
		}
		return opnd{r: r}
	}
	cd.blocks = make([]*cblock, len(fn.Blocks))
	for i := range fn.Blocks {
		cd.blocks[i] = &cblock{idx: i, bb: fn.Blocks[i]}
	}
	for i, b := range fn.Blocks {
		cb := cd.blocks[i]
		for _, s := range b.Succs {
			cb.succs = append(cb.succs, cd.blocks[s.Index])
		}
		for _, s := range b.Preds {
			cb.preds = append(cb.preds, s.Index)
		}
		for _, in := range b.Instrs {
			ci := cinst{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = regs[v]
			}
			switch x := in.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.Phi:
				for _, e := range x.Edges {
					ci.a = append(ci.a, op(e))
				}
				ci.t = m.ti(x.Type())
				cb.phis = append(cb.phis, ci)
				continue
			case *ssa.Alloc:
				ci.t = m.ti(x.Type().Underlying().(*types.Pointer).Elem())
			case *ssa.BinOp:
				ci.a = []opnd{op(x.X), op(x.Y)}
				ci.t, ci.t2, ci.op = m.ti(x.X.Type()), m.ti(x.Y.Type()), x.Op
			case *ssa.UnOp:
				ci.a = []opnd{op(x.X)}
				ci.op, ci.t, ci.t2, ci.flag = x.Op, m.ti(x.Type()), m.ti(x.X.Type()), x.CommaOk
				if x.Op == token.ARROW && x.CommaOk {
					ci.t = m.ti(x.X.Type().Underlying().(*types.Chan).Elem())
				}
			case *ssa.ChangeType:
				ci.a = []opnd{op(x.X)}
			case *ssa.Convert:
				ci.a = []opnd{op(x.X)}
				ci.t, ci.t2 = m.ti(x.Type()), m.ti(x.X.Type())
			case *ssa.MultiConvert:
				ci.a = []opnd{op(x.X)}
				ci.t, ci.t2 = m.ti(x.Type()), m.ti(x.X.Type())
			case *ssa.ChangeInterface:
				ci.a = []opnd{op(x.X)}
			case *ssa.SliceToArrayPointer:
				ci.a = []opnd{op(x.X)}
				ci.t = m.ti(x.Type().Underlying().(*types.Pointer).Elem())
			case *ssa.MakeInterface:
				ci.a = []opnd{op(x.X)}
				ci.t = m.ti(x.X.Type())
			case *ssa.MakeClosure:
				ci.a = []opnd{op(x.Fn)}
				for _, b := range x.Bindings {
					ci.a = append(ci.a, op(b))
				}
			case *ssa.MakeMap:
				ci.t = m.ti(x.Type())
			case *ssa.MakeChan:
				ci.a = []opnd{op(x.Size)}
				ci.t = m.ti(x.Type())
			case *ssa.MakeSlice:
				ci.a = []opnd{op(x.Len), op(x.Cap)}
				ci.t = m.ti(x.Type())
				ci.t2 = m.ti(x.Len.Type())
			case *ssa.Slice:
				ci.a = []opnd{op(x.X), op(x.Low), op(x.High), op(x.Max)}
				ci.t2 = m.ti(x.X.Type())
				ci.t = m.ti(x.Type())
			case *ssa.FieldAddr:
				ci.a = []opnd{op(x.X)}
				ci.t = m.ti(x.X.Type().Underlying().(*types.Pointer).Elem())
				ci.idx = x.Field
			case *ssa.Field:
				ci.a = []opnd{op(x.X)}
				ci.t = m.ti(x.X.Type())
				ci.idx = x.Field
			case *ssa.IndexAddr:
				ci.a = []opnd{op(x.X), op(x.Index)}
				ci.t = m.ti(x.X.Type())
				ci.t2 = m.ti(x.Index.Type())
			case *ssa.Index:
				ci.a = []opnd{op(x.X), op(x.Index)}
				ci.t = m.ti(x.X.Type())
				ci.t2 = m.ti(x.Index.Type())
			case *ssa.Lookup:
				ci.a = []opnd{op(x.X), op(x.Index)}
				ci.t = m.ti(x.X.Type())
				ci.t2 = m.ti(x.Index.Type())
				ci.flag = x.CommaOk
			case *ssa.Select:
				for _, s := range x.States {
					ci.a = append(ci.a, op(s.Chan))
					if s.Send != nil {
						ci.sel = append(ci.sel, op(s.Send))
					} else {
						ci.sel = append(ci.sel, opnd{r: -1})
					}
				}
				ci.flag = x.Blocking
			case *ssa.Range:
				ci.a = []opnd{op(x.X)}
				ci.t = m.ti(x.X.Type())
			case *ssa.Next:
				ci.a = []opnd{op(x.Iter)}
				ci.flag = x.IsString
				ci.t = m.ti(x.Type())
			case *ssa.TypeAssert:
				ci.a = []opnd{op(x.X)}
				ci.t = m.ti(x.AssertedType)
				ci.flag = x.CommaOk
			case *ssa.Extract:
				ci.a = []opnd{op(x.Tuple)}
				ci.idx = x.Index
				ci.t = m.ti(x.Type())
			case *ssa.Jump, *ssa.RunDefers:
			case *ssa.If:
				ci.a = []opnd{op(x.Cond)}
			case *ssa.Return:
				for _, r := range x.Results {
					ci.a = append(ci.a, op(r))
				}
			case *ssa.Panic:
				ci.a = []opnd{op(x.X)}
			case *ssa.Store:
				ci.a = []opnd{op(x.Addr), op(x.Val)}
				ci.t = m.ti(x.Val.Type())
			case *ssa.MapUpdate:
				ci.a = []opnd{op(x.Map), op(x.Key), op(x.Value)}
			case *ssa.Send:
				ci.a = []opnd{op(x.Chan), op(x.X)}
			case ssa.CallInstruction: // Call, Go, Defer
				cc := x.Common()
				if cc.IsInvoke() {
					ci.flag = true
					ci.a = append(ci.a, op(cc.Value))
				} else if f, ok := cc.Value.(*ssa.Function); ok {
					ci.fi = m.info(f)
					ci.a = append(ci.a, opnd{r: -1, v: &closure{fn: f}})
				} else {
					if b, ok := cc.Value.(*ssa.Builtin); ok {
						ci.b = b.Name()
						if len(cc.Args) > 0 {
							ci.t = m.ti(cc.Args[0].Type())
						}
						if v, ok := in.(ssa.Value); ok {
							ci.t2 = m.ti(v.Type())
						}
					}
					ci.a = append(ci.a, op(cc.Value))
				}
				for _, a := range cc.Args {
					ci.a = append(ci.a, op(a))
				}
			default:
				panic(fmt.Sprintf("gosym: instruction %T", in))
			}
			cb.code = append(cb.code, ci)
		}
	}
	if fn.Recover != nil {
		cd.recover = cd.blocks[fn.Recover.Index]
	}
	for p := range pkgs {
		cd.pkgs = append(cd.pkgs, p)
	}
	sort.Slice(cd.pkgs, func(i, j int) bool { return cd.pkgs[i].Pkg.Path() < cd.pkgs[j].Pkg.Path() })
	postDom(cd)
	done = true
}

// postDom computes immediate post-dominators (nil stands for the exit).
func postDom(cd *code) {
	n := len(cd.blocks)
	if n > 400 {
		return
	}
	words := (n + 63) / 64
	full := make([]uint64, words)
	for i := 0; i < n; i++ {
		full[i/64] |= 1 << (i % 64)
	}
	pd := make([][]uint64, n)
	for i := range pd {
		pd[i] = append([]uint64{}, full...)
	}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := cd.blocks[i]
			nw := make([]uint64, words)
			for k, s := range b.succs {
				for w := range nw {
					if k == 0 {
						nw[w] = pd[s.idx][w]
					} else {
						nw[w] &= pd[s.idx][w]
					}
				}
			}
			nw[i/64] |= 1 << (i % 64)
			for w := range nw {
				if nw[w] != pd[i][w] {
					changed = true
				}
			}
			pd[i] = nw
		}
	}
	has := func(i, j int) bool { return pd[i][j/64]>>(j%64)&1 == 1 }
	for i := 0; i < n; i++ {
		// the immediate one is the strict post-dominator that all others post-dominate
		for j := 0; j < n; j++ {
			if j == i || !has(i, j) {
				continue
			}
			ok := true
			for k := 0; k < n && ok; k++ {
				if k != i && k != j && has(i, k) && !has(j, k) {
					ok = false
				}
			}
			if ok {
				cd.blocks[i].ipdom = cd.blocks[j]
				break
			}
		}
	}
}

// ensureInit runs package initialisers lazily, outside the undo log.
func (m *Machine) ensureInit(cd *code) {
	if cd.inited {
		return
	}
	for _, p := range cd.pkgs {
		m.initPkg(p)
	}
	cd.inited = true
}

func (m *Machine) initPkg(p *ssa.Package) {
	if m.pkgs[p] != 0 {
		return
	}
	m.pkgs[p] = 1
	init := p.Func("init")
	if init != nil && init.Blocks != nil && !skipInit[p.Pkg.Path()] {
		oldLog, oldRace := m.logging, m.race
		m.logging, m.race = false, nil
		m.initing++
		var steps int64
		if m.path != nil {
			steps = m.path.steps
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					switch x := r.(type) {
					case *abort:
						if x.k != abUnsupported && x.k != abSteps {
							panic(r)
						}
						m.InitNotes[p.Pkg.Path()+": "+x.msg]++
					case *targetPanic:
						m.InitNotes[p.Pkg.Path()+": panic in init"]++
					default:
						panic(r)
					}
				}
			}()
			g := m.sch.cur
			q := g.quantum
			top := g.top
			defer func() { g.quantum, g.top = q, top }()
			fi := m.info(init)
			if fi.code.blocks == nil {
				m.compile(fi.code)
			}
			for _, q := range fi.code.pkgs {
				// packages whose variables this initialiser reads come first
				m.initPkg(q)
			}
			m.callFn(&frame{m: m, g: g}, fi, nil, nil)
		}()
		m.initing--
		if m.path != nil {
			m.path.steps = steps
		}
		m.logging, m.race = oldLog, oldRace
	}
	m.pkgs[p] = 2
}

// skipInit lists packages whose initialisers touch the host.
var skipInit = map[string]bool{
	"runtime": true, "internal/runtime/maps": true, "internal/godebug": true, "internal/cpu": true,
	"crypto/internal/fips140/check": true, "crypto/internal/sysrand": true, "os/signal": true,
	"vendor/golang.org/x/sys/cpu": true, "internal/poll": false, "crypto/internal/fips140deps/cpu": true,
}
