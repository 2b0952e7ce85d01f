// Package exec executes go/ssa code symbolically.
package exec

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"

	"gosym/smt"
)

type value = any
type T = *smt.Term

type (
	structV []value
	arrayV  []value
	sliceV  []value
	tupleV  []value
)

type iface struct {
	t *tinfo
	v value
}

// symStr is an immutable string with at least one symbolic byte.
type symStr struct{ b []T }

type closure struct {
	fn  *ssa.Function
	env []value
}

// symPtr is the address of base[idx] for a symbolic, in-range idx.
type symPtr struct {
	base []value
	idx  T
	et   *tinfo
}

// dataPtr is the result of unsafe.SliceData and unsafe.StringData.
type dataPtr struct {
	s   sliceV
	str value
}

type poison struct{ why string }

type kind uint8

const (
	kInvalid kind = iota
	kBool
	kInt
	kFloat
	kComplex
	kString
	kUnsafe
	kPtr
	kSlice
	kArray
	kStruct
	kIface
	kMap
	kChan
	kFunc
	kTuple
)

type tinfo struct {
	t      types.Type
	k      kind
	w      uint8
	signed bool
	elem   *tinfo
	key    *tinfo
	fields []*tinfo
	n      int
	id     int
	zero   value
	meths  map[string]*ssa.Function
	impl   map[*tinfo]bool
	size   int64
}

func (ti *tinfo) scalar() bool { return ti.k == kBool || ti.k == kInt || ti.k == kFloat }

func (ti *tinfo) String() string { return types.TypeString(ti.t, nil) }

// ti interns type information; identical types share one *tinfo.
func (m *Machine) ti(t types.Type) *tinfo {
	if x, ok := m.tcache[t]; ok {
		return x
	}
	if x := m.tmap.At(t); x != nil {
		r := x.(*tinfo)
		m.tcache[t] = r
		return r
	}
	r := &tinfo{t: t, id: len(m.tcache)}
	m.tcache[t] = r
	m.tmap.Set(t, r)
	c := m.ctx
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			r.k, r.zero = kBool, c.False
		case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
			r.k, r.w, r.signed = kInt, 64, true
			if u.Kind() == types.UntypedRune {
				r.w = 32
			}
		case types.Int8:
			r.k, r.w, r.signed = kInt, 8, true
		case types.Int16:
			r.k, r.w, r.signed = kInt, 16, true
		case types.Int32:
			r.k, r.w, r.signed = kInt, 32, true
		case types.Uint, types.Uint64, types.Uintptr:
			r.k, r.w = kInt, 64
		case types.Uint8:
			r.k, r.w = kInt, 8
		case types.Uint16:
			r.k, r.w = kInt, 16
		case types.Uint32:
			r.k, r.w = kInt, 32
		case types.Float32:
			r.k, r.w, r.zero = kFloat, 32, c.FConst(0, 32)
		case types.Float64, types.UntypedFloat:
			r.k, r.w, r.zero = kFloat, 64, c.FConst(0, 64)
		case types.Complex64, types.Complex128, types.UntypedComplex:
			r.k, r.zero = kComplex, complex128(0)
		case types.String, types.UntypedString:
			r.k, r.zero = kString, ""
		case types.UnsafePointer:
			r.k, r.zero = kUnsafe, (*value)(nil)
		case types.UntypedNil, types.Invalid: // Invalid: an unused range variable
			r.k, r.zero = kUnsafe, (*value)(nil)
		default:
			m.unsupported("basic type " + u.String())
		}
		if r.k == kInt {
			r.zero = c.BV(0, r.w)
		}
	case *types.Pointer:
		r.k, r.zero = kPtr, (*value)(nil)
		r.elem = m.ti(u.Elem())
	case *types.Slice:
		r.k, r.zero = kSlice, sliceV(nil)
		r.elem = m.ti(u.Elem())
	case *types.Array:
		r.k, r.n = kArray, int(u.Len())
		r.elem = m.ti(u.Elem())
	case *types.Struct:
		r.k, r.n = kStruct, u.NumFields()
		for i := 0; i < u.NumFields(); i++ {
			r.fields = append(r.fields, m.ti(u.Field(i).Type()))
		}
	case *types.Interface:
		r.k, r.zero = kIface, iface{}
	case *types.Map:
		r.k, r.zero = kMap, (*mapV)(nil)
		r.key, r.elem = m.ti(u.Key()), m.ti(u.Elem())
	case *types.Chan:
		r.k, r.zero = kChan, (*chanV)(nil)
		r.elem = m.ti(u.Elem())
	case *types.Signature:
		r.k, r.zero = kFunc, (*closure)(nil)
	case *types.Tuple:
		r.k, r.n = kTuple, u.Len()
		for i := 0; i < u.Len(); i++ {
			r.fields = append(r.fields, m.ti(u.At(i).Type()))
		}
	default:
		m.unsupported(fmt.Sprintf("type %T", u))
	}
	if b, ok := t.Underlying().(*types.Basic); ok && (b.Info()&types.IsUntyped != 0 || b.Kind() == types.Invalid) {
		if b.Kind() != types.UntypedNil && b.Kind() != types.Invalid {
			r.size = m.sizes.Sizeof(types.Default(t))
		}
	} else if r.k != kTuple {
		r.size = m.sizes.Sizeof(t)
	}
	return r
}

// zero returns the zero value of ti (fresh for aggregates).
func zero(ti *tinfo) value {
	switch ti.k {
	case kStruct:
		return make(structV, ti.n)
	case kArray:
		return make(arrayV, ti.n)
	case kTuple:
		r := make(tupleV, ti.n)
		for i, f := range ti.fields {
			r[i] = zero(f)
		}
		return r
	}
	return ti.zero
}

func orZero(ti *tinfo, v value) value {
	if v == nil {
		return zero(ti)
	}
	return v
}

// copyVal deep-copies aggregates so that registers never alias memory.
func copyVal(v value) value {
	switch v := v.(type) {
	case structV:
		r := make(structV, len(v))
		for i, x := range v {
			if x != nil {
				r[i] = copyVal(x)
			}
		}
		return r
	case arrayV:
		r := make(arrayV, len(v))
		for i, x := range v {
			if x != nil {
				r[i] = copyVal(x)
			}
		}
		return r
	}
	return v
}

// ---------------------------------------------------------------- memory

type undoEnt struct {
	p   *value
	old value
	dst []value // range restore
	sav []value
	f   func()
}

func (m *Machine) set(p *value, v value) {
	if m.logging {
		m.undo = append(m.undo, undoEnt{p: p, old: *p})
	}
	*p = v
}

func (m *Machine) onUndo(f func()) {
	if m.logging {
		m.undo = append(m.undo, undoEnt{f: f})
	}
}

func (m *Machine) rollback(n int) {
	for i := len(m.undo) - 1; i >= n; i-- {
		e := &m.undo[i]
		switch {
		case e.f != nil:
			e.f()
		case e.p != nil:
			*e.p = e.old
		default:
			copy(e.dst, e.sav)
		}
		*e = undoEnt{}
	}
	m.undo = m.undo[:n]
}

// storeAt writes v of type ti into a cell, in place for aggregates.
func (m *Machine) storeAt(ti *tinfo, p *value, v value) {
	switch ti.k {
	case kStruct:
		src, ok := v.(structV)
		if !ok {
			if _, isP := v.(poison); isP {
				m.set(p, v)
				return
			}
			m.unsupported(fmt.Sprintf("store of %T into struct", v))
		}
		dst := m.agg(ti, p)
		for i, f := range ti.fields {
			if src[i] == nil && dst[i] == nil {
				continue
			}
			m.storeAt(f, &dst[i], orZero(f, src[i]))
		}
	case kArray:
		src, ok := v.(arrayV)
		if !ok {
			if _, isP := v.(poison); isP {
				m.set(p, v)
				return
			}
			m.unsupported(fmt.Sprintf("store of %T into array", v))
		}
		dst := m.agg(ti, p)
		for i := range src {
			if src[i] == nil && dst[i] == nil {
				continue
			}
			m.storeAt(ti.elem, &dst[i], orZero(ti.elem, src[i]))
		}
	default:
		m.set(p, v)
	}
}

// agg returns the cells of an aggregate, materialising lazy zeros.
func (m *Machine) agg(ti *tinfo, p *value) []value {
	switch v := (*p).(type) {
	case nil:
		s := make([]value, ti.n)
		if ti.k == kStruct {
			*p = structV(s)
		} else {
			*p = arrayV(s)
		}
		return s
	case structV:
		return v
	case arrayV:
		return v
	case poison:
		m.unsupported("poison: " + v.why)
	}
	m.unsupported(fmt.Sprintf("aggregate access to %T as %s", *p, ti))
	return nil
}

func (m *Machine) loadAt(ti *tinfo, p *value) value {
	v := *p
	switch x := v.(type) {
	case nil:
		return zero(ti)
	case structV, arrayV:
		return copyVal(v)
	case poison:
		m.unsupported("poison: " + x.why)
	case T:
		// unsafe reinterpretation of integers of the same width is harmless
		if ti.k == kInt && x.W != ti.w || ti.k == kFloat != x.Fp {
			m.unsupported(fmt.Sprintf("load of %d-bit cell as %s", x.W, ti))
		}
	}
	return v
}

func (m *Machine) load(fr *frame, ti *tinfo, pv value) value {
	switch p := pv.(type) {
	case *value:
		if p == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		if m.race != nil {
			m.race.read(fr.g, p)
		}
		return m.loadAt(ti, p)
	case *symPtr:
		return m.loadSym(p)
	case *dataPtr:
		if p.s != nil && len(p.s) > 0 {
			return m.loadAt(ti, &p.s[0])
		}
		if p.str != nil && m.strLen(p.str) > 0 {
			return m.strAt(p.str, 0)
		}
	case poison:
		m.unsupported("poison: " + p.why)
	}
	m.unsupported(fmt.Sprintf("load through %T", pv))
	return nil
}

func (m *Machine) store(fr *frame, ti *tinfo, pv, v value) {
	switch p := pv.(type) {
	case *value:
		if p == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		if m.race != nil {
			m.race.write(fr.g, p)
		}
		m.storeAt(ti, p, v)
		return
	case *symPtr:
		if !p.et.scalar() {
			i := m.concretize(p.idx)
			m.storeAt(ti, &p.base[i], v)
			return
		}
		c := m.ctx
		lo, hi := p.idx.Lo, p.idx.Hi
		if hi >= uint64(len(p.base)) {
			hi = uint64(len(p.base)) - 1
		}
		for i := lo; i <= hi; i++ {
			old := orZero(p.et, p.base[i]).(T)
			m.set(&p.base[i], c.Ite(c.Eq(p.idx, c.BV(i, p.idx.W)), v.(T), old))
		}
		return
	case *dataPtr:
		if p.s != nil && len(p.s) > 0 {
			m.storeAt(ti, &p.s[0], v)
			return
		}
	}
	m.unsupported(fmt.Sprintf("store through %T", pv))
}

func (m *Machine) loadSym(p *symPtr) value {
	lo, hi := p.idx.Lo, p.idx.Hi
	if hi >= uint64(len(p.base)) {
		hi = uint64(len(p.base)) - 1
	}
	ok := p.et.scalar()
	if ok && hi-lo < 4096 {
		return m.mux(p.idx, lo, hi, func(i uint64) T { return orZero(p.et, p.base[i]).(T) })
	}
	if !ok {
		// aggregates and references: identical entries need no split
		var first value
		same := hi-lo < 4096
		for i := lo; same && i <= hi; i++ {
			e := p.base[i]
			switch e.(type) {
			case *value, string, *closure, T, *mapV, *chanV:
				if i == lo {
					first = e
				} else if e != first {
					same = false
				}
			default:
				same = false
			}
		}
		if same && first != nil {
			return first
		}
	}
	i := m.concretize(p.idx)
	return m.loadAt(p.et, &p.base[i])
}

// mux selects f(idx) for idx in [lo,hi] with a balanced tree of comparisons.
func (m *Machine) mux(idx T, lo, hi uint64, f func(uint64) T) T {
	if lo == hi {
		return f(lo)
	}
	// skip equal runs cheaply: all entries equal
	mid := lo + (hi-lo)/2
	a := m.mux(idx, lo, mid, f)
	b := m.mux(idx, mid+1, hi, f)
	if a == b {
		return a
	}
	return m.ctx.Ite(m.ctx.Ule(idx, m.ctx.BV(mid, idx.W)), a, b)
}

// ---------------------------------------------------------------- strings

func (m *Machine) strLen(v value) int {
	switch s := v.(type) {
	case string:
		return len(s)
	case *symStr:
		return len(s.b)
	case nil:
		return 0
	case poison:
		m.unsupported("poison: " + s.why)
	}
	m.unsupported(fmt.Sprintf("string value %T", v))
	return 0
}

func (m *Machine) strAt(v value, i int) T {
	switch s := v.(type) {
	case string:
		return m.ctx.BV(uint64(s[i]), 8)
	case *symStr:
		return s.b[i]
	}
	panic("strAt")
}

func (m *Machine) strTerms(v value) []T {
	switch s := v.(type) {
	case string:
		r := make([]T, len(s))
		for i := 0; i < len(s); i++ {
			r[i] = m.ctx.BV(uint64(s[i]), 8)
		}
		return r
	case *symStr:
		return s.b
	case nil:
		return nil
	}
	m.unsupported(fmt.Sprintf("string value %T", v))
	return nil
}

func mkStr(b []T) value {
	for _, t := range b {
		if !t.IsConst() {
			return &symStr{b}
		}
	}
	r := make([]byte, len(b))
	for i, t := range b {
		r[i] = byte(t.K)
	}
	return string(r)
}

func (m *Machine) strSlice(v value, lo, hi int) value {
	switch s := v.(type) {
	case string:
		return s[lo:hi]
	case *symStr:
		return mkStr(s.b[lo:hi])
	}
	panic("strSlice")
}

func (m *Machine) strCat(a, b value) value {
	x, ok1 := a.(string)
	y, ok2 := b.(string)
	if ok1 && ok2 {
		return x + y
	}
	if ok1 && x == "" {
		return b
	}
	if ok2 && y == "" {
		return a
	}
	p, q := m.strTerms(a), m.strTerms(b)
	r := make([]T, 0, len(p)+len(q))
	return mkStr(append(append(r, p...), q...))
}

func (m *Machine) strEq(a, b value) T {
	c := m.ctx
	x, ok1 := a.(string)
	y, ok2 := b.(string)
	if ok1 && ok2 {
		return c.Bool(x == y)
	}
	if m.strLen(a) != m.strLen(b) {
		return c.False
	}
	return m.termsEq(m.strTerms(a), m.strTerms(b))
}

func (m *Machine) termsEq(p, q []T) T {
	if len(p) != len(q) {
		return m.ctx.False
	}
	r := m.ctx.True
	for i := range p {
		r = m.ctx.And(r, m.ctx.Eq(p[i], q[i]))
		if r.IsFalse() {
			return r
		}
	}
	return r
}

// strCmp returns the terms a<b and a==b.
func (m *Machine) termsCmp(p, q []T) (lt, eq T) {
	c := m.ctx
	n := len(p)
	if len(q) < n {
		n = len(q)
	}
	lt = c.Bool(len(p) < len(q))
	eq = c.Bool(len(p) == len(q))
	for i := n - 1; i >= 0; i-- {
		e := c.Eq(p[i], q[i])
		lt = c.Ite(e, lt, c.Ult(p[i], q[i]))
		eq = c.And(e, eq)
	}
	return
}

func (m *Machine) strCmp(a, b value) (lt, eq T) {
	x, ok1 := a.(string)
	y, ok2 := b.(string)
	if ok1 && ok2 {
		return m.ctx.Bool(x < y), m.ctx.Bool(x == y)
	}
	return m.termsCmp(m.strTerms(a), m.strTerms(b))
}

func (m *Machine) bytesTerms(s sliceV) []T {
	r := make([]T, len(s))
	z := m.ctx.BV(0, 8)
	for i, v := range s {
		switch v := v.(type) {
		case nil:
			r[i] = z
		case T:
			r[i] = v
		case poison:
			m.unsupported("poison: " + v.why)
		default:
			m.unsupported(fmt.Sprintf("byte cell %T", v))
		}
	}
	return r
}

func (m *Machine) bytesToStr(s sliceV) value { return mkStr(m.bytesTerms(s)) }

func (m *Machine) termsToSlice(b []T) sliceV {
	r := make(sliceV, len(b))
	for i, t := range b {
		r[i] = t
	}
	return r
}

// ---------------------------------------------------------------- equality

func (m *Machine) eq(ti *tinfo, a, b value) T {
	c := m.ctx
	switch ti.k {
	case kBool, kInt:
		return c.Eq(orZero(ti, a).(T), orZero(ti, b).(T))
	case kFloat:
		return c.FCmp(smt.OFEq, orZero(ti, a).(T), orZero(ti, b).(T))
	case kComplex:
		return c.Bool(orZero(ti, a).(complex128) == orZero(ti, b).(complex128))
	case kString:
		return m.strEq(orZero(ti, a), orZero(ti, b))
	case kStruct:
		x, y := m.fieldsOf(ti, a), m.fieldsOf(ti, b)
		r := c.True
		st := ti.t.Underlying().(*types.Struct)
		for i, f := range ti.fields {
			if st.Field(i).Name() == "_" {
				continue
			}
			r = c.And(r, m.eq(f, x[i], y[i]))
			if r.IsFalse() {
				return r
			}
		}
		return r
	case kArray:
		x, y := m.fieldsOf(ti, a), m.fieldsOf(ti, b)
		r := c.True
		for i := range x {
			r = c.And(r, m.eq(ti.elem, x[i], y[i]))
			if r.IsFalse() {
				return r
			}
		}
		return r
	case kIface:
		return m.ifaceEq(orZero(ti, a).(iface), orZero(ti, b).(iface))
	case kPtr, kUnsafe:
		return c.Bool(m.ptrKey(orZero(ti, a)) == m.ptrKey(orZero(ti, b)))
	case kMap, kChan:
		return c.Bool(orZero(ti, a) == orZero(ti, b))
	case kSlice:
		x, y := orZero(ti, a).(sliceV), orZero(ti, b).(sliceV)
		if x == nil || y == nil {
			return c.Bool(x == nil && y == nil)
		}
	case kFunc:
		x, y := orZero(ti, a).(*closure), orZero(ti, b).(*closure)
		if x == nil || y == nil {
			return c.Bool(x == nil && y == nil)
		}
	}
	m.rtPanic("comparing uncomparable type " + ti.String())
	return nil
}

func (m *Machine) fieldsOf(ti *tinfo, v value) []value {
	switch v := v.(type) {
	case nil:
		return make([]value, ti.n)
	case structV:
		return v
	case arrayV:
		return v
	}
	m.unsupported(fmt.Sprintf("fields of %T", v))
	return nil
}

func (m *Machine) ptrKey(v value) any {
	switch p := v.(type) {
	case *value:
		return p
	case *symPtr:
		i := m.concretize(p.idx)
		return &p.base[i]
	case *dataPtr:
		if len(p.s) > 0 {
			return &p.s[0]
		}
		return p
	case nil:
		return (*value)(nil)
	case poison:
		m.unsupported("poison: " + p.why)
	}
	return v
}

func (m *Machine) ifaceEq(a, b iface) T {
	if a.t == nil || b.t == nil {
		return m.ctx.Bool(a.t == nil && b.t == nil)
	}
	if a.t != b.t {
		return m.ctx.False
	}
	return m.eq(a.t, a.v, b.v)
}

// ---------------------------------------------------------------- maps

type mentry struct {
	k    value
	v    value
	dead bool
}

type mapV struct {
	ents []*mentry
	idx  map[any]*mentry // concrete keys
	symN int             // entries with symbolic keys
	n    int
	ti   *tinfo
}

// hashKey returns a host-comparable form of a concrete key, or ok=false.
func (m *Machine) hashKey(ti *tinfo, k value) (any, bool) {
	switch ti.k {
	case kBool, kInt:
		t := orZero(ti, k).(T)
		if t.IsConst() {
			return t.K, true
		}
		return nil, false
	case kFloat:
		t := orZero(ti, k).(T)
		if t.IsFConst() && !math.IsNaN(t.Float()) && t.Float() != 0 {
			return t.K, true
		}
		return nil, false
	case kString:
		s, ok := orZero(ti, k).(string)
		return s, ok
	case kPtr, kChan, kUnsafe:
		return m.ptrKey(orZero(ti, k)), true
	case kIface:
		i := orZero(ti, k).(iface)
		if i.t == nil {
			return nil, true
		}
		switch i.t.k {
		case kSlice, kMap, kFunc:
			m.rtPanic("hash of unhashable type " + i.t.String())
		}
		h, ok := m.hashKey(i.t, i.v)
		if !ok {
			return nil, false
		}
		return [2]any{i.t, h}, true
	case kArray, kStruct:
		var sb strings.Builder
		fs := m.fieldsOf(ti, k)
		for i, f := range fs {
			ft := ti.elem
			if ti.k == kStruct {
				ft = ti.fields[i]
			}
			h, ok := m.hashKey(ft, f)
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%T:%v|", h, h)
		}
		return sb.String(), true
	}
	return nil, false
}

func (m *Machine) mapFind(mv *mapV, k value) *mentry {
	if mv == nil {
		return nil
	}
	kt := mv.ti.key
	h, conc := m.hashKey(kt, k)
	if conc {
		if e, ok := mv.idx[h]; ok {
			return e
		}
		if mv.symN == 0 {
			return nil
		}
		for _, e := range mv.ents {
			if e.dead {
				continue
			}
			if _, c := m.hashKey(kt, e.k); c {
				continue
			}
			if m.branch(m.eq(kt, e.k, k)) {
				return e
			}
		}
		return nil
	}
	for _, e := range mv.ents {
		if !e.dead && m.branch(m.eq(kt, e.k, k)) {
			return e
		}
	}
	return nil
}

func (m *Machine) mapSet(mv *mapV, k, v value) {
	if e := m.mapFind(mv, k); e != nil {
		m.set(&e.v, v)
		return
	}
	e := &mentry{k: copyVal(k), v: v}
	h, conc := m.hashKey(mv.ti.key, k)
	old := mv.ents
	mv.ents = append(mv.ents, e)
	mv.n++
	if conc {
		mv.idx[h] = e
	} else {
		mv.symN++
	}
	m.onUndo(func() {
		mv.ents = old
		mv.n--
		if conc {
			delete(mv.idx, h)
		} else {
			mv.symN--
		}
	})
}

func (m *Machine) mapDelete(mv *mapV, k value) {
	e := m.mapFind(mv, k)
	if e == nil {
		return
	}
	m.mapKill(mv, e)
}

func (m *Machine) mapKill(mv *mapV, e *mentry) {
	h, conc := m.hashKey(mv.ti.key, e.k)
	e.dead = true
	old := mv.ents
	n := make([]*mentry, 0, len(old))
	for _, x := range old {
		if x != e {
			n = append(n, x)
		}
	}
	mv.ents = n
	mv.n--
	if conc {
		delete(mv.idx, h)
	} else {
		mv.symN--
	}
	m.onUndo(func() {
		e.dead = false
		mv.ents = old
		mv.n++
		if conc {
			mv.idx[h] = e
		} else {
			mv.symN++
		}
	})
}

type mapIter struct {
	mv   *mapV
	todo []*mentry
	seen map[*mentry]bool
}

type strIter struct {
	s value
	i int
}
