package exec

import (
	"go/types"
)

// What reflection-based standard library functions need, done on the engine's
// own values. (The functions themselves are models in harness/models/std.go.)

func init() {
	intrinsics["vsym.AnyLen"] = func(m *Machine, fr *frame, args []value) value {
		return m.i64(int64(len(m.anySlice(args[0]))))
	}
	intrinsics["vsym.AnySwap"] = func(m *Machine, fr *frame, args []value) value {
		s := m.anySlice(args[0])
		et := args[0].(iface).t.elem
		i, j := m.concretize(args[1].(T)), m.concretize(args[2].(T))
		if i >= uint64(len(s)) || j >= uint64(len(s)) {
			m.rtPanic("reflect: slice index out of range")
		}
		x, y := m.load(fr, et, &s[i]), m.load(fr, et, &s[j])
		m.store(fr, et, &s[i], y)
		m.store(fr, et, &s[j], x)
		return nil
	}
	intrinsics["vsym.AnyAssign"] = func(m *Machine, fr *frame, args []value) value {
		t, x := args[0].(iface), args[1].(iface)
		if t.t.k != kPtr {
			m.rtPanic("errors: target must be a non-nil pointer")
		}
		if t.t.elem.k == kIface {
			if !m.implements(x.t, t.t.elem) {
				return m.ctx.False
			}
			m.store(fr, t.t.elem, t.v, x)
			return m.ctx.True
		}
		if x.t != t.t.elem {
			return m.ctx.False
		}
		m.store(fr, t.t.elem, t.v, x.v)
		return m.ctx.True
	}
	intrinsics["vsym.AnyComparable"] = func(m *Machine, fr *frame, args []value) value {
		return m.ctx.Bool(types.Comparable(args[0].(iface).t.t))
	}
	intrinsics["maps.clone"] = func(m *Machine, fr *frame, args []value) value {
		it := args[0].(iface)
		old, _ := it.v.(*mapV)
		if old == nil {
			return it
		}
		if m.race != nil {
			m.race.readObj(fr.g, old)
		}
		nw := &mapV{ti: old.ti, idx: map[any]*mentry{}}
		for _, e := range old.ents {
			if !e.dead {
				m.mapSet(nw, e.k, copyVal(e.v))
			}
		}
		return iface{it.t, nw}
	}
	intrinsics["reflect.DeepEqual"] = func(m *Machine, fr *frame, args []value) value {
		return m.deepIface(args[0].(iface), args[1].(iface), 0)
	}
	intrinsics["vsym.AnySize"] = func(m *Machine, fr *frame, args []value) value {
		it := args[0].(iface)
		if it.t == nil {
			return m.i64(-1)
		}
		ti, v := it.t, it.v
		if ti.k == kPtr {
			p, ok := v.(*value)
			if !ok || p == nil {
				return m.i64(-1)
			}
			ti, v = ti.elem, *p
		}
		return m.i64(int64(m.binSize(ti, v)))
	}
	intrinsics["vsym.AnyBytes"] = func(m *Machine, fr *frame, args []value) value {
		it := args[0].(iface)
		ti, v := it.t, it.v
		if ti.k == kPtr {
			ti, v = ti.elem, m.load(fr, ti.elem, v)
		}
		var out []T
		m.binPut(&out, ti, v, args[1].(T).IsTrue())
		return m.termsToSlice(out)
	}
	intrinsics["vsym.AnySet"] = func(m *Machine, fr *frame, args []value) value {
		it := args[0].(iface)
		b := m.bytesTerms(args[1].(sliceV))
		big := args[2].(T).IsTrue()
		switch it.t.k {
		case kPtr:
			v := m.binGet(&b, it.t.elem, big)
			m.store(fr, it.t.elem, it.v, v)
		case kSlice:
			s := it.v.(sliceV)
			for i := range s {
				m.store(fr, it.t.elem, &s[i], m.binGet(&b, it.t.elem, big))
			}
		default:
			m.unsupported("binary.Read into " + it.t.String())
		}
		return nil
	}
}

func (m *Machine) anySlice(v value) sliceV {
	it := v.(iface)
	if it.t == nil || it.t.k != kSlice {
		m.rtPanic("reflect: call of Swapper on a value that is no slice")
	}
	s, _ := it.v.(sliceV)
	return s
}

func (m *Machine) deepIface(a, b iface, depth int) T {
	c := m.ctx
	if a.t == nil || b.t == nil {
		return c.Bool(a.t == nil && b.t == nil)
	}
	if a.t != b.t {
		return c.False
	}
	return m.deepEq(a.t, a.v, b.v, depth)
}

func (m *Machine) deepEq(ti *tinfo, a, b value, depth int) T {
	c := m.ctx
	if depth > 40 {
		m.unsupported("reflect.DeepEqual of deeply nested or cyclic values")
	}
	a, b = orZero(ti, a), orZero(ti, b)
	r := c.True
	switch ti.k {
	case kStruct:
		x, y := m.fieldsOf(ti, a), m.fieldsOf(ti, b)
		for i, f := range ti.fields {
			if r = c.And(r, m.deepEq(f, x[i], y[i], depth+1)); r.IsFalse() {
				return r
			}
		}
		return r
	case kArray:
		x, y := m.fieldsOf(ti, a), m.fieldsOf(ti, b)
		for i := range x {
			if r = c.And(r, m.deepEq(ti.elem, x[i], y[i], depth+1)); r.IsFalse() {
				return r
			}
		}
		return r
	case kSlice:
		x, y := a.(sliceV), b.(sliceV)
		if (x == nil) != (y == nil) || len(x) != len(y) {
			return c.False
		}
		for i := range x {
			if r = c.And(r, m.deepEq(ti.elem, x[i], y[i], depth+1)); r.IsFalse() {
				return r
			}
		}
		return r
	case kMap:
		x, _ := a.(*mapV)
		y, _ := b.(*mapV)
		if x == nil || y == nil {
			return c.Bool(x == nil && y == nil)
		}
		if x.n != y.n {
			return c.False
		}
		for _, e := range x.ents {
			if e.dead {
				continue
			}
			f := m.mapFind(y, e.k)
			if f == nil {
				return c.False
			}
			if r = c.And(r, m.deepEq(x.ti.elem, e.v, f.v, depth+1)); r.IsFalse() {
				return r
			}
		}
		return r
	case kPtr:
		x, ok1 := a.(*value)
		y, ok2 := b.(*value)
		if !ok1 || !ok2 || x == nil || y == nil || x == y {
			return m.eq(ti, a, b)
		}
		return m.deepEq(ti.elem, *x, *y, depth+1)
	case kIface:
		return m.deepIface(a.(iface), b.(iface), depth+1)
	case kFunc:
		x, y := a.(*closure), b.(*closure)
		return c.Bool(x == nil && y == nil)
	}
	return m.eq(ti, a, b)
}

// binSize is encoding/binary's size of a value, or -1.
func (m *Machine) binSize(ti *tinfo, v value) int {
	if ti.k == kSlice {
		n := m.binFixed(ti.elem)
		if n < 0 {
			return -1
		}
		s, _ := v.(sliceV)
		return n * len(s)
	}
	return m.binFixed(ti)
}

func (m *Machine) binFixed(ti *tinfo) int {
	switch ti.k {
	case kBool:
		return 1
	case kInt:
		if b, ok := ti.t.Underlying().(*types.Basic); ok {
			switch b.Kind() {
			case types.Int, types.Uint, types.Uintptr:
				return -1
			}
		}
		return int(ti.w / 8)
	case kFloat:
		return int(ti.w / 8)
	case kArray:
		n := m.binFixed(ti.elem)
		if n < 0 {
			return -1
		}
		return n * ti.n
	case kStruct:
		s := 0
		for _, f := range ti.fields {
			n := m.binFixed(f)
			if n < 0 {
				return -1
			}
			s += n
		}
		return s
	}
	return -1
}

func (m *Machine) binPut(out *[]T, ti *tinfo, v value, big bool) {
	c := m.ctx
	v = orZero(ti, v)
	switch ti.k {
	case kBool:
		*out = append(*out, c.Ite(v.(T), c.BV(1, 8), c.BV(0, 8)))
	case kInt:
		t := v.(T)
		n := int(ti.w / 8)
		for i := 0; i < n; i++ {
			k := i
			if big {
				k = n - 1 - i
			}
			*out = append(*out, c.Extract(t, uint8(8*k), 8))
		}
	case kArray:
		for _, e := range m.fieldsOf(ti, v) {
			m.binPut(out, ti.elem, e, big)
		}
	case kSlice:
		for _, e := range v.(sliceV) {
			m.binPut(out, ti.elem, e, big)
		}
	case kStruct:
		for i, e := range m.fieldsOf(ti, v) {
			m.binPut(out, ti.fields[i], e, big)
		}
	default:
		m.unsupported("binary encoding of " + ti.String())
	}
}

func (m *Machine) binGet(b *[]T, ti *tinfo, big bool) value {
	c := m.ctx
	switch ti.k {
	case kBool:
		t := (*b)[0]
		*b = (*b)[1:]
		return c.Not(c.Eq(t, c.BV(0, 8)))
	case kInt:
		n := int(ti.w / 8)
		r := c.BV(0, ti.w)
		for i := 0; i < n; i++ {
			k := i
			if big {
				k = n - 1 - i
			}
			r = c.BOr(r, c.Shl(c.ZExt((*b)[i], ti.w), c.BV(uint64(8*k), ti.w)))
		}
		*b = (*b)[n:]
		return r
	case kArray:
		s := make(arrayV, ti.n)
		for i := range s {
			s[i] = m.binGet(b, ti.elem, big)
		}
		return s
	case kStruct:
		s := make(structV, ti.n)
		for i := range s {
			s[i] = m.binGet(b, ti.fields[i], big)
		}
		return s
	}
	m.unsupported("binary decoding of " + ti.String())
	return nil
}
