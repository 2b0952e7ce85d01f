package exec

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"

	"gosym/smt"
)

func (m *Machine) binop(op token.Token, t, t2 *tinfo, x, y value) value {
	c := m.ctx
	switch op {
	case token.EQL:
		return m.eqOp(t, t2, x, y)
	case token.NEQ:
		return c.Not(m.eqOp(t, t2, x, y))
	}
	switch t.k {
	case kString:
		switch op {
		case token.ADD:
			return m.strCat(x, y)
		}
		lt, eq := m.strCmp(x, y)
		switch op {
		case token.LSS:
			return lt
		case token.LEQ:
			return c.Or(lt, eq)
		case token.GTR:
			return c.Not(c.Or(lt, eq))
		case token.GEQ:
			return c.Not(lt)
		}
	case kBool:
		a, b := x.(T), y.(T)
		switch op {
		case token.AND, token.LAND:
			return c.And(a, b)
		case token.OR, token.LOR:
			return c.Or(a, b)
		}
	case kFloat:
		a, b := x.(T), y.(T)
		switch op {
		case token.ADD:
			return c.FArith(smt.OFAdd, a, b)
		case token.SUB:
			return c.FArith(smt.OFSub, a, b)
		case token.MUL:
			return c.FArith(smt.OFMul, a, b)
		case token.QUO:
			return c.FArith(smt.OFDiv, a, b)
		case token.LSS:
			return c.FCmp(smt.OFLt, a, b)
		case token.LEQ:
			return c.FCmp(smt.OFLe, a, b)
		case token.GTR:
			return c.FCmp(smt.OFLt, b, a)
		case token.GEQ:
			return c.FCmp(smt.OFLe, b, a)
		}
	case kComplex:
		a, b := x.(complex128), y.(complex128)
		switch op {
		case token.ADD:
			return a + b
		case token.SUB:
			return a - b
		case token.MUL:
			return a * b
		case token.QUO:
			return a / b
		}
	case kInt:
		a, ok1 := x.(T)
		b, ok2 := y.(T)
		if !ok1 || !ok2 {
			m.unsupported(fmt.Sprintf("%v on %T and %T", op, x, y))
		}
		switch op {
		case token.ADD:
			return c.Add(a, b)
		case token.SUB:
			return c.Sub(a, b)
		case token.MUL:
			return c.Mul(a, b)
		case token.QUO, token.REM:
			if !m.branch(c.Not(c.Eq(b, c.BV(0, b.W)))) {
				m.rtPanic("integer divide by zero")
			}
			switch {
			case op == token.QUO && t.signed:
				return c.SDiv(a, b)
			case op == token.QUO:
				return c.UDiv(a, b)
			case t.signed:
				return c.SRem(a, b)
			default:
				return c.URem(a, b)
			}
		case token.AND:
			return c.BAnd(a, b)
		case token.OR:
			return c.BOr(a, b)
		case token.XOR:
			return c.BXor(a, b)
		case token.AND_NOT:
			return c.BAnd(a, c.BNot(b))
		case token.SHL, token.SHR:
			if t2.signed && !m.branch(c.Sle(c.BV(0, b.W), b)) {
				m.rtPanic("negative shift amount")
			}
			// bring the count to the operand's width, saturating
			w := a.W
			switch {
			case b.W < w:
				b = c.ZExt(b, w)
			case b.W > w:
				big := c.Ule(c.BV(uint64(w), b.W), b)
				b = c.Ite(big, c.BV(uint64(w), w), c.Extract(b, 0, w))
			}
			if op == token.SHL {
				return c.Shl(a, b)
			}
			if t.signed {
				return c.AShr(a, b)
			}
			return c.LShr(a, b)
		case token.LSS:
			if t.signed {
				return c.Slt(a, b)
			}
			return c.Ult(a, b)
		case token.LEQ:
			if t.signed {
				return c.Sle(a, b)
			}
			return c.Ule(a, b)
		case token.GTR:
			if t.signed {
				return c.Slt(b, a)
			}
			return c.Ult(b, a)
		case token.GEQ:
			if t.signed {
				return c.Sle(b, a)
			}
			return c.Ule(b, a)
		}
	}
	m.unsupported(fmt.Sprintf("binary %v on %s", op, t))
	return nil
}

func (m *Machine) eqOp(t, t2 *tinfo, x, y value) T {
	if t.k == kIface && t2.k != kIface {
		y = iface{t2, y}
		return m.ifaceEq(x.(iface), y.(iface))
	}
	if t2.k == kIface && t.k != kIface {
		return m.ifaceEq(iface{t, x}, y.(iface))
	}
	return m.eq(t, x, y)
}

func (m *Machine) unop(op token.Token, t *tinfo, x value) value {
	c := m.ctx
	switch op {
	case token.NOT:
		return c.Not(x.(T))
	case token.SUB:
		switch v := x.(type) {
		case T:
			if v.Fp {
				return c.FUn(smt.OFNeg, v)
			}
			return c.Neg(v)
		case complex128:
			return -v
		}
	case token.XOR:
		return c.BNot(x.(T))
	}
	m.unsupported(fmt.Sprintf("unary %v", op))
	return nil
}

func (m *Machine) convert(to, from *tinfo, x value) value {
	c := m.ctx
	switch {
	case to.k == kInt && from.k == kInt:
		return m.intConv(x.(T), from.signed, to.w)
	case to.k == kFloat && from.k == kInt:
		return c.FFromInt(x.(T), from.signed, to.w)
	case to.k == kInt && from.k == kFloat:
		return c.FToInt(x.(T), to.signed, to.w)
	case to.k == kFloat && from.k == kFloat:
		return c.FToF(x.(T), to.w)
	case to.k == kComplex && from.k == kComplex:
		return x
	case to.k == kString:
		switch from.k {
		case kString:
			return x
		case kInt:
			t := x.(T)
			if t.IsConst() {
				v := int64(t.K)
				if from.signed {
					v = t.SInt()
				}
				if v < 0 || v > utf8.MaxRune {
					v = utf8.RuneError
				}
				return string(rune(v))
			}
			if t.W < 32 && from.signed {
				t = c.SExt(t, 32)
			} else if t.W < 32 {
				t = c.ZExt(t, 32)
			}
			if m.branch(c.Ult(t, c.BV(0x80, t.W))) {
				return mkStr([]T{c.Extract(t, 0, 8)})
			}
			return m.encodeRune(t)
		case kSlice:
			s, ok := x.(sliceV)
			if !ok {
				m.unsupported(fmt.Sprintf("string conversion of %T", x))
			}
			if from.elem.w == 8 {
				return m.bytesToStr(s)
			}
			var r value = ""
			for _, e := range s {
				r = m.strCat(r, m.convert(to, from.elem, orZero(from.elem, e)))
			}
			return r
		}
	case to.k == kSlice && from.k == kString:
		if to.elem.w == 8 {
			b := m.strTerms(x)
			r := make(sliceV, len(b), roundup(len(b), 1))
			for i, t := range b {
				r[i] = t
			}
			return r
		}
		var r sliceV = sliceV{}
		n := m.strLen(x)
		for i := 0; i < n; {
			t, sz := m.decodeRune(&frame{m: m, g: m.sch.cur}, x, i)
			r = append(r, t)
			i += sz
		}
		return r
	case to.k == kSlice && from.k == kSlice, to.k == kPtr && from.k == kPtr, to.k == kUnsafe, to.k == kPtr && from.k == kUnsafe:
		if to.k == kUnsafe && from.k == kInt {
			m.unsupported("integer to unsafe.Pointer")
		}
		return x
	case to.k == kInt && from.k == kUnsafe:
		m.unsupported("unsafe.Pointer to integer")
	case to.k == from.k:
		return x
	case to.k == kArray && from.k == kSlice:
		s := x.(sliceV)
		if len(s) < to.n {
			m.rtPanic("cannot convert slice to array: length too short")
		}
		return copyVal(arrayV(s[:to.n]))
	}
	m.unsupported(fmt.Sprintf("conversion %s to %s", from, to))
	return nil
}

func (m *Machine) intConv(x T, signed bool, w uint8) T {
	c := m.ctx
	switch {
	case x.W == w:
		return x
	case x.W > w:
		return c.Extract(x, 0, w)
	case signed:
		return c.SExt(x, w)
	}
	return c.ZExt(x, w)
}

// ---------------------------------------------------------------- builtins

func (m *Machine) length(v value) int {
	switch x := v.(type) {
	case sliceV:
		return len(x)
	case arrayV:
		return len(x)
	case string, *symStr:
		return m.strLen(x)
	case *mapV:
		if x == nil {
			return 0
		}
		return x.n
	case *chanV:
		if x == nil {
			return 0
		}
		return len(x.buf)
	case poison:
		m.unsupported("poison: " + x.why)
	}
	m.unsupported(fmt.Sprintf("len of %T", v))
	return 0
}

func (m *Machine) builtin(fr *frame, ci *cinst, args []value) value {
	c := m.ctx
	I := func(n int) T { return c.BV(uint64(n), 64) }
	switch ci.b {
	case "len":
		if p, ok := args[0].(*value); ok {
			_ = p
			return I(ci.t.elem.n)
		}
		return I(m.length(args[0]))
	case "cap":
		switch x := args[0].(type) {
		case sliceV:
			return I(cap(x))
		case arrayV:
			return I(len(x))
		case *chanV:
			if x == nil {
				return I(0)
			}
			return I(x.cap)
		case *value:
			return I(ci.t.elem.n)
		}
	case "append":
		return m.appendTo(fr, ci, args)
	case "copy":
		return I(m.copyTo(fr, ci.t.elem, args[0], args[1]))
	case "delete":
		mv := args[0].(*mapV)
		if mv != nil {
			if m.race != nil {
				m.race.writeObj(fr.g, mv)
			}
			m.mapDelete(mv, args[1])
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *mapV:
			if x != nil {
				for len(x.ents) > 0 {
					m.mapKill(x, x.ents[0])
				}
			}
		case sliceV:
			for i := range x {
				m.set(&x[i], zero(ci.t.elem))
			}
		}
		return nil
	case "close":
		ch, _ := args[0].(*chanV)
		m.sch.closeChan(fr.g, ch)
		return nil
	case "panic":
		panic(&targetPanic{v: args[0].(iface), where: fr.whereOwn()})
	case "recover":
		return recoverIn(fr)
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			op := token.LSS
			if ci.b == "max" {
				op = token.GTR
			}
			if ci.t.k == kFloat {
				x, y := r.(T), a.(T)
				if x.IsFConst() && y.IsFConst() {
					f := math.Min
					if ci.b == "max" {
						f = math.Max
					}
					r = c.FConst(f(x.Float(), y.Float()), ci.t.w)
					continue
				}
				m.unsupported("symbolic float min/max")
			}
			cond := m.binop(op, ci.t, ci.t, a, r).(T)
			if ci.t.k == kInt {
				r = c.Ite(cond, a.(T), r.(T))
			} else if m.branch(cond) {
				r = a
			}
		}
		return r
	case "real":
		return c.FConst(real(args[0].(complex128)), 64)
	case "imag":
		return c.FConst(imag(args[0].(complex128)), 64)
	case "complex":
		return complex(args[0].(T).Float(), args[1].(T).Float())
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*value); ok && p == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		return args[0]
	case "ssa:deferstack":
		return nil
	case "SliceData":
		s := args[0].(sliceV)
		if s == nil {
			return (*value)(nil)
		}
		return &dataPtr{s: s[:cap(s)]}
	case "StringData":
		return &dataPtr{str: args[0]}
	case "String":
		n := int(m.concretize(m.toInt64(ci, 1, args[1])))
		switch p := args[0].(type) {
		case *dataPtr:
			if p.s != nil {
				return m.bytesToStr(p.s[:n])
			}
			if p.str != nil {
				return m.strSlice(p.str, 0, n)
			}
		case *value:
			if n == 0 {
				return ""
			}
			if n == 1 && p != nil {
				return mkStr([]T{orZero(m.ti(types.Typ[types.Uint8]), *p).(T)})
			}
		}
	case "Slice":
		n := int(m.concretize(m.toInt64(ci, 1, args[1])))
		switch p := args[0].(type) {
		case *dataPtr:
			if p.s != nil {
				return p.s[:n:n]
			}
			if p.str != nil {
				return m.termsToSlice(m.strTerms(m.strSlice(p.str, 0, n)))
			}
		case *value:
			if p == nil {
				return sliceV(nil)
			}
		}
	}
	m.unsupported("builtin " + ci.b)
	return nil
}

func (m *Machine) toInt64(ci *cinst, i int, v value) T {
	t := v.(T)
	if t.W < 64 {
		return m.ctx.SExt(t, 64)
	}
	return t
}

func (m *Machine) copyTo(fr *frame, et *tinfo, d, s value) int {
	dst, ok := d.(sliceV)
	if !ok {
		m.unsupported(fmt.Sprintf("copy to %T", d))
	}
	switch src := s.(type) {
	case string, *symStr:
		b := m.strTerms(src)
		n := min(len(dst), len(b))
		if m.race != nil && n > 0 {
			m.race.write(fr.g, &dst[0])
		}
		m.logRange(dst[:n])
		for i := 0; i < n; i++ {
			dst[i] = b[i]
		}
		return n
	case sliceV:
		n := min(len(dst), len(src))
		if n == 0 {
			return 0
		}
		if m.race != nil {
			for i := 0; i < n && i < 64; i++ {
				m.race.read(fr.g, &src[i])
				m.race.write(fr.g, &dst[i])
			}
		}
		if et != nil && (et.k == kStruct || et.k == kArray) {
			tmp := make([]value, n)
			for i := range tmp {
				tmp[i] = m.loadAt(et, &src[i])
			}
			for i := range tmp {
				m.storeAt(et, &dst[i], tmp[i])
			}
			return n
		}
		m.logRange(dst[:n])
		copy(dst, src[:n])
		return n
	}
	m.unsupported(fmt.Sprintf("copy from %T", s))
	return 0
}

func (m *Machine) logRange(d []value) {
	if m.logging && len(d) > 0 {
		m.undo = append(m.undo, undoEnt{dst: d, sav: append([]value(nil), d...)})
	}
}

func (m *Machine) appendTo(fr *frame, ci *cinst, args []value) value {
	s, ok := args[0].(sliceV)
	if !ok {
		m.unsupported(fmt.Sprintf("append to %T", args[0]))
	}
	if len(args) < 2 {
		return s
	}
	et := ci.t.elem
	var src []value
	switch x := args[1].(type) {
	case sliceV:
		src = x
	case string, *symStr:
		src = m.termsToSlice(m.strTerms(x))
	case nil:
		return s
	default:
		m.unsupported(fmt.Sprintf("append of %T", args[1]))
	}
	if len(src) == 0 {
		return s
	}
	if m.race != nil {
		x, _ := args[1].(sliceV)
		for i := 0; i < len(x) && i < 64; i++ {
			m.race.read(fr.g, &x[i])
		}
	}
	need := len(s) + len(src)
	agg := et.k == kStruct || et.k == kArray
	if need <= cap(s) {
		r := s[:need]
		d := r[len(s):]
		if m.race != nil {
			for i := range d {
				m.race.write(fr.g, &d[i])
			}
		}
		if agg {
			for i := range src {
				m.storeAt(et, &d[i], m.loadAt(et, &src[i]))
			}
			return r
		}
		m.logRange(d)
		copy(d, src)
		return r
	}
	if need > maxAlloc {
		panic(&abort{abMem, "slice of more than 2^27 elements"})
	}
	nc := growCap(cap(s), need, et.size)
	r := make(sliceV, need, nc)
	if m.race != nil {
		for i := range s {
			m.race.read(fr.g, &s[i])
		}
	}
	if agg {
		for i := range s {
			r[i] = copyVal(s[i])
		}
		for i := range src {
			r[len(s)+i] = copyVal(src[i])
		}
		return r
	}
	copy(r, s)
	copy(r[len(s):], src)
	return r
}

var sizeClasses = []int64{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundupSize(n int64) int64 {
	if n <= 32768 {
		for _, c := range sizeClasses {
			if c >= n {
				return c
			}
		}
	}
	return (n + 8191) / 8192 * 8192
}

func roundup(n int, es int64) int {
	if n == 0 || es == 0 {
		return n
	}
	return int(roundupSize(int64(n)*es) / es)
}

func growCap(old, need int, es int64) int {
	nc := need
	if need <= 2*old {
		if old < 256 {
			nc = 2 * old
		} else {
			nc = old
			for nc < need {
				nc += (nc + 3*256) / 4
			}
		}
	}
	if es == 0 {
		return nc
	}
	return int(roundupSize(int64(nc)*es) / es)
}

var _ ssa.Instruction

// encodeRune is string(r) for a symbolic r of at least 0x80.
func (m *Machine) encodeRune(t T) value {
	c := m.ctx
	k := func(v uint64) T { return c.BV(v, t.W) }
	b := func(shift uint64, or uint64) T {
		x := c.Extract(c.LShr(t, k(shift)), 0, 8)
		if or == 0x80 {
			x = c.BAnd(x, c.BV(0x3f, 8))
		}
		return c.BOr(x, c.BV(or, 8))
	}
	switch {
	case m.branch(c.Ult(t, k(0x800))):
		return mkStr([]T{b(6, 0xc0), b(0, 0x80)})
	case m.branch(c.Ult(k(0x10ffff), t)), m.branch(c.And(c.Ult(k(0xd7ff), t), c.Ult(t, k(0xe000)))):
		return string(utf8.RuneError)
	case m.branch(c.Ult(t, k(0x10000))):
		return mkStr([]T{b(12, 0xe0), b(6, 0x80), b(0, 0x80)})
	}
	return mkStr([]T{b(18, 0xf0), b(12, 0x80), b(6, 0x80), b(0, 0x80)})
}
