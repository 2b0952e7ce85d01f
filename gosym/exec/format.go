package exec

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// The fmt verbs, over values that may be symbolic. What fmt would print is
// either computed exactly or reported as unsupported; only the text of
// errors (err) is approximated, so that building a message never splits a
// path.
type fmtr struct {
	m   *Machine
	fr  *frame
	out value
	err bool // formatting an error message: do not split on symbolic numbers
}

// fspec is one verb with its flags.
type fspec struct {
	verb                            byte
	minus, plus, sharp, space, zero bool
	width, prec                     int // -1: not given
}

func (sp fspec) String() string {
	r := "%"
	for _, x := range []struct {
		on bool
		c  string
	}{{sp.minus, "-"}, {sp.plus, "+"}, {sp.sharp, "#"}, {sp.space, " "}, {sp.zero, "0"}} {
		if x.on {
			r += x.c
		}
	}
	if sp.width >= 0 {
		r += fmt.Sprint(sp.width)
	}
	if sp.prec >= 0 {
		r += "." + fmt.Sprint(sp.prec)
	}
	return r + string(sp.verb)
}

func (f *fmtr) lit(s string) { f.out = f.m.strCat(f.out, s) }

// vague is the answer where the exact text is not modelled.
func (f *fmtr) vague(sp fspec, what string) value {
	if !f.err {
		f.m.unsupported("formatting " + what + " with " + sp.String())
	}
	return "?"
}

func (f *fmtr) hex(v value, upper bool) value {
	m := f.m
	c := m.ctx
	var ts []T
	switch x := v.(type) {
	case string, *symStr:
		ts = m.strTerms(x)
	case sliceV:
		ts = m.bytesTerms(x)
	case arrayV:
		ts = m.bytesTerms(sliceV(x))
	}
	a := uint64('a')
	if upper {
		a = 'A'
	}
	nib := func(t T) T {
		t = c.ZExt(t, 8)
		return c.Ite(c.Ult(t, c.BV(10, 8)), c.Add(t, c.BV('0', 8)), c.Add(t, c.BV(a-10, 8)))
	}
	var out []T
	for _, t := range ts {
		out = append(out, nib(c.Extract(t, 4, 4)), nib(c.Extract(t, 0, 4)))
	}
	return mkStr(out)
}

// addrName is what %p shows: a different text for each address.
func (m *Machine) addrName(v value) string {
	pv, ok := v.(*value)
	if !ok || pv == nil {
		return "0xc000000000"
	}
	if m.path.ptrs == nil {
		m.path.ptrs = map[*value]int{}
	}
	n, ok := m.path.ptrs[pv]
	if !ok {
		n = len(m.path.ptrs) + 1
		m.path.ptrs[pv] = n
	}
	return fmt.Sprintf("0xc%09x", n*16)
}

func (f *fmtr) arg(sp fspec, a value, depth int) value {
	m := f.m
	it, ok := a.(iface)
	if !ok {
		m.unsupported(fmt.Sprintf("format argument %T", a))
	}
	if it.t == nil {
		if sp.verb == 'T' || sp.verb == 'v' {
			return f.pad(sp, "<nil>")
		}
		return "%!" + string(sp.verb) + "(<nil>)"
	}
	switch sp.verb {
	case 'T':
		return f.text(fspec{verb: 's', minus: sp.minus, width: sp.width, prec: sp.prec}, types.TypeString(it.t.t, func(p *types.Package) string { return p.Name() }))
	case 'p':
		return f.pad(sp, m.addrName(it.v))
	}
	if depth > 4 {
		return f.vague(sp, "a deeply nested value")
	}
	switch sp.verb {
	case 'v', 's', 'w', 'q', 'x', 'X':
		if sp.sharp && sp.verb == 'v' {
			break
		}
		for _, mn := range []string{"Error", "String"} {
			fn := m.methodByName(it.t, mn)
			if fn != nil && fn.Signature.Params().Len() == 0 && fn.Signature.Results().Len() == 1 && m.ti(fn.Signature.Results().At(0).Type()).k == kString {
				if p, ok := it.v.(*value); ok && p == nil {
					return f.pad(sp, "<nil>")
				}
				s := m.callFn(f.fr, m.info(fn), []value{it.v}, nil)
				return f.text(sp, s)
			}
		}
	}
	return f.val(sp, it.t, it.v, depth)
}

// text is a string under %v, %s, %q, %x or %X.
func (f *fmtr) text(sp fspec, s value) value {
	m := f.m
	if x, ok := s.(string); ok {
		sp2 := sp
		if sp2.verb == 'w' {
			sp2.verb = 'v'
		}
		return fmt.Sprintf(sp2.String(), x)
	}
	switch sp.verb {
	case 'v', 's', 'w':
		if sp.sharp {
			return f.vague(sp, "a symbolic string")
		}
		if sp.prec >= 0 {
			_, at := f.runes(s, sp.prec)
			s = m.strSlice(s, 0, at)
		}
		return f.pad(sp, s)
	case 'x', 'X':
		if sp.prec >= 0 || sp.space || sp.sharp {
			return f.vague(sp, "a symbolic string")
		}
		return f.pad(sp, f.hex(s, sp.verb == 'X'))
	case 'q':
		if f.err {
			return m.strCat(m.strCat("\"", s), "\"")
		}
	}
	return f.vague(sp, "a symbolic string")
}

// runes counts the characters of s, up to most of them, and the bytes
// they take; in the text of an error every byte counts as one.
func (f *fmtr) runes(s value, most int) (n, at int) {
	m := f.m
	l := m.strLen(s)
	if f.err {
		n = min(l, most)
		return n, n
	}
	for at < l && n < most {
		_, sz := m.decodeRune(f.fr, s, at)
		at += sz
		n++
	}
	return n, at
}

// pad brings s to the width.
func (f *fmtr) pad(sp fspec, s value) value {
	m := f.m
	if sp.width <= 0 {
		return s
	}
	n, _ := f.runes(s, sp.width)
	if n >= sp.width {
		return s
	}
	if sp.minus {
		return m.strCat(s, strings.Repeat(" ", sp.width-n))
	}
	if sp.zero {
		return m.strCat(strings.Repeat("0", sp.width-n), s)
	}
	return m.strCat(strings.Repeat(" ", sp.width-n), s)
}

// integer formats a symbolic integer.
func (f *fmtr) integer(sp fspec, t T, signed bool) value {
	m := f.m
	c := m.ctx
	if f.err {
		return "?"
	}
	if sp.prec >= 0 || sp.sharp {
		return f.vague(sp, "a symbolic integer")
	}
	neg := false
	u := c.ZExt(t, 64)
	if signed {
		u = c.SExt(t, 64)
		if neg = m.branch(c.Slt(u, c.BV(0, 64))); neg {
			u = c.Neg(u)
		}
	}
	var digits value
	switch sp.verb {
	case 'v', 'd', 'w':
		digits = m.decimal(u, false)
	case 'x', 'X', 'b', 'o':
		k := map[byte]int{'x': 4, 'X': 4, 'o': 3, 'b': 1}[sp.verb]
		n := 1
		for n*k < 64 && !m.branch(c.Ult(u, c.BV(1<<uint(n*k), 64))) {
			n++
		}
		a := uint64('a')
		if sp.verb == 'X' {
			a = 'A'
		}
		ts := make([]T, n)
		for i := range ts {
			d := c.ZExt(c.Extract(u, uint8((n-1-i)*k), uint8(min(k, 64-(n-1-i)*k))), 8)
			ts[i] = c.Ite(c.Ult(d, c.BV(10, 8)), c.Add(d, c.BV('0', 8)), c.Add(d, c.BV(a-10, 8)))
		}
		digits = mkStr(ts)
	default:
		return f.vague(sp, "a symbolic integer")
	}
	sign := ""
	switch {
	case neg:
		sign = "-"
	case sp.plus && sp.verb != 'v':
		sign = "+"
	case sp.space:
		sign = " "
	}
	n := len(sign) + m.strLen(digits)
	if sp.zero && !sp.minus && n < sp.width {
		digits = m.strCat(strings.Repeat("0", sp.width-n), digits)
	}
	sp.zero = false
	return f.pad(sp, m.strCat(sign, digits))
}

func (f *fmtr) val(sp fspec, ti *tinfo, v value, depth int) value {
	m := f.m
	v = orZero(ti, v)
	switch ti.k {
	case kString:
		return f.text(sp, v)
	case kBool:
		t := v.(T)
		if !t.IsConst() && f.err {
			return "?"
		}
		if sp.verb != 'v' && sp.verb != 't' {
			return f.vague(sp, "a boolean")
		}
		if m.branch(t) {
			return f.pad(sp, "true")
		}
		return f.pad(sp, "false")
	case kInt:
		t := v.(T)
		if sp.verb == 'c' {
			return f.pad(sp, m.convert(m.ti(types.Typ[types.String]), ti, v))
		}
		if !t.IsConst() {
			return f.integer(sp, t, ti.signed)
		}
		switch sp.verb {
		case 'v', 'd', 'x', 'X', 'o', 'O', 'b', 'q', 'U', 'w':
			if sp.verb == 'w' {
				sp.verb = 'v'
			}
			if ti.signed {
				return fmt.Sprintf(sp.String(), t.SInt())
			}
			if sp.sharp && sp.verb == 'v' {
				return fmt.Sprintf("%#x", t.K)
			}
			return fmt.Sprintf(sp.String(), t.K)
		}
		return f.vague(sp, "an integer")
	case kFloat:
		t := v.(T)
		if t.IsFConst() {
			return fmt.Sprintf(sp.String(), t.Float())
		}
		return f.vague(sp, "a symbolic float")
	case kSlice, kArray:
		if ti.elem.k == kInt && ti.elem.w == 8 && (sp.verb == 'x' || sp.verb == 'X' || sp.verb == 's' || sp.verb == 'q') {
			var s sliceV
			if a, ok := v.(arrayV); ok {
				s = sliceV(a)
			} else {
				s = v.(sliceV)
			}
			return f.text(sp, m.bytesToStr(s))
		}
		if sp.sharp {
			return f.vague(sp, ti.String())
		}
		var es []value
		if a, ok := v.(arrayV); ok {
			es = a
		} else {
			es = v.(sliceV)
		}
		if f.err && len(es) > 32 {
			return "[...]"
		}
		var r value = "["
		for i, e := range es {
			if i > 0 {
				r = m.strCat(r, " ")
			}
			r = m.strCat(r, f.elem(sp, ti.elem, e, depth+1))
		}
		return m.strCat(r, "]")
	case kMap:
		return f.mapText(sp, ti, v, depth)
	case kStruct:
		if sp.sharp {
			return f.vague(sp, ti.String())
		}
		var r value = "{"
		for i, ft := range ti.fields {
			if i > 0 {
				r = m.strCat(r, " ")
			}
			if sp.plus && sp.verb == 'v' {
				r = m.strCat(r, ti.t.Underlying().(*types.Struct).Field(i).Name()+":")
			}
			r = m.strCat(r, f.elem(sp, ft, v.(structV)[i], depth+1))
		}
		return m.strCat(r, "}")
	case kPtr:
		if pv, ok := v.(*value); ok && pv == nil && sp.verb == 'v' {
			return f.pad(sp, "<nil>")
		}
		if depth == 0 && ti.elem != nil {
			switch ti.elem.k {
			case kStruct, kArray, kSlice, kMap:
				if sp.verb != 'v' {
					return f.vague(sp, "a pointer to "+ti.elem.String())
				}
				return m.strCat("&", f.elem(sp, ti.elem, *v.(*value), depth+1))
			}
		}
		return f.pad(sp, m.addrName(v))
	case kFunc, kChan, kUnsafe:
		return f.pad(sp, m.addrName(v))
	case kIface:
		return f.arg(sp, v, depth+1)
	}
	m.unsupported("formatting " + ti.String())
	return nil
}

// mapText prints a map with its keys in order.
func (f *fmtr) mapText(sp fspec, ti *tinfo, v value, depth int) value {
	m := f.m
	if sp.sharp || f.err {
		return f.vague(sp, "a map")
	}
	var r value = "map["
	mv, _ := v.(*mapV)
	var es []*mentry
	if mv != nil {
		if mv.symN > 0 {
			return f.vague(sp, "a map with symbolic keys")
		}
		for _, e := range mv.ents {
			if e.dead {
				continue
			}
			es = append(es, e)
		}
		less := func(i, j int) bool { return false }
		switch {
		case ti.key.k == kString:
			less = func(i, j int) bool { return m.constStr(es[i].k) < m.constStr(es[j].k) }
		case ti.key.k == kInt && !ti.key.signed:
			less = func(i, j int) bool { return es[i].k.(T).K < es[j].k.(T).K }
		case len(es) > 1:
			return f.vague(sp, "a map of "+ti.key.String())
		}
		sort.Slice(es, less)
	}
	for i, e := range es {
		if i > 0 {
			r = m.strCat(r, " ")
		}
		r = m.strCat(r, f.elem(sp, ti.key, e.k, depth+1))
		r = m.strCat(r, ":")
		r = m.strCat(r, f.elem(sp, ti.elem, e.v, depth+1))
	}
	return m.strCat(r, "]")
}

func (f *fmtr) elem(sp fspec, ti *tinfo, v value, depth int) value {
	v = orZero(ti, v)
	if ti.k == kIface {
		return f.arg(sp, v, depth)
	}
	return f.arg(sp, iface{ti, v}, depth)
}

// sprintf formats; the returned values are the operands of %w.
// format splits on which symbolic bytes of a format are verbs; the others
// stay symbolic (lits).
func (f *fmtr) format(v value) (format string, lits map[int]T) {
	m := f.m
	if s, ok := v.(string); ok {
		return s, nil
	}
	b := make([]byte, 0, 16)
	lits = map[int]T{}
	verb := false
	is := func(t T, c byte) bool { return m.branch(m.ctx.Eq(t, m.ctx.BV(uint64(c), 8))) }
next:
	for i, t := range m.strTerms(v) {
		if t.IsConst() {
			b = append(b, byte(t.K))
			switch {
			case verb && strings.IndexByte("+-# 0123456789.*[]", byte(t.K)) >= 0:
			case verb:
				verb = false
			default:
				verb = t.K == '%'
			}
			continue
		}
		if !verb {
			if is(t, '%') {
				b = append(b, '%')
				verb = true
			} else {
				b = append(b, 0)
				lits[i] = t
			}
			continue
		}
		for _, c := range []byte("vsdx%") {
			if is(t, c) {
				b = append(b, c)
				verb = false
				continue next
			}
		}
		m.unsupported("a symbolic verb")
	}
	return string(b), lits
}

func (f *fmtr) sprintf(formatV value, args sliceV) (value, []value) {
	m := f.m
	f.out = ""
	format, lits := f.format(formatV)
	lit := func(from, to int) {
		for ; len(lits) > 0 && from < to; from++ {
			if t, ok := lits[from]; ok {
				f.out = m.strCat(f.out, mkStr([]T{t}))
			} else {
				f.lit(format[from : from+1])
			}
		}
		f.lit(format[from:to])
	}
	var wrapped []value
	k := 0
	reordered := false
	next := func() (value, bool) {
		if k >= len(args) {
			return nil, false
		}
		a := args[k]
		if a == nil {
			a = iface{}
		}
		k++
		return a, true
	}
	for i := 0; i < len(format); {
		j := strings.IndexByte(format[i:], '%')
		if j < 0 {
			lit(i, len(format))
			break
		}
		lit(i, i+j)
		i += j + 1
		sp := fspec{width: -1, prec: -1}
	flags:
		for ; i < len(format); i++ {
			switch format[i] {
			case '-':
				sp.minus, sp.zero = true, false
			case '+':
				sp.plus = true
			case '#':
				sp.sharp = true
			case ' ':
				sp.space = true
			case '0':
				sp.zero = !sp.minus
			default:
				break flags
			}
		}
		number := func() int {
			if i < len(format) && format[i] == '[' {
				reordered = true
				n := 0
				for i++; i < len(format) && format[i] >= '0' && format[i] <= '9'; i++ {
					n = n*10 + int(format[i]-'0')
				}
				if i >= len(format) || format[i] != ']' || n < 1 {
					m.unsupported("format " + format)
				}
				i++
				k = n - 1
			}
			if i < len(format) && format[i] == '*' {
				i++
				a, ok := next()
				it, isIface := a.(iface)
				if !ok || !isIface || it.t == nil || it.t.k != kInt {
					m.unsupported("format " + format)
				}
				t, isT := it.v.(T)
				if !isT || !t.IsConst() {
					m.unsupported("a symbolic width")
				}
				return int(t.SInt())
			}
			if i >= len(format) || format[i] < '0' || format[i] > '9' {
				return -1
			}
			n := 0
			for ; i < len(format) && format[i] >= '0' && format[i] <= '9'; i++ {
				n = n*10 + int(format[i]-'0')
			}
			return n
		}
		if sp.width = number(); sp.width < -1 {
			sp.minus, sp.zero, sp.width = true, false, -sp.width
		}
		if i < len(format) && format[i] == '.' {
			i++
			if sp.prec = number(); sp.prec < 0 {
				sp.prec = 0
			}
			number() // an argument index before the verb
		}
		if i >= len(format) {
			f.lit("%!(NOVERB)")
			break
		}
		sp.verb = format[i]
		i++
		if sp.verb == '%' {
			f.lit("%")
			continue
		}
		a, ok := next()
		if !ok {
			f.lit("%!" + string(sp.verb) + "(MISSING)")
			continue
		}
		if sp.verb == 'w' {
			if !f.err {
				m.unsupported("%w outside Errorf")
			}
			wrapped = append(wrapped, a)
		}
		f.out = m.strCat(f.out, f.arg(sp, a, 0))
	}
	if k < len(args) && !reordered {
		f.out = m.strCat(f.out, f.vague(fspec{verb: 'v', width: -1, prec: -1}, "more operands than verbs"))
	}
	return f.out, wrapped
}

func (f *fmtr) sprint(args sliceV, ln bool) value {
	f.out = ""
	wasText := true
	for i, a := range args {
		if a == nil {
			a = iface{}
		}
		it, _ := a.(iface)
		text := it.t != nil && it.t.k == kString
		if i > 0 && (ln || !text && !wasText) {
			f.lit(" ")
		}
		wasText = text
		f.out = f.m.strCat(f.out, f.arg(fspec{verb: 'v', width: -1, prec: -1}, a, 0))
	}
	if ln {
		f.lit("\n")
	}
	return f.out
}
