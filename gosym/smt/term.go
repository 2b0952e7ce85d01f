// Package smt holds hash-consed bit-vector terms with a light simplifier, a
// concrete evaluator and an SMT-LIB2 printer.
package smt

import (
	"fmt"
	"math"
	"math/bits"
	"sort"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	OShl
	OLShr
	OAShr
	OZExt
	OSExt
	OExtract // k = low bit
	OIte
	// floating point (W = 64 or 32, Fp = true)
	OFConst
	OFFromS // signed int -> fp
	OFFromU
	OFToS // fp -> signed int (RTZ)
	OFToU
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFAbs
	OFLt
	OFLe
	OFEq
	OFIsNaN
	OFToF // convert width
)

// Term is an immutable node. W==0 means Bool.
type Term struct {
	Op      Op
	W       uint8
	Fp      bool
	K       uint64 // constant value / extract low bit
	A, B, C *Term
	Name    string
	ID      int32
	Lo, Hi  uint64 // unsigned interval (bit-vectors)
	size    int32
	h       uint64 // structural hash: an order that all contexts share
	Rng     *Term  // range of a variable, asserted wherever it occurs
}

type key struct {
	op      Op
	w       uint8
	fp      bool
	k       uint64
	a, b, c int32
	name    string
}

// Ctx owns terms. Not safe for concurrent use.
type Ctx struct {
	tab         map[key]*Term
	all         []*Term
	True, False *Term
	Vars        map[string]*Term
	small       [256]*Term
	extracts    map[extKey]*Term
}

type extKey struct {
	t     *Term
	lo, w uint8
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[key]*Term{}, Vars: map[string]*Term{}}
	c.False = c.mk(Term{Op: OConst, W: 0, K: 0})
	c.True = c.mk(Term{Op: OConst, W: 0, K: 1})
	for i := range c.small {
		c.small[i] = c.mk(Term{Op: OConst, W: 8, K: uint64(i)})
	}
	return c
}

func (c *Ctx) NumTerms() int { return len(c.all) }

func id(t *Term) int32 {
	if t == nil {
		return -1
	}
	return t.ID
}

func (c *Ctx) mk(t Term) *Term {
	k := key{t.Op, t.W, t.Fp, t.K, id(t.A), id(t.B), id(t.C), t.Name}
	if x, ok := c.tab[k]; ok {
		return x
	}
	n := new(Term)
	*n = t
	n.ID = int32(len(c.all))
	n.size = 1
	for _, s := range []*Term{t.A, t.B, t.C} {
		if s != nil && n.size < 1<<30 {
			n.size += s.size
		}
	}
	n.Lo, n.Hi = interval(n)
	n.h = hashOf(n)
	c.all = append(c.all, n)
	c.tab[k] = n
	return n
}

func hashOf(t *Term) uint64 {
	h := uint64(14695981039346656037)
	mix := func(v uint64) {
		h ^= v
		h *= 0x9E3779B97F4A7C15
		h ^= h >> 29
	}
	mix(uint64(t.Op)<<16 | uint64(t.W)<<1 | b2u(t.Fp))
	mix(t.K)
	for _, s := range []*Term{t.A, t.B, t.C} {
		if s != nil {
			mix(s.h)
		}
	}
	for i := 0; i < len(t.Name); i++ {
		mix(uint64(t.Name[i]))
	}
	return h
}

func (t *Term) before(u *Term) bool { return t.h < u.h || t.h == u.h && t.ID < u.ID }

func Mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func (t *Term) IsConst() bool { return t.Op == OConst }
func (t *Term) IsTrue() bool  { return t.Op == OConst && t.W == 0 && t.K == 1 }
func (t *Term) IsFalse() bool { return t.Op == OConst && t.W == 0 && t.K == 0 }

// SInt returns a constant as a signed integer.
func (t *Term) SInt() int64 { return SExtV(t.K, t.W) }

func SExtV(v uint64, w uint8) int64 {
	if w == 64 || w == 0 {
		return int64(v)
	}
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

func pow2ceilMask(x uint64) uint64 {
	if x == 0 {
		return 0
	}
	return Mask(uint8(bits.Len64(x)))
}

func interval(t *Term) (uint64, uint64) {
	if t.Fp || t.W == 0 {
		return 0, 1
	}
	m := Mask(t.W)
	switch t.Op {
	case OConst:
		return t.K, t.K
	case OVar:
		if t.B != nil { // bounded var: handled by ZExt construction
		}
		return 0, m
	case OZExt:
		return t.A.Lo, t.A.Hi
	case OSExt:
		if t.A.Hi < 1<<(t.A.W-1) {
			return t.A.Lo, t.A.Hi
		}
	case OAdd:
		lo, c1 := bits.Add64(t.A.Lo, t.B.Lo, 0)
		hi, c2 := bits.Add64(t.A.Hi, t.B.Hi, 0)
		if c1 == 0 && c2 == 0 && hi <= m {
			return lo, hi
		}
		// adding a negative constant (two's complement) to a value at least that large
		if t.B.Op == OConst {
			neg := (-t.B.K) & m
			if neg <= t.A.Lo {
				return t.A.Lo - neg, t.A.Hi - neg
			}
		}
	case OSub:
		if t.A.Lo >= t.B.Hi {
			return t.A.Lo - t.B.Hi, t.A.Hi - t.B.Lo
		}
	case OMul:
		h, l := bits.Mul64(t.A.Hi, t.B.Hi)
		if h == 0 && l <= m {
			return t.A.Lo * t.B.Lo, l
		}
	case OUDiv:
		if t.B.Lo > 0 {
			return t.A.Lo / t.B.Hi, t.A.Hi / t.B.Lo
		}
	case OURem:
		if t.B.Lo > 0 {
			hi := t.B.Hi - 1
			if t.A.Hi < hi {
				hi = t.A.Hi
			}
			return 0, hi
		}
	case OBAnd:
		hi := t.A.Hi
		if t.B.Hi < hi {
			hi = t.B.Hi
		}
		return 0, hi
	case OBOr:
		lo := t.A.Lo
		if t.B.Lo > lo {
			lo = t.B.Lo
		}
		return lo, pow2ceilMask(t.A.Hi | t.B.Hi)
	case OBXor:
		return 0, pow2ceilMask(t.A.Hi | t.B.Hi)
	case OShl:
		if t.B.Op == OConst && t.B.K < uint64(t.W) {
			if bits.Len64(t.A.Hi)+int(t.B.K) <= int(t.W) {
				return t.A.Lo << t.B.K, t.A.Hi << t.B.K
			}
		}
	case OLShr:
		if t.B.Op == OConst && t.B.K < 64 {
			return t.A.Lo >> t.B.K, t.A.Hi >> t.B.K
		}
		return 0, t.A.Hi
	case OExtract:
		if t.K == 0 && t.A.Hi <= m {
			return t.A.Lo, t.A.Hi
		}
		h := t.A.Hi >> t.K
		if h <= m {
			return t.A.Lo >> t.K, h
		}
	case OIte:
		lo, hi := t.B.Lo, t.B.Hi
		if t.C.Lo < lo {
			lo = t.C.Lo
		}
		if t.C.Hi > hi {
			hi = t.C.Hi
		}
		return lo, hi
	}
	return 0, m
}

// ---------------------------------------------------------------- constructors

func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

func (c *Ctx) BV(v uint64, w uint8) *Term {
	v &= Mask(w)
	if w == 8 {
		return c.small[v]
	}
	return c.mk(Term{Op: OConst, W: w, K: v})
}

func (c *Ctx) Var(name string, w uint8) *Term {
	if t, ok := c.Vars[name]; ok {
		if t.W != w {
			panic("var redeclared with another width: " + name)
		}
		return t
	}
	t := c.mk(Term{Op: OVar, W: w, Name: name})
	c.Vars[name] = t
	return t
}

// VarR is a variable with a range; every query about it carries the range.
// The name must determine the range.
func (c *Ctx) VarR(name string, w uint8, lo, hi uint64) *Term {
	if t, ok := c.Vars[name]; ok {
		return t
	}
	t := c.Var(name, w)
	if lo > 0 {
		t.Rng = c.mk(Term{Op: OUle, A: c.BV(lo, w), B: t})
	}
	if hi < Mask(w) {
		u := c.mk(Term{Op: OUle, A: t, B: c.BV(hi, w)})
		if t.Rng == nil {
			t.Rng = u
		} else {
			t.Rng = c.mk(Term{Op: OAnd, A: t.Rng, B: u})
		}
	}
	t.Lo, t.Hi = lo, hi
	return t
}

func (c *Ctx) Not(a *Term) *Term {
	switch a.Op {
	case OConst:
		return c.Bool(a.K == 0)
	case ONot:
		return a.A
	case OUlt:
		return c.Ule(a.B, a.A)
	case OUle:
		return c.Ult(a.B, a.A)
	case OSlt:
		return c.Sle(a.B, a.A)
	case OSle:
		return c.Slt(a.B, a.A)
	}
	return c.mk(Term{Op: ONot, A: a})
}

func (c *Ctx) And(a, b *Term) *Term {
	if a.IsFalse() || b.IsFalse() {
		return c.False
	}
	if a.IsTrue() || a == b {
		return b
	}
	if b.IsTrue() {
		return a
	}
	if (a.Op == ONot && a.A == b) || (b.Op == ONot && b.A == a) {
		return c.False
	}
	if b.before(a) {
		a, b = b, a
	}
	return c.mk(Term{Op: OAnd, A: a, B: b})
}

func (c *Ctx) Or(a, b *Term) *Term {
	if a.IsTrue() || b.IsTrue() {
		return c.True
	}
	if a.IsFalse() || a == b {
		return b
	}
	if b.IsFalse() {
		return a
	}
	if (a.Op == ONot && a.A == b) || (b.Op == ONot && b.A == a) {
		return c.True
	}
	if b.before(a) {
		a, b = b, a
	}
	return c.mk(Term{Op: OOr, A: a, B: b})
}

func (c *Ctx) Implies(a, b *Term) *Term { return c.Or(c.Not(a), b) }

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.W != b.W || a.Fp != b.Fp {
		panic(fmt.Sprintf("Eq width mismatch %d %d", a.W, b.W))
	}
	if a.Op == OConst && b.Op == OConst {
		return c.Bool(a.K == b.K)
	}
	if a.W == 0 {
		if a.IsTrue() {
			return b
		}
		if b.IsTrue() {
			return a
		}
		if a.IsFalse() {
			return c.Not(b)
		}
		if b.IsFalse() {
			return c.Not(a)
		}
	} else if !a.Fp {
		if a.Hi < b.Lo || b.Hi < a.Lo {
			return c.False
		}
		if a.Op == OConst {
			a, b = b, a
		}
		if b.Op == OConst {
			if a.W == 1 && b.K == 0 {
				return c.Not(c.Eq(a, c.BV(1, 1)))
			}
			switch a.Op {
			case OBAnd:
				// a test of one bit
				if a.B.Op == OConst && a.W > 1 && a.B.K&(a.B.K-1) == 0 {
					t := c.Eq(c.Extract(a.A, uint8(bits.TrailingZeros64(a.B.K)), 1), c.BV(1, 1))
					switch b.K {
					case 0:
						return c.Not(t)
					case a.B.K:
						return t
					}
					return c.False
				}
			case OZExt:
				return c.Eq(a.A, c.BV(b.K, a.A.W))
			case OSExt:
				if SExtV(b.K&Mask(a.A.W), a.A.W) == SExtV(b.K, b.W) {
					return c.Eq(a.A, c.BV(b.K, a.A.W))
				}
				return c.False
			case OAdd:
				if a.B.Op == OConst {
					return c.Eq(a.A, c.BV(b.K-a.B.K, a.W))
				}
				if w := uint8(bits.Len64(a.Hi)); w > 0 && w+8 <= a.W {
					return c.Eq(c.Extract(a, 0, w), c.BV(b.K, w))
				}
			case OIte:
				if a.B.Op == OConst && a.C.Op == OConst {
					eb, ec := a.B.K == b.K, a.C.K == b.K
					switch {
					case eb && ec:
						return c.True
					case eb:
						return a.A
					case ec:
						return c.Not(a.A)
					default:
						return c.False
					}
				}
			}
		} else if a.Op == OZExt && b.Op == OZExt && a.A.W == b.A.W {
			return c.Eq(a.A, b.A)
		} else if (a.Op == OAdd || a.Op == OSub) && a.A == b && a.B.Hi < 1<<63 && !a.B.Fp {
			// x + y == x  <=>  y == 0
			return c.Eq(a.B, c.BV(0, a.W))
		} else if a.Op == OAdd || b.Op == OAdd {
			// addends on both sides cancel
			if l, r, ok := cancel(a.addends(nil), b.addends(nil)); ok {
				return c.Eq(c.addAll(l, a.W), c.addAll(r, a.W))
			}
			// small sums are compared at their own width
			hi := a.Hi
			if b.Hi > hi {
				hi = b.Hi
			}
			if w := uint8(bits.Len64(hi)); w > 0 && w+8 <= a.W {
				return c.Eq(c.Extract(a, 0, w), c.Extract(b, 0, w))
			}
		}
	}
	if b.before(a) {
		a, b = b, a
	}
	return c.mk(Term{Op: OEq, A: a, B: b})
}

func (c *Ctx) Ult(a, b *Term) *Term {
	if a == b {
		return c.False
	}
	if a.Hi < b.Lo {
		return c.True
	}
	if a.Lo >= b.Hi {
		return c.False
	}
	if a.Op == OConst && a.K == 0 {
		return c.Not(c.Eq(b, a))
	}
	if a.Op == OZExt && b.Op == OZExt && a.A.W == b.A.W {
		return c.Ult(a.A, b.A)
	}
	if a.Op == OZExt && b.Op == OConst && b.K <= Mask(a.A.W) {
		return c.Ult(a.A, c.BV(b.K, a.A.W))
	}
	if b.Op == OZExt && a.Op == OConst && a.K <= Mask(b.A.W) {
		return c.Ult(c.BV(a.K, b.A.W), b.A)
	}
	if a.Op == OAdd && noOverflow(a) && (a.A == b || a.B == b) {
		return c.False
	}
	if a.Op == OAdd || b.Op == OAdd {
		hi := a.Hi
		if b.Hi > hi {
			hi = b.Hi
		}
		if w := uint8(bits.Len64(hi)); w > 0 && w+8 <= a.W {
			return c.Ult(c.Extract(a, 0, w), c.Extract(b, 0, w))
		}
	}
	return c.mk(Term{Op: OUlt, A: a, B: b})
}

func (c *Ctx) Ule(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.Hi <= b.Lo {
		return c.True
	}
	if a.Lo > b.Hi {
		return c.False
	}
	if a.Op == OZExt && b.Op == OZExt && a.A.W == b.A.W {
		return c.Ule(a.A, b.A)
	}
	if a.Op == OZExt && b.Op == OConst && b.K <= Mask(a.A.W) {
		return c.Ule(a.A, c.BV(b.K, a.A.W))
	}
	if b.Op == OZExt && a.Op == OConst && a.K <= Mask(b.A.W) {
		return c.Ule(c.BV(a.K, b.A.W), b.A)
	}
	if b.Op == OAdd && noOverflow(b) && (b.A == a || b.B == a) {
		return c.True
	}
	// one form for comparisons with constants
	if b.Op == OConst && b.K < Mask(b.W) {
		return c.Ult(a, c.BV(b.K+1, b.W))
	}
	if a.Op == OConst && a.K > 0 {
		return c.Ult(c.BV(a.K-1, a.W), b)
	}
	return c.mk(Term{Op: OUle, A: a, B: b})
}

// noOverflow says that a sum does not wrap.
func noOverflow(t *Term) bool {
	hi, c := bits.Add64(t.A.Hi, t.B.Hi, 0)
	return c == 0 && hi <= Mask(t.W)
}

func nonneg(t *Term) bool { return t.Hi < uint64(1)<<(t.W-1) }
func isneg(t *Term) bool  { return t.Lo >= uint64(1)<<(t.W-1) }

func (c *Ctx) Slt(a, b *Term) *Term {
	if a == b {
		return c.False
	}
	if (nonneg(a) && nonneg(b)) || (isneg(a) && isneg(b)) {
		return c.Ult(a, b)
	}
	if isneg(a) && nonneg(b) {
		return c.True
	}
	if nonneg(a) && isneg(b) {
		return c.False
	}
	if a.Op == OConst && b.Op == OConst {
		return c.Bool(a.SInt() < b.SInt())
	}
	if a.Op == OSExt && b.Op == OSExt && a.A.W == b.A.W {
		return c.Slt(a.A, b.A)
	}
	return c.mk(Term{Op: OSlt, A: a, B: b})
}

func (c *Ctx) Sle(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if (nonneg(a) && nonneg(b)) || (isneg(a) && isneg(b)) {
		return c.Ule(a, b)
	}
	if isneg(a) && nonneg(b) {
		return c.True
	}
	if nonneg(a) && isneg(b) {
		return c.False
	}
	if a.Op == OConst && b.Op == OConst {
		return c.Bool(a.SInt() <= b.SInt())
	}
	if a.Op == OSExt && b.Op == OSExt && a.A.W == b.A.W {
		return c.Sle(a.A, b.A)
	}
	return c.mk(Term{Op: OSle, A: a, B: b})
}

func (c *Ctx) Add(a, b *Term) *Term {
	if a.Op == OConst && b.Op == OConst {
		return c.BV(a.K+b.K, a.W)
	}
	if a.Op == OConst {
		a, b = b, a
	}
	if b.Op == OConst {
		if b.K == 0 {
			return a
		}
		if a.Op == OAdd && a.B.Op == OConst {
			return c.Add(a.A, c.BV(a.B.K+b.K, a.W))
		}
		if a.Op == OSub && a.A.Op == OConst {
			return c.Sub(c.BV(a.A.K+b.K, a.W), a.B)
		}
		if a.Op == OIte && a.B.Op == OConst && a.C.Op == OConst {
			return c.Ite(a.A, c.BV(a.B.K+b.K, a.W), c.BV(a.C.K+b.K, a.W))
		}
	} else {
		// (x - y) + y
		if a.Op == OSub && a.B == b {
			return a.A
		}
		if b.Op == OSub && b.B == a {
			return b.A
		}
		if a.Op == OAdd && a.B.Op == OConst {
			return c.Add(c.Add(a.A, b), a.B)
		}
		if b.Op == OAdd && b.B.Op == OConst {
			return c.Add(c.Add(a, b.A), b.B)
		}
		if a.Op == OAdd || b.Op == OAdd {
			if t := c.sum(a, b); t != nil {
				return t
			}
		}
		if b.before(a) {
			a, b = b, a
		}
	}
	return c.mk(Term{Op: OAdd, W: a.W, A: a, B: b})
}

const maxSum = 48

// cancel removes terms that both lists have.
func cancel(a, b []*Term) (x, y []*Term, ok bool) {
	n := map[*Term]int{}
	for _, t := range b {
		if t.Op != OConst {
			n[t]++
		}
	}
	for _, t := range a {
		if n[t] > 0 {
			n[t]--
			ok = true
		} else {
			x = append(x, t)
		}
	}
	if !ok {
		return a, b, false
	}
	for i := len(b) - 1; i >= 0; i-- {
		if t := b[i]; t.Op == OConst || n[t] > 0 {
			n[t]--
			y = append(y, t)
		}
	}
	return x, y, true
}

func (c *Ctx) addAll(l []*Term, w uint8) *Term {
	r := c.BV(0, w)
	for _, t := range l {
		r = c.Add(r, t)
	}
	return r
}

func (t *Term) addends(r []*Term) []*Term {
	if t.Op == OAdd && len(r) <= maxSum {
		return t.B.addends(t.A.addends(r))
	}
	return append(r, t)
}

// sum adds terms without constants in an order that does not depend on how
// the sum was built.
func (c *Ctx) sum(a, b *Term) *Term {
	l := b.addends(a.addends(nil))
	if len(l) > maxSum {
		return nil
	}
	for _, t := range l {
		if t.Op == OConst || t.Op == OSub {
			return nil
		}
	}
	sort.SliceStable(l, func(i, j int) bool { return l[i].before(l[j]) })
	r := l[0]
	for _, t := range l[1:] {
		r = c.mk(Term{Op: OAdd, W: a.W, A: r, B: t})
	}
	return r
}

func (c *Ctx) Sub(a, b *Term) *Term {
	if a == b {
		return c.BV(0, a.W)
	}
	if b.Op == OConst {
		return c.Add(a, c.BV(-b.K, a.W))
	}
	if a.Op == OAdd {
		if a.A == b {
			return a.B
		}
		if a.B == b {
			return a.A
		}
	}
	if b.Op == OAdd { // x - (x + y) = -y
		if b.A == a {
			return c.Sub(c.BV(0, a.W), b.B)
		}
		if b.B == a {
			return c.Sub(c.BV(0, a.W), b.A)
		}
		if b.B.Op == OConst {
			return c.Add(c.Sub(a, b.A), c.BV(-b.B.K, a.W))
		}
	}
	if a.Op == OAdd && a.B.Op == OConst {
		return c.Add(c.Sub(a.A, b), a.B)
	}
	return c.mk(Term{Op: OSub, W: a.W, A: a, B: b})
}

func (c *Ctx) Mul(a, b *Term) *Term {
	if a.Op == OConst && b.Op == OConst {
		return c.BV(a.K*b.K, a.W)
	}
	if a.Op == OConst {
		a, b = b, a
	}
	if b.Op == OConst {
		switch {
		case b.K == 0:
			return b
		case b.K == 1:
			return a
		case b.K&(b.K-1) == 0:
			return c.Shl(a, c.BV(uint64(bits.TrailingZeros64(b.K)), a.W))
		}
		if a.Op == OIte && a.B.Op == OConst && a.C.Op == OConst {
			return c.Ite(a.A, c.BV(a.B.K*b.K, a.W), c.BV(a.C.K*b.K, a.W))
		}
	} else if b.before(a) {
		a, b = b, a
	}
	// narrow when the product fits
	if h, l := bits.Mul64(a.Hi, b.Hi); h == 0 {
		if n := uint8(bits.Len64(l)); n > 0 && n < a.W && (a.Hi <= Mask(n) && b.Hi <= Mask(n)) {
			if n < 4 {
				n = 4
			}
			if n+8 <= a.W {
				return c.ZExt(c.mk(Term{Op: OMul, W: n, A: c.Extract(a, 0, n), B: c.Extract(b, 0, n)}), a.W)
			}
		}
	}
	return c.mk(Term{Op: OMul, W: a.W, A: a, B: b})
}

func (c *Ctx) udivrem(op Op, a, b *Term) *Term {
	if b.Op == OConst && b.K != 0 {
		if a.Op == OConst {
			if op == OUDiv {
				return c.BV(a.K/b.K, a.W)
			}
			return c.BV(a.K%b.K, a.W)
		}
		if b.K == 1 {
			if op == OUDiv {
				return a
			}
			return c.BV(0, a.W)
		}
		if b.K&(b.K-1) == 0 {
			if op == OUDiv {
				return c.LShr(a, c.BV(uint64(bits.TrailingZeros64(b.K)), a.W))
			}
			return c.BAnd(a, c.BV(b.K-1, a.W))
		}
		if a.Op == OIte && a.B.Op == OConst && a.C.Op == OConst {
			return c.Ite(a.A, c.udivrem(op, a.B, b), c.udivrem(op, a.C, b))
		}
	}
	if b.Lo > 0 && a.Hi < b.Lo {
		if op == OUDiv {
			return c.BV(0, a.W)
		}
		return a
	}
	if b.Lo > 0 {
		m := a.Hi
		if b.Hi > m {
			m = b.Hi
		}
		n := uint8(bits.Len64(m))
		if n < 4 {
			n = 4
		}
		if n < a.W {
			return c.ZExt(c.mk(Term{Op: op, W: n, A: c.Extract(a, 0, n), B: c.Extract(b, 0, n)}), a.W)
		}
	}
	return c.mk(Term{Op: op, W: a.W, A: a, B: b})
}

func (c *Ctx) UDiv(a, b *Term) *Term { return c.udivrem(OUDiv, a, b) }
func (c *Ctx) URem(a, b *Term) *Term { return c.udivrem(OURem, a, b) }

func (c *Ctx) SDiv(a, b *Term) *Term {
	if nonneg(a) && nonneg(b) {
		return c.UDiv(a, b)
	}
	if a.Op == OConst && b.Op == OConst && b.K != 0 {
		x, y := a.SInt(), b.SInt()
		if y == -1 {
			return c.BV(uint64(-x), a.W)
		}
		return c.BV(uint64(x/y), a.W)
	}
	// truncated division: split on the sign of the dividend when the divisor is positive
	if nonneg(b) && b.Lo > 0 {
		neg := c.Slt(a, c.BV(0, a.W))
		na := c.Sub(c.BV(0, a.W), a)
		return c.Ite(neg, c.Sub(c.BV(0, a.W), c.UDiv(na, b)), c.UDiv(a, b))
	}
	return c.mk(Term{Op: OSDiv, W: a.W, A: a, B: b})
}

func (c *Ctx) SRem(a, b *Term) *Term {
	if nonneg(a) && nonneg(b) {
		return c.URem(a, b)
	}
	if a.Op == OConst && b.Op == OConst && b.K != 0 {
		x, y := a.SInt(), b.SInt()
		if y == -1 {
			return c.BV(0, a.W)
		}
		return c.BV(uint64(x%y), a.W)
	}
	if nonneg(b) && b.Lo > 0 {
		neg := c.Slt(a, c.BV(0, a.W))
		na := c.Sub(c.BV(0, a.W), a)
		return c.Ite(neg, c.Sub(c.BV(0, a.W), c.URem(na, b)), c.URem(a, b))
	}
	return c.mk(Term{Op: OSRem, W: a.W, A: a, B: b})
}

func (c *Ctx) BAnd(a, b *Term) *Term {
	if a.Op == OConst && b.Op == OConst {
		return c.BV(a.K&b.K, a.W)
	}
	if a == b {
		return a
	}
	if a.Op == OConst {
		a, b = b, a
	}
	if b.Op == OConst {
		if b.K == 0 {
			return b
		}
		if b.K == Mask(a.W) {
			return a
		}
		// mask covering every possible bit
		if pow2ceilMask(a.Hi)&^b.K == 0 {
			return a
		}
		if a.Op == OBAnd && a.B.Op == OConst {
			return c.BAnd(a.A, c.BV(a.B.K&b.K, a.W))
		}
		if a.Op == OZExt {
			return c.ZExt(c.BAnd(a.A, c.BV(b.K, a.A.W)), a.W)
		}
		if b.K&(b.K+1) == 0 { // low mask -> zext(extract)
			n := uint8(bits.Len64(b.K))
			return c.ZExt(c.Extract(a, 0, n), a.W)
		}
		if a.Op == OIte && a.B.Op == OConst && a.C.Op == OConst {
			return c.Ite(a.A, c.BV(a.B.K&b.K, a.W), c.BV(a.C.K&b.K, a.W))
		}
	} else if b.before(a) {
		a, b = b, a
	}
	return c.mk(Term{Op: OBAnd, W: a.W, A: a, B: b})
}

func (c *Ctx) BOr(a, b *Term) *Term {
	if a.Op == OConst && b.Op == OConst {
		return c.BV(a.K|b.K, a.W)
	}
	if a == b {
		return a
	}
	if a.Op == OConst {
		a, b = b, a
	}
	if b.Op == OConst {
		if b.K == 0 {
			return a
		}
		if b.K == Mask(a.W) {
			return b
		}
		if a.Op == OZExt && b.K <= Mask(a.A.W) {
			return c.ZExt(c.BOr(a.A, c.BV(b.K, a.A.W)), a.W)
		}
	} else if b.before(a) {
		a, b = b, a
	}
	return c.mk(Term{Op: OBOr, W: a.W, A: a, B: b})
}

func (c *Ctx) BXor(a, b *Term) *Term {
	if a.Op == OConst && b.Op == OConst {
		return c.BV(a.K^b.K, a.W)
	}
	if a == b {
		return c.BV(0, a.W)
	}
	if a.Op == OConst {
		a, b = b, a
	}
	if b.Op == OConst {
		if b.K == 0 {
			return a
		}
		if b.K == Mask(a.W) {
			return c.BNot(a)
		}
	} else if b.before(a) {
		a, b = b, a
	}
	return c.mk(Term{Op: OBXor, W: a.W, A: a, B: b})
}

func (c *Ctx) BNot(a *Term) *Term {
	if a.Op == OConst {
		return c.BV(^a.K, a.W)
	}
	if a.Op == OBNot {
		return a.A
	}
	return c.mk(Term{Op: OBNot, W: a.W, A: a})
}

func (c *Ctx) Neg(a *Term) *Term { return c.Sub(c.BV(0, a.W), a) }

// Shl, LShr and AShr take a shift count of the same width; counts >= W follow
// SMT-LIB (0, 0, sign fill), which matches Go.
func (c *Ctx) Shl(a, b *Term) *Term {
	if b.Op == OConst {
		if b.K == 0 {
			return a
		}
		if b.K >= uint64(a.W) {
			return c.BV(0, a.W)
		}
		if a.Op == OConst {
			return c.BV(a.K<<b.K, a.W)
		}
	}
	return c.mk(Term{Op: OShl, W: a.W, A: a, B: b})
}

func (c *Ctx) LShr(a, b *Term) *Term {
	if b.Op == OConst {
		if b.K == 0 {
			return a
		}
		if b.K >= uint64(a.W) || a.Hi>>b.K == 0 {
			return c.BV(0, a.W)
		}
		if a.Op == OConst {
			return c.BV(a.K>>b.K, a.W)
		}
		if a.Op == OZExt {
			return c.ZExt(c.LShr(a.A, c.BV(b.K, a.A.W)), a.W)
		}
		return c.ZExt(c.Extract(a, uint8(b.K), a.W-uint8(b.K)), a.W)
	}
	return c.mk(Term{Op: OLShr, W: a.W, A: a, B: b})
}

func (c *Ctx) AShr(a, b *Term) *Term {
	if nonneg(a) {
		return c.LShr(a, b)
	}
	if b.Op == OConst {
		if b.K == 0 {
			return a
		}
		k := b.K
		if k >= uint64(a.W) {
			k = uint64(a.W) - 1
		}
		if a.Op == OConst {
			return c.BV(uint64(a.SInt()>>k), a.W)
		}
		b = c.BV(k, a.W)
	}
	return c.mk(Term{Op: OAShr, W: a.W, A: a, B: b})
}

func (c *Ctx) ZExt(a *Term, w uint8) *Term {
	if a.W == w {
		return a
	}
	if a.W > w {
		panic("zext to narrower")
	}
	if a.Op == OConst {
		return c.BV(a.K, w)
	}
	if a.Op == OZExt {
		return c.ZExt(a.A, w)
	}
	if a.Op == OIte && a.B.Op == OConst && a.C.Op == OConst {
		return c.Ite(a.A, c.BV(a.B.K, w), c.BV(a.C.K, w))
	}
	return c.mk(Term{Op: OZExt, W: w, A: a})
}

func (c *Ctx) SExt(a *Term, w uint8) *Term {
	if a.W == w {
		return a
	}
	if a.Op == OConst {
		return c.BV(uint64(a.SInt()), w)
	}
	if nonneg(a) {
		return c.ZExt(a, w)
	}
	if a.Op == OSExt {
		return c.SExt(a.A, w)
	}
	return c.mk(Term{Op: OSExt, W: w, A: a})
}

// Extract takes w bits starting at bit lo.
func (c *Ctx) Extract(a *Term, lo, w uint8) *Term {
	if lo == 0 && w == a.W {
		return a
	}
	if a.Op == OConst {
		return c.BV(a.K>>lo, w)
	}
	if a.Hi>>lo == 0 {
		return c.BV(0, w)
	}
	if a.Op == OVar {
		return c.extract(a, lo, w)
	}
	// terms are shared, do not walk them once per path
	k := extKey{a, lo, w}
	if t, ok := c.extracts[k]; ok {
		return t
	}
	t := c.extract(a, lo, w)
	if c.extracts == nil {
		c.extracts = map[extKey]*Term{}
	}
	c.extracts[k] = t
	return t
}

func (c *Ctx) extract(a *Term, lo, w uint8) *Term {
	switch a.Op {
	case OZExt:
		if lo+w <= a.A.W {
			return c.Extract(a.A, lo, w)
		}
		if lo == 0 {
			return c.ZExt(a.A, w)
		}
		if lo < a.A.W {
			return c.ZExt(c.Extract(a.A, lo, a.A.W-lo), w)
		}
	case OSExt:
		if lo+w <= a.A.W {
			return c.Extract(a.A, lo, w)
		}
		if lo == 0 {
			return c.SExt(a.A, w)
		}
	case OExtract:
		return c.Extract(a.A, uint8(a.K)+lo, w)
	case OShl:
		if a.B.Op == OConst {
			k := uint8(a.B.K)
			if lo >= k {
				return c.Extract(a.A, lo-k, w)
			}
			if lo+w <= k {
				return c.BV(0, w)
			}
		}
	case OBOr:
		return c.BOr(c.Extract(a.A, lo, w), c.Extract(a.B, lo, w))
	case OBAnd:
		return c.BAnd(c.Extract(a.A, lo, w), c.Extract(a.B, lo, w))
	case OIte:
		if a.B.Op == OConst || a.C.Op == OConst || lo == 0 && (a.B.Op == OAdd || a.C.Op == OAdd) {
			return c.Ite(a.A, c.Extract(a.B, lo, w), c.Extract(a.C, lo, w))
		}
	case OAdd, OSub, OMul:
		if lo == 0 {
			x, y := c.Extract(a.A, 0, w), c.Extract(a.B, 0, w)
			switch a.Op {
			case OAdd:
				return c.Add(x, y)
			case OSub:
				return c.Sub(x, y)
			}
		}
	}
	return c.mk(Term{Op: OExtract, W: w, A: a, K: uint64(lo)})
}

func (c *Ctx) Ite(k, a, b *Term) *Term {
	if a == b {
		return a
	}
	if k.IsTrue() {
		return a
	}
	if k.IsFalse() {
		return b
	}
	if a.W != b.W || a.Fp != b.Fp {
		panic("ite sort mismatch")
	}
	if a.W == 0 {
		if a.IsTrue() {
			return c.Or(k, b)
		}
		if a.IsFalse() {
			return c.And(c.Not(k), b)
		}
		if b.IsTrue() {
			return c.Or(c.Not(k), a)
		}
		if b.IsFalse() {
			return c.And(k, a)
		}
	}
	if k.Op == ONot {
		return c.Ite(k.A, b, a)
	}
	if a.Op == OIte && a.A == k {
		a = a.B
	}
	if b.Op == OIte && b.A == k {
		b = b.C
	}
	if a == b {
		return a
	}
	if a.Op == OZExt && b.Op == OZExt && a.A.W == b.A.W {
		return c.ZExt(c.Ite(k, a.A, b.A), a.W)
	}
	if a.W > 1 && !a.Fp {
		if a.Op == OConst && a.K == 1 && b.Op == OConst && b.K == 0 && k.Op == OEq && k.A.W == 1 {
			if k.A.Op == OConst && k.A.K == 1 {
				return c.ZExt(k.B, a.W)
			}
			if k.B.Op == OConst && k.B.K == 1 {
				return c.ZExt(k.A, a.W)
			}
		}
		// a conditional increment is a sum
		if a.Op == OAdd && a.A == b && a.B.Op == OConst {
			return c.Add(b, c.Ite(k, a.B, c.BV(0, a.W)))
		}
		if b.Op == OAdd && b.A == a && b.B.Op == OConst {
			return c.Add(a, c.Ite(k, c.BV(0, a.W), b.B))
		}
	}
	return c.mk(Term{Op: OIte, W: a.W, Fp: a.Fp, A: k, B: a, C: b})
}

// ---------------------------------------------------------------- floating point

func (c *Ctx) FConst(v float64, w uint8) *Term {
	if w == 32 {
		return c.mk(Term{Op: OFConst, W: 32, Fp: true, K: uint64(math.Float32bits(float32(v)))})
	}
	return c.mk(Term{Op: OFConst, W: 64, Fp: true, K: math.Float64bits(v)})
}

func (t *Term) IsFConst() bool { return t.Op == OFConst }

func (t *Term) Float() float64 {
	if t.W == 32 {
		return float64(math.Float32frombits(uint32(t.K)))
	}
	return math.Float64frombits(t.K)
}

const maxExact = 1 << 53

// asInt reports the integer term and signedness of an exactly converted float.
func (c *Ctx) asInt(t *Term) (*Term, bool) {
	if t.W != 64 {
		return nil, false
	}
	switch t.Op {
	case OFConst:
		f := t.Float()
		if f == math.Trunc(f) && f >= 0 && f < maxExact && !math.Signbit(f) {
			return c.BV(uint64(f), 64), true
		}
	case OFFromU:
		if t.A.Hi <= maxExact {
			return c.ZExt(t.A, 64), true
		}
	case OFFromS:
		if t.A.Hi <= maxExact && nonneg(t.A) {
			return c.ZExt(t.A, 64), true
		}
	case OIte:
		a, ok1 := c.asInt(t.B)
		b, ok2 := c.asInt(t.C)
		if ok1 && ok2 {
			return c.Ite(t.A, a, b), true
		}
	}
	return nil, false
}

func (c *Ctx) FFromInt(a *Term, signed bool, w uint8) *Term {
	if a.Op == OConst {
		if signed {
			if w == 32 {
				return c.FConst(float64(float32(a.SInt())), 32)
			}
			return c.FConst(float64(a.SInt()), w)
		}
		if w == 32 {
			return c.FConst(float64(float32(a.K)), 32)
		}
		return c.FConst(float64(a.K), w)
	}
	op := OFFromU
	if signed && !nonneg(a) {
		op = OFFromS
	}
	return c.mk(Term{Op: op, W: w, Fp: true, A: a})
}

func (c *Ctx) FToInt(a *Term, signed bool, w uint8) *Term {
	if i, ok := c.asInt(a); ok && (i.Hi <= Mask(w)>>1 || !signed && i.Hi <= Mask(w)) {
		return c.Extract(i, 0, w)
	}
	if a.Op == OFConst {
		if signed {
			return c.BV(uint64(int64(a.Float())), w)
		}
		return c.BV(uint64(a.Float()), w)
	}
	op := OFToU
	if signed {
		op = OFToS
	}
	return c.mk(Term{Op: op, W: w, A: a})
}

func (c *Ctx) FToF(a *Term, w uint8) *Term {
	if a.W == w {
		return a
	}
	if a.Op == OFConst {
		return c.FConst(a.Float(), w)
	}
	return c.mk(Term{Op: OFToF, W: w, Fp: true, A: a})
}

func (c *Ctx) FArith(op Op, a, b *Term) *Term {
	if a.Op == OFConst && b.Op == OFConst {
		return c.FConst(farith(op, a.Float(), b.Float(), a.W), a.W)
	}
	return c.mk(Term{Op: op, W: a.W, Fp: true, A: a, B: b})
}

func farith(op Op, x, y float64, w uint8) float64 {
	if w == 32 {
		a, b := float32(x), float32(y)
		switch op {
		case OFAdd:
			return float64(a + b)
		case OFSub:
			return float64(a - b)
		case OFMul:
			return float64(a * b)
		}
		return float64(a / b)
	}
	switch op {
	case OFAdd:
		return x + y
	case OFSub:
		return x - y
	case OFMul:
		return x * y
	}
	return x / y
}

func (c *Ctx) FUn(op Op, a *Term) *Term {
	if a.Op == OFConst {
		if op == OFNeg {
			return c.FConst(-a.Float(), a.W)
		}
		return c.FConst(math.Abs(a.Float()), a.W)
	}
	if op == OFAbs {
		if _, ok := c.asInt(a); ok {
			return a
		}
	}
	return c.mk(Term{Op: op, W: a.W, Fp: true, A: a})
}

func (c *Ctx) FCmp(op Op, a, b *Term) *Term {
	if a.Op == OFConst && b.Op == OFConst {
		x, y := a.Float(), b.Float()
		switch op {
		case OFLt:
			return c.Bool(x < y)
		case OFLe:
			return c.Bool(x <= y)
		}
		return c.Bool(x == y)
	}
	if x, ok := c.asInt(a); ok {
		if y, ok := c.asInt(b); ok {
			switch op {
			case OFLt:
				return c.Ult(x, y)
			case OFLe:
				return c.Ule(x, y)
			}
			return c.Eq(x, y)
		}
	}
	return c.mk(Term{Op: op, A: a, B: b})
}

func (c *Ctx) FIsNaN(a *Term) *Term {
	if a.Op == OFConst {
		return c.Bool(math.IsNaN(a.Float()))
	}
	if _, ok := c.asInt(a); ok {
		return c.False
	}
	if a.Op == OFFromS || a.Op == OFFromU {
		return c.False
	}
	if a.Op == OFToF {
		return c.FIsNaN(a.A)
	}
	return c.mk(Term{Op: OFIsNaN, A: a})
}

// ---------------------------------------------------------------- evaluation

// Model assigns values to variables; missing ones are zero.
type Model map[string]uint64

// Evaluator evaluates terms under a model with memoisation.
type Evaluator struct {
	M    Model
	memo map[int32]uint64
}

func NewEval(m Model) *Evaluator { return &Evaluator{M: m, memo: map[int32]uint64{}} }

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func fl(v uint64, w uint8) float64 {
	if w == 32 {
		return float64(math.Float32frombits(uint32(v)))
	}
	return math.Float64frombits(v)
}

func flbits(f float64, w uint8) uint64 {
	if w == 32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}

func (e *Evaluator) Eval(t *Term) uint64 {
	switch t.Op {
	case OConst, OFConst:
		return t.K
	case OVar:
		v, ok := e.M[t.Name]
		if !ok {
			return t.Lo
		}
		return v & Mask2(t.W)
	}
	if v, ok := e.memo[t.ID]; ok {
		return v
	}
	var r uint64
	switch t.Op {
	case ONot:
		r = 1 - e.Eval(t.A)
	case OAnd:
		if e.Eval(t.A) == 1 {
			r = e.Eval(t.B)
		}
	case OOr:
		r = 1
		if e.Eval(t.A) == 0 {
			r = e.Eval(t.B)
		}
	case OIte:
		if e.Eval(t.A) == 1 {
			r = e.Eval(t.B)
		} else {
			r = e.Eval(t.C)
		}
	default:
		a := e.Eval(t.A)
		var b uint64
		if t.B != nil {
			b = e.Eval(t.B)
		}
		r = evalOp(t, a, b)
	}
	e.memo[t.ID] = r
	return r
}

func Mask2(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	return Mask(w)
}

func evalOp(t *Term, a, b uint64) uint64 {
	w := t.W
	aw := t.A.W
	m := Mask(w)
	switch t.Op {
	case OEq:
		return b2u(a == b)
	case OUlt:
		return b2u(a < b)
	case OUle:
		return b2u(a <= b)
	case OSlt:
		return b2u(SExtV(a, aw) < SExtV(b, aw))
	case OSle:
		return b2u(SExtV(a, aw) <= SExtV(b, aw))
	case OAdd:
		return (a + b) & m
	case OSub:
		return (a - b) & m
	case OMul:
		return (a * b) & m
	case OUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case OURem:
		if b == 0 {
			return a
		}
		return a % b
	case OSDiv:
		x, y := SExtV(a, w), SExtV(b, w)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return m
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OSRem:
		x, y := SExtV(a, w), SExtV(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OBAnd:
		return a & b
	case OBOr:
		return a | b
	case OBXor:
		return a ^ b
	case OBNot:
		return ^a & m
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case OLShr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAShr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(SExtV(a, w)>>b) & m
	case OZExt:
		return a
	case OSExt:
		return uint64(SExtV(a, aw)) & m
	case OExtract:
		return (a >> t.K) & m
	case OFFromS:
		if w == 32 {
			return uint64(math.Float32bits(float32(SExtV(a, aw))))
		}
		return flbits(float64(SExtV(a, aw)), w)
	case OFFromU:
		if w == 32 {
			return uint64(math.Float32bits(float32(a)))
		}
		return flbits(float64(a), w)
	case OFToS:
		return uint64(int64(fl(a, aw))) & m
	case OFToU:
		return uint64(fl(a, aw)) & m
	case OFAdd, OFSub, OFMul, OFDiv:
		return flbits(farith(t.Op, fl(a, w), fl(b, w), w), w)
	case OFNeg:
		return flbits(-fl(a, w), w)
	case OFAbs:
		return flbits(math.Abs(fl(a, w)), w)
	case OFLt:
		return b2u(fl(a, aw) < fl(b, aw))
	case OFLe:
		return b2u(fl(a, aw) <= fl(b, aw))
	case OFEq:
		return b2u(fl(a, aw) == fl(b, aw))
	case OFIsNaN:
		return b2u(math.IsNaN(fl(a, aw)))
	case OFToF:
		return flbits(fl(a, aw), w)
	}
	panic("evalOp")
}

// Show renders a term for debugging.
func (t *Term) Show(d int) string {
	if t == nil {
		return ""
	}
	if t.Op == OConst {
		return fmt.Sprint(t.K)
	}
	if t.Op == OVar {
		return t.Name
	}
	if d == 0 {
		return "."
	}
	return fmt.Sprintf("(%d/%d %s %s %s)", t.Op, t.W, t.A.Show(d-1), t.B.Show(d-1), t.C.Show(d-1))
}
