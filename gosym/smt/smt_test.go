package smt

import (
	"math/rand"
	"testing"
)

// random terms: the simplifier and the evaluator must agree with the solver.
func TestRandomTerms(t *testing.T) {
	rng := rand.New(rand.NewSource(1))
	s := NewSolver(5000)
	defer s.Close()
	for it := 0; it < 400; it++ {
		c := NewCtx()
		ws := []uint8{8, 16, 32, 64}
		w := ws[rng.Intn(4)]
		vars := []*Term{c.Var("x", w), c.Var("y", w), c.ZExt(c.Var("b", 8), w)}
		m := Model{}
		for _, n := range []string{"x", "y", "b"} {
			m[n] = rng.Uint64() >> uint(rng.Intn(60))
		}
		m["x"] &= Mask(w)
		m["y"] &= Mask(w)
		m["b"] &= 255
		// raw mirrors
		ev := NewEval(m)
		type pr struct {
			t *Term
			v uint64
		}
		var pool []pr
		for _, v := range vars {
			pool = append(pool, pr{v, ev.Eval(v)})
		}
		for i := 0; i < 4; i++ {
			k := rng.Uint64() >> uint(rng.Intn(63))
			k &= Mask(w)
			pool = append(pool, pr{c.BV(k, w), k})
		}
		raw := func(op Op, a, b pr) uint64 {
			tt := &Term{Op: op, W: w, A: &Term{W: w}, B: &Term{W: w}}
			return evalOp(tt, a.v, b.v)
		}
		for i := 0; i < 25; i++ {
			a, b := pool[rng.Intn(len(pool))], pool[rng.Intn(len(pool))]
			var r pr
			switch rng.Intn(18) {
			case 0:
				r = pr{c.Add(a.t, b.t), raw(OAdd, a, b)}
			case 1:
				r = pr{c.Sub(a.t, b.t), raw(OSub, a, b)}
			case 2:
				r = pr{c.Mul(a.t, b.t), raw(OMul, a, b)}
			case 3:
				if b.v == 0 {
					continue
				}
				r = pr{c.UDiv(a.t, b.t), raw(OUDiv, a, b)}
			case 4:
				if b.v == 0 {
					continue
				}
				r = pr{c.URem(a.t, b.t), raw(OURem, a, b)}
			case 5:
				if b.v == 0 {
					continue
				}
				r = pr{c.SDiv(a.t, b.t), raw(OSDiv, a, b)}
			case 6:
				if b.v == 0 {
					continue
				}
				r = pr{c.SRem(a.t, b.t), raw(OSRem, a, b)}
			case 7:
				r = pr{c.BAnd(a.t, b.t), a.v & b.v}
			case 8:
				r = pr{c.BOr(a.t, b.t), a.v | b.v}
			case 9:
				r = pr{c.BXor(a.t, b.t), a.v ^ b.v}
			case 10:
				r = pr{c.Shl(a.t, b.t), raw(OShl, a, b)}
			case 11:
				r = pr{c.LShr(a.t, b.t), raw(OLShr, a, b)}
			case 12:
				r = pr{c.AShr(a.t, b.t), raw(OAShr, a, b)}
			case 13:
				r = pr{c.Ite(c.Ult(a.t, b.t), a.t, b.t), a.v}
				if a.v >= b.v {
					r.v = b.v
				}
			case 14:
				r = pr{c.Ite(c.Slt(a.t, b.t), a.t, b.t), b.v}
				if SExtV(a.v, w) < SExtV(b.v, w) {
					r.v = a.v
				}
			case 15:
				if w < 16 {
					continue
				}
				r = pr{c.SExt(c.Extract(a.t, 0, 8), w), uint64(int64(int8(a.v))) & Mask(w)}
			case 16:
				if w < 16 {
					continue
				}
				r = pr{c.ZExt(c.Extract(a.t, 3, 8), w), (a.v >> 3) & 255}
			case 17:
				r = pr{c.Ite(c.Eq(a.t, b.t), c.BV(1, w), c.BV(0, w)), b2u(a.v == b.v)}
			}
			pool = append(pool, r)
			if g := NewEval(m).Eval(r.t); g != r.v {
				t.Fatalf("it %d eval mismatch got %x want %x", it, g, r.v)
			}
			if r.v < r.t.Lo || r.v > r.t.Hi {
				t.Fatalf("interval [%x,%x] misses %x", r.t.Lo, r.t.Hi, r.v)
			}
		}
		last := pool[len(pool)-1]
		pc := []*Term{}
		for _, n := range []string{"x", "y"} {
			pc = append(pc, c.Eq(c.Var(n, w), c.BV(m[n], w)))
		}
		pc = append(pc, c.Eq(c.Var("b", 8), c.BV(m["b"], 8)))
		if r, _ := s.Check(pc, c.Not(c.Eq(last.t, c.BV(last.v, w))), nil); r != Unsat {
			t.Fatalf("solver disagrees: %v", r)
		}
		if r, _ := s.Check(pc, c.Eq(last.t, c.BV(last.v, w)), nil); r != Sat {
			t.Fatalf("solver disagrees (sat): %v", r)
		}
		s.Reset()
	}
}
