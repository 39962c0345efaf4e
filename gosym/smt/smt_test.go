package smt

import (
	"math"
	"math/rand"
	"testing"
)

// Every macro and simplification is compared with the exact evaluator on
// special and random operands, through the solver.
func TestMacros(t *testing.T) {
	rng := rand.New(rand.NewSource(1))
	special := []float64{0, math.Copysign(0, -1), 1, -1, 0.5, 1.5, -1.5, 2.5, 1e-35, -1e-35, 5e-324, -5e-324, math.MaxFloat64, math.Inf(1), math.Inf(-1), math.NaN(),
		2147483647, 2147483648, -2147483648, -2147483649, 2147483647.5, 4294967295, 4294967296, 9.2e18, 9.3e18, -9.3e18, 1e300, 0.1, 3.4e38, 3.5e38, 1e-45, 7e-46, 1e-40}
	f64 := func() uint64 {
		switch rng.Intn(3) {
		case 0:
			return math.Float64bits(special[rng.Intn(len(special))])
		case 1:
			return rng.Uint64()
		}
		return math.Float64bits((rng.Float64() - 0.5) * math.Pow(10, float64(rng.Intn(24)-4)))
	}
	f32 := func() uint64 {
		switch rng.Intn(3) {
		case 0:
			return uint64(math.Float32bits(float32(special[rng.Intn(len(special))])))
		case 1:
			return uint64(rng.Uint32())
		}
		return uint64(rng.Uint32() & 0x807fffff)
	}
	for _, precise := range []bool{false, true} {
		c := NewCtx()
		s := NewSolver(c, precise)
		defer s.Close()
		x, y := c.Var("x", 64), c.Var("y", 64)
		u, v := c.Var("u", 32), c.Var("v", 32)
		terms := []*Term{
			c.FCmp(OpFLt, x, y), c.FCmp(OpFLe, x, y), c.FCmp(OpFEq, x, y),
			c.FCmp(OpFLt, u, v), c.FCmp(OpFLe, u, v), c.FCmp(OpFEq, u, v),
			c.Conv(OpF32to64, u), c.Conv(OpF64toS64, x), c.Conv(OpF64toS32, x), c.Conv(OpS64toF64, x), c.Conv(OpU64toF64, x),
			c.FRound(0, x), c.FRound(1, x), c.FRound(2, x), c.FRound(3, x), c.Conv(OpF64to32, x),
			c.Bin(OpBvAShr, x, y), c.Bin(OpBvSDiv, x, y), c.Bin(OpBvSRem, x, y), c.Cmp(OpSLt, x, y), c.Bin(OpBvMul, x, c.Const(64, 0x01010101)),
			c.ZExt(c.Extract(c.Bin(OpBvLShr, x, c.Const(64, 7)), 30, 3), 64),
		}
		if precise {
			terms = append(terms, c.FArith(OpFAdd, x, y), c.FArith(OpFMul, x, y), c.FArith(OpFDiv, x, y), c.FSqrt(x), c.FArith(OpFAdd, u, v))
		}
		n := 60
		if precise {
			n = 30
		}
		for i := 0; i < n; i++ {
			m := Model{"x": f64(), "y": f64(), "u": f32(), "v": f32()}
			ev := NewEvaluator(c, m)
			var conj []*Term
			for k, val := range m {
				w := uint8(64)
				if k == "u" || k == "v" {
					w = 32
				}
				conj = append(conj, c.mk(OpEq, 0, 0, "", c.Var(k, w), c.Const(w, val)))
			}
			for _, tm := range terms {
				want := ev.Eval(tm)
				if tm.W != 0 && isFloatish(tm) && isNaNBits(tm.W, want) {
					continue
				}
				wt := c.Const(tm.W, want)
				q := append(append([]*Term{}, conj...), c.Not(c.mk(OpEq, 0, 0, "", tm, wt)))
				r, _ := s.Check(nil, q, 10000, nil)
				if r != Unsat {
					t.Fatalf("precise=%v op %v %v: model %x want %x: %v", precise, tm.Op, tm.C, m, want, r)
				}
			}
		}
	}
}

func isFloatish(t *Term) bool {
	switch t.Op {
	case OpFAdd, OpFMul, OpFDiv, OpFSqrt, OpFRound, OpF64to32, OpF32to64:
		return true
	}
	return false
}

// The simplifier must not change the meaning: random terms built twice, once
// through the constructors on variables and once on the constants.
func TestSimplifier(t *testing.T) {
	rng := rand.New(rand.NewSource(2))
	for it := 0; it < 3000; it++ {
		c := NewCtx()
		vals := Model{}
		type pair struct{ a, b *Term } // symbolic, concrete
		var pool []pair
		for i := 0; i < 3; i++ {
			w := []uint8{8, 32, 64}[i]
			n := string(rune('a' + i))
			v := rng.Uint64()
			switch rng.Intn(3) {
			case 0:
				v = uint64(rng.Intn(4))
			case 1:
				v = ^uint64(rng.Intn(4))
			}
			v &= mask(w)
			vals[n] = v
			pool = append(pool, pair{c.Var(n, w), c.Const(w, v)})
			k := uint64(rng.Intn(40))
			pool = append(pool, pair{c.Const(w, k), c.Const(w, k)})
		}
		bools := []pair{{c.True, c.True}}
		pick := func(w uint8) pair {
			for {
				p := pool[rng.Intn(len(pool))]
				if p.a.W == w {
					return p
				}
			}
		}
		bin := []Op{OpBvAdd, OpBvSub, OpBvMul, OpBvUDiv, OpBvSDiv, OpBvURem, OpBvSRem, OpBvAnd, OpBvOr, OpBvXor, OpBvShl, OpBvLShr, OpBvAShr}
		cmp := []Op{OpULt, OpULe, OpSLt, OpSLe}
		for k := 0; k < 25; k++ {
			w := []uint8{8, 32, 64}[rng.Intn(3)]
			p, q := pick(w), pick(w)
			switch rng.Intn(8) {
			case 0, 1, 2:
				op := bin[rng.Intn(len(bin))]
				pool = append(pool, pair{c.Bin(op, p.a, q.a), c.Bin(op, p.b, q.b)})
			case 3:
				op := cmp[rng.Intn(4)]
				bools = append(bools, pair{c.Cmp(op, p.a, q.a), c.Cmp(op, p.b, q.b)})
			case 4:
				bools = append(bools, pair{c.Eq(p.a, q.a), c.Eq(p.b, q.b)})
			case 5:
				b := bools[rng.Intn(len(bools))]
				pool = append(pool, pair{c.Ite(b.a, p.a, q.a), c.Ite(b.b, p.b, q.b)})
			case 6:
				b, d := bools[rng.Intn(len(bools))], bools[rng.Intn(len(bools))]
				bools = append(bools, pair{c.And(b.a, c.Not(d.a)), c.And(b.b, c.Not(d.b))}, pair{c.Or(b.a, d.a), c.Or(b.b, d.b)})
			case 7:
				if w == 8 {
					w2 := []uint8{32, 64}[rng.Intn(2)]
					pool = append(pool, pair{c.ZExt(p.a, w2), c.ZExt(p.b, w2)}, pair{c.SExt(q.a, w2), c.SExt(q.b, w2)})
				} else {
					lo := uint8(rng.Intn(int(w) - 8))
					pool = append(pool, pair{c.Extract(p.a, lo+7, lo), c.Extract(p.b, lo+7, lo)})
					if w == 64 {
						pool = append(pool, pair{c.Concat(c.Extract(p.a, 31, 0), c.Extract(q.a, 63, 32)), c.Concat(c.Extract(p.b, 31, 0), c.Extract(q.b, 63, 32))})
					}
				}
			}
		}
		ev := NewEvaluator(c, vals)
		for _, p := range append(pool, bools...) {
			if p.b.Op != OpConst {
				t.Fatal("not const")
			}
			if ev.Eval(p.a) != p.b.C {
				t.Fatalf("mismatch op %v", p.a.Op)
			}
		}
	}
}
