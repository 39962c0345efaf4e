package smt

import "math"

// Model assigns values to variables; missing variables are 0.
type Model map[string]uint64

// Evaluator evaluates terms exactly (IEEE semantics for float operations).
type Evaluator struct {
	C    *Ctx
	M    Model
	memo map[uint32]uint64
	// Bad is set when a function symbol could not be evaluated.
	Bad bool
}

func NewEvaluator(c *Ctx, m Model) *Evaluator {
	return &Evaluator{C: c, M: m, memo: map[uint32]uint64{}}
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (e *Evaluator) Bool(t *Term) bool { return e.Eval(t) == 1 }

func (e *Evaluator) Eval(t *Term) uint64 {
	switch t.Op {
	case OpConst:
		return t.C
	case OpVar:
		v := e.M[t.Name]
		if t.W == 0 {
			return v & 1
		}
		return v & mask(t.W)
	}
	if v, ok := e.memo[t.ID]; ok {
		return v
	}
	v := e.eval1(t)
	e.memo[t.ID] = v
	return v
}

func (e *Evaluator) eval1(t *Term) uint64 {
	switch t.Op {
	case OpNot:
		return 1 - e.Eval(t.A[0])
	case OpAnd:
		if e.Eval(t.A[0]) == 0 {
			return 0
		}
		return e.Eval(t.A[1])
	case OpOr:
		if e.Eval(t.A[0]) == 1 {
			return 1
		}
		return e.Eval(t.A[1])
	case OpIte:
		if e.Eval(t.A[0]) == 1 {
			return e.Eval(t.A[1])
		}
		return e.Eval(t.A[2])
	}
	var a, b uint64
	if len(t.A) > 0 {
		a = e.Eval(t.A[0])
	}
	if len(t.A) > 1 {
		b = e.Eval(t.A[1])
	}
	switch t.Op {
	case OpEq:
		return b2u(a == b)
	case OpBvAdd, OpBvSub, OpBvMul, OpBvUDiv, OpBvSDiv, OpBvURem, OpBvSRem, OpBvAnd, OpBvOr, OpBvXor, OpBvShl, OpBvLShr, OpBvAShr:
		return evalBin(t.Op, t.W, a, b)
	case OpBvNot:
		return ^a & mask(t.W)
	case OpConcat:
		return a<<t.A[1].W | b
	case OpExtract:
		return (a >> elo(t)) & mask(t.W)
	case OpZExt:
		return a
	case OpSExt:
		return uint64(sext(a, t.A[0].W)) & mask(t.W)
	case OpULt, OpULe, OpSLt, OpSLe:
		return b2u(evalCmp(t.Op, t.A[0].W, a, b))
	case OpFLt, OpFLe, OpFEq:
		return b2u(evalFCmp(t.Op, t.A[0].W, a, b))
	case OpFAdd, OpFMul, OpFDiv:
		return evalFArith(t.Op, t.W, a, b)
	case OpFSqrt:
		if t.W == 32 {
			return uint64(math.Float32bits(float32(math.Sqrt(fval(32, a)))))
		}
		return math.Float64bits(math.Sqrt(math.Float64frombits(a)))
	case OpF32to64, OpF64to32, OpF64toS64, OpF64toS32, OpS64toF64, OpU64toF64:
		return evalConv(t.Op, a)
	case OpFRound:
		return evalRound(t.C, a)
	case OpFun:
		args := make([]uint64, len(t.A))
		for i, x := range t.A {
			args[i] = e.Eval(x)
		}
		if e.C.Fun != nil {
			if v, ok := e.C.Fun(t.Name, args); ok {
				return v & mask(t.W)
			}
		}
		e.Bad = true
		return 0
	}
	panic("eval: op")
}

// Vars collects the variables of terms.
func Vars(ts ...*Term) []*Term {
	seen := map[uint32]bool{}
	var out []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t.ID] {
			return
		}
		seen[t.ID] = true
		if t.Op == OpVar {
			out = append(out, t)
		}
		for _, a := range t.A {
			rec(a)
		}
	}
	for _, t := range ts {
		rec(t)
	}
	return out
}

// Subterms visits every distinct subterm once.
func Subterms(ts []*Term, f func(t *Term)) {
	seen := map[uint32]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t.ID] {
			return
		}
		seen[t.ID] = true
		for _, a := range t.A {
			rec(a)
		}
		f(t)
	}
	for _, t := range ts {
		rec(t)
	}
}
