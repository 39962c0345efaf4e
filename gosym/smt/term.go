// Package smt: hash-consed bit-vector terms with a simplifier, a concrete
// evaluator and a pipe to an SMT solver. Floats are represented by their IEEE
// bit patterns; comparisons are exact, arithmetic is exact on constants and
// otherwise a (per operation) function symbol whose exact meaning is only used
// by the evaluator and by the precise solver.
package smt

import (
	"fmt"
	"math"
	"math/bits"
)

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot
	OpAnd
	OpOr
	OpIte
	OpEq
	OpBvAdd
	OpBvSub
	OpBvMul
	OpBvUDiv
	OpBvSDiv
	OpBvURem
	OpBvSRem
	OpBvAnd
	OpBvOr
	OpBvXor
	OpBvShl
	OpBvLShr
	OpBvAShr
	OpBvNot
	OpConcat
	OpExtract
	OpZExt
	OpSExt
	OpULt
	OpULe
	OpSLt
	OpSLe
	// exact float predicates (arguments are bit patterns, width 32 or 64)
	OpFLt
	OpFLe
	OpFEq
	// float arithmetic (uninterpreted for the fast solver)
	OpFAdd
	OpFMul
	OpFDiv
	OpFSqrt
	// exact conversions
	OpF32to64
	OpF64to32
	OpF64toS64
	OpF64toS32
	OpS64toF64
	OpU64toF64
	OpFRound // C: 0 ceil 1 floor 2 trunc 3 roundeven ; width 64
	// named function of bit-vectors (Name), meaning supplied natively by Ctx.Fun
	OpFun
)

var opNames = map[Op]string{
	OpNot: "not", OpAnd: "and", OpOr: "or", OpIte: "ite", OpEq: "=",
	OpBvAdd: "bvadd", OpBvSub: "bvsub", OpBvMul: "bvmul", OpBvUDiv: "bvudiv", OpBvSDiv: "bvsdiv",
	OpBvURem: "bvurem", OpBvSRem: "bvsrem", OpBvAnd: "bvand", OpBvOr: "bvor", OpBvXor: "bvxor",
	OpBvShl: "bvshl", OpBvLShr: "bvlshr", OpBvAShr: "bvashr", OpBvNot: "bvnot", OpConcat: "concat",
	OpULt: "bvult", OpULe: "bvule", OpSLt: "bvslt", OpSLe: "bvsle",
	OpFLt: "flt", OpFLe: "fle", OpFEq: "feq", OpFAdd: "fadd", OpFMul: "fmul", OpFDiv: "fdiv", OpFSqrt: "fsqrt",
	OpF32to64: "f32to64", OpF64to32: "f64to32", OpF64toS64: "f64tos64", OpF64toS32: "f64tos32",
	OpS64toF64: "s64tof64", OpU64toF64: "u64tof64", OpFRound: "fround",
}

// Term is immutable and unique per Ctx. W == 0 means Bool.
type Term struct {
	Op   Op
	W    uint8
	HasF bool // contains an abstracted float operation
	C    uint64
	A    []*Term
	Name string
	ID   uint32
}

func (t *Term) IsConst() bool { return t.Op == OpConst }
func (t *Term) IsTrue() bool  { return t.Op == OpConst && t.W == 0 && t.C == 1 }
func (t *Term) IsFalse() bool { return t.Op == OpConst && t.W == 0 && t.C == 0 }

type key struct {
	op         Op
	w          uint8
	c          uint64
	a0, a1, a2 uint32
	name       string
}

// Ctx owns terms. Not safe for concurrent use.
type Ctx struct {
	tab   map[key]*Term
	tabN  map[string]*Term
	next  uint32
	small [65][]*Term
	True  *Term
	False *Term
	// Fun gives the native meaning of OpFun symbols (may return ok=false).
	Fun func(name string, args []uint64) (uint64, bool)
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[key]*Term{}, tabN: map[string]*Term{}}
	c.False = c.Const(0, 0)
	c.True = c.Const(0, 1)
	return c
}

func (c *Ctx) NumTerms() int { return int(c.next) }

func (c *Ctx) mk(op Op, w uint8, cv uint64, name string, a ...*Term) *Term {
	hasF := op == OpFAdd || op == OpFMul || op == OpFDiv || op == OpFSqrt || op == OpFun
	for _, x := range a {
		if x.HasF {
			hasF = true
		}
	}
	if len(a) > 3 {
		ks := fmt.Sprintf("%d/%d/%d/%s", op, w, cv, name)
		for _, x := range a {
			ks += fmt.Sprintf("/%d", x.ID)
		}
		if t, ok := c.tabN[ks]; ok {
			return t
		}
		c.next++
		t := &Term{Op: op, W: w, C: cv, A: append([]*Term(nil), a...), Name: name, ID: c.next, HasF: hasF}
		c.tabN[ks] = t
		return t
	}
	k := key{op: op, w: w, c: cv, name: name}
	switch len(a) {
	case 3:
		k.a2 = a[2].ID
		fallthrough
	case 2:
		k.a1 = a[1].ID
		fallthrough
	case 1:
		k.a0 = a[0].ID
	}
	if t, ok := c.tab[k]; ok {
		return t
	}
	c.next++
	t := &Term{Op: op, W: w, C: cv, Name: name, ID: c.next, HasF: hasF}
	if len(a) > 0 {
		t.A = append([]*Term(nil), a...)
	}
	c.tab[k] = t
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

// SVal returns the signed value of a constant.
func (t *Term) SVal() int64 { return sext(t.C, t.W) }

const nSmall = 1100

func (c *Ctx) Const(w uint8, v uint64) *Term {
	if w == 0 {
		v &= 1
	} else {
		v &= mask(w)
	}
	if v < nSmall {
		s := c.small[w]
		if s == nil {
			s = make([]*Term, nSmall)
			c.small[w] = s
		}
		if s[v] == nil {
			s[v] = c.mk(OpConst, w, v, "")
		}
		return s[v]
	}
	return c.mk(OpConst, w, v, "")
}

func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}
func (c *Ctx) F64(f float64) *Term { return c.Const(64, math.Float64bits(f)) }

func (c *Ctx) Var(name string, w uint8) *Term { return c.mk(OpVar, w, 0, name) }

func (c *Ctx) Not(a *Term) *Term {
	if a.Op == OpConst {
		return c.Bool(a.C == 0)
	}
	if a.Op == OpNot {
		return a.A[0]
	}
	return c.mk(OpNot, 0, 0, "", a)
}

func (c *Ctx) And(a, b *Term) *Term {
	if a.Op == OpConst {
		if a.C == 0 {
			return a
		}
		return b
	}
	if b.Op == OpConst {
		if b.C == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if c.Not(a) == b {
		return c.False
	}
	// absorption: a & (a & x), a & (a | x)
	for _, p := range [2][2]*Term{{a, b}, {b, a}} {
		x, y := p[0], p[1]
		if y.Op == OpAnd && (y.A[0] == x || y.A[1] == x) {
			return y
		}
		if y.Op == OpOr && (y.A[0] == x || y.A[1] == x) {
			return x
		}
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return c.mk(OpAnd, 0, 0, "", a, b)
}

func (c *Ctx) Or(a, b *Term) *Term {
	if a.Op == OpConst {
		if a.C == 1 {
			return a
		}
		return b
	}
	if b.Op == OpConst {
		if b.C == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if c.Not(a) == b {
		return c.True
	}
	for _, p := range [2][2]*Term{{a, b}, {b, a}} {
		x, y := p[0], p[1]
		if y.Op == OpOr && (y.A[0] == x || y.A[1] == x) {
			return y
		}
		if y.Op == OpAnd && (y.A[0] == x || y.A[1] == x) {
			return x
		}
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return c.mk(OpOr, 0, 0, "", a, b)
}

func (c *Ctx) Ite(cond, a, b *Term) *Term {
	if cond.Op == OpConst {
		if cond.C == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.W != b.W {
		panic(fmt.Sprintf("ite width %d %d", a.W, b.W))
	}
	if cond.Op == OpNot {
		cond, a, b = cond.A[0], b, a
	}
	if a.W == 0 {
		if a.Op == OpConst && b.Op == OpConst {
			if a.C == 1 {
				return cond
			}
			return c.Not(cond)
		}
		if a.IsTrue() {
			return c.Or(cond, b)
		}
		if a.IsFalse() {
			return c.And(c.Not(cond), b)
		}
		if b.IsTrue() {
			return c.Or(c.Not(cond), a)
		}
		if b.IsFalse() {
			return c.And(cond, a)
		}
	}
	if a.Op == OpIte && a.A[0] == cond {
		a = a.A[1]
	}
	if b.Op == OpIte && b.A[0] == cond {
		b = b.A[2]
	}
	if a == b {
		return a
	}
	return c.mk(OpIte, a.W, 0, "", cond, a, b)
}

// iteAllConst reports whether t is a tree of ites over constants.
func iteAllConst(t *Term, depth int) bool {
	if t.Op == OpConst {
		return true
	}
	if t.Op != OpIte || depth == 0 {
		return false
	}
	return iteAllConst(t.A[1], depth-1) && iteAllConst(t.A[2], depth-1)
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.W != b.W {
		panic(fmt.Sprintf("eq width %d %d", a.W, b.W))
	}
	if a.Op == OpConst && b.Op == OpConst {
		return c.Bool(a.C == b.C)
	}
	if a.Op == OpConst {
		a, b = b, a
	}
	if b.Op == OpConst {
		if a.W == 0 {
			if b.C == 1 {
				return a
			}
			return c.Not(a)
		}
		switch a.Op {
		case OpZExt:
			in := a.A[0]
			if b.C&^mask(in.W) != 0 {
				return c.False
			}
			return c.Eq(in, c.Const(in.W, b.C))
		case OpSExt:
			in := a.A[0]
			if uint64(sext(b.C&mask(in.W), in.W))&mask(a.W) != b.C {
				return c.False
			}
			return c.Eq(in, c.Const(in.W, b.C))
		case OpIte:
			if iteAllConst(a, 12) {
				return c.Ite(a.A[0], c.Eq(a.A[1], b), c.Eq(a.A[2], b))
			}
		case OpConcat:
			lo := a.A[1]
			hi := a.A[0]
			return c.And(c.Eq(hi, c.Const(hi.W, b.C>>lo.W)), c.Eq(lo, c.Const(lo.W, b.C)))
		case OpBvAdd:
			if a.A[1].Op == OpConst {
				return c.Eq(a.A[0], c.Const(a.W, b.C-a.A[1].C))
			}
		case OpBvXor:
			if a.A[1].Op == OpConst {
				return c.Eq(a.A[0], c.Const(a.W, b.C^a.A[1].C))
			}
		case OpBvNot:
			return c.Eq(a.A[0], c.Const(a.W, ^b.C))
		case OpS64toF64:
			// exact for small ints
		}
		return c.mk(OpEq, 0, 0, "", a, b)
	}
	if (a.Op == OpZExt && b.Op == OpZExt || a.Op == OpSExt && b.Op == OpSExt) && a.A[0].W == b.A[0].W {
		return c.Eq(a.A[0], b.A[0])
	}
	if a.Op == OpF32to64 && b.Op == OpF32to64 {
		// injective except on NaN payload quieting; keep
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return c.mk(OpEq, 0, 0, "", a, b)
}

func isPow2(v uint64) (uint, bool) {
	if v != 0 && v&(v-1) == 0 {
		return uint(bits.TrailingZeros64(v)), true
	}
	return 0, false
}

func (c *Ctx) Bin(op Op, a, b *Term) *Term {
	if a.W != b.W {
		panic(fmt.Sprintf("bin %s width %d %d", opNames[op], a.W, b.W))
	}
	w := a.W
	if a.Op == OpConst && b.Op == OpConst {
		return c.Const(w, evalBin(op, w, a.C, b.C))
	}
	switch op {
	case OpBvAdd, OpBvMul, OpBvAnd, OpBvOr, OpBvXor:
		if a.Op == OpConst || (b.Op != OpConst && a.ID > b.ID) {
			a, b = b, a
		}
	}
	bc := b.Op == OpConst
	switch op {
	case OpBvAdd:
		if bc && b.C == 0 {
			return a
		}
		if bc && a.Op == OpBvAdd && a.A[1].Op == OpConst {
			return c.Bin(OpBvAdd, a.A[0], c.Const(w, a.A[1].C+b.C))
		}
		if bc && a.Op == OpIte && iteAllConst(a, 8) {
			return c.Ite(a.A[0], c.Bin(op, a.A[1], b), c.Bin(op, a.A[2], b))
		}
	case OpBvSub:
		if bc {
			return c.Bin(OpBvAdd, a, c.Const(w, -b.C))
		}
		if a == b {
			return c.Const(w, 0)
		}
	case OpBvMul:
		if bc {
			if b.C == 0 {
				return b
			}
			if b.C == 1 {
				return a
			}
			if a.Op == OpIte && iteAllConst(a, 8) {
				return c.Ite(a.A[0], c.Bin(op, a.A[1], b), c.Bin(op, a.A[2], b))
			}
		}
	case OpBvAnd:
		if bc {
			if b.C == 0 {
				return b
			}
			if b.C == mask(w) {
				return a
			}
			if a.Op == OpBvAnd && a.A[1].Op == OpConst {
				return c.Bin(OpBvAnd, a.A[0], c.Const(w, a.A[1].C&b.C))
			}
			if a.Op == OpZExt {
				in := a.A[0]
				return c.ZExt(c.Bin(OpBvAnd, in, c.Const(in.W, b.C)), w)
			}
			if a.Op == OpIte {
				return c.Ite(a.A[0], c.Bin(op, a.A[1], b), c.Bin(op, a.A[2], b))
			}
			if a.Op == OpBvOr {
				return c.Bin(OpBvOr, c.Bin(OpBvAnd, a.A[0], b), c.Bin(OpBvAnd, a.A[1], b))
			}
			// low mask -> zext(extract)
			if k, ok := isPow2(b.C + 1); ok && k > 0 && uint8(k) < w {
				return c.ZExt(c.Extract(a, uint8(k)-1, 0), w)
			}
		}
		if a == b {
			return a
		}
	case OpBvOr:
		if bc {
			if b.C == 0 {
				return a
			}
			if b.C == mask(w) {
				return b
			}
			if a.Op == OpBvOr && a.A[1].Op == OpConst {
				return c.Bin(OpBvOr, a.A[0], c.Const(w, a.A[1].C|b.C))
			}
			if a.Op == OpIte && iteAllConst(a, 8) {
				return c.Ite(a.A[0], c.Bin(op, a.A[1], b), c.Bin(op, a.A[2], b))
			}
		}
		if a == b {
			return a
		}
		if r := c.orConcat(a, b); r != nil {
			return r
		}
	case OpBvXor:
		if bc && b.C == 0 {
			return a
		}
		if a == b {
			return c.Const(w, 0)
		}
		if bc && b.C == mask(w) {
			return c.BvNot(a)
		}
		if bc && a.Op == OpBvXor && a.A[1].Op == OpConst {
			return c.Bin(OpBvXor, a.A[0], c.Const(w, a.A[1].C^b.C))
		}
	case OpBvShl:
		if bc {
			if b.C == 0 {
				return a
			}
			if b.C >= uint64(w) {
				return c.Const(w, 0)
			}
			// concat(extract(a, w-1-k, 0), 0_k)
			k := uint8(b.C)
			return c.Concat(c.Extract(a, w-1-k, 0), c.Const(k, 0))
		}
		if a.Op == OpConst && a.C == 0 {
			return a
		}
	case OpBvLShr:
		if bc {
			if b.C == 0 {
				return a
			}
			if b.C >= uint64(w) {
				return c.Const(w, 0)
			}
			return c.ZExt(c.Extract(a, w-1, uint8(b.C)), w)
		}
		if a.Op == OpConst && a.C == 0 {
			return a
		}
	case OpBvAShr:
		if bc {
			k := b.C
			if k == 0 {
				return a
			}
			if k >= uint64(w) {
				k = uint64(w) - 1
			}
			return c.SExt(c.Extract(a, w-1, uint8(k)), w)
		}
	case OpBvUDiv:
		if bc && b.C == 1 {
			return a
		}
		if bc {
			if k, ok := isPow2(b.C); ok {
				return c.Bin(OpBvLShr, a, c.Const(w, uint64(k)))
			}
		}
	case OpBvURem:
		if bc && b.C == 1 {
			return c.Const(w, 0)
		}
		if bc {
			if _, ok := isPow2(b.C); ok {
				return c.Bin(OpBvAnd, a, c.Const(w, b.C-1))
			}
		}
	case OpBvSDiv:
		if bc && b.C == 1 {
			return a
		}
		if bc && c.nonNeg(a) {
			if sext(b.C, w) > 0 {
				return c.Bin(OpBvUDiv, a, b)
			}
		}
	case OpBvSRem:
		if bc && sext(b.C, w) > 0 && c.nonNeg(a) {
			return c.Bin(OpBvURem, a, b)
		}
	}
	return c.mk(op, w, 0, "", a, b)
}

// nonNeg: sign bit known zero
func (c *Ctx) nonNeg(a *Term) bool {
	switch a.Op {
	case OpConst:
		return sext(a.C, a.W) >= 0
	case OpZExt:
		return true
	case OpConcat:
		return c.nonNeg(a.A[0])
	case OpIte:
		return c.nonNeg(a.A[1]) && c.nonNeg(a.A[2])
	case OpBvAnd:
		return c.nonNeg(a.A[0]) || c.nonNeg(a.A[1])
	}
	return false
}

// pieces decomposes a into a list (most significant first) of parts; zero parts are constants.
func pieces(a *Term, out []*Term) []*Term {
	if a.Op == OpConcat {
		out = pieces(a.A[0], out)
		return pieces(a.A[1], out)
	}
	return append(out, a)
}

func (c *Ctx) asPieces(a *Term) []*Term {
	if a.Op == OpZExt {
		return append([]*Term{c.Const(a.W-a.A[0].W, 0)}, pieces(a.A[0], nil)...)
	}
	return pieces(a, nil)
}

// orConcat merges an OR of two terms whose non-zero parts do not overlap.
func (c *Ctx) orConcat(a, b *Term) *Term {
	if a.Op != OpConcat && a.Op != OpZExt && a.Op != OpConst || b.Op != OpConcat && b.Op != OpZExt && b.Op != OpConst {
		return nil
	}
	pa, pb := c.asPieces(a), c.asPieces(b)
	var res *Term
	add := func(t *Term) {
		if res == nil {
			res = t
		} else {
			res = c.Concat(res, t)
		}
	}
	i, j := 0, 0
	var ca, cb *Term
	for {
		if ca == nil {
			if i >= len(pa) {
				break
			}
			ca = pa[i]
			i++
		}
		if cb == nil {
			cb = pb[j]
			j++
		}
		az := ca.Op == OpConst && ca.C == 0
		bz := cb.Op == OpConst && cb.C == 0
		w := ca.W
		if cb.W < w {
			w = cb.W
		}
		if !az && !bz {
			if ca.Op == OpConst && cb.Op == OpConst {
				// fallthrough below by slicing
			} else {
				return nil
			}
		}
		top := func(t *Term) (*Term, *Term) {
			if t.W == w {
				return t, nil
			}
			return c.Extract(t, t.W-1, t.W-w), c.Extract(t, t.W-w-1, 0)
		}
		var ha, hb *Term
		ha, ca = top(ca)
		hb, cb = top(cb)
		if az && bz || !az && !bz {
			add(c.Const(w, ha.C|hb.C))
		} else if az {
			add(hb)
		} else {
			add(ha)
		}
	}
	return res
}

func evalBin(op Op, w uint8, a, b uint64) uint64 {
	m := mask(w)
	switch op {
	case OpBvAdd:
		return (a + b) & m
	case OpBvSub:
		return (a - b) & m
	case OpBvMul:
		return (a * b) & m
	case OpBvUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case OpBvURem:
		if b == 0 {
			return a
		}
		return a % b
	case OpBvSDiv:
		x, y := sext(a, w), sext(b, w)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return m
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OpBvSRem:
		x, y := sext(a, w), sext(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OpBvAnd:
		return a & b
	case OpBvOr:
		return a | b
	case OpBvXor:
		return a ^ b
	case OpBvShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case OpBvLShr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OpBvAShr:
		k := b
		if k >= uint64(w) {
			k = uint64(w) - 1
		}
		return uint64(sext(a, w)>>k) & m
	}
	panic("evalBin")
}

func (c *Ctx) BvNot(a *Term) *Term {
	if a.Op == OpConst {
		return c.Const(a.W, ^a.C)
	}
	if a.Op == OpBvNot {
		return a.A[0]
	}
	if a.Op == OpIte && iteAllConst(a, 8) {
		return c.Ite(a.A[0], c.BvNot(a.A[1]), c.BvNot(a.A[2]))
	}
	return c.mk(OpBvNot, a.W, 0, "", a)
}

func (c *Ctx) Neg(a *Term) *Term { return c.Bin(OpBvSub, c.Const(a.W, 0), a) }

func (c *Ctx) Concat(hi, lo *Term) *Term {
	w := int(hi.W) + int(lo.W)
	if w > 64 {
		panic("concat > 64")
	}
	if hi.Op == OpConst && lo.Op == OpConst {
		return c.Const(uint8(w), hi.C<<lo.W|lo.C)
	}
	if hi.Op == OpConst && hi.C == 0 {
		return c.ZExt(lo, uint8(w))
	}
	if hi.Op == OpExtract && lo.Op == OpExtract && hi.A[0] == lo.A[0] && elo(hi) == ehi(lo)+1 {
		return c.Extract(hi.A[0], ehi(hi), elo(lo))
	}
	// right-normalise: concat(concat(x,y),z): try to merge y,z
	if hi.Op == OpConcat {
		y := hi.A[1]
		if y.Op == OpConst && lo.Op == OpConst || y.Op == OpExtract && lo.Op == OpExtract && y.A[0] == lo.A[0] && elo(y) == ehi(lo)+1 {
			return c.Concat(hi.A[0], c.Concat(y, lo))
		}
	}
	if lo.Op == OpConcat {
		y := lo.A[0]
		if hi.Op == OpConst && y.Op == OpConst || y.Op == OpExtract && hi.Op == OpExtract && y.A[0] == hi.A[0] && elo(hi) == ehi(y)+1 {
			return c.Concat(c.Concat(hi, y), lo.A[1])
		}
	}
	return c.mk(OpConcat, uint8(w), 0, "", hi, lo)
}

func ehi(t *Term) uint8 { return uint8(t.C >> 8) }
func elo(t *Term) uint8 { return uint8(t.C) }

func (c *Ctx) Extract(a *Term, hi, lo uint8) *Term {
	w := hi - lo + 1
	if w == a.W {
		return a
	}
	switch a.Op {
	case OpConst:
		return c.Const(w, a.C>>lo)
	case OpExtract:
		return c.Extract(a.A[0], hi+elo(a), lo+elo(a))
	case OpConcat:
		l := a.A[1]
		if lo >= l.W {
			return c.Extract(a.A[0], hi-l.W, lo-l.W)
		}
		if hi < l.W {
			return c.Extract(l, hi, lo)
		}
		return c.Concat(c.Extract(a.A[0], hi-l.W, 0), c.Extract(l, l.W-1, lo))
	case OpZExt:
		in := a.A[0]
		if lo >= in.W {
			return c.Const(w, 0)
		}
		if hi < in.W {
			return c.Extract(in, hi, lo)
		}
		return c.ZExt(c.Extract(in, in.W-1, lo), w)
	case OpSExt:
		in := a.A[0]
		if hi < in.W {
			return c.Extract(in, hi, lo)
		}
		if lo < in.W {
			return c.SExt(c.Extract(in, in.W-1, lo), w)
		}
	case OpIte:
		return c.Ite(a.A[0], c.Extract(a.A[1], hi, lo), c.Extract(a.A[2], hi, lo))
	case OpBvAnd, OpBvOr, OpBvXor:
		return c.Bin(a.Op, c.Extract(a.A[0], hi, lo), c.Extract(a.A[1], hi, lo))
	case OpBvNot:
		return c.BvNot(c.Extract(a.A[0], hi, lo))
	case OpBvAdd, OpBvSub, OpBvMul:
		if lo == 0 {
			return c.Bin(a.Op, c.Extract(a.A[0], hi, 0), c.Extract(a.A[1], hi, 0))
		}
	}
	return c.mk(OpExtract, w, uint64(hi)<<8|uint64(lo), "", a)
}

func (c *Ctx) ZExt(a *Term, w uint8) *Term {
	if a.W == w {
		return a
	}
	switch a.Op {
	case OpConst:
		return c.Const(w, a.C)
	case OpZExt:
		return c.ZExt(a.A[0], w)
	case OpIte:
		if iteAllConst(a, 12) {
			return c.Ite(a.A[0], c.ZExt(a.A[1], w), c.ZExt(a.A[2], w))
		}
	}
	return c.mk(OpZExt, w, 0, "", a)
}

func (c *Ctx) SExt(a *Term, w uint8) *Term {
	if a.W == w {
		return a
	}
	switch a.Op {
	case OpConst:
		return c.Const(w, uint64(sext(a.C, a.W)))
	case OpSExt:
		return c.SExt(a.A[0], w)
	case OpZExt:
		return c.ZExt(a.A[0], w)
	case OpIte:
		if iteAllConst(a, 12) {
			return c.Ite(a.A[0], c.SExt(a.A[1], w), c.SExt(a.A[2], w))
		}
	}
	return c.mk(OpSExt, w, 0, "", a)
}

// urange returns conservative unsigned bounds.
func urange(a *Term) (lo, hi uint64) {
	switch a.Op {
	case OpConst:
		return a.C, a.C
	case OpZExt:
		return urange(a.A[0])
	case OpIte:
		if a.W > 0 {
			l1, h1 := urange1(a.A[1])
			l2, h2 := urange1(a.A[2])
			if l2 < l1 {
				l1 = l2
			}
			if h2 > h1 {
				h1 = h2
			}
			return l1, h1
		}
	case OpBvAnd:
		if a.A[1].Op == OpConst {
			return 0, a.A[1].C
		}
	}
	return 0, mask(a.W)
}

func urange1(a *Term) (lo, hi uint64) {
	if a.Op == OpIte && a.A[1].Op == OpIte && a.A[2].Op == OpIte {
		return 0, mask(a.W)
	}
	return urange(a)
}

func (c *Ctx) Cmp(op Op, a, b *Term) *Term {
	if a.W != b.W {
		panic(fmt.Sprintf("cmp %s width %d %d", opNames[op], a.W, b.W))
	}
	if a.Op == OpConst && b.Op == OpConst {
		return c.Bool(evalCmp(op, a.W, a.C, b.C))
	}
	if a == b {
		switch op {
		case OpULt, OpSLt:
			return c.False
		case OpULe, OpSLe:
			return c.True
		}
	}
	// nested ite over constants against a constant: push in
	if b.Op == OpConst && a.Op == OpIte && iteAllConst(a, 10) {
		return c.Ite(a.A[0], c.Cmp(op, a.A[1], b), c.Cmp(op, a.A[2], b))
	}
	if a.Op == OpConst && b.Op == OpIte && iteAllConst(b, 10) {
		return c.Ite(b.A[0], c.Cmp(op, a, b.A[1]), c.Cmp(op, a, b.A[2]))
	}
	switch op {
	case OpSLt, OpSLe:
		if c.nonNeg(a) && c.nonNeg(b) {
			if op == OpSLt {
				return c.Cmp(OpULt, a, b)
			}
			return c.Cmp(OpULe, a, b)
		}
		if a.Op == OpSExt && b.Op == OpConst {
			in := a.A[0]
			v := sext(b.C, b.W)
			if v == sext(uint64(v)&mask(in.W), in.W) {
				return c.Cmp(op, in, c.Const(in.W, b.C))
			}
			return c.Bool(v > 0)
		}
		if b.Op == OpSExt && a.Op == OpConst {
			in := b.A[0]
			v := sext(a.C, a.W)
			if v == sext(uint64(v)&mask(in.W), in.W) {
				return c.Cmp(op, c.Const(in.W, a.C), in)
			}
			return c.Bool(v < 0)
		}
		if a.Op == OpSExt && b.Op == OpSExt && a.A[0].W == b.A[0].W {
			return c.Cmp(op, a.A[0], b.A[0])
		}
		if c.nonNeg(a) && b.Op == OpConst { // b negative
			return c.False
		}
		if c.nonNeg(b) && a.Op == OpConst {
			return c.True
		}
	case OpULt, OpULe:
		if a.Op == OpZExt && b.Op == OpZExt && a.A[0].W == b.A[0].W {
			return c.Cmp(op, a.A[0], b.A[0])
		}
		al, ah := urange(a)
		bl, bh := urange(b)
		if op == OpULt {
			if ah < bl {
				return c.True
			}
			if al >= bh {
				return c.False
			}
		} else {
			if ah <= bl {
				return c.True
			}
			if al > bh {
				return c.False
			}
		}
		if a.Op == OpZExt && b.Op == OpConst && b.C <= mask(a.A[0].W) {
			return c.Cmp(op, a.A[0], c.Const(a.A[0].W, b.C))
		}
		if b.Op == OpZExt && a.Op == OpConst && a.C <= mask(b.A[0].W) {
			return c.Cmp(op, c.Const(b.A[0].W, a.C), b.A[0])
		}
		if op == OpULt && b.Op == OpConst && b.C == 1 {
			return c.Eq(a, c.Const(a.W, 0))
		}
		if op == OpULt && a.Op == OpConst && a.C == 0 {
			return c.Not(c.Eq(b, c.Const(b.W, 0)))
		}
	}
	return c.mk(op, 0, 0, "", a, b)
}

func evalCmp(op Op, w uint8, a, b uint64) bool {
	switch op {
	case OpULt:
		return a < b
	case OpULe:
		return a <= b
	case OpSLt:
		return sext(a, w) < sext(b, w)
	case OpSLe:
		return sext(a, w) <= sext(b, w)
	}
	panic("evalCmp")
}

func fval(w uint8, b uint64) float64 {
	if w == 32 {
		return float64(math.Float32frombits(uint32(b)))
	}
	return math.Float64frombits(b)
}

func evalFCmp(op Op, w uint8, a, b uint64) bool {
	x, y := fval(w, a), fval(w, b)
	switch op {
	case OpFLt:
		return x < y
	case OpFLe:
		return x <= y
	case OpFEq:
		return x == y
	}
	panic("evalFCmp")
}

func isNaNBits(w uint8, b uint64) bool {
	f := fval(w, b)
	return f != f
}

// FCmp: op one of OpFLt OpFLe OpFEq.
func (c *Ctx) FCmp(op Op, a, b *Term) *Term {
	if a.Op == OpConst && b.Op == OpConst {
		return c.Bool(evalFCmp(op, a.W, a.C, b.C))
	}
	if a.Op == OpConst && isNaNBits(a.W, a.C) || b.Op == OpConst && isNaNBits(b.W, b.C) {
		return c.False
	}
	if a == b && op == OpFLt {
		return c.False
	}
	if a == b && op == OpFLe {
		return c.FCmp(OpFEq, a, a)
	}
	if op == OpFEq {
		if a == b && (a.Op == OpS64toF64 || a.Op == OpU64toF64) {
			return c.True
		}
		if a == b && a.Op == OpF32to64 {
			return c.FCmp(OpFEq, a.A[0], a.A[0])
		}
		if a == b && a.Op == OpIte {
			return c.Ite(a.A[0], c.FCmp(op, a.A[1], a.A[1]), c.FCmp(op, a.A[2], a.A[2]))
		}
		if a.ID > b.ID {
			a, b = b, a
		}
	}
	if a.Op == OpF32to64 && b.Op == OpF32to64 {
		return c.FCmp(op, a.A[0], b.A[0])
	}
	if b.Op == OpConst && a.Op == OpIte && iteAllConst(a, 6) {
		return c.Ite(a.A[0], c.FCmp(op, a.A[1], b), c.FCmp(op, a.A[2], b))
	}
	if a.Op == OpConst && b.Op == OpIte && iteAllConst(b, 6) {
		return c.Ite(b.A[0], c.FCmp(op, a, b.A[1]), c.FCmp(op, a, b.A[2]))
	}
	return c.mk(op, 0, 0, "", a, b)
}

func (c *Ctx) IsNaN(a *Term) *Term { return c.Not(c.FCmp(OpFEq, a, a)) }

func (c *Ctx) FNeg(a *Term) *Term {
	return c.Bin(OpBvXor, a, c.Const(a.W, uint64(1)<<(a.W-1)))
}
func (c *Ctx) FAbs(a *Term) *Term {
	return c.Bin(OpBvAnd, a, c.Const(a.W, mask(a.W)>>1))
}

func evalFArith(op Op, w uint8, a, b uint64) uint64 {
	if w == 32 {
		x, y := math.Float32frombits(uint32(a)), math.Float32frombits(uint32(b))
		var r float32
		switch op {
		case OpFAdd:
			r = x + y
		case OpFMul:
			r = x * y
		case OpFDiv:
			r = x / y
		}
		return uint64(math.Float32bits(r))
	}
	x, y := math.Float64frombits(a), math.Float64frombits(b)
	var r float64
	switch op {
	case OpFAdd:
		r = x + y
	case OpFMul:
		r = x * y
	case OpFDiv:
		r = x / y
	}
	return math.Float64bits(r)
}

func (c *Ctx) FSub(a, b *Term) *Term { return c.FArith(OpFAdd, a, c.FNeg(b)) }

func (c *Ctx) FArith(op Op, a, b *Term) *Term {
	if a.Op == OpConst && b.Op == OpConst {
		return c.Const(a.W, evalFArith(op, a.W, a.C, b.C))
	}
	one := uint64(0x3ff0000000000000)
	negz := uint64(1) << 63
	if a.W == 32 {
		one = 0x3f800000
		negz = 1 << 31
	}
	if (a.Op == OpIte || a.Op == OpConst) && (b.Op == OpIte || b.Op == OpConst) {
		if na := constLeaves(a, 256); na > 0 {
			if nb := constLeaves(b, 256); nb > 0 && na*nb <= 256 {
				return c.liftArith(op, a, b)
			}
		}
	}
	if op == OpFAdd || op == OpFMul {
		if a.Op == OpConst || b.Op != OpConst && a.ID > b.ID {
			a, b = b, a
		}
	}
	if b.Op == OpConst {
		switch {
		case (op == OpFMul || op == OpFDiv) && b.C == one:
			return a
		case op == OpFAdd && b.C == negz:
			return a
		case op == OpFAdd && b.C == 0:
			// x + (+0) = x except -0 -> +0
			return c.Ite(c.Eq(a, c.Const(a.W, negz)), b, a)
		}
	}
	return c.mk(op, a.W, 0, "", a, b)
}

// constLeaves counts the leaves of an ite tree over constants; 0 if it is
// something else or has more than max leaves.
func constLeaves(t *Term, max int) int {
	if t.Op == OpConst {
		return 1
	}
	if t.Op != OpIte || max < 2 {
		return 0
	}
	l := constLeaves(t.A[1], max-1)
	if l == 0 {
		return 0
	}
	r := constLeaves(t.A[2], max-l)
	if r == 0 {
		return 0
	}
	return l + r
}

// liftArith computes the operation leaf by leaf (exactly).
func (c *Ctx) liftArith(op Op, a, b *Term) *Term {
	if a.Op == OpIte {
		return c.Ite(a.A[0], c.liftArith(op, a.A[1], b), c.liftArith(op, a.A[2], b))
	}
	if b.Op == OpIte {
		return c.Ite(b.A[0], c.liftArith(op, a, b.A[1]), c.liftArith(op, a, b.A[2]))
	}
	return c.Const(a.W, evalFArith(op, a.W, a.C, b.C))
}

func (c *Ctx) FSqrt(a *Term) *Term {
	if a.Op == OpConst && a.W == 64 {
		return c.F64(math.Sqrt(math.Float64frombits(a.C)))
	}
	return c.mk(OpFSqrt, a.W, 0, "", a)
}

func (c *Ctx) FRound(mode uint64, a *Term) *Term {
	if a.Op == OpConst {
		return c.Const(64, evalRound(mode, a.C))
	}
	if a.Op == OpS64toF64 || a.Op == OpU64toF64 {
		return a
	}
	return c.mk(OpFRound, 64, mode, "", a)
}

func evalRound(mode, v uint64) uint64 {
	x := math.Float64frombits(v)
	switch mode {
	case 0:
		x = math.Ceil(x)
	case 1:
		x = math.Floor(x)
	case 2:
		x = math.Trunc(x)
	default:
		x = math.RoundToEven(x)
	}
	return math.Float64bits(x)
}

// Conv: exact conversions. Out of range float->int follows amd64 (CVTTSD2SQ/SL).
func evalConv(op Op, v uint64) uint64 {
	switch op {
	case OpF32to64:
		return math.Float64bits(float64(math.Float32frombits(uint32(v))))
	case OpF64to32:
		return uint64(math.Float32bits(float32(math.Float64frombits(v))))
	case OpF64toS64:
		f := math.Float64frombits(v)
		if f >= -9223372036854775808.0 && f < 9223372036854775808.0 {
			return uint64(int64(f))
		}
		return 1 << 63
	case OpF64toS32:
		f := math.Float64frombits(v)
		if f > -2147483649.0 && f < 2147483648.0 {
			return uint64(uint32(int32(int64(f))))
		}
		return 1 << 31
	case OpS64toF64:
		return math.Float64bits(float64(int64(v)))
	case OpU64toF64:
		return math.Float64bits(float64(v))
	}
	panic("evalConv")
}

func convW(op Op) uint8 {
	switch op {
	case OpF64to32, OpF64toS32:
		return 32
	}
	return 64
}

func (c *Ctx) Conv(op Op, a *Term) *Term {
	w := convW(op)
	if a.Op == OpConst {
		return c.Const(w, evalConv(op, a.C))
	}
	if a.Op == OpIte {
		// push conversions inwards: keeps int->float->int round trips visible
		return c.Ite(a.A[0], c.Conv(op, a.A[1]), c.Conv(op, a.A[2]))
	}
	switch op {
	case OpF64toS64:
		if a.Op == OpS64toF64 && smallInt(a.A[0]) {
			return a.A[0]
		}
		if a.Op == OpU64toF64 && smallInt(a.A[0]) && c.nonNeg(a.A[0]) {
			return a.A[0]
		}
	case OpF64toS32:
		if (a.Op == OpS64toF64 || a.Op == OpU64toF64) && smallInt(a.A[0]) {
			in := a.A[0]
			if in.Op == OpSExt && in.A[0].W <= 32 {
				return c.SExt(in.A[0], 32)
			}
			if in.Op == OpZExt && in.A[0].W < 32 {
				return c.ZExt(in.A[0], 32)
			}
			if in.Op == OpZExt && in.A[0].W == 32 {
				// out of range above 2^31-1 gives 0x80000000
				x := in.A[0]
				return c.Ite(c.Cmp(OpSLt, x, c.Const(32, 0)), c.Const(32, 1<<31), x)
			}
		}
	case OpF64to32:
		if a.Op == OpF32to64 {
			// exact up to NaN quieting
			return a.A[0]
		}
	case OpU64toF64:
		if c.nonNeg(a) {
			return c.Conv(OpS64toF64, a)
		}
	}
	return c.mk(op, w, 0, "", a)
}

// smallInt: |value| < 2^53 syntactically.
func smallInt(a *Term) bool {
	switch a.Op {
	case OpZExt, OpSExt:
		return a.A[0].W <= 52
	case OpConst:
		v := int64(a.C)
		return v > -(1<<53) && v < 1<<53
	}
	return false
}

// Fn builds a named uninterpreted application of result width w.
func (c *Ctx) Fn(name string, w uint8, args ...*Term) *Term {
	all := true
	for _, a := range args {
		if a.Op != OpConst {
			all = false
		}
	}
	if all && c.Fun != nil {
		vs := make([]uint64, len(args))
		for i, a := range args {
			vs[i] = a.C
		}
		if v, ok := c.Fun(name, vs); ok {
			return c.Const(w, v)
		}
	}
	return c.mk(OpFun, w, 0, name, args...)
}

// String writes the term out (debugging).
func (t *Term) String() string { return t.str(12) }

func (t *Term) str(d int) string {
	switch t.Op {
	case OpConst:
		return fmt.Sprintf("%#x", t.C)
	case OpVar:
		return t.Name
	}
	if d == 0 {
		return "..."
	}
	s := "(" + opNames[t.Op]
	if t.Op == OpFun {
		s += ":" + t.Name
	}
	if t.Op == OpExtract || t.Op == OpZExt || t.Op == OpSExt {
		s += fmt.Sprintf(":%d/%d", t.W, t.C)
	}
	for _, a := range t.A {
		s += " " + a.str(d-1)
	}
	return s + ")"
}

// Rebuild is t with other arguments.
func (c *Ctx) Rebuild(t *Term, a []*Term) *Term {
	switch t.Op {
	case OpNot:
		return c.Not(a[0])
	case OpAnd:
		return c.And(a[0], a[1])
	case OpOr:
		return c.Or(a[0], a[1])
	case OpIte:
		return c.Ite(a[0], a[1], a[2])
	case OpEq:
		return c.Eq(a[0], a[1])
	case OpBvAdd, OpBvSub, OpBvMul, OpBvUDiv, OpBvSDiv, OpBvURem, OpBvSRem, OpBvAnd, OpBvOr, OpBvXor, OpBvShl, OpBvLShr, OpBvAShr:
		return c.Bin(t.Op, a[0], a[1])
	case OpBvNot:
		return c.BvNot(a[0])
	case OpConcat:
		return c.Concat(a[0], a[1])
	case OpExtract:
		return c.Extract(a[0], ehi(t), elo(t))
	case OpZExt:
		return c.ZExt(a[0], t.W)
	case OpSExt:
		return c.SExt(a[0], t.W)
	case OpULt, OpULe, OpSLt, OpSLe:
		return c.Cmp(t.Op, a[0], a[1])
	case OpFLt, OpFLe, OpFEq:
		return c.FCmp(t.Op, a[0], a[1])
	case OpFAdd, OpFMul, OpFDiv:
		return c.FArith(t.Op, a[0], a[1])
	case OpFSqrt:
		return c.FSqrt(a[0])
	case OpF32to64, OpF64to32, OpF64toS64, OpF64toS32, OpS64toF64, OpU64toF64:
		return c.Conv(t.Op, a[0])
	case OpFRound:
		return c.FRound(t.C, a[0])
	case OpFun:
		return c.Fn(t.Name, t.W, a...)
	}
	panic("rebuild: op")
}
