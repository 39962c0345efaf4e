package exec

import (
	"go/types"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"

	"gosym/smt"
)

// Calls of functions without side effects are executed along all their local
// paths and the results are merged into one term (if-then-else over the
// branch conditions), so that they do not multiply the paths of the caller.

type pureAbort struct{}

type pureCtx struct {
	prefix []bool
	dec    []bool
	conds  []*smt.Term
	added  []*smt.Term
	forced int
}

const maxPurePaths = 400

const modPrefix = "github.com/dmitryikh/leaves"

var pureDepth = 12

func (w *W) worthPure(p *fn, args []Value) bool {
	if w.nopure || w.npure >= pureDepth {
		return false
	}
	if p.pure == 0 {
		p.pure = 2
		if w.staticPure(p.f, map[*ssa.Function]bool{}) {
			p.pure = 1
		}
	}
	if p.pure != 1 {
		return false
	}
	n := 0
	for _, a := range args {
		if w.hasSym(a, &n, 0) {
			return true
		}
	}
	return false
}

// hasSym looks for symbolic content reachable from v (bounded).
func (w *W) hasSym(v Value, n *int, depth int) bool {
	*n++
	if *n > 2000 || depth > 6 {
		return true
	}
	switch x := v.(type) {
	case *smt.Term:
		return x.Op != smt.OpConst
	case *Str:
		return x.B != nil
	case *Value:
		return x != nil && w.hasSym(*x, n, depth+1)
	case guardedPtr:
		return true
	case Struct:
		for _, e := range x {
			if w.hasSym(e, n, depth+1) {
				return true
			}
		}
	case Array:
		for _, e := range x {
			if w.hasSym(e, n, depth+1) {
				return true
			}
		}
	case []Value:
		for _, e := range x {
			if w.hasSym(e, n, depth+1) {
				return true
			}
		}
	case Iface:
		return x.T != nil && w.hasSym(x.V, n, depth+1)
	}
	return false
}

func scalarType(t types.Type) bool {
	switch typeInfo(t).k {
	case kBool, kInt, kUint, kFloat:
		return true
	}
	return false
}

func (w *W) staticPure(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return false // recursion
	}
	seen[f] = true
	defer delete(seen, f)
	if f.Pkg == nil || len(f.Blocks) == 0 || len(f.FreeVars) > 0 {
		return false
	}
	if !strings.HasPrefix(f.Pkg.Pkg.Path(), modPrefix) {
		return false
	}
	res := f.Signature.Results()
	if res.Len() == 0 {
		return false
	}
	for i := 0; i < res.Len(); i++ {
		if !scalarType(res.At(i).Type()) {
			return false
		}
	}
	return w.pureBody(f, seen)
}

var pureIntr = map[string]bool{
	"math.IsNaN": true, "math.IsInf": true, "math.Abs": true, "math.Float64bits": true, "math.Float64frombits": true,
	"math.Float32bits": true, "math.Float32frombits": true, "math.Exp": true, "math.Floor": true, "math.Ceil": true,
	"math.Max": true, "math.Min": true, "math.NaN": true, "math.Inf": true, "math.Signbit": true, "math.Trunc": true,
	"math/bits.OnesCount32": true, "math/bits.TrailingZeros32": true, "math.Sqrt": true,
}

func (w *W) pureBody(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.BinOp, *ssa.FieldAddr, *ssa.Field, *ssa.IndexAddr, *ssa.Index, *ssa.Convert, *ssa.ChangeType,
				*ssa.Phi, *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Panic, *ssa.Extract, *ssa.Alloc, *ssa.Slice, *ssa.DebugRef:
			case *ssa.MakeInterface:
			case *ssa.UnOp:
				if x.Op.String() == "<-" {
					return false
				}
			case *ssa.Store:
				if !localAddr(x.Addr) {
					return false
				}
			case *ssa.Call:
				c := x.Common()
				if bi, ok := c.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "len", "cap", "min", "max", "ssa:wrapnilchk":
						continue
					}
					return false
				}
				g := c.StaticCallee()
				if g == nil {
					return false
				}
				if pureIntr[g.String()] {
					continue
				}
				if !w.staticPure(g, seen) {
					return false
				}
			default:
				return false
			}
		}
	}
	return true
}

func localAddr(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Alloc:
		return !x.Heap
	case *ssa.FieldAddr:
		return localAddr(x.X)
	case *ssa.IndexAddr:
		return localAddr(x.X)
	}
	return false
}

func (w *W) pureBranch(cond *smt.Term) bool {
	c := w.pures[len(w.pures)-1]
	k := len(c.dec)
	v := true
	if k < len(c.prefix) {
		v = c.prefix[k]
	}
	c.dec = append(c.dec, v)
	c.conds = append(c.conds, cond)
	lc := cond
	if !v {
		lc = w.ctx.Not(cond)
	}
	w.pureLearn(c, lc)
	return v
}

func (w *W) pureLearn(c *pureCtx, t *smt.Term) {
	put := func(t *smt.Term, v bool) {
		if _, ok := w.known[t]; !ok {
			w.known[t] = v
			c.added = append(c.added, t)
		}
	}
	put(t, true)
	put(w.ctx.Not(t), false)
	switch t.Op {
	case smt.OpAnd:
		w.pureLearn(c, t.A[0])
		w.pureLearn(c, t.A[1])
	case smt.OpNot:
		if o := t.A[0]; o.Op == smt.OpOr {
			w.pureLearn(c, w.ctx.Not(o.A[0]))
			w.pureLearn(c, w.ctx.Not(o.A[1]))
		}
	}
}

type pureRes struct {
	dec   []bool
	conds []*smt.Term
	res   Value
	panic bool
}

// callPure returns ok=false if the call has to be executed in line.
func (w *W) callPure(p *fn, args []Value) (Value, bool) {
	var all []pureRes
	prefix := []bool{}
	w.npure++
	w.purel++
	nst := len(w.stores)
	depth := w.depth
	lim, st0 := w.limit, w.steps
	ok := true
	for {
		c := &pureCtx{prefix: prefix}
		w.pures = append(w.pures, c)
		w.limit = lim
		sp := w.spec
		res, pan, ab := w.pureRun(p, args)
		w.spec = sp
		w.pures = w.pures[:len(w.pures)-1]
		for _, t := range c.added {
			delete(w.known, t)
		}
		w.rollback(nst)
		w.depth = depth
		if ab || len(all) >= maxPurePaths || w.steps-st0 > 400000 {
			ok = false
			break
		}
		all = append(all, pureRes{append([]bool{}, c.dec...), append([]*smt.Term{}, c.conds...), res, pan})
		// next prefix
		k := len(c.dec) - 1
		for k >= 0 && !c.dec[k] {
			k--
		}
		if k < 0 {
			break
		}
		prefix = append(append([]bool{}, c.dec[:k]...), false)
		if len(all)%64 == 0 && time.Now().After(w.e.Cfg.Deadline) {
			w.purel--
			w.npure--
			w.end("stopped", "")
		}
	}
	w.purel--
	w.npure--
	w.limit = lim
	if !ok {
		return nil, false
	}
	if len(all) == 1 && !all[0].panic {
		return all[0].res, true
	}
	pc := w.mergePanic(all, 0)
	if !pc.IsFalse() {
		if w.branch(pc) {
			return nil, false // rerun in line to raise the panic
		}
	}
	v := w.mergeRes(all, 0)
	if v == nil {
		return nil, false
	}
	w.h.st.Merged++
	return v, true
}

func (w *W) pureRun(p *fn, args []Value) (res Value, pan, ab bool) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case *goPanic:
				pan = true
			case pureAbort, unsupportedErr:
				ab = true
			case pathEnd:
				if x := r.(pathEnd); x.kind != "limit" && x.kind != "alloc" {
					panic(r)
				}
				ab = true
			default:
				panic(r)
			}
		}
	}()
	if l := w.steps + 200000; l < w.limit {
		w.limit = l
	}
	res = w.runFrame(p, args, nil, nil)
	return
}

// split of a result list at decision k: all share the first k decisions.
func splitAt(l []pureRes, k int) (t, f []pureRes) {
	for _, r := range l {
		if r.dec[k] {
			t = append(t, r)
		} else {
			f = append(f, r)
		}
	}
	return
}

func (w *W) mergePanic(l []pureRes, k int) *smt.Term {
	if len(l) == 0 {
		return w.ctx.False
	}
	if len(l) == 1 && len(l[0].dec) == k {
		return w.ctx.Bool(l[0].panic)
	}
	any := false
	for _, r := range l {
		any = any || r.panic
	}
	if !any {
		return w.ctx.False
	}
	t, f := splitAt(l, k)
	return w.ctx.Ite(l[0].conds[k], w.mergePanic(t, k+1), w.mergePanic(f, k+1))
}

// mergeRes returns nil if all paths panic.
func (w *W) mergeRes(l []pureRes, k int) Value {
	if len(l) == 0 {
		return nil
	}
	if len(l) == 1 && len(l[0].dec) == k {
		if l[0].panic {
			return nil
		}
		return l[0].res
	}
	t, f := splitAt(l, k)
	a, b := w.mergeRes(t, k+1), w.mergeRes(f, k+1)
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	c := l[0].conds[k]
	if x, ok := a.(*smt.Term); ok {
		return w.ctx.Ite(c, x, b.(*smt.Term))
	}
	x, y := a.(Tuple), b.(Tuple)
	r := make(Tuple, len(x))
	for i := range x {
		r[i] = w.ctx.Ite(c, x[i].(*smt.Term), y[i].(*smt.Term))
	}
	return r
}

// ---------- lemmas about abstract float operations ----------

// lemmasFor instantiates true facts about the float operations occurring in
// the given terms (IEEE-754 round to nearest; exp: monotone, range and the
// documented overflow and underflow thresholds).
func (w *W) lemmasFor(goal []*smt.Term) []*smt.Term {
	c := w.ctx
	var out []*smt.Term
	add := func(t *smt.Term) { out = append(out, t) }
	imp := func(a, b *smt.Term) *smt.Term { return c.Or(c.Not(a), b) }
	zero, one := c.F64(0), c.F64(1)
	inf := c.Const(64, 0x7ff0000000000000)
	ninf := c.Const(64, 0xfff0000000000000)
	nan := func(t *smt.Term) *smt.Term { return c.IsNaN(t) }
	le := func(a, b *smt.Term) *smt.Term { return c.FCmp(smt.OpFLe, a, b) }
	lt := func(a, b *smt.Term) *smt.Term { return c.FCmp(smt.OpFLt, a, b) }
	var exps, adds, divs, muls []*smt.Term
	smt.Subterms(goal, func(t *smt.Term) {
		if t.W != 64 {
			return
		}
		switch t.Op {
		case smt.OpFun:
			if t.Name == "exp" {
				exps = append(exps, t)
			}
		case smt.OpFAdd:
			adds = append(adds, t)
		case smt.OpFDiv:
			divs = append(divs, t)
		case smt.OpFMul:
			muls = append(muls, t)
		}
	})
	if len(exps) > 24 || len(adds) > 64 || len(divs) > 24 || len(muls) > 24 {
		return nil
	}
	for i, e := range exps {
		x := e.A[0]
		add(c.Eq(nan(e), nan(x)))
		add(imp(c.Not(nan(x)), le(zero, e)))
		add(imp(le(c.F64(709.79), x), c.Eq(e, inf)))
		add(imp(le(x, c.F64(709.78)), lt(e, inf)))
		add(imp(le(c.F64(-745.13), x), lt(zero, e)))
		add(imp(le(x, c.F64(-745.14)), c.Eq(e, zero)))
		add(imp(le(x, zero), le(e, one)))
		add(imp(le(zero, x), le(one, e)))
		add(imp(le(x, c.F64(-36.8)), lt(e, c.F64(1.1102230246251565e-16))))
		add(imp(le(c.F64(-36.7), x), lt(c.F64(1.1102230246251568e-16), e)))
		for j := 0; j < i; j++ {
			y, f := exps[j].A[0], exps[j]
			add(imp(le(x, y), le(e, f)))
			add(imp(le(y, x), le(f, e)))
		}
	}
	isInf := func(t *smt.Term) *smt.Term { return c.Or(c.Eq(t, inf), c.Eq(t, ninf)) }
	for i, s := range adds {
		a, b := s.A[0], s.A[1]
		add(c.Eq(nan(s), c.Or(c.Or(nan(a), nan(b)), c.And(c.And(isInf(a), isInf(b)), c.Not(c.Eq(a, b))))))
		add(imp(c.And(le(zero, a), le(zero, b)), c.And(le(a, s), le(b, s))))
		add(imp(c.And(le(a, zero), le(b, zero)), c.And(le(s, a), le(s, b))))
		add(imp(c.And(le(a, zero), le(zero, b)), c.And(le(a, s), le(s, b))))
		add(imp(c.And(le(zero, a), le(b, zero)), c.And(le(b, s), le(s, a))))
		add(imp(c.And(c.Eq(a, inf), c.Not(c.Or(nan(b), c.Eq(b, ninf)))), c.Eq(s, inf)))
		add(imp(c.And(c.Eq(b, inf), c.Not(c.Or(nan(a), c.Eq(a, ninf)))), c.Eq(s, inf)))
		for k := 0; k < 6; k++ {
			u := c.F64(float64(k))
			add(imp(c.And(le(a, u), le(b, one)), le(s, c.F64(float64(k+1)))))
			add(imp(c.And(le(a, one), le(b, u)), le(s, c.F64(float64(k+1)))))
		}
		// x - y: zero exactly for equal finite values, sign otherwise
		na, nb := c.FNeg(a), c.FNeg(b)
		fin := c.And(c.Not(isInf(a)), c.Not(isInf(b)))
		add(imp(c.And(fin, c.FCmp(smt.OpFEq, a, nb)), c.FCmp(smt.OpFEq, s, zero)))
		add(imp(lt(nb, a), lt(zero, s)))
		add(imp(lt(a, nb), lt(s, zero)))
		_ = na
		// one + tiny = one
		for _, p := range [][2]*smt.Term{{a, b}, {b, a}} {
			if p[0] == one {
				add(imp(c.And(le(zero, p[1]), le(p[1], c.F64(1.1102230246251565e-16))), c.Eq(s, one)))
				add(imp(c.And(le(zero, p[1]), lt(p[1], inf)), lt(s, inf)))
			}
		}
		for j := 0; j < i; j++ {
			// monotone in a shared argument
			o := adds[j]
			for _, p := range [][2]int{{0, 0}, {0, 1}, {1, 0}, {1, 1}} {
				if s.A[p[0]] == o.A[p[1]] {
					x, y := s.A[1-p[0]], o.A[1-p[1]]
					ok := c.Not(c.Or(nan(s), nan(o)))
					add(imp(c.And(ok, le(x, y)), le(s, o)))
					add(imp(c.And(ok, le(y, x)), le(o, s)))
				}
			}
		}
	}
	for i, d := range divs {
		a, b := d.A[0], d.A[1]
		add(imp(c.And(c.And(le(zero, a), lt(a, inf)), c.And(lt(zero, b), le(b, inf))), c.And(le(zero, d), c.Not(nan(d)))))
		add(imp(c.And(c.And(le(zero, a), le(a, b)), c.And(lt(zero, b), lt(a, inf))), c.And(le(d, one), le(zero, d))))
		add(imp(c.And(lt(zero, b), c.And(le(b, a), lt(a, inf))), le(one, d)))
		add(imp(c.And(c.And(le(one, a), lt(a, inf)), c.And(lt(zero, b), le(b, c.F64(8)))), le(c.F64(0.125), d)))
		add(imp(c.And(c.Eq(a, b), c.And(lt(zero, b), lt(b, inf))), c.Eq(d, one)))
		add(imp(c.And(c.Eq(b, inf), c.And(le(zero, a), lt(a, inf))), c.FCmp(smt.OpFEq, d, zero)))
		add(imp(c.And(c.FCmp(smt.OpFEq, a, zero), c.And(lt(zero, b), c.Not(nan(b)))), c.FCmp(smt.OpFEq, d, zero)))
		for j := 0; j < i; j++ {
			o := divs[j]
			if o.A[0] == a {
				p := c.And(le(zero, a), c.And(lt(zero, b), lt(zero, o.A[1])))
				p = c.And(p, c.And(lt(a, inf), c.Not(c.Or(nan(b), nan(o.A[1])))))
				add(imp(c.And(p, le(b, o.A[1])), le(o, d)))
				add(imp(c.And(p, le(o.A[1], b)), le(d, o)))
			}
			if o.A[1] == b {
				p := c.And(lt(zero, b), lt(b, inf))
				add(imp(c.And(p, le(a, o.A[0])), le(d, o)))
				add(imp(c.And(p, le(o.A[0], a)), le(o, d)))
			}
		}
	}
	for i, m := range muls {
		a, b := m.A[0], m.A[1]
		add(imp(c.And(c.And(le(zero, a), lt(a, inf)), c.And(le(zero, b), lt(b, inf))), c.And(le(zero, m), c.Not(nan(m)))))
		add(imp(c.And(c.And(le(zero, a), le(a, one)), c.And(le(zero, b), lt(b, inf))), le(m, b)))
		add(imp(c.And(c.And(le(zero, b), le(b, one)), c.And(le(zero, a), lt(a, inf))), le(m, a)))
		add(imp(c.Or(nan(a), nan(b)), nan(m)))
		add(imp(c.And(le(one, a), c.And(le(zero, b), lt(b, inf))), le(b, m)))
		add(imp(c.And(le(one, b), c.And(le(zero, a), lt(a, inf))), le(a, m)))
		for j := 0; j < i; j++ {
			o := muls[j]
			for _, p := range [][2]int{{0, 0}, {0, 1}, {1, 0}, {1, 1}} {
				if m.A[p[0]] == o.A[p[1]] {
					k, x, y := m.A[p[0]], m.A[1-p[0]], o.A[1-p[1]]
					ok := c.And(c.And(le(zero, k), lt(k, inf)), c.And(c.Not(isInf(x)), c.Not(isInf(y))))
					add(imp(c.And(ok, le(x, y)), le(m, o)))
					add(imp(c.And(ok, le(y, x)), le(o, m)))
				}
			}
		}
	}
	return out
}
