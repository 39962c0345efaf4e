package exec

import (
	"go/token"

	"golang.org/x/tools/go/ssa"

	"gosym/smt"
)

// If-conversion: an if statement whose arms only compute scalars (chains of &&
// and ||, conditional assignments) is executed without forking the path.

type ifcInfo struct {
	done bool
	join int // -1: not convertible
}

type specAbort struct{}

func (p *fn) ifc(b int) int {
	blk := &p.blocks[b]
	if blk.ifc.done {
		return blk.ifc.join
	}
	blk.ifc.done = true
	blk.ifc.join = -1
	n := 0
	join := -1
	ok := true
	seen := map[int]bool{b: true}
	var visit func(s int)
	visit = func(s int) {
		if !ok {
			return
		}
		if n < 12 && !seen[s] && p.inner(s) {
			seen[s] = true
			n++
			for _, t := range p.blocks[s].succs {
				visit(t)
			}
			return
		}
		if join == -1 {
			join = s
		}
		if join != s {
			ok = false
		}
	}
	su := blk.succs
	if su[0] == su[1] {
		return -1
	}
	visit(su[0])
	visit(su[1])
	if !ok || join < 0 || seen[join] {
		return -1
	}
	// each predecessor occurs once
	cnt := map[int]int{}
	for _, q := range p.blocks[join].preds {
		cnt[q]++
		if cnt[q] > 1 {
			return -1
		}
	}
	blk.ifc.join = join
	return join
}

// inner: a block that may be executed speculatively.
func (p *fn) inner(b int) bool {
	blk := &p.blocks[b]
	if len(blk.preds) != 1 || len(blk.phis) > 0 || len(blk.succs) == 0 || len(blk.ins) > 40 {
		return false
	}
	for i := range blk.ins {
		switch x := blk.ins[i].i.(type) {
		case *ssa.Jump, *ssa.If, *ssa.FieldAddr, *ssa.Field, *ssa.IndexAddr, *ssa.Index, *ssa.ChangeType, *ssa.Extract:
		case *ssa.Convert:
			if !scalarType(x.Type()) || !scalarType(x.X.Type()) {
				return false
			}
		case *ssa.UnOp:
			if x.Op == token.ARROW {
				return false
			}
		case *ssa.BinOp:
			if !scalarType(x.X.Type()) {
				return false
			}
		case *ssa.Call:
			c := x.Common()
			if bi, ok := c.Value.(*ssa.Builtin); ok {
				switch bi.Name() {
				case "len", "cap", "min", "max":
					continue
				}
				return false
			}
			g := c.StaticCallee()
			if g == nil || !pureIntr[g.String()] && g.String() != VF+"Same" && g.String() != VF+"SameBits" {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// convertIf executes the if of block b in fr without forking; ok is false if
// the ordinary way has to be taken.
func (w *W) convertIf(fr *frame, b int, cond *smt.Term) (join int, vals []Value, ok bool) {
	if cond.Op == smt.OpConst || len(w.gs) > 1 || w.spec > 4 {
		return 0, nil, false
	}
	if _, k := w.known[cond]; k {
		return 0, nil, false
	}
	join = fr.f.ifc(b)
	if join < 0 {
		return 0, nil, false
	}
	w.spec++
	defer func() {
		w.spec--
		if r := recover(); r != nil {
			switch r.(type) {
			case specAbort, *goPanic, unsupportedErr:
				ok = false
			default:
				panic(r)
			}
		}
	}()
	su := fr.f.blocks[b].succs
	x := w.region(fr, b, su[0], join)
	y := w.region(fr, b, su[1], join)
	vals, ok = w.mergeVals(cond, x, y)
	if ok && w.h != nil {
		w.nifc++
	}
	return join, vals, ok
}

func (w *W) region(fr *frame, pred, s, join int) []Value {
	p := fr.f
	if s == join {
		blk := &p.blocks[s]
		k := 0
		for i, q := range blk.preds {
			if q == pred {
				k = i
			}
		}
		vals := make([]Value, len(blk.phis))
		for i := range blk.phis {
			vals[i] = w.get(fr, &blk.phis[i].op[k])
		}
		return vals
	}
	blk := &p.blocks[s]
	for i := range blk.ins {
		in := &blk.ins[i]
		w.steps++
		switch in.i.(type) {
		case *ssa.Jump:
			return w.region(fr, s, blk.succs[0], join)
		case *ssa.If:
			c := w.get(fr, &in.op[0]).(*smt.Term)
			if v, ok := w.known[c]; ok {
				c = w.ctx.Bool(v)
			}
			if c.Op == smt.OpConst {
				if c.C == 1 {
					return w.region(fr, s, blk.succs[0], join)
				}
				return w.region(fr, s, blk.succs[1], join)
			}
			x := w.region(fr, s, blk.succs[0], join)
			y := w.region(fr, s, blk.succs[1], join)
			v, ok := w.mergeVals(c, x, y)
			if !ok {
				panic(specAbort{})
			}
			return v
		case *ssa.Call:
			fv := w.get(fr, &in.op[0])
			args := make([]Value, len(in.op)-1)
			for k := range args {
				args[k] = w.get(fr, &in.op[k+1])
			}
			if in.call.static != nil {
				fr.env[in.dst] = w.callFn(in.call.static, args, fr)
			} else {
				fr.env[in.dst] = w.doCall(fr, in.call, fv, args)
			}
		default:
			fr.env[in.dst] = w.evalIns(fr, in)
		}
	}
	panic(specAbort{})
}

func (w *W) mergeVals(c *smt.Term, x, y []Value) ([]Value, bool) {
	r := make([]Value, len(x))
	for i := range x {
		switch a := x[i].(type) {
		case *smt.Term:
			b, ok := y[i].(*smt.Term)
			if !ok {
				return nil, false
			}
			r[i] = w.ctx.Ite(c, a, b)
		case *Value:
			b, ok := y[i].(*Value)
			if !ok || a != b {
				return nil, false
			}
			r[i] = a
		case *Str:
			b, ok := y[i].(*Str)
			if !ok || a != b && (a.B != nil || b.B != nil || a.S != b.S) {
				return nil, false
			}
			r[i] = a
		case Iface:
			b, ok := y[i].(Iface)
			if !ok || a.T != nil || b.T != nil {
				return nil, false
			}
			r[i] = a
		default:
			return nil, false
		}
	}
	return r, true
}
