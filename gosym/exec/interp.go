package exec

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"

	"gosym/smt"
)

// fn is a prepared function.
type fn struct {
	f       *ssa.Function
	nreg    int
	blocks  []block
	params  []int
	free    []int
	recover int // recover block index or -1
	intr    intrinsic
	native  interface{}
	pure    int8 // 0 unknown, 1 yes, 2 no
	skip    bool
	blocked bool
}

type block struct {
	phis  []ins
	ins   []ins
	preds []int
	succs []int
	ifc   ifcInfo
}

type opnd struct {
	reg int // >= 0
	val Value
	g   *ssa.Global
}

type ins struct {
	i    ssa.Instruction
	op   []opnd
	dst  int
	ti   tinfo
	ti2  tinfo
	call *callInfo
}

type callInfo struct {
	static  *ssa.Function
	builtin string
	invoke  bool
	method  *types.Func
	nargs   int
	retT    types.Type
	argT    []types.Type
}

type intrinsic func(w *W, fr *frame, args []Value) Value

type deferred struct {
	fnv  Value
	args []Value
	ci   *callInfo
	in   *ins
}

type frame struct {
	f         *fn
	env       []Value
	defers    []deferred
	panicking *goPanic
	recovered bool
	caller    *frame
	result    Value
	g         *G
}

func (w *W) prep(f *ssa.Function) *fn {
	if p, ok := w.fns[f]; ok {
		return p
	}
	p := &fn{f: f, recover: -1}
	w.fns[f] = p
	name := f.String()
	if f.Origin() != nil {
		name = f.Origin().String()
	}
	if in, ok := intrinsics[name]; ok {
		p.intr = in
	}
	if nf, ok := natives[name]; ok {
		p.native = nf
	}
	if f.Pkg != nil && blocked[f.Pkg.Pkg.Path()] && f.Synthetic == "" && !strings.HasPrefix(f.String(), "sync.OnceFunc") {
		p.blocked = true
	}
	if f.Synthetic == "package initializer" {
		p.skip = true
	}
	if len(f.Blocks) == 0 {
		return p
	}
	regs := map[ssa.Value]int{}
	n := 0
	reg := func(v ssa.Value) int {
		r := n
		regs[v] = r
		n++
		return r
	}
	for _, x := range f.Params {
		p.params = append(p.params, reg(x))
	}
	for _, x := range f.FreeVars {
		p.free = append(p.free, reg(x))
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				reg(v)
			}
		}
	}
	p.nreg = n
	operand := func(v ssa.Value) opnd {
		if v == nil {
			return opnd{reg: -1}
		}
		switch x := v.(type) {
		case *ssa.Const:
			return opnd{reg: -1, val: w.constVal(x)}
		case *ssa.Global:
			return opnd{reg: -1, g: x}
		case *ssa.Function:
			return opnd{reg: -1, val: x}
		case *ssa.Builtin:
			return opnd{reg: -1, val: x}
		}
		r, ok := regs[v]
		if !ok {
			panic(fmt.Sprintf("no register for %v in %s", v, f))
		}
		return opnd{reg: r}
	}
	p.blocks = make([]block, len(f.Blocks))
	for bi, b := range f.Blocks {
		blk := &p.blocks[bi]
		for _, s := range b.Succs {
			blk.succs = append(blk.succs, s.Index)
		}
		for _, s := range b.Preds {
			blk.preds = append(blk.preds, s.Index)
		}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			x := ins{i: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				x.dst = regs[v]
				x.ti = typeInfo(v.Type())
			}
			switch y := in.(type) {
			case *ssa.Phi:
				for _, e := range y.Edges {
					x.op = append(x.op, operand(e))
				}
				blk.phis = append(blk.phis, x)
				continue
			case ssa.CallInstruction:
				x.call, x.op = w.prepCall(y.Common(), operand)
			case *ssa.BinOp:
				x.op = []opnd{operand(y.X), operand(y.Y)}
				x.ti = typeInfo(y.X.Type())
				x.ti2 = typeInfo(y.Y.Type())
			case *ssa.UnOp:
				x.op = []opnd{operand(y.X)}
				x.ti2 = typeInfo(y.X.Type())
			case *ssa.Convert:
				x.op = []opnd{operand(y.X)}
				x.ti2 = typeInfo(y.X.Type())
			case *ssa.IndexAddr:
				x.op = []opnd{operand(y.X), operand(y.Index)}
				x.ti2 = typeInfo(y.Index.Type())
			case *ssa.Index:
				x.op = []opnd{operand(y.X), operand(y.Index)}
				x.ti2 = typeInfo(y.Index.Type())
			case *ssa.Lookup:
				x.op = []opnd{operand(y.X), operand(y.Index)}
				x.ti2 = typeInfo(y.Index.Type())
			case *ssa.MapUpdate:
				x.op = []opnd{operand(y.Map), operand(y.Key), operand(y.Value)}
				x.ti2 = typeInfo(y.Key.Type())
			case *ssa.Slice:
				x.op = []opnd{operand(y.X), operand(y.Low), operand(y.High), operand(y.Max)}
				if y.Low == nil {
					x.op[1].val = nil
				}
			default:
				var buf [10]*ssa.Value
				for _, o := range in.Operands(buf[:0]) {
					x.op = append(x.op, operand(*o))
				}
			}
			blk.ins = append(blk.ins, x)
		}
	}
	if f.Recover != nil {
		p.recover = f.Recover.Index
	}
	return p
}

func (w *W) prepCall(c *ssa.CallCommon, operand func(ssa.Value) opnd) (*callInfo, []opnd) {
	ci := &callInfo{nargs: len(c.Args)}
	var ops []opnd
	ci.retT = c.Signature().Results()
	for _, a := range c.Args {
		ci.argT = append(ci.argT, a.Type())
	}
	if c.IsInvoke() {
		ci.invoke = true
		ci.method = c.Method
		ops = append(ops, operand(c.Value))
	} else if b, ok := c.Value.(*ssa.Builtin); ok {
		ci.builtin = b.Name()
		ops = append(ops, opnd{reg: -1, val: b})
	} else {
		ci.static = c.StaticCallee()
		ops = append(ops, operand(c.Value))
	}
	for _, a := range c.Args {
		ops = append(ops, operand(a))
	}
	return ci, ops
}

func (w *W) constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return w.zero(c.Type())
	}
	ti := typeInfo(c.Type())
	switch ti.k {
	case kBool:
		return w.ctx.Bool(constant.BoolVal(c.Value))
	case kInt, kUint:
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return w.ctx.Const(ti.w, uint64(i))
		}
		u, _ := constant.Uint64Val(v)
		return w.ctx.Const(ti.w, u)
	case kFloat:
		if ti.w == 32 {
			f, _ := constant.Float32Val(c.Value)
			return w.ctx.Const(32, uint64(math.Float32bits(f)))
		}
		f, _ := constant.Float64Val(c.Value)
		return w.ctx.F64(f)
	case kString:
		if c.Value.Kind() == constant.String {
			return mkStr(constant.StringVal(c.Value))
		}
		i, _ := constant.Int64Val(c.Value)
		return mkStr(string(rune(i)))
	case kIface:
		panic(unsupported("interface constant"))
	}
	return Native{Kind: "const:" + c.String()}
}

func (w *W) get(fr *frame, o *opnd) Value {
	if o.reg >= 0 {
		return fr.env[o.reg]
	}
	if o.g != nil {
		return w.global(o.g)
	}
	return o.val
}

// global returns the cell of a package variable, running the package's
// variable initialisers on first use.
func (w *W) global(g *ssa.Global) *Value {
	if c, ok := w.glob[g]; ok {
		if w.init[g.Pkg] != 0 {
			return c
		}
	}
	w.initPkg(g.Pkg)
	c, ok := w.glob[g]
	if !ok {
		c = new(Value)
		*c = w.zero(g.Type().(*types.Pointer).Elem())
		w.glob[g] = c
	}
	return c
}

func (w *W) initPkg(p *ssa.Package) {
	if w.init[p] != 0 {
		return
	}
	w.init[p] = 1
	for _, m := range p.Members {
		if g, ok := m.(*ssa.Global); ok {
			if _, ok := w.glob[g]; !ok {
				c := new(Value)
				*c = w.zero(g.Type().(*types.Pointer).Elem())
				w.glob[g] = c
			}
		}
	}
	path := p.Pkg.Path()
	if noInit[path] {
		return
	}
	f := p.Func("init")
	if f == nil || len(f.Blocks) == 0 {
		return
	}
	// initialisation is part of the fixed environment, not of the path
	lg, st, lim := w.logging, w.steps, w.limit
	pl := w.purel
	w.logging = false
	w.limit = 1 << 60
	w.purel = 0
	w.inits++ // before everything else, in whatever goroutine it happens to be needed first
	defer func() {
		w.inits--
		w.logging, w.steps, w.limit, w.purel = lg, st, lim, pl
		if r := recover(); r != nil {
			// variables whose initialisers could not run keep their zero value
			switch r.(type) {
			case unsupportedErr, *goPanic:
				if w.e.Cfg.Debug {
					fmt.Println("init of", path, "stopped:", r)
				}
			default:
				panic(r)
			}
		}
	}()
	pf := w.prep(f)
	w.runFrame(pf, nil, nil, nil)
}

var noInit = map[string]bool{
	"runtime": true, "os": true, "reflect": true, "syscall": true, "time": true, "unicode": false,
	"internal/cpu": true, "internal/bytealg": true, "encoding/json": true, "fmt": true, "internal/godebug": true,
	"internal/poll": true, "math/rand": true, "sync": true, "encoding/binary": true, "testing": true,
}

// ---------- calls ----------

// callFn calls a function value.
func (w *W) callFn(f *ssa.Function, args []Value, caller *frame) Value {
	p := w.prep(f)
	if p.skip && caller != nil {
		return nil
	}
	if p.intr != nil {
		return p.intr(w, caller, args)
	}
	if p.native != nil {
		if r, ok := w.callNative(p.native, args, f); ok {
			return r
		}
	}
	if len(p.blocks) == 0 {
		panic(unsupported("no body: " + f.String()))
	}
	if p.blocked {
		panic(unsupported("library function " + f.String()))
	}
	if w.worthPure(p, args) {
		if r, ok := w.callPure(p, args); ok {
			return r
		}
	}
	return w.runFrame(p, args, nil, caller)
}

func (w *W) callValue(fv Value, args []Value, caller *frame) Value {
	switch f := fv.(type) {
	case *ssa.Function:
		if f == nil {
			w.nilPanic()
		}
		return w.callFn(f, args, caller)
	case *Closure:
		if f == nil {
			w.nilPanic()
		}
		p := w.prep(f.Fn)
		return w.runFrame(p, args, f.Env, caller)
	case *NamedFn:
		return f.F(w, args)
	}
	panic(unsupported(fmt.Sprintf("call of %T", fv)))
}

func (w *W) findMethod(t types.Type, m *types.Func) *ssa.Function {
	k := mkey{t, m.Name(), nil}
	if !m.Exported() {
		k.pkg = m.Pkg()
	}
	if f, ok := w.mths[k]; ok {
		return f
	}
	f := w.e.Prog.LookupMethod(t, m.Pkg(), m.Name())
	w.mths[k] = f
	return f
}

// methodByName looks up an exported method of a dynamic type.
func (w *W) methodByName(t types.Type, name string) *ssa.Function {
	ms := w.e.Prog.MethodSets.MethodSet(t)
	s := ms.Lookup(nil, name)
	if s == nil {
		return nil
	}
	return w.e.Prog.MethodValue(s)
}

// invoke calls a method of an interface value by name.
func (w *W) invoke(i Iface, name string, args []Value, caller *frame) Value {
	if i.T == nil {
		w.nilPanic()
	}
	f := w.methodByName(i.T, name)
	if f == nil {
		panic(unsupported("no method " + name + " on " + i.T.String()))
	}
	return w.callFn(f, append([]Value{i.V}, args...), caller)
}

const maxDepth = 3000

func (w *W) runFrame(p *fn, args []Value, free []Value, caller *frame) (res Value) {
	if len(p.blocks) == 0 {
		if p.intr != nil {
			return p.intr(w, caller, args)
		}
		panic(unsupported("no body: " + p.f.String()))
	}
	w.depth++
	if w.depth > maxDepth {
		w.depth = 0
		w.end("limit", "call depth")
	}
	fr := &frame{f: p, env: make([]Value, p.nreg), caller: caller, g: w.cur}
	for i, r := range p.params {
		fr.env[r] = args[i]
	}
	for i, r := range p.free {
		fr.env[r] = free[i]
	}
	d := w.depth
	if p.recover >= 0 || hasDefer(p) {
		res = w.runDeferring(fr)
	} else {
		res = w.runBlocks(fr, 0)
	}
	w.depth = d - 1
	return res
}

func hasDefer(p *fn) bool {
	for i := range p.blocks {
		for j := range p.blocks[i].ins {
			if _, ok := p.blocks[i].ins[j].i.(*ssa.Defer); ok {
				return true
			}
		}
	}
	return false
}

func (w *W) runDeferring(fr *frame) (res Value) {
	d := w.depth
	gp := func() (gp *goPanic) {
		defer func() {
			if r := recover(); r != nil {
				if x, ok := r.(*goPanic); ok {
					gp = x
					return
				}
				panic(r)
			}
		}()
		res = w.runBlocks(fr, 0)
		return nil
	}()
	if gp == nil {
		return res
	}
	w.depth = d
	fr.panicking = gp
	w.runDefers(fr)
	if fr.panicking != nil {
		panic(fr.panicking)
	}
	// recovered: run the recover block to compute results
	if fr.f.recover >= 0 {
		return w.runBlocks(fr, fr.f.recover)
	}
	return w.zero(fr.f.f.Signature.Results())
}

func (w *W) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				if r := recover(); r != nil {
					if x, ok := r.(*goPanic); ok {
						fr.panicking = x
						return
					}
					panic(r)
				}
			}()
			w.doCall(fr, d.ci, d.fnv, d.args)
		}()
	}
}

func (w *W) doCall(fr *frame, ci *callInfo, fv Value, args []Value) Value {
	if ci.builtin != "" {
		return w.builtin(fr, ci, args)
	}
	if ci.invoke {
		i := fv.(Iface)
		if i.T == nil {
			w.nilPanic()
		}
		f := w.findMethod(i.T, ci.method)
		if f == nil {
			panic(unsupported("method " + ci.method.Name() + " of " + i.T.String()))
		}
		a := make([]Value, 0, len(args)+1)
		a = append(a, i.V)
		a = append(a, args...)
		return w.callFn(f, a, fr)
	}
	return w.callValue(fv, args, fr)
}

func (w *W) nilPanic() {
	w.rtPanic("invalid memory address or nil pointer dereference")
}

func (w *W) rtPanic(msg string) {
	if w.purel > 0 {
		panic(&goPanic{msg: "runtime error: " + msg, runtime: true})
	}
	panic(&goPanic{v: w.errorValue("runtime error: " + msg), msg: "runtime error: " + msg, runtime: true})
}

// runBlocks executes from block b until return.
func (w *W) runBlocks(fr *frame, b int) Value {
	prev := -1
	p := fr.f
	var phiVals []Value
	for {
		blk := &p.blocks[b]
		if phiVals != nil {
			for i := range blk.phis {
				fr.env[blk.phis[i].dst] = phiVals[i]
			}
			phiVals = nil
		} else if len(blk.phis) > 0 {
			k := -1
			for i, q := range blk.preds {
				if q == prev {
					k = i
					break
				}
			}
			if len(blk.phis) == 1 {
				fr.env[blk.phis[0].dst] = w.get(fr, &blk.phis[0].op[k])
			} else {
				var tmp [16]Value
				t := tmp[:0]
				for i := range blk.phis {
					t = append(t, w.get(fr, &blk.phis[i].op[k]))
				}
				for i := range blk.phis {
					fr.env[blk.phis[i].dst] = t[i]
				}
			}
		}
		next := -1
		for ii := range blk.ins {
			in := &blk.ins[ii]
			w.steps++
			w.curIns = in
			if w.steps > w.limit {
				w.steps = 0
				w.end("limit", "instructions")
			}
			switch x := in.i.(type) {
			case *ssa.Jump:
				next = blk.succs[0]
			case *ssa.If:
				cond := w.get(fr, &in.op[0]).(*smt.Term)
				if cond.Op != smt.OpConst {
					if j, v, ok := w.convertIf(fr, b, cond); ok {
						next = j
						if len(v) > 0 {
							phiVals = v
						}
						break
					}
				}
				if w.branch(cond) {
					next = blk.succs[0]
				} else {
					next = blk.succs[1]
				}
			case *ssa.Return:
				switch len(in.op) {
				case 0:
					return nil
				case 1:
					return w.get(fr, &in.op[0])
				}
				t := make(Tuple, len(in.op))
				for i := range in.op {
					t[i] = w.get(fr, &in.op[i])
				}
				return t
			case *ssa.Panic:
				v := w.get(fr, &in.op[0]).(Iface)
				panic(&goPanic{v: v, msg: w.describe(v)})
			case *ssa.Call:
				fv := w.get(fr, &in.op[0])
				args := make([]Value, len(in.op)-1)
				for i := range args {
					args[i] = w.get(fr, &in.op[i+1])
				}
				if in.call.static != nil {
					if c, ok := fv.(*Closure); ok {
						fr.env[in.dst] = w.callValue(c, args, fr)
					} else {
						fr.env[in.dst] = w.callFn(in.call.static, args, fr)
					}
				} else {
					fr.env[in.dst] = w.doCall(fr, in.call, fv, args)
				}
			case *ssa.Store:
				ptr := w.get(fr, &in.op[0])
				val := w.get(fr, &in.op[1])
				w.storePtr(ptr, copyVal(val))
			case *ssa.RunDefers:
				w.runDefers(fr)
				if fr.panicking != nil {
					pn := fr.panicking
					fr.panicking = nil
					panic(pn)
				}
			case *ssa.Defer:
				d := deferred{fnv: w.get(fr, &in.op[0]), ci: in.call, in: in}
				for i := 1; i < len(in.op); i++ {
					d.args = append(d.args, w.get(fr, &in.op[i]))
				}
				fr.defers = append(fr.defers, d)
			case *ssa.Go:
				fv := w.get(fr, &in.op[0])
				var args []Value
				for i := 1; i < len(in.op); i++ {
					args = append(args, w.get(fr, &in.op[i]))
				}
				w.spawn(fr, in.call, fv, args)
			case *ssa.MapUpdate:
				m := w.get(fr, &in.op[0]).(*MapV)
				w.mapSet(m, w.get(fr, &in.op[1]), copyVal(w.get(fr, &in.op[2])), in.ti2)
			case *ssa.Send:
				w.chanSend(w.get(fr, &in.op[0]).(*ChanV), copyVal(w.get(fr, &in.op[1])))
			default:
				fr.env[in.dst] = w.evalIns(fr, in)
				_ = x
			}
		}
		if next < 0 {
			panic(unsupported("block without successor in " + p.f.String()))
		}
		prev, b = b, next
	}
}

func (w *W) describe(v Iface) string {
	if v.T == nil {
		return "nil"
	}
	switch x := v.V.(type) {
	case *Str:
		if x.B == nil {
			return x.S
		}
		return "<symbolic string>"
	case *smt.Term:
		if x.Op == smt.OpConst {
			return fmt.Sprint(x.SVal())
		}
	}
	return v.T.String()
}

// ---------- memory ----------

func (w *W) load(ptr Value) Value {
	switch p := ptr.(type) {
	case *Value:
		if p == nil {
			w.nilPanic()
		}
		w.raceAccess(p, false)
		return copyVal(*p)
	case guardedPtr:
		return w.loadGuarded(p)
	case ElemPtr:
		if len(p.S) == 0 {
			w.nilPanic()
		}
		return copyVal(p.S[0])
	}
	panic(unsupported(fmt.Sprintf("load through %T", ptr)))
}

func (w *W) storePtr(ptr Value, v Value) {
	switch p := ptr.(type) {
	case *Value:
		if p == nil {
			w.nilPanic()
		}
		w.raceAccess(p, true)
		// aggregates are stored element-wise so that field pointers stay valid
		w.storeInto(p, v)
		return
	case guardedPtr:
		if nv, ok := v.(*smt.Term); ok && len(p.cells) <= 64 && len(w.gs) < 2 {
			ok = true
			for i := range p.cells {
				if _, t := (*p.cell(i)).(*smt.Term); !t {
					ok = false
					break
				}
			}
			if ok {
				for i := range p.cells {
					q := p.cell(i)
					w.raceAccess(q, true)
					c := w.ctx.Eq(p.idx, w.ctx.Const(p.idx.W, uint64(i)))
					w.store(q, w.ctx.Ite(c, nv, (*q).(*smt.Term)))
				}
				return
			}
		}
		q := p.resolve(w)
		w.raceAccess(q, true)
		w.storeInto(q, v)
		return
	}
	panic(unsupported(fmt.Sprintf("store through %T", ptr)))
}

func (w *W) storeInto(p *Value, v Value) {
	switch x := v.(type) {
	case Struct:
		if old, ok := (*p).(Struct); ok && len(old) == len(x) {
			for i := range x {
				w.storeInto(&old[i], x[i])
			}
			return
		}
	case Array:
		if old, ok := (*p).(Array); ok && len(old) == len(x) {
			for i := range x {
				w.storeInto(&old[i], x[i])
			}
			return
		}
	}
	w.store(p, v)
}

// guardedPtr is a pointer to one of several scalar cells selected by a
// symbolic index (in range).
type guardedPtr struct {
	cells []Value
	idx   *smt.Term
	path  []int // field path inside each cell
}

func (g guardedPtr) cell(i int) *Value {
	c := &g.cells[i]
	for _, f := range g.path {
		switch a := (*c).(type) {
		case Struct:
			c = &a[f]
		case Array:
			c = &a[f]
		}
	}
	return c
}

func (g guardedPtr) resolve(w *W) *Value {
	i := w.concretize(g.idx)
	return g.cell(int(i))
}

func (w *W) loadGuarded(g guardedPtr) Value {
	n := len(g.cells)
	ok := n <= 1024
	for i := 0; ok && i < n && len(w.gs) > 1; i++ {
		// which cell is accessed decides what is ordered with what
		if s := w.clk.mem[g.cell(i)]; s != nil && s.has {
			ok = false
		}
	}
	for i := 0; ok && i < n; i++ {
		if _, t := (*g.cell(i)).(*smt.Term); !t {
			ok = false
		}
	}
	if !ok {
		p := g.resolve(w)
		w.raceAccess(p, false)
		return copyVal(*p)
	}
	// most frequent value is the default
	cnt := map[*smt.Term]int{}
	var def *smt.Term
	for i := 0; i < n; i++ {
		t := (*g.cell(i)).(*smt.Term)
		cnt[t]++
		if def == nil || cnt[t] > cnt[def] {
			def = t
		}
		w.raceAccess(g.cell(i), false)
	}
	r := def
	// group equal values
	groups := map[*smt.Term]*smt.Term{}
	var order []*smt.Term
	for i := 0; i < n; i++ {
		t := (*g.cell(i)).(*smt.Term)
		if t == def {
			continue
		}
		c := w.ctx.Eq(g.idx, w.ctx.Const(g.idx.W, uint64(i)))
		if o, ok := groups[t]; ok {
			groups[t] = w.ctx.Or(o, c)
		} else {
			groups[t] = c
			order = append(order, t)
		}
	}
	for _, t := range order {
		r = w.ctx.Ite(groups[t], t, r)
	}
	return r
}

// index checks bounds and returns a concrete index or a symbolic one.
func (w *W) boundsCheck(idx *smt.Term, ti tinfo, n int) *smt.Term {
	c := w.ctx
	if idx.Op == smt.OpConst {
		var i int64
		if ti.k == kInt {
			i = idx.SVal()
		} else {
			i = int64(idx.C)
			if idx.W == 64 && i < 0 {
				i = -1
			}
		}
		if i < 0 || i >= int64(n) {
			w.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return c.Const(64, uint64(i))
	}
	x := idx
	if ti.k == kInt {
		x = c.SExt(idx, 64)
	} else {
		x = c.ZExt(idx, 64)
	}
	in := c.Cmp(smt.OpULt, x, c.Const(64, uint64(n)))
	if !w.branch(in) {
		w.rtPanic(fmt.Sprintf("index out of range [?] with length %d", n))
	}
	return x
}

func (w *W) indexAddr(base Value, idx *smt.Term, ti tinfo) Value {
	var cells []Value
	switch b := base.(type) {
	case []Value:
		cells = b
	case *Value:
		if b == nil {
			w.nilPanic()
		}
		a, ok := (*b).(Array)
		if !ok {
			panic(unsupported("index of non-array"))
		}
		cells = []Value(a)
	case guardedPtr:
		p := b.resolve(w)
		cells = []Value((*p).(Array))
	default:
		panic(unsupported(fmt.Sprintf("indexaddr %T", base)))
	}
	i := w.boundsCheck(idx, ti, len(cells))
	if i.Op == smt.OpConst {
		return &cells[i.C]
	}
	return guardedPtr{cells: cells, idx: i}
}

func (w *W) evalIns(fr *frame, in *ins) Value {
	c := w.ctx
	switch x := in.i.(type) {
	case *ssa.UnOp:
		v := w.get(fr, &in.op[0])
		switch x.Op {
		case token.MUL:
			return w.load(v)
		case token.NOT:
			return c.Not(v.(*smt.Term))
		case token.SUB:
			t := v.(*smt.Term)
			if in.ti2.k == kFloat {
				return c.FNeg(t)
			}
			return c.Neg(t)
		case token.XOR:
			return c.BvNot(v.(*smt.Term))
		case token.ARROW:
			val, ok := w.chanRecv(v.(*ChanV), x.X.Type().Underlying().(*types.Chan).Elem())
			if x.CommaOk {
				return Tuple{val, c.Bool(ok)}
			}
			return val
		}
	case *ssa.BinOp:
		return w.binop(x.Op, w.get(fr, &in.op[0]), w.get(fr, &in.op[1]), in.ti, in.ti2, x.X.Type())
	case *ssa.Alloc:
		p := new(Value)
		*p = w.zero(x.Type().Underlying().(*types.Pointer).Elem())
		return p
	case *ssa.FieldAddr:
		switch p := w.get(fr, &in.op[0]).(type) {
		case *Value:
			if p == nil {
				w.nilPanic()
			}
			s, ok := (*p).(Struct)
			if !ok {
				panic(unsupported(fmt.Sprintf("field of %T (%s)", *p, x.X.Type())))
			}
			return &s[x.Field]
		case guardedPtr:
			np := append(append([]int{}, p.path...), x.Field)
			return guardedPtr{cells: p.cells, idx: p.idx, path: np}
		}
		panic(unsupported("fieldaddr"))
	case *ssa.Field:
		return copyVal(w.get(fr, &in.op[0]).(Struct)[x.Field])
	case *ssa.IndexAddr:
		return w.indexAddr(w.get(fr, &in.op[0]), w.get(fr, &in.op[1]).(*smt.Term), in.ti2)
	case *ssa.Index:
		base := w.get(fr, &in.op[0])
		idx := w.get(fr, &in.op[1]).(*smt.Term)
		if s, ok := base.(*Str); ok {
			return w.strIndex(s, idx, in.ti2)
		}
		a := base.(Array)
		i := w.boundsCheck(idx, in.ti2, len(a))
		if i.Op == smt.OpConst {
			return copyVal(a[i.C])
		}
		return w.loadGuarded(guardedPtr{cells: []Value(a), idx: i})
	case *ssa.Lookup:
		base := w.get(fr, &in.op[0])
		if s, ok := base.(*Str); ok {
			return w.strIndex(s, w.get(fr, &in.op[1]).(*smt.Term), in.ti2)
		}
		m := base.(*MapV)
		if m != nil {
			w.raceAccess(&m.cell, false)
		}
		i := w.mapFind(m, w.get(fr, &in.op[1]), in.ti2)
		var v Value
		if i >= 0 {
			v = copyVal(m.ents[i].v)
		} else {
			v = w.zero(x.X.Type().Underlying().(*types.Map).Elem())
		}
		if x.CommaOk {
			return Tuple{v, c.Bool(i >= 0)}
		}
		return v
	case *ssa.Slice:
		return w.sliceOp(fr, x, in)
	case *ssa.MakeSlice:
		ln := w.get(fr, &in.op[0]).(*smt.Term)
		cp := w.get(fr, &in.op[1]).(*smt.Term)
		return w.makeSlice(x.Type().Underlying().(*types.Slice).Elem(), ln, typeInfo(x.Len.Type()), cp, typeInfo(x.Cap.Type()))
	case *ssa.MakeMap:
		return w.newMap()
	case *ssa.MakeChan:
		n := w.get(fr, &in.op[0]).(*smt.Term)
		return &ChanV{cap: int(w.concInt(n, true))}
	case *ssa.MakeInterface:
		return Iface{T: x.X.Type(), V: copyVal(w.get(fr, &in.op[0]))}
	case *ssa.MakeClosure:
		cl := &Closure{Fn: x.Fn.(*ssa.Function)}
		for i := 1; i < len(in.op); i++ {
			cl.Env = append(cl.Env, w.get(fr, &in.op[i]))
		}
		return cl
	case *ssa.ChangeType, *ssa.ChangeInterface:
		return w.get(fr, &in.op[0])
	case *ssa.Convert:
		return w.convert(w.get(fr, &in.op[0]), x.X.Type(), x.Type())
	case *ssa.MultiConvert:
		return w.convert(w.get(fr, &in.op[0]), x.X.Type(), x.Type())
	case *ssa.SliceToArrayPointer:
		s := w.get(fr, &in.op[0]).([]Value)
		n := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if int64(len(s)) < n {
			w.rtPanic("cannot convert slice to array pointer")
		}
		panic(unsupported("slice to array pointer"))
	case *ssa.Extract:
		return w.get(fr, &in.op[0]).(Tuple)[x.Index]
	case *ssa.TypeAssert:
		return w.typeAssert(x, w.get(fr, &in.op[0]))
	case *ssa.Range:
		switch y := w.get(fr, &in.op[0]).(type) {
		case *Str:
			return &strIter{s: y}
		case *MapV:
			return &mapIter{m: y}
		}
	case *ssa.Next:
		return w.next(x, w.get(fr, &in.op[0]))
	case *ssa.Select:
		return w.selectOp(fr, x, in)
	}
	panic(unsupported(fmt.Sprintf("instruction %T %s", in.i, in.i)))
}

func (w *W) strIndex(s *Str, idx *smt.Term, ti tinfo) Value {
	i := w.boundsCheck(idx, ti, s.Len())
	if i.Op == smt.OpConst {
		return w.strByte(s, int(i.C))
	}
	bs := w.strBytes(s)
	cells := make([]Value, len(bs))
	for k := range bs {
		cells[k] = bs[k]
	}
	return w.loadGuarded(guardedPtr{cells: cells, idx: i})
}

func (w *W) next(x *ssa.Next, it Value) Value {
	c := w.ctx
	switch y := it.(type) {
	case *strIter:
		if y.pos >= y.s.Len() {
			return Tuple{c.False, c.Const(64, 0), c.Const(32, 0)}
		}
		pos := y.pos
		b := w.strByte(y.s, pos)
		if w.branch(c.Cmp(smt.OpULt, b, c.Const(8, 0x80))) {
			y.pos++
			return Tuple{c.True, c.Const(64, uint64(pos)), c.ZExt(b, 32)}
		}
		// concretise the remaining bytes of this rune
		var bs []byte
		for k := pos; k < y.s.Len() && k < pos+4; k++ {
			bs = append(bs, byte(w.concretize(w.strByte(y.s, k))))
		}
		for _, r := range string(bs) {
			n := len(string(r))
			if r == 0xfffd && !(len(bs) >= 3 && string(bs[:3]) == "\uFFFD") {
				n = 1
			}
			y.pos += n
			return Tuple{c.True, c.Const(64, uint64(pos)), c.Const(32, uint64(uint32(r)))}
		}
	case *mapIter:
		tt := x.Type().(*types.Tuple)
		for y.m != nil && y.pos < len(y.m.ents) {
			e := y.m.ents[y.pos]
			y.pos++
			if e != nil {
				return Tuple{c.True, copyVal(e.k), copyVal(e.v)}
			}
		}
		z := func(i int) Value {
			t := tt.At(i).Type()
			if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
				return nil
			}
			return w.zero(t)
		}
		return Tuple{c.False, z(1), z(2)}
	}
	panic(unsupported("next"))
}

func (w *W) typeAssert(x *ssa.TypeAssert, v Value) Value {
	i, ok := v.(Iface)
	if !ok {
		panic(unsupported(fmt.Sprintf("typeassert of %T", v)))
	}
	match := false
	var res Value
	if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
		if i.T != nil && w.implements(i.T, it) {
			match = true
			res = i
		}
	} else if i.T != nil && types.Identical(i.T, x.AssertedType) {
		match = true
		res = copyVal(i.V)
	}
	if x.CommaOk {
		if !match {
			res = w.zero(x.AssertedType)
		}
		return Tuple{res, w.ctx.Bool(match)}
	}
	if !match {
		dyn := "nil"
		if i.T != nil {
			dyn = i.T.String()
		}
		m := "interface conversion: interface is " + dyn + ", not " + x.AssertedType.String()
		if w.purel > 0 {
			panic(&goPanic{msg: m, runtime: true})
		}
		panic(&goPanic{v: w.errorValue(m), msg: m, runtime: true})
	}
	return res
}

func (w *W) implements(t types.Type, it *types.Interface) bool {
	return types.Implements(t, it)
}

func (w *W) optInt(fr *frame, o *opnd) (*smt.Term, bool) {
	v := w.get(fr, o)
	if v == nil {
		return nil, false
	}
	t, ok := v.(*smt.Term)
	return t, ok
}

func (w *W) sliceOp(fr *frame, x *ssa.Slice, in *ins) Value {
	base := w.get(fr, &in.op[0])
	var ln, cp int
	var cells []Value
	var str *Str
	switch b := base.(type) {
	case *Str:
		str = b
		ln, cp = b.Len(), b.Len()
	case []Value:
		cells = b
		ln, cp = len(b), cap(b)
	case *Value:
		if b == nil {
			w.nilPanic()
		}
		a := (*b).(Array)
		cells = []Value(a)
		ln, cp = len(a), len(a)
	default:
		panic(unsupported(fmt.Sprintf("slice of %T", base)))
	}
	lo, hi, max := int64(0), int64(ln), int64(cp)
	c := w.ctx
	conc := func(v ssa.Value, o *opnd, def int64) (*smt.Term, bool) {
		if v == nil {
			return c.Const(64, uint64(def)), true
		}
		t := w.get(fr, o).(*smt.Term)
		if typeInfo(v.Type()).k == kInt {
			t = c.SExt(t, 64)
		} else {
			t = c.ZExt(t, 64)
		}
		return t, t.Op == smt.OpConst
	}
	lt, _ := conc(x.Low, &in.op[1], 0)
	ht, _ := conc(x.High, &in.op[2], int64(ln))
	mt, _ := conc(x.Max, &in.op[3], int64(cp))
	limit := int64(cp)
	if str != nil {
		limit = int64(ln)
	}
	chk := func(cond *smt.Term) {
		if !w.branch(cond) {
			w.rtPanic(fmt.Sprintf("slice bounds out of range with capacity %d", limit))
		}
	}
	lim := c.Const(64, uint64(limit))
	if x.Max != nil {
		chk(c.Cmp(smt.OpULe, mt, lim))
		chk(c.Cmp(smt.OpULe, ht, mt))
	} else {
		chk(c.Cmp(smt.OpULe, ht, lim))
	}
	chk(c.Cmp(smt.OpULe, lt, ht))
	lo = int64(w.concretize(lt))
	hi = int64(w.concretize(ht))
	max = int64(w.concretize(mt))
	if str != nil {
		return w.strSlice(str, int(lo), int(hi))
	}
	if cells == nil {
		return []Value(nil)
	}
	return cells[lo:hi:max]
}

func (w *W) makeSlice(elem types.Type, ln *smt.Term, lti tinfo, cp *smt.Term, cti tinfo) Value {
	c := w.ctx
	ext := func(t *smt.Term, ti tinfo) *smt.Term {
		if ti.k == kInt {
			return c.SExt(t, 64)
		}
		return c.ZExt(t, 64)
	}
	ln, cp = ext(ln, lti), ext(cp, cti)
	esz := w.e.sizes.Sizeof(elem)
	if esz == 0 {
		esz = 1
	}
	lim := uint64(1<<46) / uint64(esz)
	if !w.branch(c.Cmp(smt.OpULe, ln, c.Const(64, lim))) {
		w.rtPanic("makeslice: len out of range")
	}
	if !w.branch(c.Cmp(smt.OpULe, cp, c.Const(64, lim))) {
		w.rtPanic("makeslice: cap out of range")
	}
	if !w.branch(c.Cmp(smt.OpULe, ln, cp)) {
		w.rtPanic("makeslice: cap out of range")
	}
	// sizes the machine cannot serve: run the real code on them
	big := uint64(maxAlloc)
	if !w.branch(c.Cmp(smt.OpULe, cp, c.Const(64, big))) {
		huge := c.Cmp(smt.OpULt, c.Const(64, uint64(1<<35)/uint64(esz)), cp)
		if w.branch(huge) {
			w.end("alloc", "allocation of more than 32 GiB requested")
		}
		w.end("alloc", "allocation of more than 64M elements requested")
	}
	n := int(w.concretize(ln))
	k := int(w.concretize(cp))
	w.allocs += int64(k)
	if w.allocs > maxAlloc*2 {
		w.end("alloc", "too much memory")
	}
	return w.newSlice(elem, n, k)
}

func (w *W) newSlice(elem types.Type, n, k int) []Value {
	s := make([]Value, k)
	if k == 0 {
		return s[:0]
	}
	z := w.zero(elem)
	switch z.(type) {
	case Struct, Array:
		s[0] = z
		for i := 1; i < k; i++ {
			s[i] = copyVal(z)
		}
	default:
		for i := range s {
			s[i] = z
		}
	}
	return s[:n]
}

// ---------- arithmetic ----------

func (w *W) binop(op token.Token, a, b Value, ti, ti2 tinfo, t types.Type) Value {
	c := w.ctx
	switch op {
	case token.EQL:
		return w.eqT(a, b, ti, t)
	case token.NEQ:
		return c.Not(w.eqT(a, b, ti, t))
	}
	switch ti.k {
	case kString:
		x, y := a.(*Str), b.(*Str)
		switch op {
		case token.ADD:
			return w.strConcat(x, y)
		case token.LSS:
			return w.strLess(x, y)
		case token.GTR:
			return w.strLess(y, x)
		case token.LEQ:
			return c.Not(w.strLess(y, x))
		case token.GEQ:
			return c.Not(w.strLess(x, y))
		}
	case kFloat:
		x, y := a.(*smt.Term), b.(*smt.Term)
		switch op {
		case token.ADD:
			return c.FArith(smt.OpFAdd, x, y)
		case token.SUB:
			return c.FSub(x, y)
		case token.MUL:
			return c.FArith(smt.OpFMul, x, y)
		case token.QUO:
			return c.FArith(smt.OpFDiv, x, y)
		case token.LSS:
			return c.FCmp(smt.OpFLt, x, y)
		case token.LEQ:
			return c.FCmp(smt.OpFLe, x, y)
		case token.GTR:
			return c.FCmp(smt.OpFLt, y, x)
		case token.GEQ:
			return c.FCmp(smt.OpFLe, y, x)
		}
	case kBool:
		x, y := a.(*smt.Term), b.(*smt.Term)
		switch op {
		case token.AND:
			return c.And(x, y)
		case token.OR:
			return c.Or(x, y)
		}
	case kInt, kUint:
		x, y := a.(*smt.Term), b.(*smt.Term)
		signed := ti.k == kInt
		switch op {
		case token.ADD:
			return c.Bin(smt.OpBvAdd, x, y)
		case token.SUB:
			return c.Bin(smt.OpBvSub, x, y)
		case token.MUL:
			return c.Bin(smt.OpBvMul, x, y)
		case token.QUO, token.REM:
			if !w.branch(c.Not(c.Eq(y, c.Const(y.W, 0)))) {
				w.rtPanic("integer divide by zero")
			}
			o := smt.OpBvUDiv
			switch {
			case op == token.QUO && signed:
				o = smt.OpBvSDiv
			case op == token.REM && signed:
				o = smt.OpBvSRem
			case op == token.REM:
				o = smt.OpBvURem
			}
			return c.Bin(o, x, y)
		case token.AND:
			return c.Bin(smt.OpBvAnd, x, y)
		case token.OR:
			return c.Bin(smt.OpBvOr, x, y)
		case token.XOR:
			return c.Bin(smt.OpBvXor, x, y)
		case token.AND_NOT:
			return c.Bin(smt.OpBvAnd, x, c.BvNot(y))
		case token.SHL, token.SHR:
			if ti2.k == kInt {
				if !w.branch(c.Not(c.Cmp(smt.OpSLt, y, c.Const(y.W, 0)))) {
					w.rtPanic("negative shift amount")
				}
			}
			o := smt.OpBvShl
			if op == token.SHR {
				o = smt.OpBvLShr
				if signed {
					o = smt.OpBvAShr
				}
			}
			if y.W == x.W {
				return c.Bin(o, x, y)
			}
			if y.W < x.W {
				return c.Bin(o, x, c.ZExt(y, x.W))
			}
			if y.Op == smt.OpConst {
				k := y.C
				if k > uint64(x.W) {
					k = uint64(x.W)
				}
				return c.Bin(o, x, c.Const(x.W, k))
			}
			// clamp the count
			inr := c.Cmp(smt.OpULt, y, c.Const(y.W, uint64(x.W)))
			cnt := c.Ite(inr, c.Extract(y, x.W-1, 0), c.Const(x.W, uint64(x.W)))
			return c.Bin(o, x, cnt)
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			if op == token.GTR || op == token.GEQ {
				x, y = y, x
			}
			o := smt.OpULt
			if op == token.LEQ || op == token.GEQ {
				o = smt.OpULe
			}
			if signed {
				if o == smt.OpULt {
					o = smt.OpSLt
				} else {
					o = smt.OpSLe
				}
			}
			return c.Cmp(o, x, y)
		}
	}
	panic(unsupported(fmt.Sprintf("binop %s on %s", op, t)))
}

func (w *W) eqT(a, b Value, ti tinfo, t types.Type) *smt.Term {
	switch ti.k {
	case kFloat:
		return w.ctx.FCmp(smt.OpFEq, a.(*smt.Term), b.(*smt.Term))
	case kBool, kInt, kUint:
		return w.ctx.Eq(a.(*smt.Term), b.(*smt.Term))
	case kString:
		return w.strEq(a.(*Str), b.(*Str))
	case kStruct, kArray:
		return w.equalT(a, b, t)
	case kIface:
		// comparison with a concrete operand converts it in SSA
		return w.equal(a, b)
	}
	return w.equal(a, b)
}

func (w *W) convert(v Value, from, to types.Type) Value {
	c := w.ctx
	fi, ti := typeInfo(from), typeInfo(to)
	switch {
	case (fi.k == kInt || fi.k == kUint) && (ti.k == kInt || ti.k == kUint):
		t := v.(*smt.Term)
		if ti.w == fi.w {
			return t
		}
		if ti.w < fi.w {
			return c.Extract(t, ti.w-1, 0)
		}
		if fi.k == kInt {
			return c.SExt(t, ti.w)
		}
		return c.ZExt(t, ti.w)
	case (fi.k == kInt || fi.k == kUint) && ti.k == kFloat:
		t := w.pinned(v.(*smt.Term))
		var r *smt.Term
		if fi.k == kInt {
			r = c.Conv(smt.OpS64toF64, c.SExt(t, 64))
		} else {
			r = c.Conv(smt.OpU64toF64, c.ZExt(t, 64))
		}
		if ti.w == 32 {
			if fi.w > 32 && t.Op != smt.OpConst {
				panic(unsupported("int64 to float32"))
			}
			return c.Conv(smt.OpF64to32, r)
		}
		return r
	case fi.k == kFloat && (ti.k == kInt || ti.k == kUint):
		t := v.(*smt.Term)
		if fi.w == 32 {
			t = c.Conv(smt.OpF32to64, t)
		}
		switch {
		case ti.k == kInt && ti.w == 64:
			return c.Conv(smt.OpF64toS64, t)
		case ti.k == kInt && ti.w == 32:
			return c.Conv(smt.OpF64toS32, t)
		case ti.w < 32:
			return c.Extract(c.Conv(smt.OpF64toS32, t), ti.w-1, 0)
		case ti.k == kUint && ti.w == 32:
			return c.Extract(c.Conv(smt.OpF64toS64, t), 31, 0)
		default: // uint64
			lim := c.F64(9223372036854775808.0)
			small := c.FCmp(smt.OpFLt, t, lim)
			direct := c.Conv(smt.OpF64toS64, t)
			hi := c.Bin(smt.OpBvXor, c.Conv(smt.OpF64toS64, c.FSub(t, lim)), c.Const(64, 1<<63))
			if t.Op != smt.OpConst && !w.branch(small) {
				panic(unsupported("float to uint64 above 2^63"))
			}
			return c.Ite(small, direct, hi)
		}
	case fi.k == kFloat && ti.k == kFloat:
		t := v.(*smt.Term)
		if fi.w == ti.w {
			return t
		}
		if ti.w == 64 {
			return c.Conv(smt.OpF32to64, t)
		}
		return c.Conv(smt.OpF64to32, t)
	case fi.k == kString && ti.k == kSlice:
		s := v.(*Str)
		el := typeInfo(to.Underlying().(*types.Slice).Elem())
		if el.w == 8 {
			bs := w.strBytes(s)
			n := len(bs)
			k := n
			if k > 0 {
				k = int(roundupsize(uintptr(n), true))
			}
			r := make([]Value, n, k)
			for i := range bs {
				r[i] = bs[i]
			}
			z := c.Const(8, 0)
			rr := r[:k]
			for i := n; i < k; i++ {
				rr[i] = z
			}
			return r
		}
		// []rune
		var r []Value
		it := &strIter{s: s}
		for it.pos < s.Len() {
			t := w.next(nil, it).(Tuple)
			r = append(r, t[2])
		}
		if r == nil {
			r = []Value{}
		}
		return r
	case fi.k == kSlice && ti.k == kString:
		s := v.([]Value)
		el := typeInfo(from.Underlying().(*types.Slice).Elem())
		if el.w == 8 {
			return w.bytesToStr(s)
		}
		var rs []rune
		for _, x := range s {
			rs = append(rs, rune(int32(w.concretize(x.(*smt.Term)))))
		}
		return mkStr(string(rs))
	case (fi.k == kInt || fi.k == kUint) && ti.k == kString:
		t := v.(*smt.Term)
		if t.Op != smt.OpConst {
			if w.branch(c.Cmp(smt.OpULt, t, c.Const(t.W, 0x80))) {
				return w.strFromTerms([]*smt.Term{c.Extract(c.ZExt(t, 64), 7, 0)})
			}
		}
		x := w.concretize(t)
		if fi.k == kInt {
			return mkStr(string(rune(c.Const(t.W, x).SVal())))
		}
		return mkStr(string(rune(x)))
	case fi.k == ti.k:
		return v
	case ti.k == kPtr || fi.k == kPtr:
		return v
	}
	panic(unsupported(fmt.Sprintf("convert %s to %s", from, to)))
}

func (w *W) bytesToStr(s []Value) *Str {
	if len(s) == 0 {
		return emptyStr
	}
	b := make([]*smt.Term, len(s))
	conc := true
	for i, x := range s {
		w.raceAccess(&s[i], false)
		b[i] = x.(*smt.Term)
		if b[i].Op != smt.OpConst {
			conc = false
		}
	}
	if conc {
		bs := make([]byte, len(b))
		for i := range b {
			bs[i] = byte(b[i].C)
		}
		return &Str{S: string(bs)}
	}
	return &Str{B: b}
}
