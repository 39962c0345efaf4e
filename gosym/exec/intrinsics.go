package exec

import (
	"bytes"
	"errors"
	"fmt"
	"go/types"
	"math"
	"reflect"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"

	"gosym/smt"
)

const VF = "github.com/dmitryikh/leaves/zzverif/vf."

type vfile struct {
	name  string
	data  []Value
	pos   int
	read  bool
	write bool
	app   bool
	dead  bool
}

func f32bits(f float64) uint64 { return uint64(math.Float32bits(float32(f))) }

// nativeFun gives the meaning of named functions.
func nativeFun(name string, a []uint64) (uint64, bool) {
	f := func(i int) float64 { return math.Float64frombits(a[i]) }
	r := func(x float64) (uint64, bool) { return math.Float64bits(x), true }
	switch name {
	case "exp":
		return r(math.Exp(f(0)))
	case "log":
		return r(math.Log(f(0)))
	case "log1p":
		return r(math.Log1p(f(0)))
	case "expm1":
		return r(math.Expm1(f(0)))
	case "tanh":
		return r(math.Tanh(f(0)))
	case "pow":
		return r(math.Pow(f(0), f(1)))
	case "mod":
		return r(math.Mod(f(0), f(1)))
	case "fma":
		return r(math.FMA(f(0), f(1), f(2)))
	}
	return 0, false
}

// roundupsize is the allocator's size class of n bytes.
func roundupsize(n uintptr, noscan bool) uintptr {
	if n == 0 {
		return 0
	}
	rup := func(n uintptr) uintptr {
		if n > 1<<20 {
			return (n + 8191) &^ 8191
		}
		return uintptr(cap(append([]byte(nil), make([]byte, n)...)))
	}
	if !noscan && n > 512 {
		return rup(n+8) - 8
	}
	return rup(n)
}

func hasPointers(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.String || u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPointers(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return hasPointers(u.Elem())
	}
	return true
}

// growCap is the capacity chosen by append.
func (w *W) growCap(elem types.Type, oldCap, newLen int) int {
	nc := oldCap
	dbl := nc + nc
	if newLen > dbl {
		nc = newLen
	} else if oldCap < 256 {
		nc = dbl
	} else {
		for nc < newLen {
			nc += (nc + 3*256) >> 2
		}
	}
	sz := w.e.sizes.Sizeof(elem)
	if sz == 0 {
		return newLen
	}
	return int(roundupsize(uintptr(nc)*uintptr(sz), !hasPointers(elem))) / int(sz)
}

func (w *W) appendVals(s []Value, add []Value, elem types.Type) []Value {
	if len(add) == 0 {
		return s
	}
	n := len(s) + len(add)
	if n <= cap(s) {
		r := s[:n]
		for i, v := range add {
			p := &r[len(s)+i]
			w.raceAccess(p, true)
			w.storeInto(p, copyVal(v))
		}
		return r
	}
	k := w.growCap(elem, cap(s), n)
	w.allocs += int64(k)
	if w.allocs > maxAlloc*2 {
		w.end("alloc", "too much memory")
	}
	r := make([]Value, n, k)
	for i, v := range s {
		w.raceAccess(&s[i], false)
		r[i] = copyVal(v)
	}
	for i, v := range add {
		r[len(s)+i] = copyVal(v)
	}
	full := r[:k]
	if n < k {
		z := w.zero(elem)
		for i := n; i < k; i++ {
			full[i] = copyVal(z)
		}
	}
	return r
}

func (w *W) builtin(fr *frame, ci *callInfo, args []Value) Value {
	c := w.ctx
	switch ci.builtin {
	case "len":
		switch x := args[0].(type) {
		case *Str:
			return c.Const(64, uint64(x.Len()))
		case []Value:
			return c.Const(64, uint64(len(x)))
		case *MapV:
			if x == nil {
				return c.Const(64, 0)
			}
			w.raceAccess(&x.cell, false)
			return c.Const(64, uint64(x.n))
		case *ChanV:
			return c.Const(64, uint64(len(x.buf)))
		case Array:
			return c.Const(64, uint64(len(x)))
		case *Value:
			return c.Const(64, uint64(len((*x).(Array))))
		}
	case "cap":
		switch x := args[0].(type) {
		case []Value:
			return c.Const(64, uint64(cap(x)))
		case *ChanV:
			return c.Const(64, uint64(x.cap))
		case Array:
			return c.Const(64, uint64(len(x)))
		case *Value:
			return c.Const(64, uint64(len((*x).(Array))))
		}
	case "append":
		s := args[0].([]Value)
		elem := ci.argT[0].Underlying().(*types.Slice).Elem()
		if len(args) == 1 {
			return s
		}
		switch y := args[1].(type) {
		case *Str:
			bs := w.strBytes(y)
			add := make([]Value, len(bs))
			for i := range bs {
				add[i] = bs[i]
			}
			return w.appendVals(s, add, elem)
		case []Value:
			for i := range y {
				w.raceAccess(&y[i], false)
			}
			return w.appendVals(s, y, elem)
		}
	case "copy":
		d := args[0].([]Value)
		var src []Value
		switch y := args[1].(type) {
		case *Str:
			for _, b := range w.strBytes(y) {
				src = append(src, b)
			}
		case []Value:
			src = make([]Value, len(y))
			for i := range y {
				w.raceAccess(&y[i], false)
				src[i] = copyVal(y[i])
			}
		}
		n := len(d)
		if len(src) < n {
			n = len(src)
		}
		for i := 0; i < n; i++ {
			w.raceAccess(&d[i], true)
			w.storeInto(&d[i], src[i])
		}
		return c.Const(64, uint64(n))
	case "delete":
		m := args[0].(*MapV)
		w.mapDelete(m, args[1], typeInfo(ci.argT[1]))
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapV:
			if x == nil {
				return nil
			}
			for i := len(x.ents) - 1; i >= 0; i-- {
				if x.ents[i] != nil {
					w.mapDelete(x, x.ents[i].k, tinfo{})
				}
			}
			return nil
		case []Value:
			if len(x) > 0 {
				z := w.zero(ci.argT[0].Underlying().(*types.Slice).Elem())
				for i := range x {
					w.raceAccess(&x[i], true)
					w.storeInto(&x[i], copyVal(z))
				}
			}
			return nil
		}
	case "close":
		w.chanClose(args[0].(*ChanV))
		return nil
	case "recover":
		if fr != nil && fr.caller != nil && fr.caller.panicking != nil {
			p := fr.caller.panicking
			fr.caller.panicking = nil
			if p.v.T == nil {
				return w.errorValue(p.msg)
			}
			return p.v
		}
		return Iface{}
	case "print", "println":
		return nil
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			w.nilPanic()
		}
		return args[0]
	case "min", "max":
		ti := typeInfo(ci.argT[0])
		r := args[0]
		for _, y := range args[1:] {
			r = w.minmax(ci.builtin == "min", r, y, ti)
		}
		return r
	case "SliceData":
		return ElemPtr{args[0].([]Value)}
	case "StringData":
		var cells []Value
		for _, b := range w.strBytes(args[0].(*Str)) {
			cells = append(cells, b)
		}
		return ElemPtr{cells}
	case "String":
		n := int(w.concInt(args[1].(*smt.Term), true))
		if p, ok := args[0].(ElemPtr); ok {
			return w.bytesToStr(p.S[:n])
		}
		if n == 0 {
			return emptyStr
		}
	case "Slice":
		n := int(w.concInt(args[1].(*smt.Term), true))
		if p, ok := args[0].(ElemPtr); ok {
			return p.S[:n:n]
		}
	}
	panic(unsupported(fmt.Sprintf("builtin %s on %T", ci.builtin, args[0])))
}

func (w *W) minmax(min bool, a, b Value, ti tinfo) Value {
	c := w.ctx
	switch ti.k {
	case kString:
		l := w.branch(w.strLess(b.(*Str), a.(*Str)))
		if l == min {
			return b
		}
		return a
	case kFloat:
		x, y := a.(*smt.Term), b.(*smt.Term)
		op := smt.OpBvAnd
		if min {
			op = smt.OpBvOr
		}
		lt, gt := c.FCmp(smt.OpFLt, x, y), c.FCmp(smt.OpFLt, y, x)
		if !min {
			lt, gt = gt, lt
		}
		return c.Ite(c.IsNaN(x), x, c.Ite(c.IsNaN(y), y, c.Ite(lt, x, c.Ite(gt, y, c.Bin(op, x, y)))))
	}
	x, y := a.(*smt.Term), b.(*smt.Term)
	op := smt.OpULt
	if ti.k == kInt {
		op = smt.OpSLt
	}
	if min {
		return c.Ite(c.Cmp(op, y, x), y, x)
	}
	return c.Ite(c.Cmp(op, x, y), y, x)
}

// ---------- errors ----------

func (w *W) pkgType(path, name string) types.Type {
	p := w.e.Prog.ImportedPackage(path)
	if p == nil {
		panic(unsupported("package " + path + " not loaded"))
	}
	t, ok := p.Members[name].(*ssa.Type)
	if !ok {
		panic(unsupported("type " + path + "." + name))
	}
	return t.Type()
}

func (w *W) pkgFunc(path, name string) *ssa.Function {
	p := w.e.Prog.ImportedPackage(path)
	if p == nil || p.Func(name) == nil {
		panic(unsupported("function " + path + "." + name))
	}
	return p.Func(name)
}

func (w *W) errorValue(msg string) Iface { return w.errorStr(mkStr(msg)) }

func (w *W) errorStr(msg *Str) Iface {
	t := w.pkgType("errors", "errorString")
	p := new(Value)
	*p = Struct{msg}
	return Iface{T: types.NewPointer(t), V: p}
}

func (w *W) nilErr() Iface { return Iface{} }

func (w *W) pkgVar(path, name string) Value {
	p := w.e.Prog.ImportedPackage(path)
	if p == nil {
		panic(unsupported("package " + path + " not loaded"))
	}
	g, ok := p.Members[name].(*ssa.Global)
	if !ok {
		panic(unsupported("variable " + path + "." + name))
	}
	return copyVal(*w.global(g))
}

// ---------- tokens ----------

const tokBase = 1900000000

func (w *W) mkTok(t *smt.Term, isFloat bool) *Str {
	if t.Op == smt.OpConst {
		if isFloat {
			return mkStr(FormatFloatTok(math.Float64frombits(t.C)))
		}
		return mkStr(strconv.FormatInt(t.SVal(), 10))
	}
	for s, k := range w.toks {
		if k.t == t && k.float == isFloat {
			return mkStr(s)
		}
	}
	s := strconv.Itoa(tokBase + w.ntok)
	w.ntok++
	w.toks[s] = tok{t, isFloat}
	return mkStr(s)
}

// FormatFloatTok is the literal used natively.
func FormatFloatTok(f float64) string { return strconv.FormatFloat(f, 'g', 17, 64) }

// lookTok finds a token literal (also when surrounded by nothing else).
func (w *W) lookTok(s *Str) (tok, bool) {
	if s.B != nil || len(w.toks) == 0 {
		return tok{}, false
	}
	t, ok := w.toks[s.S]
	if !ok {
		// negation or sign of a token
		return tok{}, false
	}
	return t, true
}

func isTokFloat(f float64) bool { return f >= tokBase && f < tokBase+1000000 && f == math.Trunc(f) }

func (w *W) tokForInt(v int64) (tok, bool) {
	if v < tokBase {
		return tok{}, false
	}
	t, ok := w.toks[strconv.FormatInt(v, 10)]
	return t, ok
}

func (w *W) tup(vs ...Value) Tuple { return Tuple(vs) }

// ---------- tables ----------

var intrinsics map[string]intrinsic
var natives map[string]interface{}

func i64(v Value) *smt.Term { return v.(*smt.Term) }

func lbl(v Value) string {
	s := v.(*Str)
	if s.B != nil {
		return "?"
	}
	return s.S
}

func init() {
	natives = map[string]interface{}{
		"strings.TrimSpace": strings.TrimSpace, "strings.Split": strings.Split, "strings.SplitN": strings.SplitN,
		"strings.HasPrefix": strings.HasPrefix, "strings.HasSuffix": strings.HasSuffix, "strings.Contains": strings.Contains,
		"strings.Index": strings.Index, "strings.IndexByte": strings.IndexByte, "strings.Fields": strings.Fields,
		"strings.Join": strings.Join, "strings.Repeat": strings.Repeat, "strings.Replace": strings.Replace,
		"strings.ReplaceAll": strings.ReplaceAll, "strings.ToLower": strings.ToLower, "strings.ToUpper": strings.ToUpper,
		"strings.Trim": strings.Trim, "strings.TrimLeft": strings.TrimLeft, "strings.TrimRight": strings.TrimRight,
		"strings.TrimSuffix": strings.TrimSuffix, "strings.TrimPrefix": strings.TrimPrefix, "strings.EqualFold": strings.EqualFold,
		"strings.LastIndex": strings.LastIndex, "strings.Count": strings.Count, "strings.Cut": strings.Cut,
		"strings.ContainsAny": strings.ContainsAny, "strings.IndexAny": strings.IndexAny, "strings.ContainsRune": strings.ContainsRune,
		"strings.SplitAfter": strings.SplitAfter, "strings.Compare": strings.Compare,
		"bytes.Replace": bytes.Replace, "bytes.ReplaceAll": bytes.ReplaceAll, "bytes.TrimSpace": bytes.TrimSpace,
		"bytes.Equal": bytes.Equal, "bytes.Contains": bytes.Contains, "bytes.HasPrefix": bytes.HasPrefix,
		"strconv.Itoa": strconv.Itoa, "strconv.FormatInt": strconv.FormatInt, "strconv.FormatUint": strconv.FormatUint,
		"unicode.IsSpace":  unicode.IsSpace,
		"utf8.RuneCount":   utf8.RuneCount,
		"math.Pow":         math.Pow,
		"math.Mod":         math.Mod,
		"math.Log2":        math.Log2,
		"math.Log10":       math.Log10,
		"math.Cbrt":        math.Cbrt,
		"math.Hypot":       math.Hypot,
		"math.Round":       math.Round,
		"math.RoundToEven": math.RoundToEven,
	}
	intrinsics = map[string]intrinsic{}
	reg := func(name string, f intrinsic) { intrinsics[name] = f }
	regVF(reg)
	regMath(reg)
	regStr(reg)
	regFmt(reg)
	regSync(reg)
	regOS(reg)
	regEnc(reg)
}

// callNative runs a library function natively when all arguments are concrete.
func (w *W) callNative(nf interface{}, args []Value, f *ssa.Function) (Value, bool) {
	rf := reflect.ValueOf(nf)
	rt := rf.Type()
	if rt.NumIn() != len(args) || rt.IsVariadic() {
		return nil, false
	}
	in := make([]reflect.Value, len(args))
	for i := range args {
		v, ok := w.toNative(args[i], rt.In(i))
		if !ok {
			return nil, false
		}
		in[i] = v
	}
	out := rf.Call(in)
	if len(out) == 1 {
		return w.fromNative(out[0]), true
	}
	t := make(Tuple, len(out))
	for i := range out {
		t[i] = w.fromNative(out[i])
	}
	return t, true
}

func (w *W) toNative(v Value, t reflect.Type) (reflect.Value, bool) {
	r := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.String:
		s, ok := v.(*Str)
		if !ok || s.B != nil {
			return r, false
		}
		r.SetString(s.S)
		return r, true
	case reflect.Bool:
		x, ok := v.(*smt.Term)
		if !ok || x.Op != smt.OpConst {
			return r, false
		}
		r.SetBool(x.C == 1)
		return r, true
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		x, ok := v.(*smt.Term)
		if !ok || x.Op != smt.OpConst {
			return r, false
		}
		r.SetInt(x.SVal())
		return r, true
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		x, ok := v.(*smt.Term)
		if !ok || x.Op != smt.OpConst {
			return r, false
		}
		r.SetUint(x.C)
		return r, true
	case reflect.Float64:
		x, ok := v.(*smt.Term)
		if !ok || x.Op != smt.OpConst {
			return r, false
		}
		r.SetFloat(math.Float64frombits(x.C))
		return r, true
	case reflect.Slice:
		s, ok := v.([]Value)
		if !ok {
			return r, false
		}
		if s == nil {
			return r, true
		}
		r.Set(reflect.MakeSlice(t, len(s), len(s)))
		for i := range s {
			e, ok := w.toNative(s[i], t.Elem())
			if !ok {
				return r, false
			}
			r.Index(i).Set(e)
		}
		return r, true
	}
	return r, false
}

func (w *W) fromNative(r reflect.Value) Value {
	c := w.ctx
	switch r.Kind() {
	case reflect.String:
		return mkStr(r.String())
	case reflect.Bool:
		return c.Bool(r.Bool())
	case reflect.Int, reflect.Int64:
		return c.Const(64, uint64(r.Int()))
	case reflect.Int32:
		return c.Const(32, uint64(r.Int()))
	case reflect.Uint8:
		return c.Const(8, r.Uint())
	case reflect.Uint32:
		return c.Const(32, r.Uint())
	case reflect.Uint, reflect.Uint64:
		return c.Const(64, r.Uint())
	case reflect.Float64:
		return c.F64(r.Float())
	case reflect.Slice:
		if r.IsNil() {
			return []Value(nil)
		}
		s := make([]Value, r.Len())
		for i := range s {
			s[i] = w.fromNative(r.Index(i))
		}
		return s
	case reflect.Interface:
		if r.IsNil() {
			return Iface{}
		}
		if e, ok := r.Interface().(error); ok {
			return w.errorValue(e.Error())
		}
	}
	panic(unsupported("native result " + r.Kind().String()))
}

// ---------- vf ----------

func regVF(reg func(string, intrinsic)) {
	vf := func(n string, f intrinsic) { reg(VF+n, f) }
	mk := func(width uint8, hint uint8) intrinsic {
		return func(w *W, fr *frame, a []Value) Value {
			return w.newVar(lbl(a[0]), width, hint)
		}
	}
	vf("Byte", mk(8, 0))
	vf("U16", mk(16, 0))
	vf("U32", mk(32, 0))
	vf("U64", mk(64, 0))
	vf("I32", mk(32, 0))
	vf("I64", mk(64, 0))
	vf("F64", mk(64, 1))
	vf("F32", mk(32, 2))
	vf("Bool", func(w *W, fr *frame, a []Value) Value {
		t := w.newVar(lbl(a[0]), 8, 0)
		w.assume(w.ctx.Cmp(smt.OpULt, t, w.ctx.Const(8, 2)))
		return w.ctx.Eq(t, w.ctx.Const(8, 1))
	})
	vf("Int", func(w *W, fr *frame, a []Value) Value {
		lo, hi := i64(a[1]), i64(a[2])
		t := w.newVar(lbl(a[0]), 64, 0)
		c := w.ctx
		w.assume(c.And(c.Cmp(smt.OpSLe, lo, t), c.Cmp(smt.OpSLe, t, hi)))
		return t
	})
	vf("Choose", func(w *W, fr *frame, a []Value) Value {
		n := int(w.concInt(i64(a[1]), true))
		if n <= 0 {
			w.end("assume", "")
		}
		k := w.choose(n, lbl(a[0]))
		w.constInput(lbl(a[0]), uint64(k))
		return w.ctx.Const(64, uint64(k))
	})
	vf("Assume", func(w *W, fr *frame, a []Value) Value { w.assume(i64(a[0])); return nil })
	vf("Assert", func(w *W, fr *frame, a []Value) Value { w.assert(i64(a[0]), lbl(a[1])); return nil })
	vf("Cover", func(w *W, fr *frame, a []Value) Value {
		w.e.mu.Lock()
		w.h.st.Covers[lbl(a[0])]++
		w.e.mu.Unlock()
		return nil
	})
	vf("FloatTok", func(w *W, fr *frame, a []Value) Value { return w.mkTok(i64(a[0]), true) })
	vf("IntTok", func(w *W, fr *frame, a []Value) Value { return w.mkTok(i64(a[0]), false) })
	vf("SameBits", func(w *W, fr *frame, a []Value) Value { return w.same(i64(a[0]), i64(a[1])) })
	vf("Same", func(w *W, fr *frame, a []Value) Value {
		return w.ctx.Or(w.same(i64(a[0]), i64(a[1])), w.ctx.FCmp(smt.OpFEq, i64(a[0]), i64(a[1])))
	})
	vf("Close", func(w *W, fr *frame, a []Value) Value {
		budget := 256
		return w.closeTerm(i64(a[0]), i64(a[1]), i64(a[2]), &budget)
	})
	vf("Concrete", func(w *W, fr *frame, a []Value) Value {
		t := i64(a[0])
		return w.ctx.Const(t.W, w.concretize(t))
	})
	vf("Observe", func(w *W, fr *frame, a []Value) Value {
		t := i64(a[0])
		w.obs = append(w.obs, w.ctx.Ite(w.ctx.IsNaN(t), w.ctx.F64(math.NaN()), t))
		return nil
	})
	vf("ObserveInt", func(w *W, fr *frame, a []Value) Value {
		w.obs = append(w.obs, i64(a[0]))
		return nil
	})
	vf("Tier", func(w *W, fr *frame, a []Value) Value { return w.ctx.Const(64, uint64(w.e.Cfg.Tier)) })
	vf("SetProcs", func(w *W, fr *frame, a []Value) Value {
		w.procs = int(w.concInt(i64(a[0]), true))
		return nil
	})
	vf("Preempt", func(w *W, fr *frame, a []Value) Value {
		w.preempt = int(w.concInt(i64(a[0]), true))
		return nil
	})
	vf("Lemmas", func(w *W, fr *frame, a []Value) Value { w.lemmas = true; return nil })
	vf("Steps", func(w *W, fr *frame, a []Value) Value {
		w.limit = w.steps + w.concInt(i64(a[0]), true)
		return nil
	})
	vf("TempFile", func(w *W, fr *frame, a []Value) Value {
		name := "/vf-tmp/" + lbl(a[0])
		w.vfs[name] = append([]Value{}, a[1].([]Value)...)
		return mkStr(name)
	})
	vf("TempName", func(w *W, fr *frame, a []Value) Value { return mkStr("/vf-tmp/" + lbl(a[0])) })
	// Goroutines lets all others run until they end or block, and counts those that have not ended.
	vf("Goroutines", func(w *W, fr *frame, a []Value) Value {
		me := w.cur
		w.block("the others to settle", func() bool {
			for _, g := range w.gs {
				if g != me && !g.done && (g.wait == nil || g.wait()) {
					return false
				}
			}
			return true
		})
		n := 0
		for _, g := range w.gs {
			if g != me && !g.done {
				n++
			}
		}
		return w.ctx.Const(64, uint64(n))
	})
	vf("OpenFiles", func(w *W, fr *frame, a []Value) Value {
		n := 0
		for _, f := range w.files {
			if !f.dead {
				n++
			}
		}
		return w.ctx.Const(64, uint64(n))
	})
	vf("ReadBack", func(w *W, fr *frame, a []Value) Value {
		d, ok := w.vfs[lbl(a[0])]
		if !ok {
			return []Value(nil)
		}
		return append([]Value{}, d...)
	})
}

func (w *W) same(x, y *smt.Term) *smt.Term {
	c := w.ctx
	return c.Or(c.Eq(x, y), c.And(c.IsNaN(x), c.IsNaN(y)))
}

// CloseF is the native tolerance.
func CloseF(a, b, scale float64) bool {
	if a == b || a != a && b != b {
		return true
	}
	return math.Abs(a-b) <= 1e-9*math.Abs(scale)
}

// ---------- math ----------

func regMath(reg func(string, intrinsic)) {
	id := func(w *W, fr *frame, a []Value) Value { return a[0] }
	for _, n := range []string{"math.Float64bits", "math.Float64frombits", "math.Float32bits", "math.Float32frombits"} {
		reg(n, id)
	}
	reg("math.IsNaN", func(w *W, fr *frame, a []Value) Value { return w.ctx.IsNaN(i64(a[0])) })
	reg("math.IsInf", func(w *W, fr *frame, a []Value) Value {
		c := w.ctx
		s := w.concInt(i64(a[1]), true)
		x := i64(a[0])
		r := c.False
		if s >= 0 {
			r = c.Or(r, c.Eq(x, c.F64(math.Inf(1))))
		}
		if s <= 0 {
			r = c.Or(r, c.Eq(x, c.F64(math.Inf(-1))))
		}
		return r
	})
	reg("math.Inf", func(w *W, fr *frame, a []Value) Value {
		if w.concInt(i64(a[0]), true) >= 0 {
			return w.ctx.F64(math.Inf(1))
		}
		return w.ctx.F64(math.Inf(-1))
	})
	reg("math.NaN", func(w *W, fr *frame, a []Value) Value { return w.ctx.F64(math.NaN()) })
	reg("math.Abs", func(w *W, fr *frame, a []Value) Value { return w.ctx.FAbs(i64(a[0])) })
	reg("math.Signbit", func(w *W, fr *frame, a []Value) Value {
		return w.ctx.Eq(w.ctx.Extract(i64(a[0]), 63, 63), w.ctx.Const(1, 1))
	})
	reg("math.Copysign", func(w *W, fr *frame, a []Value) Value {
		return w.ctx.Concat(w.ctx.Extract(i64(a[1]), 63, 63), w.ctx.Extract(i64(a[0]), 62, 0))
	})
	for _, n := range []string{"math.Exp", "math.exp", "math.archExp"} {
		reg(n, func(w *W, fr *frame, a []Value) Value { return w.ctx.Fn("exp", 64, i64(a[0])) })
	}
	for _, n := range []string{"Log", "Log1p", "Expm1", "Tanh"} {
		ln := strings.ToLower(n)
		reg("math."+n, func(w *W, fr *frame, a []Value) Value { return w.ctx.Fn(ln, 64, i64(a[0])) })
	}
	reg("math.Pow", func(w *W, fr *frame, a []Value) Value { return w.ctx.Fn("pow", 64, i64(a[0]), i64(a[1])) })
	reg("math.Mod", func(w *W, fr *frame, a []Value) Value { return w.ctx.Fn("mod", 64, i64(a[0]), i64(a[1])) })
	reg("math.FMA", func(w *W, fr *frame, a []Value) Value {
		return w.ctx.Fn("fma", 64, i64(a[0]), i64(a[1]), i64(a[2]))
	})
	for i, n := range []string{"Ceil", "Floor", "Trunc", "RoundToEven"} {
		m := uint64(i)
		reg("math."+n, func(w *W, fr *frame, a []Value) Value { return w.ctx.FRound(m, i64(a[0])) })
	}
	reg("math.Sqrt", func(w *W, fr *frame, a []Value) Value { return w.ctx.FSqrt(i64(a[0])) })
	reg("math.Max", func(w *W, fr *frame, a []Value) Value { return w.mathMinMax(false, i64(a[0]), i64(a[1])) })
	reg("math.Min", func(w *W, fr *frame, a []Value) Value { return w.mathMinMax(true, i64(a[0]), i64(a[1])) })
	// math/bits on symbolic values
	reg("math/bits.OnesCount32", func(w *W, fr *frame, a []Value) Value { return w.popcount(i64(a[0])) })
	reg("math/bits.OnesCount64", func(w *W, fr *frame, a []Value) Value { return w.popcount(i64(a[0])) })
	reg("math/bits.OnesCount", func(w *W, fr *frame, a []Value) Value { return w.popcount(i64(a[0])) })
	tz := func(w *W, fr *frame, a []Value) Value {
		c, x := w.ctx, i64(a[0])
		r := c.Const(64, uint64(x.W))
		for i := int(x.W) - 1; i >= 0; i-- {
			r = c.Ite(c.Eq(c.Extract(x, uint8(i), uint8(i)), c.Const(1, 1)), c.Const(64, uint64(i)), r)
		}
		return r
	}
	lz := func(w *W, fr *frame, a []Value) Value {
		c, x := w.ctx, i64(a[0])
		r := c.Const(64, 0)
		for i := 0; i < int(x.W); i++ {
			r = c.Ite(c.Eq(c.Extract(x, uint8(i), uint8(i)), c.Const(1, 1)), c.Const(64, uint64(i+1)), r)
		}
		return r
	}
	for _, s := range []string{"", "8", "16", "32", "64"} {
		reg("math/bits.TrailingZeros"+s, tz)
		reg("math/bits.Len"+s, lz)
		reg("math/bits.LeadingZeros"+s, func(w *W, fr *frame, a []Value) Value {
			return w.ctx.Bin(smt.OpBvSub, w.ctx.Const(64, uint64(i64(a[0]).W)), lz(w, fr, a).(*smt.Term))
		})
	}
}

func (w *W) popcount(x *smt.Term) Value {
	c := w.ctx
	if x.Op == smt.OpConst {
		n := 0
		for v := x.C; v != 0; v &= v - 1 {
			n++
		}
		return c.Const(64, uint64(n))
	}
	r := c.Const(64, 0)
	for i := uint8(0); i < x.W; i++ {
		r = c.Bin(smt.OpBvAdd, r, c.ZExt(c.Extract(x, i, i), 64))
	}
	return r
}

func (w *W) mathMinMax(min bool, x, y *smt.Term) Value {
	c := w.ctx
	inf := c.F64(math.Inf(1))
	if min {
		inf = c.F64(math.Inf(-1))
	}
	r := w.minmax(min, x, y, tinfo{kFloat, 64}).(*smt.Term)
	return c.Ite(c.Or(c.Eq(x, inf), c.Eq(y, inf)), inf, r)
}

// ---------- strings, strconv, bytealg ----------

func regStr(reg func(string, intrinsic)) {
	num := func(name string, f func(w *W, fr *frame, s *Str, a []Value) (Value, bool)) {
		reg(name, func(w *W, fr *frame, a []Value) Value {
			s := a[0].(*Str)
			if v, ok := f(w, fr, s, a); ok {
				return v
			}
			fn := w.e.Prog.ImportedPackage("strconv").Func(strings.TrimPrefix(name, "strconv."))
			p := w.prep(fn)
			return w.runFrame(p, a, nil, fr)
		})
	}
	rangeErr := func(w *W, s *Str) Value { return w.errorValue("strconv: parsing " + lbl(s) + ": value out of range") }
	synErr := func(w *W, s *Str) Value {
		return w.errorValue("strconv: parsing " + strconv.Quote(lbl(s)) + ": invalid syntax")
	}
	num("strconv.Atoi", func(w *W, fr *frame, s *Str, a []Value) (Value, bool) {
		if t, ok := w.lookTok(s); ok {
			if t.float {
				return Tuple{w.ctx.Const(64, 0), synErr(w, s)}, true
			}
			return Tuple{t.t, Iface{}}, true
		}
		if s.B != nil {
			return nil, false
		}
		v, err := strconv.Atoi(s.S)
		return Tuple{w.ctx.Const(64, uint64(v)), w.numErr(err)}, true
	})
	fits := func(w *W, t *smt.Term, bits int64, signed bool) bool {
		c := w.ctx
		if bits == 0 || bits == 64 {
			if signed {
				return true
			}
			return w.branch(c.Cmp(smt.OpSLe, c.Const(64, 0), t))
		}
		if signed {
			lo, hi := int64(-1)<<(bits-1), int64(1)<<(bits-1)-1
			return w.branch(c.And(c.Cmp(smt.OpSLe, c.Const(64, uint64(lo)), t), c.Cmp(smt.OpSLe, t, c.Const(64, uint64(hi)))))
		}
		return w.branch(c.Cmp(smt.OpULe, t, c.Const(64, uint64(1)<<bits-1)))
	}
	num("strconv.ParseInt", func(w *W, fr *frame, s *Str, a []Value) (Value, bool) {
		base, bits := w.concInt(i64(a[1]), true), w.concInt(i64(a[2]), true)
		if t, ok := w.lookTok(s); ok {
			if t.float {
				return Tuple{w.ctx.Const(64, 0), synErr(w, s)}, true
			}
			if !fits(w, t.t, bits, true) {
				return Tuple{w.ctx.Const(64, 0), rangeErr(w, s)}, true
			}
			return Tuple{t.t, Iface{}}, true
		}
		if s.B != nil {
			return nil, false
		}
		v, err := strconv.ParseInt(s.S, int(base), int(bits))
		return Tuple{w.ctx.Const(64, uint64(v)), w.numErr(err)}, true
	})
	num("strconv.ParseUint", func(w *W, fr *frame, s *Str, a []Value) (Value, bool) {
		base, bits := w.concInt(i64(a[1]), true), w.concInt(i64(a[2]), true)
		if t, ok := w.lookTok(s); ok {
			if t.float {
				return Tuple{w.ctx.Const(64, 0), synErr(w, s)}, true
			}
			if !w.branch(w.ctx.Cmp(smt.OpSLe, w.ctx.Const(64, 0), t.t)) {
				return Tuple{w.ctx.Const(64, 0), synErr(w, s)}, true
			}
			if !fits(w, t.t, bits, false) {
				return Tuple{w.ctx.Const(64, 0), rangeErr(w, s)}, true
			}
			return Tuple{t.t, Iface{}}, true
		}
		if s.B != nil {
			return nil, false
		}
		v, err := strconv.ParseUint(s.S, int(base), int(bits))
		return Tuple{w.ctx.Const(64, v), w.numErr(err)}, true
	})
	num("strconv.ParseFloat", func(w *W, fr *frame, s *Str, a []Value) (Value, bool) {
		bits := w.concInt(i64(a[1]), true)
		if t, ok := w.lookTok(s); ok {
			if !t.float {
				if !smallTok(t.t) {
					panic(unsupported("integer literal of unbounded size parsed as a float"))
				}
				return Tuple{w.ctx.Conv(smt.OpS64toF64, t.t), Iface{}}, true
			}
			if bits == 32 {
				f := w.ctx.Conv(smt.OpF64to32, t.t)
				inf := w.ctx.And(w.ctx.Eq(w.ctx.Extract(f, 30, 0), w.ctx.Const(31, 0x7f800000)), w.ctx.Not(w.ctx.Eq(w.ctx.Extract(t.t, 62, 0), w.ctx.Const(63, 0x7ff<<52))))
				if w.branch(inf) {
					return Tuple{w.ctx.Conv(smt.OpF32to64, f), rangeErr(w, s)}, true
				}
				return Tuple{w.ctx.Conv(smt.OpF32to64, f), Iface{}}, true
			}
			return Tuple{t.t, Iface{}}, true
		}
		if s.B != nil {
			// floats are parsed natively: enumerate the possible spellings
			bs := make([]byte, len(s.B))
			for i, b := range s.B {
				bs[i] = byte(w.concretize(b))
			}
			s = mkStr(string(bs))
		}
		v, err := strconv.ParseFloat(s.S, int(bits))
		return Tuple{w.ctx.F64(v), w.numErr(err)}, true
	})
	reg("strconv.FormatFloat", func(w *W, fr *frame, a []Value) Value {
		x := i64(a[0])
		f, prec, bits := byte(w.concretize(i64(a[1]))), int(w.concInt(i64(a[2]), true)), int(w.concInt(i64(a[3]), true))
		if x.Op == smt.OpConst {
			return mkStr(strconv.FormatFloat(math.Float64frombits(x.C), f, prec, bits))
		}
		return w.floatText(x, f, prec)
	})

	reg("strconv.AppendFloat", func(w *W, fr *frame, a []Value) Value {
		t := intrinsics["strconv.FormatFloat"](w, fr, a[1:]).(*Str)
		bs := w.strBytes(t)
		add := make([]Value, len(bs))
		for i := range bs {
			add[i] = bs[i]
		}
		return w.appendVals(a[0].([]Value), add, types.Typ[types.Byte])
	})

	// only error messages are quoted: symbolic characters are kept as they are
	reg("strconv.Quote", func(w *W, fr *frame, a []Value) Value {
		s := a[0].(*Str)
		if s.B == nil {
			return mkStr(strconv.Quote(s.S))
		}
		return w.strConcat(w.strConcat(mkStr("\""), s), mkStr("\""))
	})

	bytesOf := func(w *W, v Value) []*smt.Term {
		switch x := v.(type) {
		case *Str:
			return w.strBytes(x)
		case []Value:
			r := make([]*smt.Term, len(x))
			for i := range x {
				w.raceAccess(&x[i], false)
				r[i] = x[i].(*smt.Term)
			}
			return r
		}
		panic(unsupported("bytes"))
	}
	idxByte := func(w *W, fr *frame, a []Value) Value {
		b := bytesOf(w, a[0])
		for i := range b {
			if w.branch(w.ctx.Eq(b[i], i64(a[1]))) {
				return w.ctx.Const(64, uint64(i))
			}
		}
		return w.ctx.Const(64, ^uint64(0))
	}
	lastIdx := func(w *W, fr *frame, a []Value) Value {
		b := bytesOf(w, a[0])
		for i := len(b) - 1; i >= 0; i-- {
			if w.branch(w.ctx.Eq(b[i], i64(a[1]))) {
				return w.ctx.Const(64, uint64(i))
			}
		}
		return w.ctx.Const(64, ^uint64(0))
	}
	count := func(w *W, fr *frame, a []Value) Value {
		b := bytesOf(w, a[0])
		n := 0
		for i := range b {
			if w.branch(w.ctx.Eq(b[i], i64(a[1]))) {
				n++
			}
		}
		return w.ctx.Const(64, uint64(n))
	}
	index := func(w *W, fr *frame, a []Value) Value {
		b, s := bytesOf(w, a[0]), bytesOf(w, a[1])
		for i := 0; i+len(s) <= len(b); i++ {
			e := w.ctx.True
			for k := range s {
				e = w.ctx.And(e, w.ctx.Eq(b[i+k], s[k]))
			}
			if w.branch(e) {
				return w.ctx.Const(64, uint64(i))
			}
		}
		return w.ctx.Const(64, ^uint64(0))
	}
	for _, p := range []string{"internal/bytealg.", "internal/stringslite.", "strings.", "bytes."} {
		if p == "internal/bytealg." {
			reg(p+"IndexByte", idxByte)
			reg(p+"IndexByteString", idxByte)
			reg(p+"LastIndexByte", lastIdx)
			reg(p+"LastIndexByteString", lastIdx)
			reg(p+"Count", count)
			reg(p+"CountString", count)
			reg(p+"Index", index)
			reg(p+"IndexString", index)
			continue
		}
		if p == "internal/stringslite." {
			reg(p+"IndexByte", idxByte)
			reg(p+"Index", index)
		}
	}
	reg("strings.Index", index)
	reg("bytes.Index", index)
	reg("bytes.IndexByte", idxByte)
	cmp := func(w *W, fr *frame, a []Value) Value {
		x, y := w.strFromTerms(bytesOf(w, a[0])), w.strFromTerms(bytesOf(w, a[1]))
		if w.branch(w.strEq(x, y)) {
			return w.ctx.Const(64, 0)
		}
		if w.branch(w.strLess(x, y)) {
			return w.ctx.Const(64, ^uint64(0))
		}
		return w.ctx.Const(64, 1)
	}
	reg("internal/bytealg.Compare", cmp)
	reg("internal/bytealg.CompareString", cmp)
	reg("strings.Compare", cmp)
	reg("internal/bytealg.Equal", func(w *W, fr *frame, a []Value) Value {
		return w.strEq(w.strFromTerms(bytesOf(w, a[0])), w.strFromTerms(bytesOf(w, a[1])))
	})
	reg("internal/bytealg.MakeNoZero", func(w *W, fr *frame, a []Value) Value {
		n := int(w.concInt(i64(a[0]), true))
		return w.newSlice(types.Typ[types.Uint8], n, n)
	})
	reg("strings.Clone", func(w *W, fr *frame, a []Value) Value { return a[0] })
	reg("internal/stringslite.Clone", func(w *W, fr *frame, a []Value) Value { return a[0] })
	reg("internal/abi.NoEscape", func(w *W, fr *frame, a []Value) Value { return a[0] })
	reg("internal/abi.Escape", func(w *W, fr *frame, a []Value) Value { return a[0] })
	reg("runtime.KeepAlive", func(w *W, fr *frame, a []Value) Value { return nil })
	reg("runtime.GC", func(w *W, fr *frame, a []Value) Value { return nil })

	reg("sort.Slice", func(w *W, fr *frame, a []Value) Value { return w.sortSlice(fr, a) })
	reg("sort.SliceStable", func(w *W, fr *frame, a []Value) Value { return w.sortSlice(fr, a) })

	reg("errors.Is", func(w *W, fr *frame, a []Value) Value {
		e, t := a[0].(Iface), a[1].(Iface)
		for n := 0; n < 20 && e.T != nil; n++ {
			if t.T != nil && types.Identical(e.T, t.T) && w.branch(w.equal(e, t)) {
				return w.ctx.True
			}
			f := w.methodByName(e.T, "Unwrap")
			if f == nil {
				return w.ctx.False
			}
			r := w.callFn(f, []Value{e.V}, fr)
			ne, ok := r.(Iface)
			if !ok {
				return w.ctx.False
			}
			e = ne
		}
		return w.ctx.Bool(e.T == nil && t.T == nil)
	})
}

func smallTok(t *smt.Term) bool {
	return (t.Op == smt.OpSExt || t.Op == smt.OpZExt) && t.A[0].W <= 52
}

func (w *W) numErr(err error) Iface {
	if err == nil {
		return Iface{}
	}
	var ne *strconv.NumError
	if errors.As(err, &ne) {
		t := w.pkgType("strconv", "NumError")
		inner := "ErrSyntax"
		if ne.Err == strconv.ErrRange {
			inner = "ErrRange"
		}
		p := new(Value)
		*p = Struct{mkStr(ne.Func), mkStr(ne.Num), w.pkgVar("strconv", inner)}
		if ne.Err != strconv.ErrRange && ne.Err != strconv.ErrSyntax {
			(*p).(Struct)[2] = w.errorValue(ne.Err.Error())
		}
		return Iface{T: types.NewPointer(t), V: p}
	}
	return w.errorValue(err.Error())
}

func (w *W) sortSlice(fr *frame, a []Value) Value {
	s := a[0].(Iface).V.([]Value)
	less := a[1]
	lt := func(i, j int) bool {
		r := w.callValue(less, []Value{w.ctx.Const(64, uint64(i)), w.ctx.Const(64, uint64(j))}, fr)
		return w.branch(r.(*smt.Term))
	}
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && lt(j, j-1); j-- {
			x, y := copyVal(s[j]), copyVal(s[j-1])
			w.storeInto(&s[j], y)
			w.storeInto(&s[j-1], x)
		}
	}
	return nil
}

// floatText is the text of a symbolic float: a literal that parses back to the
// same value if the format is precise enough.
func (w *W) floatText(x *smt.Term, f byte, prec int) *Str {
	exact := prec < 0 || (f == 'g' || f == 'G') && prec >= 17 || (f == 'e' || f == 'E') && prec >= 16
	if x.W == 32 {
		x = w.ctx.Conv(smt.OpF32to64, x)
	}
	if exact {
		return w.mkTok(x, true)
	}
	return w.mkTok(w.ctx.Fn(fmt.Sprintf("fmt%c%d", f, prec), 64, x), true)
}

// ---------- fmt ----------

func regFmt(reg func(string, intrinsic)) {
	reg("fmt.Sprintf", func(w *W, fr *frame, a []Value) Value { return w.format(fr, a[0].(*Str), a[1].([]Value)) })
	reg("fmt.Errorf", func(w *W, fr *frame, a []Value) Value {
		fs := a[0].(*Str)
		args, _ := a[1].([]Value)
		msg := w.format(fr, fs, args)
		if fs.B == nil && strings.Contains(fs.S, "%w") {
			for _, x := range args {
				if i, ok := x.(Iface); ok && i.T != nil && w.methodByName(i.T, "Error") != nil {
					p := new(Value)
					*p = Struct{msg, i}
					return Iface{T: types.NewPointer(w.pkgType("fmt", "wrapError")), V: p}
				}
			}
		}
		return w.errorStr(msg)
	})
	reg("(*fmt.wrapError).Unwrap", func(w *W, fr *frame, a []Value) Value { return (*a[0].(*Value)).(Struct)[1] })
	reg("errors.As", func(w *W, fr *frame, a []Value) Value {
		err, _ := a[0].(Iface)
		to := a[1].(Iface)
		p, ok := to.V.(*Value)
		if !ok || p == nil {
			panic(unsupported("errors.As"))
		}
		elem := to.T.Underlying().(*types.Pointer).Elem()
		for err.T != nil {
			if it, ok := elem.Underlying().(*types.Interface); ok {
				if types.Implements(err.T, it) {
					w.store(p, err)
					return w.ctx.True
				}
			} else if types.Identical(err.T, elem) {
				w.store(p, err.V)
				return w.ctx.True
			}
			if w.methodByName(err.T, "Unwrap") == nil {
				break
			}
			err, _ = w.invoke(err, "Unwrap", nil, fr).(Iface)
		}
		return w.ctx.False
	})
	wr := func(w *W, fr *frame, dst Value, s *Str) Value {
		bs := w.strBytes(s)
		b := make([]Value, len(bs))
		for i := range bs {
			b[i] = bs[i]
		}
		return w.invoke(dst.(Iface), "Write", []Value{b}, fr)
	}
	reg("fmt.Fprintf", func(w *W, fr *frame, a []Value) Value {
		return wr(w, fr, a[0], w.format(fr, a[1].(*Str), a[2].([]Value)))
	})
	pr := func(w *W, fr *frame, args []Value, ln bool) *Str {
		s := emptyStr
		prevStr := true
		for i, x := range args {
			ifc := x.(Iface)
			_, isStr := ifc.V.(*Str)
			if i > 0 && (ln || !isStr && !prevStr) {
				s = w.strConcat(s, mkStr(" "))
			}
			prevStr = isStr
			s = w.strConcat(s, w.fmtArg(fr, ifc, 'v', "", -1))
		}
		if ln {
			s = w.strConcat(s, mkStr("\n"))
		}
		return s
	}
	reg("fmt.Fprint", func(w *W, fr *frame, a []Value) Value {
		args, _ := a[1].([]Value)
		return wr(w, fr, a[0], pr(w, fr, args, false))
	})
	reg("fmt.Fprintln", func(w *W, fr *frame, a []Value) Value {
		args, _ := a[1].([]Value)
		return wr(w, fr, a[0], pr(w, fr, args, true))
	})
	reg("fmt.Sprint", func(w *W, fr *frame, a []Value) Value {
		args, _ := a[0].([]Value)
		return pr(w, fr, args, false)
	})
	reg("fmt.Sprintln", func(w *W, fr *frame, a []Value) Value {
		args, _ := a[0].([]Value)
		return pr(w, fr, args, true)
	})
	ign := func(w *W, fr *frame, a []Value) Value { return Tuple{w.ctx.Const(64, 0), Iface{}} }
	reg("fmt.Printf", ign)
	reg("fmt.Println", ign)
	reg("fmt.Print", ign)
}

func (w *W) format(fr *frame, fs *Str, args []Value) *Str {
	if fs.B != nil {
		return mkStr("<symbolic format>")
	}
	s := fs.S
	out := emptyStr
	add := func(x *Str) { out = w.strConcat(out, x) }
	k := 0
	for i := 0; i < len(s); {
		if s[i] != '%' {
			j := strings.IndexByte(s[i:], '%')
			if j < 0 {
				j = len(s) - i
			}
			add(mkStr(s[i : i+j]))
			i += j
			continue
		}
		i++
		if i < len(s) && s[i] == '%' {
			add(mkStr("%"))
			i++
			continue
		}
		st := i
		for i < len(s) && strings.IndexByte("+-# 0123456789.*", s[i]) >= 0 {
			i++
		}
		if i >= len(s) {
			break
		}
		flags, verb := s[st:i], s[i]
		i++
		if k >= len(args) {
			add(mkStr("%!" + string(verb) + "(MISSING)"))
			continue
		}
		prec := -1
		if d := strings.IndexByte(flags, '.'); d >= 0 {
			prec, _ = strconv.Atoi(flags[d+1:])
		}
		add(w.fmtArg(fr, args[k].(Iface), verb, flags, prec))
		k++
	}
	return out
}

func (w *W) fmtArg(fr *frame, x Iface, verb byte, flags string, prec int) *Str {
	spec := "%" + flags + string(verb)
	if x.T == nil {
		return mkStr(fmt.Sprintf(spec, nil))
	}
	if verb == 'T' {
		return mkStr(x.T.String())
	}
	if verb == 'w' {
		spec, verb = "%v", 'v'
	}
	if verb == 'v' || verb == 's' || verb == 'q' {
		for _, m := range []string{"Error", "String"} {
			f := w.methodByName(x.T, m)
			if f != nil && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 1 {
				if p, ok := x.V.(*Value); ok && p == nil {
					return mkStr("<nil>")
				}
				if s, ok := w.callFn(f, []Value{x.V}, fr).(*Str); ok {
					return s
				}
			}
		}
	}
	if cyclic(x.V, map[*MapV]bool{}) {
		// fmt follows maps without end
		w.end("limit", "call depth")
	}
	ti := typeInfo(x.T)
	switch v := x.V.(type) {
	case *Str:
		if v.B == nil {
			return mkStr(fmt.Sprintf(spec, v.S))
		}
		if (verb == 's' || verb == 'v') && flags == "" {
			return v
		}
		return mkStr("<symbolic>")
	case *smt.Term:
		if v.Op == smt.OpConst {
			switch ti.k {
			case kBool:
				return mkStr(fmt.Sprintf(spec, v.C == 1))
			case kInt:
				return mkStr(fmt.Sprintf(spec, v.SVal()))
			case kUint:
				return mkStr(fmt.Sprintf(spec, v.C))
			case kFloat:
				if ti.w == 32 {
					return mkStr(fmt.Sprintf(spec, math.Float32frombits(uint32(v.C))))
				}
				return mkStr(fmt.Sprintf(spec, math.Float64frombits(v.C)))
			}
		}
		switch ti.k {
		case kFloat:
			f := verb
			if verb == 'v' {
				f = 'g'
			}
			if f == 'f' && prec < 0 {
				prec = 6
			}
			if f == 'e' && prec < 0 {
				prec = 6
			}
			return w.floatText(v, f, prec)
		case kInt, kUint:
			if (verb == 'd' || verb == 'v') && flags == "" {
				t := v
				if ti.k == kInt {
					t = w.ctx.SExt(t, 64)
				} else {
					t = w.ctx.ZExt(t, 64)
				}
				return w.mkTok(t, false)
			}
		case kBool:
			if w.branch(v) {
				return mkStr("true")
			}
			return mkStr("false")
		}
		return mkStr("<symbolic>")
	case []Value:
		if ti.k == kSlice && len(v) < 64 {
			el := x.T.Underlying().(*types.Slice).Elem()
			if typeInfo(el).w == 8 && (verb == 's') {
				return w.bytesToStr(v)
			}
			if _, isI := el.Underlying().(*types.Interface); isI {
				return mkStr("[...]")
			}
			s := mkStr("[")
			for i := range v {
				if i > 0 {
					s = w.strConcat(s, mkStr(" "))
				}
				s = w.strConcat(s, w.fmtArg(fr, Iface{T: el, V: v[i]}, 'v', "", -1))
			}
			return w.strConcat(s, mkStr("]"))
		}
	}
	return mkStr("{" + x.T.String() + "}")
}

// ---------- sync ----------

func regSync(reg func(string, intrinsic)) {
	reg("runtime.GOMAXPROCS", func(w *W, fr *frame, a []Value) Value { return w.ctx.Const(64, uint64(w.procs)) })
	reg("runtime.NumCPU", func(w *W, fr *frame, a []Value) Value { return w.ctx.Const(64, uint64(w.procs)) })
	reg("runtime.NumGoroutine", func(w *W, fr *frame, a []Value) Value {
		n := 0
		for _, g := range w.gs {
			if !g.done {
				n++
			}
		}
		return w.ctx.Const(64, uint64(n))
	})
	reg("runtime.Gosched", func(w *W, fr *frame, a []Value) Value { w.yieldPoint(); return nil })
	np := func(w *W) {
		if w.purel > 0 {
			panic(pureAbort{})
		}
	}
	wgAdd := func(w *W, p Value, d int) {
		np(w)
		s := w.syncOf(p)
		w.yieldPoint()
		s.n += d
		w.cur.h = mix(w.cur.h, 31, uint64(d))
		s.h += mix(w.cur.h, 32)
		if s.n < 0 {
			w.rtPanicRaw("sync: negative WaitGroup counter")
		}
		w.release(&s.vc)
	}
	reg("(*sync.WaitGroup).Add", func(w *W, fr *frame, a []Value) Value {
		wgAdd(w, a[0], int(w.concInt(i64(a[1]), true)))
		return nil
	})
	reg("(*sync.WaitGroup).Done", func(w *W, fr *frame, a []Value) Value { wgAdd(w, a[0], -1); return nil })
	reg("(*sync.WaitGroup).Wait", func(w *W, fr *frame, a []Value) Value {
		np(w)
		s := w.syncOf(a[0])
		w.yieldPoint()
		w.block("WaitGroup.Wait", func() bool { return s.n == 0 })
		w.cur.h = mix(w.cur.h, 33, s.h)
		w.acquire(s.vc)
		return nil
	})
	reg("(*sync.WaitGroup).Go", func(w *W, fr *frame, a []Value) Value {
		wgAdd(w, a[0], 1)
		fn := a[1]
		w.spawnFn(func() {
			w.callValue(fn, nil, nil)
			wgAdd(w, a[0], -1)
		})
		return nil
	})
	lock := func(w *W, fr *frame, a []Value) Value {
		np(w)
		s := w.syncOf(a[0])
		w.yieldPoint()
		w.block("Mutex.Lock", func() bool { return !s.locked && s.n == 0 })
		s.locked = true
		w.event(&s.h, 34)
		w.acquire(s.vc)
		return nil
	}
	unlock := func(w *W, fr *frame, a []Value) Value {
		np(w)
		s := w.syncOf(a[0])
		if !s.locked {
			w.rtPanicRaw("sync: unlock of unlocked mutex")
		}
		s.locked = false
		w.event(&s.h, 35)
		w.release(&s.vc)
		w.yieldPoint()
		return nil
	}
	reg("(*sync.Mutex).Lock", lock)
	reg("(*sync.Mutex).Unlock", unlock)
	reg("(*sync.Mutex).TryLock", func(w *W, fr *frame, a []Value) Value {
		np(w)
		s := w.syncOf(a[0])
		w.yieldPoint()
		w.event(&s.h, 36)
		if s.locked {
			return w.ctx.False
		}
		s.locked = true
		w.event(&s.h, 34)
		w.acquire(s.vc)
		return w.ctx.True
	})
	reg("(*sync.RWMutex).Lock", lock)
	reg("(*sync.RWMutex).Unlock", unlock)
	reg("(*sync.RWMutex).RLock", func(w *W, fr *frame, a []Value) Value {
		np(w)
		s := w.syncOf(a[0])
		w.yieldPoint()
		w.block("RWMutex.RLock", func() bool { return !s.locked })
		s.n++
		w.event(&s.h, 37)
		w.acquire(s.vc)
		return nil
	})
	reg("(*sync.RWMutex).RUnlock", func(w *W, fr *frame, a []Value) Value {
		np(w)
		s := w.syncOf(a[0])
		s.n--
		w.event(&s.h, 38)
		w.release(&s.vc)
		w.yieldPoint()
		return nil
	})
	reg("(*sync.RWMutex).TryLock", func(w *W, fr *frame, a []Value) Value {
		np(w)
		s := w.syncOf(a[0])
		w.yieldPoint()
		w.event(&s.h, 36)
		if s.locked || s.n != 0 {
			return w.ctx.False
		}
		s.locked = true
		w.event(&s.h, 34)
		w.acquire(s.vc)
		return w.ctx.True
	})
	reg("(*sync.RWMutex).TryRLock", func(w *W, fr *frame, a []Value) Value {
		np(w)
		s := w.syncOf(a[0])
		w.yieldPoint()
		w.event(&s.h, 36)
		if s.locked {
			return w.ctx.False
		}
		s.n++
		w.event(&s.h, 37)
		w.acquire(s.vc)
		return w.ctx.True
	})
	regCond(reg, np)
	regSyncMap(reg, np)
	reg("(*sync.Once).Do", func(w *W, fr *frame, a []Value) Value {
		np(w)
		s := w.syncOf(a[0])
		w.yieldPoint()
		w.event(&s.h, 39)
		if s.done {
			w.block("Once.Do", func() bool { return !s.locked })
			w.acquire(s.vc)
			return nil
		}
		s.done, s.locked = true, true
		defer func() { s.locked = false }()
		w.callValue(a[1], nil, fr)
		w.release(&s.vc)
		return nil
	})
	reg("(*sync.Pool).Get", func(w *W, fr *frame, a []Value) Value {
		np(w)
		s := w.syncOf(a[0])
		w.yieldPoint()
		w.event(&s.h, 40)
		if n := len(s.pool); n > 0 {
			v := s.pool[n-1]
			s.pool = s.pool[:n-1]
			w.acquire(s.vc)
			return v
		}
		// field New is the last field of sync.Pool
		st := (*(a[0].(*Value))).(Struct)
		fn := st[len(st)-1]
		if isNilFunc(fn) {
			return Iface{}
		}
		return w.callValue(fn, nil, fr)
	})
	reg("(*sync.Pool).Put", func(w *W, fr *frame, a []Value) Value {
		np(w)
		s := w.syncOf(a[0])
		w.event(&s.h, 41)
		w.release(&s.vc)
		s.pool = append(s.pool, a[1])
		w.yieldPoint()
		return nil
	})
	// atomics: sequentially consistent, ordered through one clock per cell
	at := func(w *W, p Value) *Value {
		np(w)
		q, ok := p.(*Value)
		if !ok || q == nil {
			w.nilPanic()
		}
		w.yieldPoint()
		s := w.syncOf(q)
		w.event(&s.h, 42)
		w.acquire(s.vc)
		w.release(&s.vc)
		return q
	}
	cellOf := func(q *Value) *Value {
		// typed atomics keep the value in their last field
		for {
			st, ok := (*q).(Struct)
			if !ok {
				return q
			}
			q = &st[len(st)-1]
		}
	}
	load := func(w *W, fr *frame, a []Value) Value { return copyVal(*cellOf(at(w, a[0]))) }
	store := func(w *W, fr *frame, a []Value) Value { w.store(cellOf(at(w, a[0])), a[1]); return nil }
	swap := func(w *W, fr *frame, a []Value) Value {
		c := cellOf(at(w, a[0]))
		old := *c
		w.store(c, a[1])
		return old
	}
	add := func(w *W, fr *frame, a []Value) Value {
		c := cellOf(at(w, a[0]))
		n := w.ctx.Bin(smt.OpBvAdd, (*c).(*smt.Term), i64(a[1]))
		w.store(c, n)
		return n
	}
	cas := func(w *W, fr *frame, a []Value) Value {
		c := cellOf(at(w, a[0]))
		if w.branch(w.equal(*c, a[1])) {
			w.store(c, a[2])
			return w.ctx.True
		}
		return w.ctx.False
	}
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		reg("sync/atomic.Load"+t, load)
		reg("sync/atomic.Store"+t, store)
		reg("sync/atomic.Swap"+t, swap)
		reg("sync/atomic.Add"+t, add)
		reg("sync/atomic.CompareAndSwap"+t, cas)
		r := "(*sync/atomic." + t + ")."
		reg(r+"Load", load)
		reg(r+"Store", store)
		reg(r+"Swap", swap)
		reg(r+"Add", add)
		reg(r+"CompareAndSwap", cas)
	}
	reg("(*sync/atomic.Bool).Load", func(w *W, fr *frame, a []Value) Value {
		return w.ctx.Not(w.ctx.Eq((*cellOf(at(w, a[0]))).(*smt.Term), w.ctx.Const(32, 0)))
	})
	reg("(*sync/atomic.Bool).Store", func(w *W, fr *frame, a []Value) Value {
		w.store(cellOf(at(w, a[0])), w.ctx.Ite(i64(a[1]), w.ctx.Const(32, 1), w.ctx.Const(32, 0)))
		return nil
	})
}

// regCond models condition variables: waiters are numbered and released in that order.
func regCond(reg func(string, intrinsic), np func(w *W)) {
	fields := func(w *W) *types.Struct {
		return w.e.Prog.ImportedPackage("sync").Type("Cond").Type().Underlying().(*types.Struct)
	}
	lockerAt := func(w *W) int {
		st := fields(w)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "L" {
				return i
			}
		}
		panic(unsupported("sync.Cond"))
	}
	reg("sync.NewCond", func(w *W, fr *frame, a []Value) Value {
		v := w.zero(w.e.Prog.ImportedPackage("sync").Type("Cond").Type())
		v.(Struct)[lockerAt(w)] = a[0]
		return &v
	})
	reg("(*sync.Cond).Wait", func(w *W, fr *frame, a []Value) Value {
		np(w)
		s := w.syncOf(a[0])
		l := (*(a[0].(*Value))).(Struct)[lockerAt(w)].(Iface)
		ticket := s.n
		s.n++
		w.event(&s.h, 43)
		w.invoke(l, "Unlock", nil, fr)
		w.block("Cond.Wait", func() bool { return ticket < s.waiting })
		w.event(&s.h, 44)
		w.acquire(s.vc)
		w.invoke(l, "Lock", nil, fr)
		return nil
	})
	wake := func(all bool) intrinsic {
		return func(w *W, fr *frame, a []Value) Value {
			np(w)
			s := w.syncOf(a[0])
			w.yieldPoint()
			w.event(&s.h, 45)
			w.release(&s.vc)
			if all {
				s.waiting = s.n
			} else if s.waiting < s.n {
				s.waiting++
			}
			w.yieldPoint()
			return nil
		}
	}
	reg("(*sync.Cond).Signal", wake(false))
	reg("(*sync.Cond).Broadcast", wake(true))
}

// regSyncMap models sync.Map and atomic.Value: every operation is atomic and ordered after the ones before it.
func regSyncMap(reg func(string, intrinsic), np func(w *W)) {
	key := tinfo{kIface, 0}
	op := func(name string, f func(w *W, fr *frame, m *MapV, a []Value) Value) {
		reg("(*sync.Map)."+name, func(w *W, fr *frame, a []Value) Value {
			np(w)
			s := w.syncOf(a[0])
			w.yieldPoint()
			w.event(&s.h, 46)
			w.acquire(s.vc)
			if s.m == nil {
				s.m = w.newMap()
			}
			r := f(w, fr, s.m, a[1:])
			w.release(&s.vc)
			return r
		})
	}
	get := func(w *W, m *MapV, k Value) (Value, bool) {
		if i := w.mapFind(m, k, key); i >= 0 {
			return m.ents[i].v, true
		}
		return Iface{}, false
	}
	pair := func(w *W, v Value, ok bool) Value { return Tuple{v, w.ctx.Bool(ok)} }
	op("Load", func(w *W, fr *frame, m *MapV, a []Value) Value { v, ok := get(w, m, a[0]); return pair(w, v, ok) })
	op("Store", func(w *W, fr *frame, m *MapV, a []Value) Value { w.mapSet(m, a[0], a[1], key); return nil })
	op("Swap", func(w *W, fr *frame, m *MapV, a []Value) Value {
		v, ok := get(w, m, a[0])
		w.mapSet(m, a[0], a[1], key)
		return pair(w, v, ok)
	})
	op("LoadOrStore", func(w *W, fr *frame, m *MapV, a []Value) Value {
		v, ok := get(w, m, a[0])
		if !ok {
			w.mapSet(m, a[0], a[1], key)
			v = a[1]
		}
		return pair(w, v, ok)
	})
	op("LoadAndDelete", func(w *W, fr *frame, m *MapV, a []Value) Value {
		v, ok := get(w, m, a[0])
		w.mapDelete(m, a[0], key)
		return pair(w, v, ok)
	})
	op("Delete", func(w *W, fr *frame, m *MapV, a []Value) Value { w.mapDelete(m, a[0], key); return nil })
	op("Clear", func(w *W, fr *frame, m *MapV, a []Value) Value {
		for _, e := range append([]*mapEntry{}, m.ents...) {
			if e != nil {
				w.mapDelete(m, e.k, key)
			}
		}
		return nil
	})
	op("Range", func(w *W, fr *frame, m *MapV, a []Value) Value {
		for _, e := range append([]*mapEntry{}, m.ents...) {
			if e != nil && !w.branch(i64(w.callValue(a[0], []Value{e.k, e.v}, fr))) {
				break
			}
		}
		return nil
	})
	val := func(name string, f func(w *W, s *syncState, a []Value) Value) {
		reg("(*sync/atomic.Value)."+name, func(w *W, fr *frame, a []Value) Value {
			np(w)
			s := w.syncOf(a[0])
			w.yieldPoint()
			w.event(&s.h, 47)
			w.acquire(s.vc)
			if len(s.pool) == 0 {
				s.pool = []Value{Iface{}}
			}
			r := f(w, s, a[1:])
			w.release(&s.vc)
			return r
		})
	}
	val("Load", func(w *W, s *syncState, a []Value) Value { return s.pool[0] })
	val("Store", func(w *W, s *syncState, a []Value) Value { s.pool[0] = a[0]; return nil })
	val("Swap", func(w *W, s *syncState, a []Value) Value { old := s.pool[0]; s.pool[0] = a[0]; return old })
	val("CompareAndSwap", func(w *W, s *syncState, a []Value) Value {
		if w.branch(w.equal(s.pool[0], a[0])) {
			s.pool[0] = a[1]
			return w.ctx.True
		}
		return w.ctx.False
	})
}

func (w *W) rtPanicRaw(msg string) {
	panic(&goPanic{v: w.errorValue(msg), msg: msg, runtime: true})
}

// closeTerm distributes vf.Close over the alternatives of its operands; on operands that are not constants it is equality.
func (w *W) closeTerm(x, y, sc *smt.Term, budget *int) *smt.Term {
	for i, t := range []*smt.Term{x, y, sc} {
		if t.Op == smt.OpIte && *budget > 0 {
			*budget--
			l := [2][3]*smt.Term{{x, y, sc}, {x, y, sc}}
			l[0][i], l[1][i] = t.A[1], t.A[2]
			return w.ctx.Ite(t.A[0], w.closeTerm(l[0][0], l[0][1], l[0][2], budget), w.closeTerm(l[1][0], l[1][1], l[1][2], budget))
		}
	}
	if x.Op == smt.OpConst && y.Op == smt.OpConst && sc.Op == smt.OpConst {
		return w.ctx.Bool(CloseF(math.Float64frombits(x.C), math.Float64frombits(y.C), math.Float64frombits(sc.C)))
	}
	return w.ctx.Or(w.same(x, y), w.ctx.FCmp(smt.OpFEq, x, y))
}

// cyclic tells whether a value contains a map that contains itself. Values that fmt does not follow are not either.
func cyclic(v Value, on map[*MapV]bool) bool {
	switch v := v.(type) {
	case Iface:
		return cyclic(v.V, on)
	case []Value:
		for _, x := range v {
			if _, ok := x.(*smt.Term); ok {
				return false
			}
			if cyclic(x, on) {
				return true
			}
		}
	case Struct:
		for _, x := range v {
			if cyclic(x, on) {
				return true
			}
		}
	case Array:
		for _, x := range v {
			if cyclic(x, on) {
				return true
			}
		}
	case *MapV:
		if v == nil {
			return false
		}
		if on[v] {
			return true
		}
		on[v] = true
		for _, e := range v.ents {
			if e != nil && (cyclic(e.k, on) || cyclic(e.v, on)) {
				return true
			}
		}
		delete(on, v)
	}
	return false
}
