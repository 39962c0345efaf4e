// Package exec executes go/ssa symbolically, path by path.
package exec

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"

	"gosym/smt"
)

// Value is one of:
//
//	*smt.Term   bool, integers, floats (bit pattern)
//	*Str        string
//	*Value      pointer to a cell
//	ElemPtr     pointer produced by unsafe.SliceData
//	[]Value     slice (nil = nil slice)
//	Struct      struct value, Array array value
//	*MapV, *ChanV
//	Iface       interface value (T == nil: nil interface)
//	*ssa.Function, *Closure, *ssa.Builtin, nil func = (*Closure)(nil)
//	Tuple
//	*Native     opaque engine-side object
type Value interface{}

type Struct []Value
type Array []Value
type Tuple []Value

type ElemPtr struct{ S []Value }

type Str struct {
	S string
	B []*smt.Term // non-nil: symbolic
}

type Iface struct {
	T types.Type
	V Value
}

type Closure struct {
	Fn  *ssa.Function
	Env []Value
}

type Native struct {
	Kind string
	X    interface{}
}

type NamedFn struct {
	Name string
	F    func(w *W, args []Value) Value
}

type mapEntry struct {
	k, v Value
}

type MapV struct {
	keys map[string]int // canonical concrete key -> index in ents
	ents []*mapEntry    // insertion order, nil = deleted
	n    int
	sym  []int // indices of entries with symbolic keys
	cell Value // race shadow anchor
}

type mapIter struct {
	m   *MapV
	pos int
}

type strIter struct {
	s   *Str
	pos int
}

func (s *Str) Len() int {
	if s.B != nil {
		return len(s.B)
	}
	return len(s.S)
}

var emptyStr = &Str{}

func mkStr(s string) *Str { return &Str{S: s} }

func (w *W) strFromTerms(b []*smt.Term) *Str {
	conc := true
	for _, t := range b {
		if t.Op != smt.OpConst {
			conc = false
			break
		}
	}
	if conc {
		bs := make([]byte, len(b))
		for i, t := range b {
			bs[i] = byte(t.C)
		}
		return &Str{S: string(bs)}
	}
	return &Str{B: b}
}

func (w *W) strByte(s *Str, i int) *smt.Term {
	if s.B != nil {
		return s.B[i]
	}
	return w.ctx.Const(8, uint64(s.S[i]))
}

func (w *W) strBytes(s *Str) []*smt.Term {
	if s.B != nil {
		return s.B
	}
	r := make([]*smt.Term, len(s.S))
	for i := range r {
		r[i] = w.ctx.Const(8, uint64(s.S[i]))
	}
	return r
}

func (w *W) strSlice(s *Str, lo, hi int) *Str {
	if s.B != nil {
		if lo == hi {
			return emptyStr
		}
		return w.strFromTerms(s.B[lo:hi])
	}
	return &Str{S: s.S[lo:hi]}
}

func (w *W) strConcat(a, b *Str) *Str {
	if a.B == nil && b.B == nil {
		return &Str{S: a.S + b.S}
	}
	if a.Len() == 0 {
		return b
	}
	if b.Len() == 0 {
		return a
	}
	r := make([]*smt.Term, 0, a.Len()+b.Len())
	r = append(r, w.strBytes(a)...)
	r = append(r, w.strBytes(b)...)
	return &Str{B: r}
}

// ---------- type info ----------

type kind uint8

const (
	kOther kind = iota
	kBool
	kInt
	kUint
	kFloat
	kString
	kPtr // pointer, unsafe.Pointer
	kSlice
	kStruct
	kArray
	kMap
	kChan
	kFunc
	kIface
	kTuple
	kComplex
)

type tinfo struct {
	k kind
	w uint8
}

func typeInfo(t types.Type) tinfo {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return tinfo{kBool, 0}
		case types.Int, types.Int64, types.UntypedInt:
			return tinfo{kInt, 64}
		case types.Int8:
			return tinfo{kInt, 8}
		case types.Int16:
			return tinfo{kInt, 16}
		case types.Int32, types.UntypedRune:
			return tinfo{kInt, 32}
		case types.Uint, types.Uint64, types.Uintptr:
			return tinfo{kUint, 64}
		case types.Uint8:
			return tinfo{kUint, 8}
		case types.Uint16:
			return tinfo{kUint, 16}
		case types.Uint32:
			return tinfo{kUint, 32}
		case types.Float64, types.UntypedFloat:
			return tinfo{kFloat, 64}
		case types.Float32:
			return tinfo{kFloat, 32}
		case types.String, types.UntypedString:
			return tinfo{kString, 0}
		case types.UnsafePointer, types.UntypedNil:
			return tinfo{kPtr, 0}
		case types.Complex64, types.Complex128, types.UntypedComplex:
			return tinfo{kComplex, 0}
		}
	case *types.Pointer:
		return tinfo{kPtr, 0}
	case *types.Slice:
		return tinfo{kSlice, 0}
	case *types.Struct:
		return tinfo{kStruct, 0}
	case *types.Array:
		return tinfo{kArray, 0}
	case *types.Map:
		return tinfo{kMap, 0}
	case *types.Chan:
		return tinfo{kChan, 0}
	case *types.Signature:
		return tinfo{kFunc, 0}
	case *types.Interface:
		return tinfo{kIface, 0}
	case *types.Tuple:
		return tinfo{kTuple, 0}
	}
	return tinfo{}
}

func (w *W) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		ti := typeInfo(t)
		switch ti.k {
		case kBool:
			return w.ctx.False
		case kInt, kUint, kFloat:
			return w.ctx.Const(ti.w, 0)
		case kString:
			return emptyStr
		case kPtr:
			return (*Value)(nil)
		}
		panic(unsupported("zero of " + t.String()))
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Slice:
		return []Value(nil)
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = w.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		n := u.Len()
		if n > maxAlloc {
			panic(unsupported("huge array"))
		}
		a := make(Array, n)
		if n == 0 {
			return a
		}
		z := w.zero(u.Elem())
		for i := range a {
			if i == 0 {
				a[i] = z
			} else {
				a[i] = copyVal(z)
			}
		}
		return a
	case *types.Map:
		return (*MapV)(nil)
	case *types.Chan:
		return (*ChanV)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Tuple:
		if u.Len() == 1 {
			return w.zero(u.At(0).Type())
		}
		tp := make(Tuple, u.Len())
		for i := range tp {
			tp[i] = w.zero(u.At(i).Type())
		}
		return tp
	}
	panic(unsupported("zero of " + t.String()))
}

// copyVal copies aggregates (value semantics).
func copyVal(v Value) Value {
	switch x := v.(type) {
	case Struct:
		r := make(Struct, len(x))
		for i := range x {
			r[i] = copyVal(x[i])
		}
		return r
	case Array:
		r := make(Array, len(x))
		for i := range x {
			r[i] = copyVal(x[i])
		}
		return r
	}
	return v
}

type unsupportedErr struct{ msg string }

func unsupported(msg string) unsupportedErr { return unsupportedErr{msg} }
func (u unsupportedErr) Error() string      { return "unsupported: " + u.msg }

// goPanic is a panic of the program under analysis.
type goPanic struct {
	v       Iface
	msg     string
	runtime bool
	goexit  bool
}

func (p *goPanic) Error() string { return "panic: " + p.msg }

// ---------- map keys ----------

// keyOf gives a canonical key for a concrete value; ok=false if symbolic.
func (w *W) keyOf(v Value) (string, bool) {
	switch x := v.(type) {
	case *smt.Term:
		if x.Op != smt.OpConst {
			return "", false
		}
		return fmt.Sprintf("i%d:%d", x.W, x.C), true
	case *Str:
		if x.B != nil {
			return "", false
		}
		return "s" + x.S, true
	case Iface:
		if x.T == nil {
			return "nil", true
		}
		k, ok := w.keyOf(x.V)
		return "I" + x.T.String() + "|" + k, ok
	case *Value, *MapV, *ChanV, *Closure, *Native:
		return fmt.Sprintf("p%p", x), true
	case Struct:
		return w.keyOfList([]Value(x))
	case Array:
		return w.keyOfList([]Value(x))
	}
	panic(unsupported(fmt.Sprintf("map key %T", v)))
}

func (w *W) keyOfList(l []Value) (string, bool) {
	var sb strings.Builder
	sb.WriteString("{")
	for _, e := range l {
		k, ok := w.keyOf(e)
		if !ok {
			return "", false
		}
		fmt.Fprintf(&sb, "%d/%s;", len(k), k)
	}
	return sb.String(), true
}

func (w *W) newMap() *MapV { return &MapV{keys: map[string]int{}} }

// find returns the entry index or -1; forks on symbolic keys.
func (w *W) mapFind(m *MapV, k Value, ti tinfo) int {
	if m == nil {
		return -1
	}
	if ti.k == kFloat {
		panic(unsupported("float map key"))
	}
	ks, conc := w.keyOf(k)
	if conc {
		if i, ok := m.keys[ks]; ok {
			return i
		}
		for _, i := range m.sym {
			if m.ents[i] != nil && w.branch(w.equal(m.ents[i].k, k)) {
				return i
			}
		}
		return -1
	}
	for i, e := range m.ents {
		if e == nil {
			continue
		}
		if w.branch(w.equal(e.k, k)) {
			return i
		}
	}
	return -1
}

func (w *W) mapSet(m *MapV, k, v Value, ti tinfo) {
	if m == nil {
		w.rtPanic("assignment to entry in nil map")
	}
	i := w.mapFind(m, k, ti)
	w.raceAccess(&m.cell, true)
	if i >= 0 {
		e := m.ents[i]
		old := e.v
		e.v = v
		w.undo(func() { e.v = old })
		return
	}
	idx := len(m.ents)
	m.ents = append(m.ents, &mapEntry{copyVal(k), v})
	m.n++
	ks, conc := w.keyOf(k)
	if conc {
		m.keys[ks] = idx
	} else {
		m.sym = append(m.sym, idx)
	}
	w.undo(func() {
		m.ents = m.ents[:idx]
		m.n--
		if conc {
			delete(m.keys, ks)
		} else {
			m.sym = m.sym[:len(m.sym)-1]
		}
	})
}

func (w *W) mapDelete(m *MapV, k Value, ti tinfo) {
	if m == nil {
		return
	}
	i := w.mapFind(m, k, ti)
	if i < 0 {
		return
	}
	w.raceAccess(&m.cell, true)
	e := m.ents[i]
	m.ents[i] = nil
	m.n--
	ks, conc := w.keyOf(e.k)
	if conc {
		delete(m.keys, ks)
	}
	w.undo(func() {
		m.ents[i] = e
		m.n++
		if conc {
			m.keys[ks] = i
		}
	})
}

// ---------- equality ----------

func (w *W) equal(a, b Value) *smt.Term {
	c := w.ctx
	switch x := a.(type) {
	case *smt.Term:
		return c.Eq(x, b.(*smt.Term))
	case *Str:
		return w.strEq(x, b.(*Str))
	case Iface:
		y := b.(Iface)
		if x.T == nil || y.T == nil {
			return c.Bool(x.T == nil && y.T == nil)
		}
		if !types.Identical(x.T, y.T) {
			return c.False
		}
		return w.equalT(x.V, y.V, x.T)
	case *Value:
		y, ok := b.(*Value)
		if !ok {
			if b == nil {
				return c.Bool(x == nil)
			}
			return c.False
		}
		return c.Bool(x == y)
	case []Value:
		// only comparison with nil
		y := b.([]Value)
		if y == nil || x == nil {
			return c.Bool((x == nil) == (y == nil))
		}
	case *MapV:
		return c.Bool(x == b.(*MapV))
	case *ChanV:
		return c.Bool(x == b.(*ChanV))
	case *Closure, *ssa.Function, *ssa.Builtin, *NamedFn:
		return c.Bool(isNilFunc(a) && isNilFunc(b))
	case *Native:
		y, ok := b.(*Native)
		return c.Bool(ok && x == y)
	case Struct:
		y := b.(Struct)
		r := c.True
		for i := range x {
			r = c.And(r, w.equal(x[i], y[i]))
		}
		return r
	case Array:
		y := b.(Array)
		r := c.True
		for i := range x {
			r = c.And(r, w.equal(x[i], y[i]))
		}
		return r
	case ElemPtr:
		if y, ok := b.(ElemPtr); ok && len(x.S) > 0 && len(y.S) > 0 {
			return c.Bool(&x.S[0] == &y.S[0])
		}
		return c.False
	}
	panic(unsupported(fmt.Sprintf("equal %T", a)))
}

// equalT is equality with float semantics where the type says so.
func (w *W) equalT(a, b Value, t types.Type) *smt.Term {
	c := w.ctx
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if typeInfo(t).k == kFloat {
			return c.FCmp(smt.OpFEq, a.(*smt.Term), b.(*smt.Term))
		}
	case *types.Struct:
		x, y := a.(Struct), b.(Struct)
		r := c.True
		for i := range x {
			r = c.And(r, w.equalT(x[i], y[i], u.Field(i).Type()))
		}
		return r
	case *types.Array:
		x, y := a.(Array), b.(Array)
		r := c.True
		for i := range x {
			r = c.And(r, w.equalT(x[i], y[i], u.Elem()))
		}
		return r
	case *types.Slice, *types.Map, *types.Signature:
		if _, ok := a.([]Value); ok {
			w.rtPanic("comparing uncomparable type " + t.String())
		}
	}
	return w.equal(a, b)
}

func isNilFunc(v Value) bool {
	switch x := v.(type) {
	case *Closure:
		return x == nil
	case *ssa.Function:
		return x == nil
	case *NamedFn:
		return x == nil
	}
	return false
}

func (w *W) strEq(a, b *Str) *smt.Term {
	c := w.ctx
	if a.Len() != b.Len() {
		return c.False
	}
	if a.B == nil && b.B == nil {
		return c.Bool(a.S == b.S)
	}
	r := c.True
	for i := 0; i < a.Len(); i++ {
		r = c.And(r, c.Eq(w.strByte(a, i), w.strByte(b, i)))
		if r.IsFalse() {
			return r
		}
	}
	return r
}

// strLess is a < b.
func (w *W) strLess(a, b *Str) *smt.Term {
	c := w.ctx
	if a.B == nil && b.B == nil {
		return c.Bool(a.S < b.S)
	}
	n := a.Len()
	if b.Len() < n {
		n = b.Len()
	}
	r := c.Bool(a.Len() < b.Len())
	for i := n - 1; i >= 0; i-- {
		x, y := w.strByte(a, i), w.strByte(b, i)
		r = c.Ite(c.Eq(x, y), r, c.Cmp(smt.OpULt, x, y))
	}
	return r
}

func f64of(t *smt.Term) float64 {
	if t.W == 32 {
		return float64(math.Float32frombits(uint32(t.C)))
	}
	return math.Float64frombits(t.C)
}
