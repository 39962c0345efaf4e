package p22

import (
	"bytes"
	"math"

	"github.com/dmitryikh/leaves/internal/pickle"
	"github.com/dmitryikh/leaves/zzverif/mk"
	"github.com/dmitryikh/leaves/zzverif/vf"
)

type val struct {
	kind  int
	i     int
	f     float64
	s     []byte
	items []*val // tuple, list; keys and values of a dict
	memo  string // name in the memo
}

const (
	kInt = iota
	kNone
	kStr
	kTuple
	kList
	kDict
	kFloat
	kRef
)

type pickler struct {
	b    []byte
	memo []*val
	form int // 0: as Python writes; 1: containers built from the stack in one go, memo entries for containers and strings only
	left int
	esc  bool // escapes as written by Python 3.8 and later
	raw  bool // backslashes that cannot start an escape are not escaped
}

func (p *pickler) s(t string) { p.b = append(p.b, t...) }

func (p *pickler) put(v *val) {
	v.memo = mk.I(len(p.memo))
	p.memo = append(p.memo, v)
	p.s("p" + v.memo + "\n")
}

const hex = "0123456789abcdef"

func (p *pickler) str(b []byte) {
	p.s("V")
	for i, c := range b {
		if c == '\\' && p.raw {
			for i < len(b) && b[i] == '\\' {
				i++
			}
			if i == len(b) || b[i] != 'u' && b[i] != '\n' && (!p.esc || b[i] != 0 && b[i] != '\r' && b[i] != 0x1a) {
				p.b = append(p.b, c)
				continue
			}
		}
		if c == '\n' || c == '\\' || p.esc && (c == 0 || c == '\r' || c == 0x1a) {
			p.s("\\u00")
			p.b = append(p.b, hex[c>>4], hex[c&15])
		} else {
			p.b = append(p.b, c)
		}
	}
	p.s("\n")
}

// key is a key of its own for each place.
func key(n int) []byte { return []byte("k" + mk.I(n)) }

// gen writes a value of at most p.left nodes.
func (p *pickler) gen(depth int, dictKey int) *val {
	p.left--
	v := &val{}
	kinds := kInt
	if depth > 0 {
		kinds = kRef
	} else {
		kinds = kTuple
	}
	if len(p.memo) > 0 {
		v.kind = vf.Choose("kind", kinds+1)
		if v.kind == kinds {
			v.kind = kRef
		}
	} else {
		v.kind = vf.Choose("kind", kinds)
	}
	switch v.kind {
	case kInt:
		v.i = int(vf.I64("int"))
		if p.form == 0 {
			p.s("L" + vf.IntTok(int64(v.i)) + "L\n")
		} else {
			p.s("I" + vf.IntTok(int64(v.i)) + "\n")
		}
	case kNone:
		p.s("N")
	case kStr:
		v.s = []byte{vf.Byte("char")}
		p.str(v.s)
		p.put(v)
	case kFloat:
		v.f = vf.F64("float")
		vf.Assume(!math.IsNaN(v.f) && !math.IsInf(v.f, 0))
		p.s("F" + vf.FloatTok(v.f) + "\n")
	case kRef:
		// only complete objects: no cycles
		r := p.memo[vf.Choose("which", len(p.memo))]
		vf.Assume(r.memo != "")
		p.s("g" + r.memo + "\n")
		return r
	case kTuple:
		p.s("(")
		p.gens(v, depth, 0)
		p.s("t")
		if len(v.items) > 0 {
			p.put(v)
		}
	case kList:
		p.s("(")
		if p.form == 0 {
			p.s("l")
			p.open(v)
			p.gens(v, depth, 1)
			p.close(v)
		} else {
			p.gens(v, depth, 0)
			p.s("l")
			p.put(v)
		}
	case kDict:
		p.s("(")
		if p.form == 0 {
			p.s("d")
			p.open(v)
			p.gens(v, depth, 2)
			p.close(v)
		} else {
			p.gens(v, depth, 3)
			p.s("d")
			p.put(v)
		}
	}
	return v
}

// open stores an object in the memo that must not be referred to yet.
func (p *pickler) open(v *val) {
	p.put(v)
	v.memo = ""
}

func (p *pickler) close(v *val) {
	for i, w := range p.memo {
		if w == v {
			v.memo = mk.I(i)
		}
	}
}

// gens writes items: 0 on the stack, 1 appended, 2 set one by one, 3 keys and values on the stack.
func (p *pickler) gens(v *val, depth, how int) {
	for p.left > 0 && vf.Choose("more", 2) == 1 {
		if how >= 2 {
			k := &val{kind: kStr, s: key(len(v.items) / 2)}
			p.str(k.s)
			p.put(k)
			v.items = append(v.items, k)
		}
		v.items = append(v.items, p.gen(depth-1, -1))
		if how == 1 {
			p.s("a")
		}
		if how == 2 {
			p.s("s")
		}
	}
}

func check(v *val, got interface{}) {
	switch v.kind {
	case kInt:
		g, ok := got.(int)
		vf.Assert(ok && g == v.i, "an integer")
	case kNone:
		_, ok := got.(pickle.None)
		vf.Assert(ok, "None")
	case kStr:
		g, ok := got.(pickle.Unicode)
		vf.Assert(ok && len(g) == len(v.s), "a string of its length")
		for i := range g {
			vf.Assert(g[i] == v.s[i], "the bytes of a string")
		}
	case kFloat:
		g, ok := got.(float64)
		vf.Assert(ok && vf.SameBits(g, v.f), "a float")
	case kTuple:
		g, ok := got.(pickle.Tuple)
		vf.Assert(ok && len(g) == len(v.items), "a tuple of its length")
		for i := range v.items {
			check(v.items[i], g[i])
		}
	case kList:
		g, ok := got.(pickle.List)
		vf.Assert(ok && len(g) == len(v.items), "a list of its length")
		for i := range v.items {
			check(v.items[i], g[i])
		}
	case kDict:
		g, ok := got.(pickle.Dict)
		vf.Assert(ok && len(g) == len(v.items)/2, "a dictionary of its length")
		for i := 0; i < len(v.items); i += 2 {
			e, ok := g[string(v.items[i].s)]
			vf.Assert(ok, "a dictionary has its keys")
			check(v.items[i+1], e)
		}
	}
}

func decode(b []byte) interface{} {
	got, err := pickle.NewDecoder(bytes.NewReader(b)).Decode()
	vf.Assert(err == nil, "a well-formed pickle is decoded")
	return got
}

// HNested : all values of at most 4 (thorough: 5) nodes nested up to 3 deep, in two ways of writing, with all references to
// complete earlier objects; integers, floats and characters are arbitrary.
func HNested() {
	p := &pickler{left: 4 + vf.Tier(), form: vf.Choose("form", 2)}
	if p.form == 1 {
		p.left--
	}
	p.s("(")
	p.left++
	top := &val{kind: kTuple}
	p.left--
	top.items = append(top.items, p.gen(3, -1))
	p.s("t.")
	check(top, decode(p.b))
}

// HShared : an object used twice, also inside of itself's siblings.
func HShared() {
	p := &pickler{left: 2 + vf.Tier(), form: vf.Choose("form", 2)}
	p.s("(")
	first := p.gen(2, -1)
	p.left = 2
	second := p.gen(2, -1)
	p.left = 1
	third := p.gen(0, -1)
	p.s("t.")
	check(&val{kind: kTuple, items: []*val{first, second, third}}, decode(p.b))
}

// HStrings : all strings of at most 4 (thorough: 6) bytes, as older and as newer Pythons write them.
func HStrings() {
	n := vf.Choose("length", 5+2*vf.Tier())
	p := &pickler{esc: vf.Choose("escapes", 2) == 1}
	v := &val{kind: kStr}
	for i := 0; i < n; i++ {
		v.s = append(v.s, vf.Byte("char"))
	}
	p.str(v.s)
	p.s("p0\n.")
	check(v, decode(p.b))
}

// HEscapes : strings around what looks like an escape, with all backslashes escaped or only those that have to be.
func HEscapes() {
	p := &pickler{esc: vf.Choose("escapes", 2) == 1, raw: vf.Choose("raw backslashes", 2) == 1}
	v := &val{kind: kStr}
	parts := []string{"\\", "u", "U", "0", "00", "5c", "0a", "\n", "x"}
	for i := 0; i < 4+vf.Tier(); i++ {
		v.s = append(v.s, parts[vf.Choose("part", len(parts))]...)
	}
	p.str(v.s)
	p.s(".")
	check(v, decode(p.b))
}

// HNumbers : all int64 in both notations, booleans, all floats.
func HNumbers() {
	switch vf.Choose("kind", 4) {
	case 0:
		v := vf.I64("int")
		check(&val{kind: kInt, i: int(v)}, decode([]byte("I"+vf.IntTok(v)+"\n.")))
	case 1:
		v := vf.I64("int")
		check(&val{kind: kInt, i: int(v)}, decode([]byte("L"+vf.IntTok(v)+"L\n.")))
	case 2:
		v := vf.Choose("bool", 2)
		check(&val{kind: kInt, i: v}, decode([]byte("I0"+mk.I(v)+"\n.")))
	case 3:
		spec := []string{"", "inf", "-inf", "nan"}
		want := []float64{0, math.Inf(1), math.Inf(-1), math.NaN()}
		k := vf.Choose("special", 4)
		v, t := want[k], spec[k]
		if k == 0 {
			v = vf.F64("float")
			vf.Assume(!math.IsNaN(v) && !math.IsInf(v, 0))
			t = vf.FloatTok(v)
		}
		check(&val{kind: kFloat, f: v}, decode([]byte("F"+t+"\n.")))
	}
}

// HDict : a dictionary whose keys are arbitrary strings of at most 2 bytes: the last value of a key counts.
func HDict() {
	a, b := make([]byte, vf.Choose("length", 3)), make([]byte, vf.Choose("length", 3))
	for i := range a {
		a[i] = vf.Byte("char")
	}
	for i := range b {
		b[i] = vf.Byte("char")
	}
	p := &pickler{}
	if vf.Choose("form", 2) == 0 {
		p.s("(dp0\n")
		p.str(a)
		p.s("p1\nI1\ns")
		p.str(b)
		p.s("p2\nI2\ns.")
	} else {
		p.s("(")
		p.str(a)
		p.s("I1\n")
		p.str(b)
		p.s("I2\nd.")
	}
	d, ok := decode(p.b).(pickle.Dict)
	vf.Assert(ok, "a dictionary")
	if string(a) == string(b) {
		vf.Assert(len(d) == 1 && d[string(a)] == 2, "the last value of a key counts")
		vf.Cover("equal keys")
		return
	}
	vf.Assert(len(d) == 2 && d[string(a)] == 1 && d[string(b)] == 2, "each key has its value")
}
