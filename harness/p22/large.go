package p22

import (
	"github.com/dmitryikh/leaves/zzverif/mk"
	"github.com/dmitryikh/leaves/zzverif/vf"
)

// HLong : strings of 300, 5000 and 70000 bytes with an arbitrary one at the start, around the 256th, the 4096th or the 65536th byte or at the end.
func HLong() {
	vf.Steps(60000000)
	n := []int{300, 5000, 70000}[vf.Choose("length", 3)]
	v := &val{kind: kStr, s: make([]byte, n)}
	for i := range v.s {
		v.s[i] = "abcdefg"[i%7]
	}
	at := []int{0, 254, 255, 256, 4090, 4093, 4094, 4095, 4096, 65533, 65534, 65535, n - 1}[vf.Choose("at", 13)]
	vf.Assume(at < n && (n < 70000 || at == 65535))
	v.s[at] = vf.Byte("char")
	p := &pickler{esc: n < 70000 && vf.Choose("escapes", 2) == 1}
	p.str(v.s)
	p.s("p0\n.")
	check(v, decode(p.b))
}

// HMany : 700 strings, each referred to again, and numbers in one list, tuple or dictionary, written in either way.
func HMany() {
	vf.Steps(60000000)
	const n = 700
	kind := vf.Choose("kind", 3)
	p := &pickler{form: vf.Choose("form", 2)}
	v := &val{kind: []int{kTuple, kList, kDict}[kind]}
	p.s("(")
	begin := "(" + []string{"", "l", "d"}[kind]
	if kind == 0 || p.form == 1 {
		begin = "("
	}
	p.s(begin)
	end := func(t string) {
		if p.form == 0 && kind > 0 {
			p.s(t)
		}
	}
	at := []int{255, 256, n - 1}[vf.Choose("at", 3)]
	for i := 0; i < n; i++ {
		if kind == 2 {
			k := &val{kind: kStr, s: key(2 * i)}
			p.str(k.s)
			v.items = append(v.items, k)
		}
		w := &val{kind: kStr, s: []byte{byte('a' + i%26), byte('a' + i/26)}}
		if i == at {
			w.s[1] = vf.Byte("char")
		}
		p.str(w.s)
		p.put(w)
		v.items = append(v.items, w)
		end([]string{"", "a", "s"}[kind])
	}
	for i := 0; i < n; i++ {
		if kind == 2 {
			k := &val{kind: kStr, s: key(2*i + 1)}
			p.str(k.s)
			v.items = append(v.items, k)
		}
		w := &val{kind: kInt, i: i}
		if i%2 == 0 {
			w = p.memo[(i+at)%n]
			p.s("g" + w.memo + "\n")
		} else {
			p.s("I" + mk.I(i) + "\n")
		}
		v.items = append(v.items, w)
		end([]string{"", "a", "s"}[kind])
	}
	if kind == 0 || p.form == 1 {
		p.s([]string{"t", "l", "d"}[kind])
	}
	w := &val{kind: kInt, i: int(vf.I64("int"))}
	p.s("I" + vf.IntTok(int64(w.i)) + "\nt.")
	check(&val{kind: kTuple, items: []*val{v, w}}, decode(p.b))
}

// HDeep : lists, tuples and dictionaries nested 600 deep.
func HDeep() {
	const n = 600
	vf.Steps(60000000)
	kind := vf.Choose("kind", 4)
	v := &val{kind: kInt, i: int(vf.I64("int"))}
	s := "I" + vf.IntTok(int64(v.i)) + "\n"
	k := &val{kind: kStr, s: []byte("k")}
	for i := 0; i < n; i++ {
		m := kind
		if m == 3 {
			m = i % 3
		}
		switch m {
		case 0:
			v = &val{kind: kTuple, items: []*val{v}}
			s = "(" + s + "t"
		case 1:
			v = &val{kind: kList, items: []*val{v, {kind: kNone}}}
			s = "(l" + s + "aNa"
		default:
			v = &val{kind: kDict, items: []*val{k, v}}
			s = "(dVk\n" + s + "s"
		}
	}
	check(v, decode([]byte(s+".")))
}
