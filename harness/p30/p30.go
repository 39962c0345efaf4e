package p30

import (
	"bufio"
	"bytes"
	"io/ioutil"
	"math"

	"github.com/dmitryikh/leaves/util"
	"github.com/dmitryikh/leaves/zzverif/mk"
	"github.com/dmitryikh/leaves/zzverif/vf"
)

func reader(b []byte) *bufio.Reader { return bufio.NewReader(bytes.NewReader(b)) }

func space(c byte) bool {
	return c == ' ' || c == '\t' || c == '\r' || c == '\n' || c == '\v' || c == '\f'
}

type pair struct{ key, val string }

// section is what the first section of a text says: its pairs, where the next one starts, whether it is malformed or missing.
func section(b []byte) (ps []pair, next int, bad, none bool) {
	at := 0
	for {
		if at == len(b) {
			return ps, at, false, ps == nil
		}
		end := at
		for end < len(b) && b[end] != '\n' {
			end++
		}
		lo, hi := at, end
		for lo < hi && space(b[lo]) {
			lo++
		}
		for lo < hi && space(b[hi-1]) {
			hi--
		}
		at = end
		if end < len(b) {
			at++
		}
		if lo == hi {
			if ps == nil {
				continue
			}
			return ps, at, false, false
		}
		eq := -1
		for i := lo; i < hi; i++ {
			if b[i] == '=' {
				if eq >= 0 {
					return nil, 0, true, false
				}
				eq = i
			}
		}
		if eq < 0 {
			ps = append(ps, pair{string(b[lo:hi]), ""})
		} else {
			ps = append(ps, pair{string(b[lo:eq]), string(b[eq+1 : hi])})
		}
	}
}

func compare(b []byte) {
	ps, next, bad, none := section(b)
	r := reader(b)
	got, err := util.ReadParamsUntilBlank(r)
	if bad || none {
		vf.Assert(err != nil, "no section, or a line with two = signs, is an error")
		return
	}
	vf.Assert(err == nil, "a section is read")
	distinct := 0
	for i, p := range ps {
		last := true
		for _, q := range ps[i+1:] {
			last = last && q.key != p.key
		}
		if last {
			distinct++
			v, ok := got[p.key]
			vf.Assert(ok && v == p.val, "every pair of the section is returned")
			s, err := got.ToString(p.key)
			vf.Assert(err == nil && s == p.val && got.Contains(p.key), "the accessors find every pair")
		}
	}
	vf.Assert(len(got) == distinct, "nothing but the pairs of the section is returned")
	rest, err := ioutil.ReadAll(r)
	vf.Assert(err == nil && string(rest) == string(b[next:]), "the rest of the stream is left for the next section")
	vf.ObserveInt(len(rest))
}

// HText : all texts of 0..6 (thorough: 7) ASCII bytes.
func HText() {
	b := make([]byte, vf.Choose("length", 7+vf.Tier()))
	for i := range b {
		b[i] = vf.Byte("text")
		vf.Assume(b[i] < 128)
	}
	compare(b)
}

// HLines : up to four lines, each blank, a key, a pair, with surrounding white space or two = signs, any line ending, the last
// one possibly without, the contents of one value any two bytes without line feed, '=' and white space.
func HLines() {
	x, y := vf.Byte("x"), vf.Byte("y")
	for _, c := range []byte{x, y} {
		vf.Assume(c > ' ' && c < 127 && c != '=')
	}
	forms := []string{"", " \t", "k1=v1", "flag", " k2=v 2\t", "k3=", "=v", "k1=" + string([]byte{x, y}), "a=b=c"}
	n := 1 + vf.Choose("lines-1", 3+vf.Tier())
	var b []byte
	end := []string{"\n", "\r\n"}[vf.Choose("line ending", 2)]
	for i := 0; i < n; i++ {
		b = append(b, forms[vf.Choose("line", len(forms))]...)
		if i < n-1 || vf.Choose("last line ends", 2) == 1 {
			b = append(b, end...)
		}
	}
	compare(b)
}

// HSections : two sections with one to three blank lines in between and in front, any values: each is read in its turn.
func HSections() {
	v := vf.F64("v")
	vf.Assume(v-v == 0)
	k := vf.I64("k")
	b := make([]byte, vf.Choose("blank lines", 4))
	for i := range b {
		b[i] = '\n'
	}
	b = append(b, "a="+vf.FloatTok(v)+"\nb=x\n"+"\n\n\n"[:1+vf.Choose("blank lines", 3)]...)
	b = append(b, "a="+vf.IntTok(k)+"\nc"...)
	r := reader(b)
	p, err := util.ReadParamsUntilBlank(r)
	vf.Assert(err == nil && len(p) == 2 && p["b"] == "x", "the first section")
	f, err := p.ToFloat64Slice("a")
	vf.Assert(err == nil && len(f) == 1 && f[0] == v, "the value in the first section")
	p, err = util.ReadParamsUntilBlank(r)
	vf.Assert(err == nil && len(p) == 2 && p.Contains("c") && !p.Contains("b"), "the second section")
	n, err := p.ToInt("a")
	vf.Assert(err == nil && int64(n) == k, "the value in the second section")
	_, err = util.ReadParamsUntilBlank(r)
	vf.Assert(err != nil, "no third section")
}

func params(val string) (func(m int) error, *[3][]int64, *[]float64) {
	p, err := util.ReadParamsUntilBlank(reader([]byte("other=1\nkey=" + val + "\n\n")))
	vf.Assert(err == nil, "the section is read")
	var ints [3][]int64
	var fl []float64
	return func(m int) error {
		switch m {
		case 0:
			v, err := p.ToInt("key")
			ints[0] = []int64{int64(v)}
			return err
		case 1:
			v, err := p.ToInt32Slice("key")
			for _, x := range v {
				ints[1] = append(ints[1], int64(x))
			}
			return err
		case 2:
			v, err := p.ToUint32Slice("key")
			for _, x := range v {
				ints[2] = append(ints[2], int64(x))
			}
			return err
		}
		v, err := p.ToFloat64Slice("key")
		fl = v
		return err
	}, &ints, &fl
}

// HIntegers : any int64 values in lists of one to three.
func HIntegers() {
	n := 1 + vf.Choose("numbers-1", 3)
	v := make([]int64, n)
	s := ""
	i32, u32 := true, true
	for i := range v {
		v[i] = vf.I64("v")
		if i > 0 {
			s += " "
		}
		s += vf.IntTok(v[i])
		i32 = i32 && v[i] >= math.MinInt32 && v[i] <= math.MaxInt32
		u32 = u32 && v[i] >= 0 && v[i] <= math.MaxUint32
	}
	get, ints, _ := params(s)
	for m, fits := range []bool{n == 1, i32, u32} {
		err := get(m)
		vf.Assert((err == nil) == fits, "an error exactly for numbers that do not fit")
		if fits {
			vf.Assert(len(ints[m]) == n, "all numbers")
			for i := range v {
				vf.Assert(ints[m][i] == v[i], "the numbers in order")
			}
		}
	}
}

// HFloats : any finite values in lists of one to three.
func HFloats() {
	n := 1 + vf.Choose("numbers-1", 3)
	v := make([]float64, n)
	s := ""
	for i := range v {
		v[i] = vf.F64("v")
		vf.Assume(v[i]-v[i] == 0)
		if i > 0 {
			s += " "
		}
		s += vf.FloatTok(v[i])
	}
	get, _, fl := params(s)
	vf.Assert(get(3) == nil && len(*fl) == n, "all numbers")
	for i := range v {
		vf.Assert(vf.SameBits((*fl)[i], v[i]), "the numbers in order")
	}
}

// HNumbers : all texts of up to four (thorough: five) ASCII bytes without white space and '=' as a number.
func HNumbers() {
	b := make([]byte, vf.Choose("length", 5+vf.Tier()))
	digits, sign := 0, false
	ok := len(b) > 0
	val := int64(0)
	for i := range b {
		b[i] = vf.Byte("text")
		c := b[i]
		vf.Assume(c > ' ' && c < 127 && c != '=')
		if c >= '0' && c <= '9' {
			digits++
			val = val*10 + int64(c-'0')
		} else if i == 0 && (c == '-' || c == '+') {
			sign = true
		} else {
			ok = false
		}
	}
	ok = ok && digits > 0
	neg := sign && b[0] == '-'
	if neg {
		val = -val
	}
	get, ints, _ := params(string(b))
	err := get(0)
	vf.Assert((err == nil) == ok, "an integer is a sign and digits")
	if ok {
		vf.Assert(ints[0][0] == val, "the integer")
	}
	err = get(1)
	vf.Assert((err == nil) == ok, "an int32 is a sign and digits")
	if ok {
		vf.Assert(len(ints[1]) == 1 && ints[1][0] == val, "the int32")
	}
	err = get(2)
	vf.Assert((err == nil) == (ok && !sign), "a uint32 is digits")
	if ok && !sign {
		vf.Assert(len(ints[2]) == 1 && ints[2][0] == val, "the uint32")
	}
}

// HAbsent : absent keys and texts that are no numbers are errors in every accessor.
func HAbsent() {
	vals := []string{"", "x", "1 x", "1  2", "- 1", "1,2", "1.5.2", "0x", "1e", "99999999999999999999", "e1", "1..", "--2"}
	val := vals[vf.Choose("value", len(vals))]
	get, _, _ := params(val)
	for m := 0; m < 3; m++ {
		vf.Assert(get(m) != nil, "not an integer")
	}
	if val != "99999999999999999999" {
		vf.Assert(get(3) != nil, "not a list of floats")
	}
	p, err := util.ReadParamsUntilBlank(reader([]byte("key=" + val + "\nflag\n")))
	vf.Assert(err == nil, "the section is read")
	key := []string{"Key", "", "ke", "key "}[vf.Choose("key", 4)]
	_, e1 := p.ToInt(key)
	_, e2 := p.ToString(key)
	_, e3 := p.ToStrSlice(key)
	_, e4 := p.ToFloat64Slice(key)
	_, e5 := p.ToUint32Slice(key)
	_, e6 := p.ToInt32Slice(key)
	vf.Assert(e1 != nil && e2 != nil && e3 != nil && e4 != nil && e5 != nil && e6 != nil, "an absent key is an error")
	vf.Assert(p.Compare(key, val) != nil && p.Compare(key, "") != nil && !p.Contains(key), "an absent key is an error")
	vf.Assert(p.Contains("flag") && p.Compare("flag", "") == nil && p.Compare("key", val) == nil && p.Compare("key", val+"1") != nil, "comparison")
	s, err := p.ToStrSlice("key")
	vf.Assert(err == nil && len(s) >= 1, "a list of texts")
	back := s[0]
	for _, t := range s[1:] {
		back += " " + t
	}
	vf.Assert(back == val, "the texts in order")
}

// HLiterals : a list of three floats, one of them written in one of many unusual ways (NaN, infinities, signs, zeros, long and
// extreme numbers, words that are no numbers), the others any finite values.
func HLiterals() {
	text, val, ok := mk.Literal(vf.Choose("literal", mk.Literals))
	at := vf.Choose("at", 3)
	v := make([]float64, 3)
	s := ""
	for i := range v {
		if i > 0 {
			s += " "
		}
		if i == at {
			v[i] = val
			s += text
			continue
		}
		v[i] = vf.F64("v")
		vf.Assume(v[i]-v[i] == 0)
		s += vf.FloatTok(v[i])
	}
	get, _, fl := params(s)
	err := get(3)
	vf.Assert((err == nil) == ok, "an error exactly for texts that are no numbers")
	if ok {
		vf.Assert(len(*fl) == 3, "all numbers")
		for i := range v {
			vf.Assert(vf.SameBits((*fl)[i], v[i]), "the numbers in order")
		}
	}
}
