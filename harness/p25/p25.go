package p25

import (
	"bufio"
	"bytes"
	"math"
	"strconv"

	"github.com/dmitryikh/leaves/mat"
	"github.com/dmitryikh/leaves/zzverif/mk"
	"github.com/dmitryikh/leaves/zzverif/vf"
)

type pair struct {
	col int
	val float64
}

// want is what a text denotes: its rows, or that it is malformed.
type want struct {
	rows [][]pair
	bad  bool
}

func (w want) sparse(m *mat.CSRMat, err error) {
	if w.bad {
		vf.Assert(err != nil, "a malformed pair is an error")
		return
	}
	vf.Assert(err == nil && m != nil && m.Rows() == len(w.rows), "one row for every line")
	n := 0
	vf.Assert(m.RowHeaders[0] == 0, "rows start at 0")
	for i, r := range w.rows {
		vf.Assert(m.RowHeaders[i+1] == n+len(r) && m.RowHeaders[i+1] <= len(m.Values) && m.RowHeaders[i+1] <= len(m.ColIndexes), "as many pairs as written on the line")
		for _, p := range r {
			vf.Assert(m.ColIndexes[n] == p.col, "the columns in order")
			vf.Assert(vf.SameBits(m.Values[n], p.val), "the values in order")
			n++
		}
	}
	vf.Assert(len(m.Values) == n && len(m.ColIndexes) == n, "nothing but the pairs")
}

func (w want) dense(m *mat.DenseMat, err error) {
	ok := !w.bad
	for _, r := range w.rows {
		if len(r) != len(w.rows[0]) {
			ok = false
		}
		for j, p := range r {
			if p.col != j {
				ok = false
			}
		}
	}
	if !ok {
		vf.Assert(err != nil, "columns that are not 0, 1, 2, ... in every row are an error")
		return
	}
	vf.Assert(err == nil && m != nil && m.Rows == len(w.rows), "one row for every line")
	if m.Rows == 0 {
		vf.Assert(len(m.Values) == 0, "no rows, no values")
		return
	}
	vf.Assert(m.Cols == len(w.rows[0]) && len(m.Values) == m.Rows*m.Cols, "as many columns as written")
	for i, r := range w.rows {
		for j, p := range r {
			vf.Assert(vf.SameBits(m.Values[i*m.Cols+j], p.val), "the values in order")
		}
	}
}

func check(b []byte, limit int, skip bool, w want) {
	m, err := mat.CSRMatFromLibsvm(bufio.NewReader(bytes.NewReader(b)), limit, skip)
	w.sparse(m, err)
	d, err := mat.DenseMatFromLibsvm(bufio.NewReader(bytes.NewReader(b)), limit, skip)
	w.dense(d, err)
}

func value() (string, float64) {
	v := vf.F64("value")
	return mk.FiniteTok(v), v
}

// HRows : texts of up to 3 (thorough: 4) lines with up to 2 (3) pairs, any columns and values, with and without label, every limit.
func HRows() {
	lines := vf.Choose("lines", 4+vf.Tier())
	skip := vf.Choose("label", 2) == 1
	limit := vf.Int("limit", -2, 5)
	var w want
	s, ended := "", false
	for i := 0; i < lines; i++ {
		l := ""
		if skip {
			l = []string{"1", "-0.5"}[i%2]
		}
		var r []pair
		bad := false
		for j := vf.Choose("pairs", 3+vf.Tier()); j > 0; j-- {
			c := vf.Int("column", -1, 1<<33)
			t, v := value()
			if len(l) > 0 {
				l += " "
			}
			l += vf.IntTok(int64(c)) + ":" + t
			bad = bad || c < 0 || c > math.MaxUint32
			r = append(r, pair{c, v})
		}
		s += l + "\n"
		ended = ended || l == ""
		if !ended && !w.bad && (limit <= 0 || i < limit) {
			w.bad = bad
			w.rows = append(w.rows, r)
		}
	}
	check([]byte(s), limit, skip, w)
}

// HSpacing : two lines of up to three pairs, with spaces before, between and after, any line ending, the last one possibly
// without; a third line after a blank one is not read.
func HSpacing() {
	skip := vf.Choose("label", 2) == 1
	end := []string{"\n", "\r\n"}[vf.Choose("line ending", 2)]
	gap := []string{" ", "  ", "   "}[vf.Choose("gap", 3)]
	pad := []string{"", " ", "  "}[vf.Choose("padding", 3)]
	where := vf.Choose("padding is", 3)
	var w want
	s := ""
	for i := 0; i < 2; i++ {
		if where != 1 {
			s += pad
		}
		first := true
		if skip {
			s += "7"
			first = false
		}
		var r []pair
		for j := 1 + vf.Choose("pairs-1", 3); j > 0; j-- {
			if !first {
				s += gap
			}
			first = false
			t, v := value()
			r = append(r, pair{len(r), v})
			s += vf.IntTok(int64(len(r)-1)) + ":" + t
		}
		w.rows = append(w.rows, r)
		if where != 0 {
			s += pad
		}
		if i == 0 {
			s += end
		}
	}
	switch vf.Choose("tail", 4) {
	case 1:
		s += end
	case 2:
		s += end + end
	case 3:
		s += end + pad + end + "0:1" + end
	}
	check([]byte(s), 0, skip, w)
}

var malformed = []string{"1", ":", "1:", ":2", "1:2:3", "a:1", "1:a", "-1:2", "1.5:2", "4294967296:1", "18446744073709551616:1", "+1:2", "1:1e999", "1:-", "0x1:2", "1::2", "1:2:"}

// HMalformed : a pair that is malformed, at every place of a text of two lines with two pairs, under every limit.
func HMalformed() {
	bad := malformed[vf.Choose("malformed", len(malformed))]
	line, at := vf.Choose("line", 2), vf.Choose("at", 3)
	limit := vf.Int("limit", 0, 3)
	skip := vf.Choose("label", 2) == 1
	var w want
	s := ""
	for i := 0; i < 2; i++ {
		var ts []string
		var r []pair
		for j := 0; j < 2; j++ {
			t, v := value()
			ts = append(ts, vf.IntTok(int64(j))+":"+t)
			r = append(r, pair{j, v})
		}
		if i == line {
			ts = append(ts[:at], append([]string{bad}, ts[at:]...)...)
		}
		if skip {
			s += "1 "
		}
		for j, t := range ts {
			if j > 0 {
				s += " "
			}
			s += t
		}
		s += "\n"
		if limit <= 0 || i < limit {
			w.rows = append(w.rows, r)
			w.bad = w.bad || i == line
		}
	}
	check([]byte(s), limit, skip, w)
}

func white(c byte) bool { return c == ' ' || c == '\t' || c == '\r' || c == '\v' || c == '\f' }

// parse is what an ASCII text says.
func parse(b []byte, skip bool) (w want) {
	for len(b) > 0 {
		n := 0
		for n < len(b) && b[n] != '\n' {
			n++
		}
		lo, hi := 0, n
		for lo < hi && white(b[lo]) {
			lo++
		}
		for lo < hi && white(b[hi-1]) {
			hi--
		}
		line := b[lo:hi]
		if n < len(b) {
			n++
		}
		b = b[n:]
		if len(line) == 0 {
			return
		}
		first := skip
		var r []pair
		for len(line) > 0 {
			k := 0
			for k < len(line) && line[k] != ' ' {
				k++
			}
			t := line[:k]
			if k < len(line) {
				k++
			}
			line = line[k:]
			if first {
				first = false
				continue
			}
			if len(t) == 0 {
				continue
			}
			p, ok := one(t)
			if !ok {
				w.bad = true
				return
			}
			r = append(r, p)
		}
		w.rows = append(w.rows, r)
	}
	return
}

func one(t []byte) (p pair, ok bool) {
	k := 0
	for k < len(t) && t[k] >= '0' && t[k] <= '9' {
		p.col = p.col*10 + int(t[k]-'0')
		k++
	}
	if k == 0 || k > 9 || k >= len(t)-1 || t[k] != ':' {
		return
	}
	v, err := strconv.ParseFloat(string(t[k+1:]), 64)
	p.val = v
	return p, err == nil
}

// ascii is an ASCII byte other than \t, \v and \f: whether they separate pairs is not settled.
func ascii(label string) byte {
	c := vf.Byte(label)
	vf.Assume(c < 128 && c != '\t' && c != '\v' && c != '\f')
	return c
}

// settled : no carriage return inside a line.
func settled(b []byte) bool {
	for i, c := range b {
		if c == '\r' && i+1 < len(b) && b[i+1] != '\n' {
			return false
		}
	}
	return true
}

// HByte : a text with one (thorough: two) arbitrary ASCII bytes (no tab) at every place.
func HByte() {
	b := []byte("3 0:1  1:25\n4 0:-1 1:7\n")
	at := vf.Choose("at", len(b))
	b[at] = ascii("byte")
	if vf.Tier() > 0 {
		k := vf.Choose("and", len(b))
		vf.Assume(k > at)
		b[k] = ascii("byte")
	}
	vf.Assume(settled(b))
	skip := vf.Choose("label", 2) == 1
	check(b, 0, skip, parse(b, skip))
}

// HText : all texts of up to 4 (thorough: 5) ASCII bytes (no tabs).
func HText() {
	b := make([]byte, vf.Choose("length", 5+vf.Tier()))
	for i := range b {
		b[i] = ascii("text")
	}
	vf.Assume(settled(b))
	skip := vf.Choose("label", 2) == 1
	check(b, 0, skip, parse(b, skip))
}

// HSource : from a file the same matrix as from a reader; a source that fails, or does not exist, is an error.
func HSource() {
	t, v := value()
	u, x := value()
	s := "1 0:" + t + " 1:" + u + "\n0 0:" + u + " 1:" + t + "\n"
	w := want{rows: [][]pair{{{0, v}, {1, x}}, {{0, x}, {1, v}}}}
	switch vf.Choose("source", 4) {
	case 0:
		name := vf.TempFile("data.libsvm", []byte(s))
		limit := vf.Choose("limit", 4)
		if limit == 1 {
			w.rows = w.rows[:1]
		}
		m, err := mat.CSRMatFromLibsvmFile(name, limit, true)
		w.sparse(m, err)
		d, err := mat.DenseMatFromLibsvmFile(name, limit, true)
		w.dense(d, err)
	case 1:
		_, err := mat.CSRMatFromLibsvmFile(vf.TempName("none"), 0, true)
		_, err2 := mat.DenseMatFromLibsvmFile(vf.TempName("none"), 0, true)
		vf.Assert(err != nil && err2 != nil, "a file that does not exist is an error")
	case 2:
		lines := [][]byte{nil, []byte("1 0:5 1:6\n"), []byte("1 0:5 1:6\n1 0:5"), []byte("1 0:5 1:6\n1 0:5 1:6\n")}
		src := func() *bufio.Reader {
			return bufio.NewReader(&mk.Stream{Data: lines[vf.Choose("read", len(lines))], Err: mk.ErrRead})
		}
		_, err := mat.CSRMatFromLibsvm(src(), 0, true)
		vf.Assert(err != nil, "a read error is an error")
		_, err = mat.DenseMatFromLibsvm(src(), 0, true)
		vf.Assert(err != nil, "a read error is an error")
	case 3:
		size := 1 + vf.Choose("piece", 9)
		text := "1 0:5 1:16\n0 0:5 1:6.25"
		w.rows = [][]pair{{{0, 5}, {1, 16}}, {{0, 5}, {1, 6.25}}}
		if vf.Choose("long", 2) == 1 { // longer than the buffer
			text = "1 0:5 1:16.00000000000 2:-1\n0 0:5 1:6.25 2:00000012.5"
			w.rows = [][]pair{{{0, 5}, {1, 16}, {2, -1}}, {{0, 5}, {1, 6.25}, {2, 12.5}}}
		}
		src := func() *bufio.Reader {
			return bufio.NewReaderSize(&mk.Stream{Data: []byte(text), Err: mk.EOF, Size: func(int) int { return size }}, 16)
		}
		m, err := mat.CSRMatFromLibsvm(src(), 0, true)
		w.sparse(m, err)
		d, err := mat.DenseMatFromLibsvm(src(), 0, true)
		w.dense(d, err)
	}
}

// HLiterals : one value written in one of many unusual ways (NaN, infinities, signs, zeros, long and extreme numbers, words that
// are no numbers), in two lines of two pairs with any other values.
func HLiterals() {
	text, val, ok := mk.Literal(vf.Choose("literal", mk.Literals))
	line, at := vf.Choose("line", 2), vf.Choose("at", 2)
	skip := vf.Choose("label", 2) == 1
	w := want{bad: !ok}
	s := ""
	for i := 0; i < 2; i++ {
		var r []pair
		l := ""
		if skip {
			l = "1 "
		}
		for j := 0; j < 2; j++ {
			t, v := value()
			if i == line && j == at {
				t, v = text, val
			}
			if j > 0 {
				l += " "
			}
			l += mk.I(j) + ":" + t
			r = append(r, pair{j, v})
		}
		s += l + "\n"
		w.rows = append(w.rows, r)
	}
	check([]byte(s), 0, skip, w)
}
