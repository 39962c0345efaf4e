package p26

import (
	"bufio"
	"bytes"
	"strconv"

	"github.com/dmitryikh/leaves/mat"
	"github.com/dmitryikh/leaves/zzverif/mk"
	"github.com/dmitryikh/leaves/zzverif/vf"
)

// want is what a text denotes: its rows, or that it is malformed.
type want struct {
	rows [][]float64
	bad  bool
}

func (w want) check(m *mat.DenseMat, err error) {
	for _, r := range w.rows {
		w.bad = w.bad || len(r) != len(w.rows[0])
	}
	if w.bad {
		vf.Assert(err != nil, "rows of different width and fields that are no numbers are errors")
		return
	}
	vf.Assert(err == nil && m != nil && m.Rows == len(w.rows), "one row for every line")
	if m.Rows == 0 {
		vf.Assert(len(m.Values) == 0, "no rows, no values")
		return
	}
	vf.Assert(m.Cols == len(w.rows[0]) && len(m.Values) == m.Rows*m.Cols, "one value for every field")
	for i, r := range w.rows {
		for j, v := range r {
			vf.Assert(vf.SameBits(m.Values[i*m.Cols+j], v), "the values in order")
		}
	}
}

func read(b []byte, limit int, skip bool, d string, def float64) (*mat.DenseMat, error) {
	return mat.DenseMatFromCsv(bufio.NewReader(bytes.NewReader(b)), limit, skip, d, def)
}

func value() (string, float64) {
	v := vf.F64("value")
	return mk.FiniteTok(v), v
}

var delims = []string{",", "\t", ";", " ", "||", ", ", "\xff", "e,", "ab"}

func first(skip bool, r []float64) []float64 {
	if skip {
		return r[1:]
	}
	return r
}

// HTable : tables of up to 3 by 3 (thorough: 4 by 3) fields, all values, any of them absent, nine delimiters, any default value,
// with and without a first column to skip, every limit. A line whose only field is absent is blank, which ends the text.
func HTable() {
	rows, cols := vf.Choose("rows", 4+vf.Tier()), 1+vf.Choose("cols-1", 3)
	d := delims[vf.Choose("delimiter", len(delims))]
	skip := vf.Choose("skip", 2) == 1
	limit := vf.Int("limit", -1, 4)
	def := vf.F64("default")
	absent := vf.Choose("absent", 1<<uint(cols))
	where := vf.Choose("absent in", 3)
	var w want
	s := ""
	ended := false
	for i := 0; i < rows; i++ {
		var r []float64
		l := ""
		for j := 0; j < cols; j++ {
			if j > 0 {
				l += d
			}
			if absent>>uint(j)&1 == 1 && (where == 2 || i%2 == where) {
				r = append(r, def)
				continue
			}
			t, v := value()
			l += t
			r = append(r, v)
		}
		s += l + "\n"
		ended = ended || l == ""
		if !ended && (limit <= 0 || i < limit) {
			w.rows = append(w.rows, first(skip, r))
		}
	}
	w.check(read([]byte(s), limit, skip, d, def))
}

// HWidth : two or three rows of different numbers of fields, some of them absent.
func HWidth() {
	rows := 2 + vf.Choose("rows-2", 2)
	d := delims[vf.Choose("delimiter", 4)]
	skip := vf.Choose("skip", 2) == 1
	limit := vf.Choose("limit", 4)
	var w want
	s := ""
	for i := 0; i < rows; i++ {
		n := 1 + vf.Choose("cols-1", 4)
		var r []float64
		for j := 0; j < n; j++ {
			if j > 0 {
				s += d
			}
			if (i+j)%3 == 1 && n > 1 {
				r = append(r, 0.5)
				continue
			}
			t, v := value()
			s += t
			r = append(r, v)
		}
		s += "\n"
		if limit <= 0 || i < limit {
			w.rows = append(w.rows, first(skip, r))
		}
	}
	w.check(read([]byte(s), limit, skip, d, 0.5))
}

// HSpacing : white space around lines, any line ending, the last line possibly without; a line after a blank one is not read.
func HSpacing() {
	d := delims[vf.Choose("delimiter", len(delims))]
	end := []string{"\n", "\r\n"}[vf.Choose("line ending", 2)]
	pad := []string{"", " ", "  ", "\t", " \t"}[vf.Choose("padding", 5)]
	where := vf.Choose("padding is", 3)
	for i := 0; i < len(pad); i++ {
		for j := 0; j < len(d); j++ {
			vf.Assume(pad[i] != d[j])
		}
	}
	skip := vf.Choose("skip", 2) == 1
	var w want
	s := ""
	for i := 0; i < 2; i++ {
		if where != 1 {
			s += pad
		}
		var r []float64
		for j := 0; j < 2; j++ {
			if j > 0 {
				s += d
			}
			t, v := value()
			s += t
			r = append(r, v)
		}
		w.rows = append(w.rows, first(skip, r))
		if where != 0 {
			s += pad
		}
		if i == 0 {
			s += end
		}
	}
	switch vf.Choose("tail", 4) {
	case 1:
		s += end
	case 2:
		s += end + end
	case 3:
		s += end + pad + end + "5" + d + "6" + end
	}
	w.check(read([]byte(s), 0, skip, d, -1))
}

var malformed = []string{"a", "1x", "-", ".", "1e", "e5", "--1", "1.2.3", "0x", "1 2", "1e999", "1:2", "_", "+-1"}

// HMalformed : a field that is no number, at every place of a table of two rows with three columns, under every limit; in a
// column that is skipped it does no harm.
func HMalformed() {
	bad := malformed[vf.Choose("malformed", len(malformed))]
	line, at := vf.Choose("line", 2), vf.Choose("at", 3)
	limit := vf.Int("limit", 0, 3)
	skip := vf.Choose("skip", 2) == 1
	d := []string{",", "\t", ";"}[vf.Choose("delimiter", 3)]
	var w want
	s := ""
	for i := 0; i < 2; i++ {
		var r []float64
		for j := 0; j < 3; j++ {
			t, v := value()
			if j > 0 {
				s += d
			}
			if i == line && j == at {
				s += bad
			} else {
				s += t
			}
			r = append(r, v)
		}
		s += "\n"
		if limit <= 0 || i < limit {
			w.rows = append(w.rows, first(skip, r))
			w.bad = w.bad || i == line && !(skip && at == 0)
		}
	}
	w.check(read([]byte(s), limit, skip, d, 0))
}

// HPartial : fields that contain a part of a delimiter of several characters are no numbers, in tables of one or two rows and one
// to three columns.
func HPartial() {
	d := []string{"||", ", ", "ab", "x,", "<:>"}[vf.Choose("delimiter", 5)]
	part := d[:1]
	if vf.Choose("part", 2) == 1 {
		part = d[1:]
	}
	rows, cols := 1+vf.Choose("rows-1", 2), 1+vf.Choose("cols-1", 3)
	line, at := vf.Choose("line", rows), vf.Choose("at", cols)
	skip := vf.Choose("skip", 2) == 1
	var w want
	s := ""
	for i := 0; i < rows; i++ {
		var r []float64
		for j := 0; j < cols; j++ {
			t, v := value()
			if j > 0 {
				s += d
			}
			if i == line && j == at {
				s += "1" + part + "2"
				w.bad = w.bad || !(skip && at == 0)
			} else {
				s += t
			}
			r = append(r, v)
		}
		s += "\n"
		w.rows = append(w.rows, first(skip, r))
	}
	w.check(read([]byte(s), 0, skip, d, 0))
}

func white(c byte) bool { return c == ' ' || c == '\t' || c == '\r' || c == '\v' || c == '\f' }

// parse is what an ASCII text says, for delimiters of one byte.
func parse(b []byte, skip bool, d byte, def float64) (w want) {
	for len(b) > 0 {
		n := 0
		for n < len(b) && b[n] != '\n' {
			n++
		}
		lo, hi := 0, n
		for lo < hi && b[hi-1] == '\r' {
			hi--
		}
		for lo < hi && white(b[lo]) && b[lo] != d {
			lo++
		}
		for lo < hi && white(b[hi-1]) && b[hi-1] != d {
			hi--
		}
		line := b[lo:hi]
		if n < len(b) {
			n++
		}
		b = b[n:]
		if len(line) == 0 {
			return
		}
		r := []float64{}
		for col := 0; ; col++ {
			k := 0
			for k < len(line) && line[k] != d {
				k++
			}
			if !skip || col > 0 {
				v, err := def, error(nil)
				if k > 0 {
					v, err = strconv.ParseFloat(string(line[:k]), 64)
				}
				if err != nil {
					w.bad = true
					return
				}
				r = append(r, v)
			}
			if k == len(line) {
				break
			}
			line = line[k+1:]
		}
		w.rows = append(w.rows, r)
	}
	return
}

var single = []byte{',', '\t', ';', ' '}

// HByte : a text with one (thorough: two) arbitrary ASCII bytes at every place.
func HByte() {
	k := vf.Choose("delimiter", len(single))
	b := []byte("3,-1,,25\n4,1.5,7,\n")
	for i := range b {
		if b[i] == ',' {
			b[i] = single[k]
		}
	}
	at := vf.Choose("at", len(b))
	b[at] = vf.Byte("byte")
	vf.Assume(b[at] < 128)
	if vf.Tier() > 0 {
		j := vf.Choose("and", len(b))
		vf.Assume(j > at)
		b[j] = vf.Byte("byte")
		vf.Assume(b[j] < 128)
	}
	skip := vf.Choose("skip", 2) == 1
	w := parse(b, skip, single[k], 9)
	w.check(read(b, 0, skip, string(single[k:k+1]), 9))
}

// HText : all texts of up to 2 ASCII bytes, and all of up to 4 (thorough: 5) bytes that are a comma, white space, or of "5-.".
func HText() {
	b := make([]byte, vf.Choose("length", 5+vf.Tier()))
	for i := range b {
		b[i] = vf.Byte("text")
		vf.Assume(b[i] < 128)
		if len(b) > 2 {
			ok := false
			for _, c := range []byte("5-.,\t\n\r ") {
				ok = ok || b[i] == c
			}
			vf.Assume(ok)
		}
	}
	k := vf.Choose("delimiter", 2)
	skip := vf.Choose("skip", 2) == 1
	w := parse(b, skip, single[k], 9)
	w.check(read(b, 0, skip, string(single[k:k+1]), 9))
}

// HSource : from a file the same matrix as from a reader; a source that fails, or does not exist, is an error.
func HSource() {
	t, v := value()
	s := "1," + t + ",\n," + t + ",2"
	def := vf.F64("default")
	w := want{rows: [][]float64{{1, v, def}, {def, v, 2}}}
	switch vf.Choose("source", 4) {
	case 0:
		name := vf.TempFile("data.csv", []byte(s))
		limit := vf.Choose("limit", 4)
		if limit == 1 {
			w.rows = w.rows[:1]
		}
		w.check(mat.DenseMatFromCsvFile(name, limit, false, ",", def))
	case 1:
		_, err := mat.DenseMatFromCsvFile(vf.TempName("none"), 0, true, ",", def)
		vf.Assert(err != nil, "a file that does not exist is an error")
	case 2:
		lines := [][]byte{nil, []byte("1,2\n"), []byte("1,2\n3"), []byte("1,2\n1,2\n")}
		_, err := mat.DenseMatFromCsv(bufio.NewReader(&mk.Stream{Data: lines[vf.Choose("read", len(lines))], Err: mk.ErrRead}), 0, false, ",", 0)
		vf.Assert(err != nil, "a read error is an error")
	case 3:
		size := 1 + vf.Choose("piece", 9)
		text := "1,5,16\n0,5,"
		w.rows = [][]float64{{1, 5, 16}, {0, 5, def}}
		if vf.Choose("long", 2) == 1 { // longer than the buffer
			text = "1,5,16,3.2500000000000,7\n0,5,,1234567,00000000.5"
			w.rows = [][]float64{{1, 5, 16, 3.25, 7}, {0, 5, def, 1234567, 0.5}}
		}
		src := bufio.NewReaderSize(&mk.Stream{Data: []byte(text), Err: mk.EOF, Size: func(int) int { return size }}, 16)
		w.check(mat.DenseMatFromCsv(src, 0, false, ",", def))
	}
}

// HLiterals : one field written in one of many unusual ways (NaN, infinities, signs, zeros, long and extreme numbers, words that
// are no numbers), in a table of two by three fields with an absent one, any other values and any default.
func HLiterals() {
	text, val, ok := mk.Literal(vf.Choose("literal", mk.Literals))
	line, at := vf.Choose("line", 2), vf.Choose("at", 3)
	d := []string{",", "\t", ";", " "}[vf.Choose("delimiter", 4)]
	skip := vf.Choose("skip", 2) == 1
	def := vf.F64("default")
	var w want
	s := ""
	for i := 0; i < 2; i++ {
		var r []float64
		for j := 0; j < 3; j++ {
			t, v := value()
			if i == line && j == at {
				t, v = text, val
				w.bad = !ok && !(skip && j == 0)
			} else if (i+j)%3 == 1 {
				t, v = "", def
			}
			if j > 0 {
				s += d
			}
			s += t
			r = append(r, v)
		}
		s += "\n"
		w.rows = append(w.rows, first(skip, r))
	}
	w.check(read([]byte(s), 0, skip, d, def))
}
