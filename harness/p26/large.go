package p26

import (
	"strconv"

	"github.com/dmitryikh/leaves/zzverif/vf"
)

// HLarge : 1100 rows of 7 fields, and 2 rows of 20000 fields (lines of more than 65536 bytes), one value arbitrary, as written,
// with that field absent, missing, or malformed; limits near the end.
func HLarge() {
	vf.Steps(400000000)
	rows, cols := 1100, 7
	if vf.Choose("wide", 2) == 1 {
		rows, cols = 2, 20000
	}
	d := []string{",", "||"}[vf.Choose("delimiter", 2)]
	skip := vf.Choose("skip", 2) == 1
	kind := vf.Choose("kind", 4)
	limit := []int{0, rows - 1, rows + 1}[vf.Choose("limit", 3)]
	line, at := []int{0, rows / 2, rows - 1}[vf.Choose("line", 3)], []int{1, 255, 4096, cols - 1}[vf.Choose("at", 4)]
	vf.Assume(at < cols && (kind == 0 || at == cols-1) && (kind == 0 || d == ","))
	var w want
	var b []byte
	for i := 0; i < rows; i++ {
		var r []float64
		for j := 0; j < cols; j++ {
			v := float64(i*7 + j%1000)
			t := ""
			if i == line && j == at {
				t, v = value()
				if kind == 1 {
					t, v = "", 0.25
				}
				if kind == 2 {
					break
				}
				if kind == 3 {
					t = "1e"
				}
			} else {
				t = strconv.Itoa(i*7 + j%1000)
			}
			if j > 0 {
				b = append(b, d...)
			}
			b = append(b, t...)
			r = append(r, v)
		}
		b = append(b, '\n')
		if limit <= 0 || i < limit {
			w.rows = append(w.rows, first(skip, r))
			w.bad = w.bad || kind == 3 && i == line
		}
	}
	w.check(read(b, limit, skip, d, 0.25))
}
