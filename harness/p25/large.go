package p25

import (
	"strconv"

	"github.com/dmitryikh/leaves/zzverif/vf"
)

// HLarge : 1100 rows of 7 pairs, and 2 rows of 12000 pairs (lines of more than 65536 bytes), one value arbitrary, as written, with
// one row a pair short, or with a malformed pair in a late row; limits near the end.
func HLarge() {
	vf.Steps(400000000)
	rows, cols := 1100, 7
	if vf.Choose("wide", 2) == 1 {
		rows, cols = 2, 12000
	}
	skip := vf.Choose("label", 2) == 1
	kind := vf.Choose("kind", 3)
	limit := []int{0, rows - 1, rows + 1}[vf.Choose("limit", 3)]
	line, at := []int{0, rows / 2, rows - 1}[vf.Choose("line", 3)], []int{0, 255, 4096, cols - 1}[vf.Choose("at", 4)]
	vf.Assume(at < cols && (kind == 0 || at == cols-1) && (kind < 2 || line > 0))
	var w want
	var b []byte
	for i := 0; i < rows; i++ {
		var r []pair
		if skip {
			b = append(b, '1', ' ')
		}
		for j := 0; j < cols; j++ {
			v := float64(i*7 + j%1000)
			t := ""
			if i == line && j == at {
				t, v = value()
				if kind == 1 {
					break
				}
				if kind == 2 {
					t = "1e"
				}
			} else {
				t = strconv.Itoa(i*7 + j%1000)
			}
			if j > 0 {
				b = append(b, ' ')
			}
			b = append(append(strconv.AppendInt(b, int64(j), 10), ':'), t...)
			r = append(r, pair{j, v})
		}
		b = append(b, '\n')
		if limit <= 0 || i < limit {
			w.rows = append(w.rows, r)
			w.bad = w.bad || kind == 2 && i == line
		}
	}
	check(b, limit, skip, w)
}
