package p30

import (
	"bufio"
	"bytes"
	"strconv"

	"github.com/dmitryikh/leaves/util"
	"github.com/dmitryikh/leaves/zzverif/vf"
)

// HLongLine : lines of some 300, 4096 and 70000 bytes, read through buffers of three sizes, with an arbitrary byte near their
// end, and a line and another section behind them.
func HLongLine() {
	vf.Steps(60000000)
	n := []int{300, 4080, 4090, 4095, 4096, 5000, 65530, 70000}[vf.Choose("length", 8)]
	x := vf.Byte("x")
	vf.Assume(x > ' ' && x < 127 && x != '=')
	v := make([]byte, n)
	for i := range v {
		v[i] = "abcdefg "[i%8]
	}
	v[0] = 'v'
	v[n-1] = 'w'
	v[n-2] = x
	end := []string{"\n", "\r\n"}[vf.Choose("line ending", 2)]
	b := append(append([]byte("key="), v...), end+"next=1"+end+end+"last=2"...)
	r := bufio.NewReaderSize(bytes.NewReader(b), []int{16, 4096, 1 << 17}[vf.Choose("buffer", 3)])
	p, err := util.ReadParamsUntilBlank(r)
	vf.Assert(err == nil && len(p) == 2, "the pairs of a section with a long line")
	vf.Assert(p["key"] == string(v) && p["next"] == "1", "the value of a long line")
	p, err = util.ReadParamsUntilBlank(r)
	vf.Assert(err == nil && len(p) == 1 && p["last"] == "2", "the section behind one with a long line")
}

// HManyLines : a section of 400 lines; one value is arbitrary.
func HManyLines() {
	vf.Steps(60000000)
	const n = 400
	var b []byte
	at := []int{0, 254, 255, 256, n - 1}[vf.Choose("at", 5)]
	x := vf.I64("x")
	for i := 0; i < n; i++ {
		t := strconv.Itoa(3 * i)
		if i == at {
			t = vf.IntTok(x)
		}
		b = append(b, "key"+strconv.Itoa(i)+"="+t+"\n"...)
	}
	p, err := util.ReadParamsUntilBlank(reader(append(b, '\n')))
	vf.Assert(err == nil && len(p) == n, "all pairs of a long section")
	for i := 0; i < n; i++ {
		v, err := p.ToInt("key" + strconv.Itoa(i))
		want := 3 * i
		if i == at {
			want = int(x)
		}
		vf.Assert(err == nil && v == want, "the values of a long section")
	}
}

// HLongList : lists of 1100 and 66000 numbers; one of them is arbitrary.
func HLongList() {
	vf.Steps(200000000)
	n := []int{1100, 66000}[vf.Choose("numbers", 2)]
	at := []int{0, 255, 256, 1023, 1024, 65535, 65536, n - 1}[vf.Choose("at", 8)]
	vf.Assume(at < n && (n == 1100 || at > 1024))
	x := vf.I32("x")
	b := []byte("key=")
	for i := 0; i < n; i++ {
		if i > 0 {
			b = append(b, ' ')
		}
		if i == at {
			b = append(b, vf.IntTok(int64(x))...)
		} else {
			b = strconv.AppendInt(b, int64(i*7), 10)
		}
	}
	p, err := util.ReadParamsUntilBlank(reader(append(b, '\n')))
	vf.Assert(err == nil, "a section with a long list is read")
	i32, err := p.ToInt32Slice("key")
	vf.Assert(err == nil && len(i32) == n, "all int32 of a long list")
	u32, err := p.ToUint32Slice("key")
	vf.Assert((err == nil) == (x >= 0), "a list with a negative number is no list of uint32")
	f, err := p.ToFloat64Slice("key")
	vf.Assert(err == nil && len(f) == n, "all floats of a long list")
	for i := 0; i < n; i++ {
		w := int32(i * 7)
		if i == at {
			w = x
		}
		vf.Assert(i32[i] == w && f[i] == float64(w) && (x < 0 || u32[i] == uint32(w)), "the numbers of a long list in order")
	}
}
