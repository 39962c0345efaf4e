package p18

import (
	"io"

	"github.com/dmitryikh/leaves/zzverif/mk"
	"github.com/dmitryikh/leaves/zzverif/vf"
)

// HLong : files of every kind with long arrays or many trees, cut near their ends, around multiples of 4096 and 65536 bytes and at
// places in between.
func HLong() {
	vf.Steps(200000000)
	f := mk.LongFile(vf.Choose("file", mk.LongFiles))
	end := f.Complete
	if f.Kind == mk.KindLG {
		end = f.LastTree()
	}
	var at []int
	for _, k := range []int{1, 2, 3, 4, 5, 7, 8, 9, 13, 100, 1000, 4095, 4096, 4097} {
		at = append(at, end-k)
	}
	for _, k := range []int{4096, 8192, 12288, 16384, 32768, 65536} {
		at = append(at, k-1, k, k+1)
	}
	for i := 1; i < 8; i++ {
		at = append(at, end*i/8)
	}
	c := vf.Choose("cut", len(at))
	k := at[c]
	vf.Assume(k >= 0 && k < end)
	s := &mk.Stream{Data: f.Bytes[:k], Err: io.EOF}
	if c%2 == 1 {
		s.Err = mk.ErrRead
	}
	e, err := mk.LoadFrom(f.Kind, s, 0, f.Trans)
	vf.Assert(err != nil && e == nil, "a long model that ends early is not loaded")
}
