package p24

import (
	"github.com/dmitryikh/leaves/util"
	"github.com/dmitryikh/leaves/zzverif/vf"
)

func words(max int) []uint32 {
	n := vf.Choose("words", max+1)
	s := make([]uint32, n)
	for i := range s {
		s[i] = vf.U32("word")
	}
	return s
}

// HPopCount : every bit set of up to 2 (thorough: 4) 32-bit words.
func HPopCount() {
	s := words(2 + 2*vf.Tier())
	want := uint32(0)
	for _, w := range s {
		for i := uint(0); i < 32; i++ {
			want += w >> i & 1
		}
	}
	got := util.NumberOfSetBits(s)
	vf.ObserveInt(int(got))
	vf.Assert(got == want, "NumberOfSetBits is the number of one bits")
	vf.Cover("counted")
}

// HFirstBit : every bit set of up to 3 (thorough: 8) 32-bit words.
func HFirstBit() {
	s := words(3 + 5*vf.Tier())
	any := false
	for _, w := range s {
		any = any || w != 0
	}
	p, err := util.FirstNonZeroBit(s)
	if err != nil {
		vf.Assert(!any, "FirstNonZeroBit fails only when no bit is set")
		vf.Cover("no bit set")
		return
	}
	vf.Assert(any, "FirstNonZeroBit fails when no bit is set")
	vf.ObserveInt(int(p))
	vf.Assert(int(p) < 32*len(s), "FirstNonZeroBit is within the set")
	k := int(p / 32)
	for i, w := range s {
		if i < k {
			vf.Assert(w == 0, "no bit is set before the first set bit")
		}
		if i == k {
			vf.Assert(w>>(p%32)&1 == 1, "the bit reported by FirstNonZeroBit is set")
			vf.Assert(w&(1<<(p%32)-1) == 0, "no lower bit of the word is set")
		}
	}
	vf.Cover("bit found")
}

// HMember : every word, every 32-bit position.
func HMember() {
	w, p := vf.U32("word"), vf.U32("pos")
	got := util.FindInBitsetUint32(w, p)
	if p >= 32 {
		vf.Assert(!got, "membership beyond the word is false")
		vf.Cover("beyond")
		return
	}
	vf.Assert(got == (w>>p&1 == 1), "membership is the bit")
	vf.Cover("within")
}

// HConstruct : up to 3 (thorough: 4) values, each in 0..99 (thorough: 0..170).
func HConstruct() {
	n := vf.Choose("n", 4+vf.Tier())
	v := make([]int, n)
	max := -1
	for i := range v {
		v[i] = vf.Int("value", 0, 99+71*vf.Tier())
		if v[i] > max {
			max = v[i]
		}
	}
	in := append([]int(nil), v...)
	s := util.ConstructBitset(v)
	vf.Assert(len(s) == (max+32)/32, "the set has the minimal length")
	for i := range v {
		vf.Assert(v[i] == in[i], "the values are left alone")
	}
	for i, w := range s {
		for b := 0; b < 32; b++ {
			want := false
			for _, x := range in {
				want = want || x == 32*i+b
			}
			vf.Assert((w>>uint(b)&1 == 1) == want, "the members are exactly the values")
		}
	}
	vf.Cover("constructed")
}
