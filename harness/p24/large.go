package p24

import (
	"math/bits"

	"github.com/dmitryikh/leaves/util"
	"github.com/dmitryikh/leaves/zzverif/vf"
)

// HLong : sets of 300 words with one word with an arbitrary byte among zeros, ones or mixed ones: counting, first bit.
func HLong() {
	const n = 300
	vf.Steps(20000000)
	s := make([]uint32, n)
	fill := vf.Choose("rest", 3)
	at := []int{0, 1, 63, 64, 127, 128, 255, 256, 257, n - 1}[vf.Choose("at", 10)]
	want := 0
	for i := range s {
		switch fill {
		case 1:
			s[i] = 0xffffffff
		case 2:
			if i > at {
				s[i] = uint32(i) * 2654435761
			}
		}
		if i != at {
			want += bits.OnesCount32(s[i])
		}
	}
	w := uint32(vf.Byte("byte")) << uint(8*vf.Choose("shift/8", 4))
	s[at] = w
	ones := 0
	for b := uint(0); b < 32; b++ {
		ones += int(w >> b & 1)
	}
	vf.Assert(int(util.NumberOfSetBits(s)) == want+ones, "the number of one bits of a long set")
	p, err := util.FirstNonZeroBit(s)
	if w == 0 && (fill == 0 || fill == 2 && at == n-1) {
		vf.Assert(err != nil, "no bit is set")
		return
	}
	vf.Assert(err == nil, "a bit is set")
	switch {
	case fill == 1 && at > 0:
		vf.Assert(p == 0, "the first bit of all")
	case w == 0 && fill == 1:
		vf.Assert(p == 32, "the first bit behind an empty word")
	case w == 0:
		vf.Assert(int(p) == 32*(at+1)+bits.TrailingZeros32(s[at+1]), "the first bit behind empty words")
	default:
		vf.Assert(int(p)/32 == at && w>>(p%32)&1 == 1 && w&(1<<(p%32)-1) == 0, "the first bit of the first word with any")
	}
}

// HManyBits : sets of 2100 (thorough: 140000) words with the same bits in all but an arbitrary word: more than 2^16 (2^22) bits.
func HManyBits() {
	n := 2100
	if vf.Tier() > 0 {
		n = 140000
	}
	vf.Steps(400 * n)
	s := make([]uint32, n)
	fill := []uint32{0xffffffff, 0x7fffffff, 0xfffffffe}[vf.Choose("rest", 3)]
	for i := range s {
		s[i] = fill
	}
	w := uint32(vf.Byte("byte")) << uint(8*vf.Choose("shift/8", 4))
	s[[]int{0, n / 2, n - 1}[vf.Choose("at", 3)]] = w
	ones := 0
	for b := uint(0); b < 32; b++ {
		ones += int(w >> b & 1)
	}
	vf.Assert(int(util.NumberOfSetBits(s)) == (n-1)*bits.OnesCount32(fill)+ones, "the number of one bits of a set with many")
}

// HConstructLong : lists of 3 values around 2^8, 2^16 and 2^20, and one arbitrary small one, in any of some orders.
func HConstructLong() {
	vf.Steps(60000000)
	m := []int{255, 256, 1023, 1024, 65535, 65536, 65567, 1 << 20}[vf.Choose("largest", 8)]
	x := vf.Int("value", 0, 63)
	v := [][]int{{x, m}, {m, x}, {m, x, m - 1}, {m / 2, m, x, m}}[vf.Choose("list", 4)]
	in := append([]int{}, v...)
	s := util.ConstructBitset(v)
	vf.Assert(len(s) == m/32+1, "the set has the minimal length")
	for i := 0; i < len(s); i++ {
		w := uint32(0)
		for _, c := range in {
			if c/32 == i {
				w |= 1 << uint(c%32)
			}
		}
		vf.Assert(s[i] == w, "the members are exactly the values")
	}
	for i := range v {
		vf.Assert(v[i] == in[i], "the values are left alone")
	}
}
