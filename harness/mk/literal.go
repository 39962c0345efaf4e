package mk

import "math"

// literal is how a number may be written.
type literal struct {
	text string
	val  float64
	ok   bool
}

var literals = []literal{
	{"NaN", math.NaN(), true}, {"nan", math.NaN(), true}, {"Inf", math.Inf(1), true}, {"-inf", math.Inf(-1), true}, {"+Infinity", math.Inf(1), true},
	{"-0", math.Copysign(0, -1), true}, {"-0.0e5", math.Copysign(0, -1), true}, {"+7", 7, true}, {"00012", 12, true}, {".5", 0.5, true}, {"5.", 5, true},
	{"1E3", 1000, true}, {"1e-400", 0, true}, {"4.9406564584124654e-324", 5e-324, true}, {"1.7976931348623157e308", math.MaxFloat64, true},
	{"9007199254740993", 9007199254740992, true}, {"9007199254740995", 9007199254740996, true}, {"123456789012345678901234567890", 123456789012345680000000000000, true},
	{"0.1000000000000000055511151231257827021181583404541015625", 0.1, true}, {"1e23", 1e23, true}, {"8388608.5", 8388608.5, true},
	{"nul", 0, false}, {"null", 0, false}, {"None", 0, false}, {"NA", 0, false}, {"na", 0, false}, {"?", 0, false}, {"-", 0, false}, {"-nan", 0, false},
	{"infinit", 0, false}, {"1e400", 0, false}, {"1f", 0, false}, {"true", 0, false}, {"\"1\"", 0, false}, {"1e", 0, false}, {"1.2.3", 0, false}, {"--1", 0, false},
}

// Literals is the number of literals.
var Literals = len(literals)

// Literal is the k-th literal, the number it stands for, and whether it stands for any.
func Literal(k int) (string, float64, bool) {
	return literals[k].text, literals[k].val, literals[k].ok
}
