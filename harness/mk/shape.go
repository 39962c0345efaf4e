package mk

import "github.com/dmitryikh/leaves/zzverif/vf"

// Shape is a binary tree. A child is a node number, or -1-p for the leaf at position p from the left.
type Shape struct {
	Left, Right []int
}

// ChooseShape is an arbitrary binary tree with n leaves whose inner nodes are numbered arbitrarily, the root 0.
func ChooseShape(n int) Shape {
	s := Shape{make([]int, n-1), make([]int, n-1)}
	if n < 2 {
		return s
	}
	var free []int
	for i := 1; i < n-1; i++ {
		free = append(free, i)
	}
	type todo struct{ lo, hi, at int }
	stack := []todo{{0, n, 0}}
	for len(stack) > 0 {
		d := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		mid := d.lo + 1 + vf.Choose("left size", d.hi-d.lo-1)
		for side := 0; side < 2; side++ {
			lo, hi := d.lo, mid
			if side == 1 {
				lo, hi = mid, d.hi
			}
			c := -1 - lo
			if hi-lo > 1 {
				k := vf.Choose("node number", len(free))
				c = free[k]
				free = append(append([]int{}, free[:k]...), free[k+1:]...)
				stack = append(stack, todo{lo, hi, c})
			}
			if side == 0 {
				s.Left[d.at] = c
			} else {
				s.Right[d.at] = c
			}
		}
	}
	return s
}

// SymPerm is an arbitrary permutation of 0..n-1, symbolic.
func SymPerm(label string, n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = vf.Int(label, 0, n-1)
		for j := 0; j < i; j++ {
			vf.Assume(p[j] != p[i])
		}
	}
	return p
}

// Child is the token of a child, leaves numbered by leaf.
func Child(c int, leaf []int) string {
	if c < 0 {
		return vf.IntTok(int64(^leaf[-1-c]))
	}
	return I(c)
}

// Chain is the tree with n leaves in which every left child is a leaf.
func Chain(n int) Shape {
	s := Shape{make([]int, n-1), make([]int, n-1)}
	for i := range s.Left {
		s.Left[i], s.Right[i] = -1-i, i+1
	}
	if n > 1 {
		s.Right[n-2] = -n
	}
	return s
}

// Balanced is the balanced tree with n leaves, and for every inner node the position of the first leaf to its right.
func Balanced(n int) (Shape, []int) {
	s, mids := Shape{make([]int, n-1), make([]int, n-1)}, make([]int, n-1)
	type todo struct{ lo, hi, at int }
	stack := []todo{{0, n, 0}}
	nodes := 1
	for len(stack) > 0 {
		d := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		mid := (d.lo + d.hi) / 2
		mids[d.at], s.Left[d.at], s.Right[d.at] = mid, -1-d.lo, -1-mid
		if mid-d.lo > 1 {
			s.Left[d.at] = nodes
			stack = append(stack, todo{d.lo, mid, nodes})
			nodes++
		}
		if d.hi-mid > 1 {
			s.Right[d.at] = nodes
			stack = append(stack, todo{mid, d.hi, nodes})
			nodes++
		}
	}
	return s, mids
}

// Windows are the positions at which widths of integers show in a tree of n leaves.
func Windows(n int) []int { return []int{0, 255, 256, 32767, 32768, 65534, 65535, 65536, n - 1} }
