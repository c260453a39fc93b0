package hl

import "verif/harness/vp"

// Shape is a binary tree shape.
type Shape struct{ L, R *Shape }

// AVLShape is an arbitrary AVL-balanced shape of height exactly h.
func AVLShape(h int) *Shape {
	if h <= 0 {
		return nil
	}
	if h == 1 {
		return &Shape{}
	}
	switch vp.Choose("shape", 3) {
	case 0:
		return &Shape{AVLShape(h - 1), AVLShape(h - 1)}
	case 1:
		return &Shape{AVLShape(h - 1), AVLShape(h - 2)}
	}
	return &Shape{AVLShape(h - 2), AVLShape(h - 1)}
}

// FibShape is the sparsest shape of height h; mode picks where the deep side lies.
func FibShape(h, mode int) *Shape {
	if h <= 0 {
		return nil
	}
	deepLeft := mode == 0 || (mode == 2 && h%2 == 0) || (mode == 3 && h%2 == 1)
	if deepLeft {
		return &Shape{FibShape(h-1, mode), FibShape(h-2, mode)}
	}
	return &Shape{FibShape(h-2, mode), FibShape(h-1, mode)}
}

// Full is the complete shape of height h.
func Full(h int) *Shape {
	if h <= 0 {
		return nil
	}
	return &Shape{Full(h - 1), Full(h - 1)}
}

func (s *Shape) Count() int {
	if s == nil {
		return 0
	}
	return 1 + s.L.Count() + s.R.Count()
}

// LevelOrder returns the in-order ranks of the nodes in level order; inserting the
// ranks in this order into an AVL tree builds the shape without rotations.
func (s *Shape) LevelOrder() []int {
	type it struct {
		s  *Shape
		lo int
	}
	var out []int
	q := []it{{s, 0}}
	for len(q) > 0 {
		x := q[0]
		q = q[1:]
		if x.s == nil {
			continue
		}
		r := x.lo + x.s.L.Count()
		out = append(out, r)
		q = append(q, it{x.s.L, x.lo}, it{x.s.R, r + 1})
	}
	return out
}

// Order returns 0..n-1 in one of several insertion orders.
func Order(n, mode int) []int {
	var out []int
	switch mode {
	case 0: // ascending
		for i := 0; i < n; i++ {
			out = append(out, i)
		}
	case 1: // descending
		for i := n - 1; i >= 0; i-- {
			out = append(out, i)
		}
	case 2: // from both ends inwards
		for i, j := 0, n-1; i <= j; i, j = i+1, j-1 {
			out = append(out, i)
			if i != j {
				out = append(out, j)
			}
		}
	case 3: // from the middle outwards
		for i, j := n/2, n/2-1; i < n || j >= 0; i, j = i+1, j-1 {
			if i < n {
				out = append(out, i)
			}
			if j >= 0 {
				out = append(out, j)
			}
		}
	default: // multiplicative shuffle
		p := []int{7, 11, 13, 17, 19, 23}[mode%6]
		for n%p == 0 {
			p += 6
		}
		x := 0
		for i := 0; i < n; i++ {
			out = append(out, x)
			x = (x + p) % n
		}
		// a step coprime to n visits everything; otherwise fall back
		seen := make([]bool, n)
		for _, v := range out {
			seen[v] = true
		}
		for i := range seen {
			if !seen[i] {
				return Order(n, 2)
			}
		}
	}
	return out
}
