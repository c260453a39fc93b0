// Package stackh checks the stack.
package stackh

import (
	"github.com/zyedidia/generic/stack"
	"verif/harness/vp"
)

func init() {
	vp.Register("stackh.Hist", Hist)
	vp.Register("stackh.Waves", Waves)
	vp.Register("stackh.Copies", Copies)
	vp.Register("stackh.Scale", Scale)
}

type pair struct {
	s *stack.Stack[int]
	m []int
}

func (p *pair) push(v int) {
	p.s.Push(v)
	n := len(p.m)
	p.m = append(p.m[:n:n], v)
}

func (p *pair) pop() {
	v := p.s.Pop()
	if n := len(p.m); n > 0 {
		vp.Assert(v == p.m[n-1], "Pop returns the most recently pushed value")
		p.m = p.m[:n-1]
	} else {
		vp.Assert(v == 0, "Pop of an empty stack returns the zero value")
	}
}

func (p *pair) check() {
	n := len(p.m)
	vp.Assert(p.s.Size() == n, "Size counts the values")
	v := p.s.Peek()
	if n > 0 {
		vp.Assert(v == p.m[n-1], "Peek returns the most recently pushed value")
	} else {
		vp.Assert(v == 0, "Peek of an empty stack returns the zero value")
	}
}

func (p *pair) drain() {
	p.check()
	for len(p.m) > 0 {
		p.pop()
		p.check()
	}
	p.pop()
	p.check()
	p.push(5)
	p.check()
	p.pop()
	p.check()
}

func newStack() *pair {
	if vp.Choose("zero", 2) == 0 {
		return &pair{s: stack.New[int]()}
	}
	return &pair{s: &stack.Stack[int]{}}
}

// Hist: args[0] arbitrary operations, then drained.
func Hist(args []int) {
	p := newStack()
	for i := 0; i < args[0]; i++ {
		if vp.Choose("op", 2) == 0 {
			p.push(vp.Int("v"))
		} else {
			p.pop()
		}
		p.check()
	}
	vp.Observe(len(p.m))
	p.drain()
	vp.Reach()
}

// Waves: args[1] waves of up to args[0] pushes and as many pops, then drained.
func Waves(args []int) {
	p := newStack()
	for w := 0; w < args[1]; w++ {
		up, down := vp.Choose("up", args[0]+1), vp.Choose("down", args[0]+1)
		for i := 0; i < up; i++ {
			p.push(vp.Int("v"))
		}
		p.check()
		for i := 0; i < down; i++ {
			p.pop()
		}
		p.check()
	}
	p.drain()
	vp.Reach()
}

// Copies: up to args[0] pushes and pops, then args[1] steps, each an operation on or a
// copy of any stack so far.
func Copies(args []int) {
	a := newStack()
	up := vp.Choose("up", args[0]+1)
	down := vp.Choose("down", up+1)
	for i := 0; i < up; i++ {
		a.push(vp.Int("v"))
	}
	for i := 0; i < down; i++ {
		a.pop()
	}
	ps := []*pair{a}
	for i := 0; i < args[1]; i++ {
		p := ps[vp.Choose("who", len(ps))]
		k := 0
		if i > 0 {
			k = vp.Choose("op", 3)
		}
		switch k {
		case 0:
			ps = append(ps, &pair{p.s.Copy(), append([]int(nil), p.m...)})
		case 1:
			p.push(vp.Int("v"))
		case 2:
			p.pop()
		}
		for _, x := range ps {
			x.check()
		}
	}
	for _, x := range ps {
		x.drain()
	}
	vp.Reach()
}

// Scale: args[0] or one less pushed, popped down to a few depths, pushed again, with a copy
// taken at the top or at the bottom (args[1]=1); everything is drained.
func Scale(args []int) {
	p := newStack()
	n := args[0] - vp.Choose("n", 2)
	ps := []*pair{p}
	copyAt := -1
	if args[1] == 1 {
		copyAt = vp.Choose("copy", 3)
	}
	take := func(at int) {
		if copyAt == at {
			ps = append(ps, &pair{p.s.Copy(), append([]int(nil), p.m...)})
		}
	}
	up := func(k int) {
		for i := 0; i < k; i++ {
			p.push(vp.Int("v"))
			p.check()
		}
	}
	up(n)
	take(0)
	down := []int{0, 1, n / 8, n / 4, n/2 - 1, n - 1}[vp.Choose("down", 6)]
	for len(p.m) > down {
		p.pop()
		p.check()
	}
	take(1)
	up([]int{1, n / 8, n}[vp.Choose("again", 3)])
	take(2)
	up(1)
	for _, x := range ps {
		x.drain()
	}
	vp.Reach()
}
