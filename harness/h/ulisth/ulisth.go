// Package ulisth checks the unrolled list.
package ulisth

import (
	"github.com/zyedidia/generic/ulist"
	"verif/harness/hl"
	"verif/harness/vp"
)

func init() {
	vp.Register("ulisth.Hist", Hist)
	vp.Register("ulisth.Cursor", Cursor)
	vp.Register("ulisth.Walk", Walk)
	vp.Register("ulisth.Two", Two)
	vp.Register("ulisth.Mill", Mill)
	vp.Register("ulisth.Runs", Runs)
}

type iter = ulist.UListIter[int]

type pair struct {
	l *ulist.UList[int]
	m []int
}

func (p *pair) ins(at, v int) {
	m := append(make([]int, 0, len(p.m)+1), p.m[:at]...)
	m = append(m, v)
	p.m = append(m, p.m[at:]...)
}

func (p *pair) del(at int) {
	p.m = append(append(make([]int, 0, len(p.m)), p.m[:at]...), p.m[at+1:]...)
}

// check reads the list from both ends.
func (p *pair) check() {
	n := len(p.m)
	vp.Assert(p.l.Size() == n, "Size is the length of the flat sequence")
	good := true
	it := p.l.Begin()
	for i := 0; i < n; i++ {
		vp.Assert(it.IsValid(), "iteration from Begin visits every element")
		good = vp.And(good, it.Get() == p.m[i])
		vp.Assert(it.Next() == (i < n-1), "Next says whether the iterator is valid")
	}
	vp.Assert(!it.IsValid(), "iteration from Begin ends after the last element")
	it = p.l.End()
	for i := n - 1; i >= 0; i-- {
		vp.Assert(it.IsValid(), "iteration from End visits every element")
		good = vp.And(good, it.Get() == p.m[i])
		vp.Assert(it.Prev() == (i > 0), "Prev says whether the iterator is valid")
	}
	vp.Assert(!it.IsValid(), "iteration from End ends before the first element")
	vp.Assert(good, "the elements are those of the flat sequence")
}

// at returns an iterator on position i, walked to from either end.
func (p *pair) at(i int, back bool) *iter {
	if back {
		it := p.l.End()
		for j := len(p.m) - 1; j > i; j-- {
			it.Prev()
		}
		return it
	}
	it := p.l.Begin()
	for j := 0; j < i; j++ {
		it.Next()
	}
	return it
}

// stands asserts that the iterator is on position i and walks on from there.
func (p *pair) stands(it *iter, i int) {
	n := len(p.m)
	vp.Assert(it.IsValid() == (i < n), "the iterator is valid exactly if it stands on an element")
	if i >= n {
		return
	}
	vp.Assert(it.Get() == p.m[i], "the iterator stands on the right element")
	good := true
	c := *it
	for j := i + 1; j < n; j++ {
		vp.Assert(c.Next(), "Next goes on from the iterator")
		good = vp.And(good, c.Get() == p.m[j])
	}
	vp.Assert(!c.Next(), "Next ends at the end")
	c = *it
	for j := i - 1; j >= 0; j-- {
		vp.Assert(c.Prev(), "Prev goes back from the iterator")
		good = vp.And(good, c.Get() == p.m[j])
	}
	vp.Assert(!c.Prev(), "Prev ends at the front")
	vp.Assert(good, "the iterator reads the elements around it")
}

func (p *pair) step(back bool) {
	n := len(p.m)
	ops := 2
	if n > 0 {
		ops = 5
	}
	v := vp.Int("v")
	switch vp.Choose("op", ops) {
	case 0:
		p.l.PushFront(v)
		p.ins(0, v)
	case 1:
		p.l.PushBack(v)
		p.ins(n, v)
	case 2:
		i := vp.Choose("at", n)
		it := p.at(i, back)
		p.l.AddBefore(it, v)
		p.ins(i, v)
		p.stands(it, i)
	case 3:
		i := vp.Choose("at", n)
		it := p.at(i, back)
		p.l.AddAfter(it, v)
		p.ins(i+1, v)
		p.stands(it, i+1)
	case 4:
		i := vp.Choose("at", n)
		it := p.at(i, back)
		p.l.Remove(it)
		p.del(i)
		p.stands(it, i)
	}
}

func start(blk, back, front int) *pair {
	p := &pair{l: ulist.New[int](blk)}
	for i := 0; i < back; i++ {
		v := vp.Int("init")
		p.l.PushBack(v)
		p.ins(len(p.m), v)
	}
	for i := 0; i < front; i++ {
		v := vp.Int("init")
		p.l.PushFront(v)
		p.ins(0, v)
	}
	return p
}

// Hist: block size args[0], up to args[1] elements pushed back, up to args[2] pushed to
// the front, args[3] arbitrary edits each followed by reading everything.
func Hist(args []int) {
	p := start(args[0], vp.Choose("back", args[1]+1), vp.Choose("front", args[2]+1))
	p.check()
	back := vp.Choose("from", 2) == 1
	for i := 0; i < args[3]; i++ {
		p.step(back)
		p.check()
	}
	vp.Observe(len(p.m))
	vp.Reach()
}

// Cursor: one iterator edits its way through: args[3] steps of Next, Prev, AddBefore,
// AddAfter or Remove through the same iterator.
func Cursor(args []int) {
	p := start(args[0], 1+vp.Choose("back", args[1]), vp.Choose("front", args[2]+1))
	i := vp.Choose("start", len(p.m))
	it := p.at(i, vp.Choose("from", 2) == 1)
	for k := 0; k < args[3]; k++ {
		n := len(p.m)
		switch vp.Choose("op", 5) {
		case 0:
			vp.Assume(i+1 < n)
			it.Next()
			i++
		case 1:
			vp.Assume(i > 0)
			it.Prev()
			i--
		case 2:
			v := vp.Int("v")
			p.l.AddBefore(it, v)
			p.ins(i, v)
		case 3:
			v := vp.Int("v")
			p.l.AddAfter(it, v)
			i++
			p.ins(i, v)
		case 4:
			p.l.Remove(it)
			p.del(i)
		}
		p.stands(it, i)
		n = len(p.m)
		if n == 0 {
			break
		}
		if i == n { // gone off the end: take a new iterator
			i = vp.Choose("again", n)
			it = p.at(i, false)
		}
	}
	p.check()
	vp.Reach()
}

// Walk: after args[3] edits, args[4] arbitrary steps of one iterator from either end.
func Walk(args []int) {
	p := start(args[0], vp.Choose("back", args[1]+1), vp.Choose("front", args[2]+1))
	for i := 0; i < args[3]; i++ {
		p.step(false)
	}
	n := len(p.m)
	it, i := p.l.Begin(), 0
	if vp.Choose("end", 2) == 1 {
		it, i = p.l.End(), n-1
	}
	if n == 0 {
		vp.Assert(!it.IsValid(), "an iterator of an empty list is invalid")
		vp.Reach()
		return
	}
	for k := 0; k < args[4]; k++ {
		ok := false
		if vp.Choose("dir", 2) == 0 {
			ok = it.Next()
			if i < n {
				i++
			}
		} else {
			ok = it.Prev()
			if i >= 0 {
				i--
			}
		}
		vp.Assert(ok == it.IsValid(), "a step reports whether the iterator is valid")
		vp.Assert(ok == (i >= 0 && i < n), "the iterator is valid exactly between the ends")
		if ok {
			vp.Assert(it.Get() == p.m[i], "each step moves exactly one element")
		}
	}
	p.check()
	vp.Observe(i)
	vp.Reach()
}

// Two: stepping off both ends many times, and two iterators at once.
func Two(args []int) {
	p := start(args[0], vp.Choose("back", args[1]+1), vp.Choose("front", args[2]+1))
	n := len(p.m)
	vp.Assume(n > 0)
	a, b := p.l.Begin(), p.l.End()
	off := 1 + vp.Choose("off", args[3])
	i, j := 0, n-1
	for k := 0; k < n+off; k++ {
		a.Next()
		b.Prev()
		i, j = i+1, j-1
		vp.Assert(a.IsValid() == (i < n) && b.IsValid() == (j >= 0), "iterators are valid exactly between the ends")
		if i < n {
			vp.Assert(a.Get() == p.m[i], "Next moves one element")
			vp.Assert(b.Get() == p.m[j], "Prev moves one element")
		}
	}
	for k := n - 1; k >= 0; k-- {
		vp.Assert(a.Prev(), "one step back makes the iterator valid again")
		vp.Assert(b.Next(), "one step back makes the iterator valid again")
		vp.Assert(a.Get() == p.m[k], "one step back from the end stands on the last element")
		vp.Assert(b.Get() == p.m[n-1-k], "one step back from the front stands on the first element")
	}
	vp.Assert(!a.Prev() && !b.Next(), "the iterators have crossed the list")
	p.check()
	vp.Reach()
}

// Mill: block size args[0], args[1] operations in waves of up to args[2] elements, one of
// an arbitrary value; args[3] histories.
func Mill(args []int) {
	p := &pair{l: ulist.New[int](args[0])}
	r := hl.NewRand(args[3])
	special := vp.Int("v")
	at := args[1] * (1 + vp.Choose("at", 3)) / 5
	up := true
	side := 0
	for i := 0; i < args[1]; i++ {
		vp.Progress()
		n := len(p.m)
		v := i
		if i == at {
			v = special
		}
		pos := 0
		if n > 0 {
			pos = r.N(n)
		}
		if side > 0 { // runs at one end
			pos = (side - 1) * (n - 1)
		}
		if (r.N(16) < 11) == up || n == 0 {
			switch k := r.N(4); {
			case k == 0 || n == 0:
				p.l.PushFront(v)
				p.ins(0, v)
			case k == 1:
				p.l.PushBack(v)
				p.ins(n, v)
			case k == 2:
				it := p.at(pos, i%2 == 0)
				p.l.AddBefore(it, v)
				p.ins(pos, v)
				p.stands(it, pos)
			default:
				it := p.at(pos, i%2 == 0)
				p.l.AddAfter(it, v)
				p.ins(pos+1, v)
				p.stands(it, pos+1)
			}
		} else {
			it := p.at(pos, i%2 == 0)
			p.l.Remove(it)
			p.del(pos)
			p.stands(it, pos)
		}
		if len(p.m) >= args[2] {
			up = false
			side = r.N(3)
		}
		if len(p.m) == 0 {
			up = true
			side = r.N(3)
		}
		if i%4 == 0 {
			p.check()
		}
	}
	p.check()
	vp.Reach()
}

// Runs: block size args[0]; args[1] values pushed at either end, a run of neighbouring ones
// removed forwards or backwards, some put in at the same or another place, another run
// removed; one value is arbitrary. Everything is compared every few steps.
func Runs(args []int) {
	n := args[1]
	p := &pair{l: ulist.New[int](args[0])}
	front := vp.Choose("front", 3)
	c := 0
	val := func() int {
		c++
		if c == n/2 {
			return vp.Int("v")
		}
		return c
	}
	for i := 0; i < n; i++ {
		v := val()
		if front == 1 || (front == 2 && i%2 == 0) {
			p.l.PushFront(v)
			p.ins(0, v)
		} else {
			p.l.PushBack(v)
			p.ins(i, v)
		}
	}
	p.check()
	pos := func(name string) int { return vp.Choose(name, 5) * (len(p.m) - 1) / 4 }
	remove := func(at, k int, back bool) {
		if len(p.m) == 0 {
			return
		}
		it := p.at(at, back)
		for i := 0; i < k && it.IsValid(); i++ {
			if back && at > 0 { // step back and remove there
				it.Prev()
				at--
			}
			p.l.Remove(it)
			p.del(at)
			p.stands(it, at)
			p.check()
			vp.Progress()
		}
	}
	remove(pos("first"), 1+vp.Choose("k", 3)*(args[0]-1), vp.Choose("back", 2) == 1)
	how := vp.Choose("add", 4)
	if len(p.m) > 0 {
		at := pos("at")
		it := p.at(at, how == 0)
		for i := 0; i <= args[0]; i++ {
			v := val()
			switch how {
			case 0:
				p.l.AddBefore(it, v)
				p.ins(at, v)
			case 1:
				p.l.AddAfter(it, v)
				p.ins(at+1, v)
				at++
			case 2:
				p.l.PushFront(v)
				p.ins(0, v)
			case 3:
				p.l.PushBack(v)
				p.ins(len(p.m), v)
			}
			if how < 2 {
				p.stands(it, at)
			}
		}
		p.check()
	}
	remove(pos("second"), 1+vp.Choose("l", 2)*args[0], vp.Choose("back", 2) == 1)
	vp.Reach()
}
