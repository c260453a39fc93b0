// Package ropeh checks the rope.
package ropeh

import (
	"github.com/zyedidia/generic/rope"
	"verif/harness/hl"
	"verif/harness/vp"
)

func init() {
	vp.Register("ropeh.Hist", Hist)
	vp.Register("ropeh.Parts", Parts)
	vp.Register("ropeh.Deep", Deep)
	vp.Register("ropeh.Pos", Pos)
	vp.Register("ropeh.Many", Many)
	vp.Register("ropeh.Mill", Mill)
	vp.Register("ropeh.Default", Default)
	vp.Register("ropeh.Chunks", Chunks)
	vp.Register("ropeh.BigChunks", BigChunks)
}

type pair struct {
	r *rope.Node[int]
	m []int
}

func setup(split, join int) {
	rope.SplitLength = split
	rope.JoinLength = join
	rope.RebalanceRatio = 1.2
}

func fresh(name string, n int) []int {
	s := make([]int, n)
	for i := range s {
		s[i] = vp.Int(name)
	}
	return s
}

func dup(s []int) []int { return append(make([]int, 0, len(s)), s...) }

func start(n int) *pair {
	s := fresh("init", n)
	m := dup(s)
	// spare capacity behind the slice belongs to the caller
	t := append(s, 7, 8)
	p := &pair{rope.New(t[:n:len(t)]), m}
	return p
}

// startAt makes a rope from a slice that lies behind what is used of buf.
func startAt(buf []int, n int) *pair {
	s := append(buf, fresh("init", n)...)
	return &pair{rope.New(s[len(buf):]), dup(s[len(buf):])}
}

func same(s, m []int, msg string) {
	vp.Assert(len(s) == len(m), msg)
	good := true
	for i := range m {
		good = vp.And(good, s[i] == m[i])
	}
	vp.Assert(good, msg)
}

// light checks what can be read without going through every range.
func (p *pair) light() {
	vp.Assert(p.r.Len() == len(p.m), "Len is the length of the flat array")
	same(p.r.Value(), p.m, "Value is the flat array")
}

func (p *pair) full() {
	p.light()
	n := len(p.m)
	good := true
	for i := 0; i < n; i++ {
		good = vp.And(good, p.r.At(i) == p.m[i])
	}
	vp.Assert(good, "At reads the element at every position")
	for a := 0; a <= n; a++ {
		for b := a; b <= n; b++ {
			same(p.r.Slice(a, b), p.m[a:b], "Slice reads every range")
		}
	}
	i := 0
	p.r.Each(func(x *rope.Node[int]) {
		v := x.Value()
		vp.Assert(x.Len() == len(v), "a leaf's Len is the length of its value")
		vp.Assert(i+len(v) <= n, "Each visits the leaves in order")
		same(v, p.m[i:i+len(v)], "Each visits the leaves in order")
		i += len(v)
	})
	vp.Assert(i == n, "Each visits all leaves")
}

func (p *pair) insert(pos, k int) {
	v := fresh("v", k)
	vs := append(dup(v), 5)[:k]
	p.r.Insert(pos, vs)
	same(vs, v, "Insert does not change the inserted slice")
	vp.Assert(vs[:k+1][k] == 5, "Insert does not write behind the inserted slice")
	for i := range vs {
		vs[i] = -9 // the caller's slice
	}
	m := append(dup(p.m[:pos]), v...)
	p.m = append(m, p.m[pos:]...)
}

func (p *pair) remove(a, b int) {
	p.r.Remove(a, b)
	p.m = append(dup(p.m[:a]), p.m[b:]...)
}

func (p *pair) edit(maxIns int) {
	n := len(p.m)
	if vp.Choose("op", 2) == 0 {
		p.insert(vp.Choose("pos", n+1), vp.Choose("k", maxIns+1))
	} else {
		a := vp.Choose("a", n+1)
		p.remove(a, a+vp.Choose("len", n-a+1))
	}
}

// Hist: thresholds args[0], args[1]; up to args[2] initial elements; args[3] arbitrary
// edits inserting up to args[4] elements each; everything is read after each edit.
func Hist(args []int) {
	setup(args[0], args[1])
	p := start(vp.Choose("n", args[2]+1))
	p.full()
	for i := 0; i < args[3]; i++ {
		p.edit(args[4])
		p.full()
	}
	vp.Observe(len(p.m))
	vp.Reach()
}

// Deep: args[2] initial elements, args[3] spread inserts of args[4] elements and
// removals (concrete positions), then args[5] arbitrary edits.
func Deep(args []int) {
	setup(args[0], args[1])
	p := start(args[2])
	x := 3 + 2*vp.Choose("seed", 3)
	for i := 0; i < args[3]; i++ {
		n := len(p.m)
		x = x*29 + 7
		if i%3 == 2 && n > 2 {
			a := x % n
			b := a + (x/7)%3
			if b > n {
				b = n
			}
			p.remove(a, b)
		} else {
			p.insert(x%(n+1), args[4])
		}
		p.light()
	}
	p.full()
	for i := 0; i < args[5]; i++ {
		n := len(p.m)
		if vp.Choose("op", 2) == 0 {
			p.insert(vp.Choose("pos", n+1), 1+vp.Choose("k", args[4]))
		} else {
			a := vp.Choose("a", n+1)
			l := vp.Choose("len", 6)
			b := a + l
			switch l {
			case 4:
				b = a + (n-a)/2
			case 5:
				b = n
			}
			vp.Assume(b <= n)
			p.remove(a, b)
		}
		p.light()
	}
	p.full()
	vp.Reach()
}

// Pos: as Hist with symbolic positions and ranges decided by the solver.
func Pos(args []int) {
	setup(args[0], args[1])
	p := start(args[2])
	for i := 0; i < args[3]; i++ {
		n := len(p.m)
		if vp.Choose("op", 2) == 0 {
			pos := vp.IntR("pos", 0, n)
			v := fresh("v", 1+vp.Choose("k", args[4]))
			p.r.Insert(pos, dup(v))
			pos = vp.Concrete(pos)
			p.m = append(append(dup(p.m[:pos]), v...), p.m[pos:]...)
		} else {
			a := vp.IntR("a", 0, n)
			b := vp.IntR("b", 0, n)
			vp.Assume(a <= b)
			p.r.Remove(a, b)
			a, b = vp.Concrete(a), vp.Concrete(b)
			p.m = append(dup(p.m[:a]), p.m[b:]...)
		}
		p.light()
	}
	n := len(p.m)
	a := vp.IntR("a", 0, n)
	b := vp.IntR("b", 0, n)
	vp.Assume(a <= b)
	s := p.r.Slice(a, b)
	a, b = vp.Concrete(a), vp.Concrete(b)
	same(s, p.m[a:b], "Slice reads every range")
	if n > 0 {
		at := vp.IntR("at", 0, n-1)
		v := p.r.At(at)
		vp.Assert(v == p.m[vp.Concrete(at)], "At reads the element at every position")
	}
	vp.Reach()
}

// Parts: thresholds args[0], args[1]; up to args[2] initial elements; args[3] steps, each
// splitting, joining, rebuilding, rebalancing or editing any of the ropes.
func Parts(args []int) {
	setup(args[0], args[1])
	if vp.Choose("ratio", 2) == 1 {
		rope.RebalanceRatio = 2.5
	}
	ps := []*pair{start(vp.Choose("n", args[2]+1))}
	for i := 0; i < args[3]; i++ {
		w := vp.Choose("who", len(ps))
		p := ps[w]
		n := len(p.m)
		ops := 4
		if len(ps) > 1 {
			ops = 6
		}
		switch vp.Choose("op", ops) {
		case 0:
			at := vp.Choose("at", n+1)
			l, r := p.r.SplitAt(at)
			ps[w] = &pair{l, dup(p.m[:at])}
			ps = append(ps, &pair{r, dup(p.m[at:])})
		case 1:
			p.r.Rebuild()
		case 2:
			p.r.Rebalance()
		case 3:
			p.edit(1)
		case 4: // the next rope is consumed
			o := (w + 1) % len(ps)
			q := ps[o]
			p.r = rope.Join(p.r, q.r)
			p.m = append(dup(p.m), q.m...)
			ps = append(ps[:o:o], ps[o+1:]...)
		case 5: // three-way join with new data in the middle
			o := (w + 1) % len(ps)
			q := ps[o]
			x := start(vp.Choose("more", 4))
			p.r = rope.Join(p.r, x.r, q.r)
			p.m = append(append(dup(p.m), x.m...), q.m...)
			ps = append(ps[:o:o], ps[o+1:]...)
		}
		for _, x := range ps {
			if i == args[3]-1 {
				x.full()
			} else {
				x.light()
			}
		}
	}
	vp.Observe(len(ps))
	vp.Reach()
}

// Many: args[2] ropes at most, each of up to args[3] elements (all of any length if args[3]
// is 1, else of one length except for one of any length), joined in one call with a slice
// that belongs to the caller; then args[4] edits inserting up to args[5] elements.
func Many(args []int) {
	setup(args[0], args[1])
	n := 2 + vp.Choose("ropes", args[2]-1)
	each, odd, oddlen := 0, -1, 0
	if args[3] > 1 {
		each, odd, oddlen = 1+vp.Choose("each", args[3]), vp.Choose("odd", n), vp.Choose("oddlen", args[3]+1)
	}
	var ps []*pair
	var m []int
	buf := make([]int, 0, 64) // the ropes are made from neighbouring slices
	for i := 0; i < n; i++ {
		l := each
		if args[3] == 1 {
			l = vp.Choose("len", 2)
		} else if i == odd {
			l = oddlen
		}
		x := startAt(buf, l)
		buf = buf[:len(buf)+l]
		ps = append(ps, x)
		m = append(m, x.m...)
	}
	more := make([]*rope.Node[int], 0, n+2)
	for _, x := range ps[2:] {
		more = append(more, x.r)
	}
	spare := start(1)
	more = append(more, spare.r, spare.r)[:n-2]
	p := &pair{rope.Join(ps[0].r, ps[1].r, more...), m}
	for i, x := range ps[2:] {
		vp.Assert(more[i] == x.r, "Join does not change the slice of ropes")
	}
	vp.Assert(more[:n][n-2] == spare.r && more[:n][n-1] == spare.r, "Join does not write behind the slice of ropes")
	p.full()
	for i := 0; i < args[4]; i++ {
		p.edit(args[5])
		p.full()
	}
	if vp.Choose("rebuild", 2) == 1 {
		p.r.Rebuild()
		p.full()
	} else {
		p.r.Rebalance()
		p.full()
	}
	vp.Reach()
}

// Default: the package's own thresholds and args[0] elements; one edit or split at or next
// to a position that matters, then a second one.
func Default(args []int) {
	n := args[0]
	m := make([]int, n)
	for i := range m {
		m[i] = i*7 + 1
	}
	p := &pair{rope.New(dup(m)), m}
	read := func() {
		p.light()
		n := len(p.m)
		for _, a := range []int{0, n / 4, n/2 - 1, n - n/3} {
			for _, b := range []int{a + 1, n/2 + 1, n - 1, n} {
				if a >= 0 && a <= b && b <= n {
					same(p.r.Slice(a, b), p.m[a:b], "Slice reads every range")
				}
			}
			if a >= 0 && a < n {
				vp.Assert(p.r.At(a) == p.m[a], "At reads the element at every position")
			}
		}
		vp.Progress()
	}
	read()
	for i := 0; i < args[1]; i++ {
		n := len(p.m)
		at := []int{0, n / 4, n/2 - 1, n / 2, n}[vp.Choose("at", 5)]
		switch vp.Choose("op", 3) {
		case 0:
			v := fresh("v", 3)
			w := dup(v)
			p.r.Insert(at, w)
			p.m = append(append(dup(p.m[:at]), v...), p.m[at:]...)
		case 1:
			b := at + (n-at)*vp.Choose("len", 3)/2
			p.remove(at, b)
		case 2:
			l, r := p.r.SplitAt(at)
			same(l.Value(), p.m[:at], "the left part holds the elements before the position")
			same(r.Value(), p.m[at:], "the right part holds the elements from the position on")
			p.r = rope.Join(l, r)
		}
		read()
	}
	vp.Reach()
}

// Mill: thresholds args[0], args[1]; args[2] edits, splits, joins, rebuilds and rebalances
// at fixed positions on up to args[3] elements, one of an arbitrary value; args[4] histories.
func Mill(args []int) {
	setup(args[0], args[1])
	x := hl.NewRand(args[4])
	special := vp.Int("v")
	at := args[2] * (1 + vp.Choose("at", 3)) / 5
	p := &pair{r: rope.New([]int{})}
	up := true
	c := 0
	some := func(n int) []int {
		s := make([]int, n)
		for i := range s {
			c++
			s[i] = c
		}
		return s
	}
	for i := 0; i < args[2]; i++ {
		vp.Progress()
		n := len(p.m)
		pos := x.N(n + 1)
		if k := x.N(6); k < 2 {
			pos = k * n
		}
		switch o := x.N(16); {
		case o == 0:
			p.r.Rebalance()
		case o == 1:
			p.r.Rebuild()
		case o < 4:
			l, r := p.r.SplitAt(pos)
			q := &pair{l, dup(p.m[:pos])}
			q.light()
			m := some(x.N(3))
			y := rope.New(dup(m))
			if o == 2 {
				p = &pair{rope.Join(l, y, r), append(append(dup(p.m[:pos]), m...), p.m[pos:]...)}
			} else {
				p = &pair{rope.Join(r, l), append(dup(p.m[pos:]), p.m[:pos]...)}
			}
		case o < 12 == up || n == 0:
			v := some(1 + x.N(2*args[0]))
			if i >= at && at >= 0 {
				v[0] = special
				at = -1
			}
			p.r.Insert(pos, dup(v))
			p.m = append(append(dup(p.m[:pos]), v...), p.m[pos:]...)
		default:
			b := pos + x.N(2*args[0]+2)
			if b > n {
				b = n
			}
			p.remove(pos, b)
		}
		n = len(p.m)
		if n >= args[3] {
			up = false
		}
		if n == 0 {
			up = true
		}
		p.light()
		if n > 0 {
			a := x.N(n)
			b := a + x.N(n-a+1)
			same(p.r.Slice(a, b), p.m[a:b], "Slice reads every range")
			vp.Assert(p.r.At(a) == p.m[a], "At reads the element at every position")
		}
	}
	good := true
	for i := range p.m {
		good = vp.And(good, p.r.At(i) == p.m[i])
	}
	vp.Assert(good, "At reads the element at every position")
	vp.Observe(len(p.m))
	vp.Reach()
}

// chunks checks how the rope's content is divided: in order, no leaf over the splitting
// threshold, one leaf below the merging threshold, and few leaves if it was just built.
func (p *pair) chunks(built bool) {
	n, i, leaves, most := len(p.m), 0, 0, 0
	p.r.Each(func(x *rope.Node[int]) {
		v := x.Value()
		vp.Assert(x.Len() == len(v), "a leaf's Len is the length of its value")
		vp.Assert(i+len(v) <= n, "Each visits the leaves in order")
		same(v, p.m[i:i+len(v)], "Each visits the leaves in order")
		i += len(v)
		leaves++
		if len(v) > most {
			most = len(v)
		}
	})
	vp.Assert(i == n, "Each visits all leaves")
	vp.Assert(most <= rope.SplitLength, "no leaf is longer than the splitting threshold")
	vp.Assert(n >= rope.JoinLength || leaves == 1, "a rope shorter than the merging threshold is one leaf")
	vp.Assert(!built || leaves <= 4*n/rope.SplitLength+1, "a rope just built has no more leaves than it needs")
	vp.Assert(leaves >= 1 && (n > 0 || rope.JoinLength == 0 || leaves == 1), "an empty rope is one leaf")
	vp.Progress()
}

// Chunks: thresholds args[0], args[1]; up to args[2] initial elements; args[3] steps, each
// splitting, joining, rebuilding, rebalancing or editing (up to args[4] elements inserted).
func Chunks(args []int) {
	setup(args[0], args[1])
	p := start(vp.Choose("n", args[2]+1))
	p.chunks(true)
	for i := 0; i < args[3]; i++ {
		n := len(p.m)
		built := false
		switch vp.Choose("step", 5) {
		case 0:
			p.edit(args[4])
		case 1:
			at := vp.Choose("at", n+1)
			l, r := p.r.SplitAt(at)
			x, y := &pair{l, dup(p.m[:at])}, &pair{r, dup(p.m[at:])}
			x.chunks(false)
			y.chunks(false)
			p = &pair{rope.Join(l, r), p.m}
		case 2:
			x := start(vp.Choose("more", args[0]+2))
			p = &pair{rope.Join(p.r, x.r), append(dup(p.m), x.m...)}
		case 3:
			p.r.Rebuild()
			built = true
		case 4:
			p.r.Rebalance()
		}
		p.chunks(built)
	}
	vp.Observe(len(p.m))
	vp.Reach()
}

// BigChunks: thresholds args[0], args[1]; args[2] elements appended, prepended or inserted
// in the middle in pieces of args[3], one at a place of the solver's choice; parts removed
// and split off again.
func BigChunks(args []int) {
	setup(args[0], args[1])
	p := start(0)
	how := vp.Choose("how", 4)
	c := 0
	for len(p.m) < args[2] {
		n := len(p.m)
		s := make([]int, args[3])
		for i := range s {
			c++
			s[i] = c
		}
		pos := []int{n, 0, n / 2, n * (c % 7) / 7}[how]
		p.r.Insert(pos, dup(s))
		p.m = append(append(dup(p.m[:pos]), s...), p.m[pos:]...)
		p.chunks(false)
	}
	p.edit2()
	for len(p.m) > args[2]/4 {
		n := len(p.m)
		a := []int{0, n / 2, n / 3, n - 2}[how]
		b := a + args[3] + 1
		if b > n {
			b = n
		}
		p.remove(a, b)
		p.chunks(false)
	}
	at := len(p.m) / 3
	l, r := p.r.SplitAt(at)
	x, y := &pair{l, dup(p.m[:at])}, &pair{r, dup(p.m[at:])}
	x.chunks(false)
	y.chunks(false)
	x.r.Rebuild()
	x.chunks(true)
	y.r.Rebuild()
	y.chunks(true)
	z := &pair{rope.Join(x.r, y.r), p.m}
	z.chunks(false)
	z.r.Rebuild()
	z.chunks(true)
	vp.Reach()
}

// edit2 inserts or removes at an arbitrary place.
func (p *pair) edit2() {
	n := len(p.m)
	a := vp.Concrete(vp.IntR("at", 0, n))
	if vp.Choose("op", 2) == 0 {
		p.insert(a, 1+vp.Choose("k", 2)*2*rope.SplitLength)
	} else {
		b := a + 1 + vp.Choose("len", 3)*rope.SplitLength
		vp.Assume(b <= n)
		p.remove(a, b)
	}
	p.chunks(false)
}
