// Package propeh checks the persistent rope.
package propeh

import (
	"github.com/zyedidia/generic/prope"
	"verif/harness/hl"
	"verif/harness/vp"
)

func init() {
	vp.Register("propeh.Hist", Hist)
	vp.Register("propeh.Deep", Deep)
	vp.Register("propeh.Pos", Pos)
	vp.Register("propeh.Many", Many)
	vp.Register("propeh.Mill", Mill)
	vp.Register("propeh.Default", Default)
	vp.Register("propeh.Versions", Versions)
}

type pair struct {
	r *prope.Node[int]
	m []int
}

func setup(split, join int) {
	prope.SplitLength = split
	prope.JoinLength = join
	prope.RebalanceRatio = 1.5
}

func fresh(name string, n int) []int {
	s := make([]int, n)
	for i := range s {
		s[i] = vp.Int(name)
	}
	return s
}

func dup(s []int) []int { return append(make([]int, 0, len(s)), s...) }

func start(n int) *pair {
	s := fresh("init", n)
	m := dup(s)
	t := append(s, 7, 8)
	return &pair{prope.New(t[:n:len(t)]), m}
}

// startAt makes a rope from a slice that lies behind what is used of buf.
func startAt(buf []int, n int) *pair {
	s := append(buf, fresh("init", n)...)
	return &pair{prope.New(s[len(buf):]), dup(s[len(buf):])}
}

func same(s, m []int, msg string) {
	vp.Assert(len(s) == len(m), msg)
	good := true
	for i := range m {
		good = vp.And(good, s[i] == m[i])
	}
	vp.Assert(good, msg)
}

func (p *pair) light() {
	vp.Assert(p.r.Len() == len(p.m), "Len is the length of the flat array")
	same(p.r.Value(), p.m, "Value is the flat array")
}

func (p *pair) full() {
	p.light()
	n := len(p.m)
	good := true
	for i := 0; i < n; i++ {
		good = vp.And(good, p.r.At(i) == p.m[i])
	}
	vp.Assert(good, "At reads the element at every position")
	for a := 0; a <= n; a++ {
		for b := a; b <= n; b++ {
			same(p.r.Slice(a, b), p.m[a:b], "Slice reads every range")
		}
	}
}

// scribble modifies everything the rope returns, which is the caller's to modify.
func (p *pair) scribble() {
	n := len(p.m)
	wreck(p.r.Value())
	for a := 0; a < n; a++ {
		for b := a + 1; b <= n; b++ {
			wreck(p.r.Slice(a, b))
		}
	}
}

func wreck(s []int) {
	s = s[:cap(s)]
	for i := range s {
		s[i] = -55
	}
}

func (p *pair) insert(pos, k int) *pair {
	v := fresh("v", k)
	vs := append(dup(v), 5)[:k]
	r := p.r.Insert(pos, vs)
	same(vs, v, "Insert does not change the inserted slice")
	vp.Assert(vs[:k+1][k] == 5, "Insert does not write behind the inserted slice")
	wreck(vs)
	m := append(dup(p.m[:pos]), v...)
	return &pair{r, append(m, p.m[pos:]...)}
}

func (p *pair) remove(a, b int) *pair {
	return &pair{p.r.Remove(a, b), append(dup(p.m[:a]), p.m[b:]...)}
}

func (p *pair) edit(maxIns int) *pair {
	n := len(p.m)
	if vp.Choose("op", 2) == 0 {
		return p.insert(vp.Choose("pos", n+1), vp.Choose("k", maxIns+1))
	}
	a := vp.Choose("a", n+1)
	return p.remove(a, a+vp.Choose("len", n-a+1))
}

// op applies one arbitrary operation and returns what it yields.
func op(ps []*pair, w, maxIns int) []*pair {
	p := ps[w]
	n := len(p.m)
	switch vp.Choose("kind", 5) {
	case 0:
		return []*pair{p.edit(maxIns)}
	case 1:
		at := vp.Choose("at", n+1)
		l, r := p.r.SplitAt(at)
		return []*pair{{l, dup(p.m[:at])}, {r, dup(p.m[at:])}}
	case 2:
		q := ps[vp.Choose("with", len(ps))]
		return []*pair{{prope.Join(p.r, q.r), append(dup(p.m), q.m...)}}
	case 3:
		p.r.Rebuild()
	case 4:
		p.r.Rebalance()
	}
	return nil
}

// Hist: thresholds args[0], args[1]; up to args[2] initial elements; args[3] operations
// on the newest version, each result read completely.
func Hist(args []int) {
	setup(args[0], args[1])
	p := start(vp.Choose("n", args[2]+1))
	p.full()
	for i := 0; i < args[3]; i++ {
		rs := op([]*pair{p}, 0, args[4])
		for _, r := range rs {
			r.full()
		}
		if len(rs) > 0 {
			p = rs[vp.Choose("use", len(rs))]
		} else {
			p.full()
		}
	}
	vp.Observe(len(p.m))
	vp.Reach()
}

// Deep: args[2] initial elements, args[3] spread edits of args[4] elements at concrete
// positions, then args[5] arbitrary operations; all versions are read again at the end.
func Deep(args []int) {
	setup(args[0], args[1])
	p := start(args[2])
	ps := []*pair{p}
	x := 3 + 2*vp.Choose("seed", 3)
	for i := 0; i < args[3]; i++ {
		n := len(p.m)
		x = x*29 + 7
		if i%3 == 2 && n > 2 {
			a := x % n
			b := a + (x/7)%3
			if b > n {
				b = n
			}
			p = p.remove(a, b)
		} else {
			p = p.insert(x%(n+1), args[4])
		}
		ps = append(ps, p)
	}
	p.full()
	for i := 0; i < args[5]; i++ {
		n := len(p.m)
		switch vp.Choose("op", 5) {
		case 0:
			p = p.insert(vp.Choose("pos", n+1), 1+vp.Choose("k", args[4]))
		case 1:
			a := vp.Choose("a", n+1)
			l := vp.Choose("len", 6)
			b := a + l
			switch l {
			case 4:
				b = a + (n-a)/2
			case 5:
				b = n
			}
			vp.Assume(b <= n)
			p = p.remove(a, b)
		case 2:
			at := vp.Choose("at", n+1)
			l, r := p.r.SplitAt(at)
			q := &pair{l, dup(p.m[:at])}
			p = &pair{r, dup(p.m[at:])}
			ps = append(ps, q)
		case 3:
			p.r.Rebalance()
		case 4:
			q := ps[vp.Choose("with", len(ps))]
			p = &pair{prope.Join(q.r, p.r, q.r), append(append(dup(q.m), p.m...), q.m...)}
		}
		ps = append(ps, p)
	}
	for _, q := range ps {
		q.light()
	}
	p.full()
	vp.Reach()
}

// Pos: positions and ranges are symbolic and decided by the solver.
func Pos(args []int) {
	setup(args[0], args[1])
	p := start(args[2])
	n := len(p.m)
	a := vp.IntR("a", 0, n)
	b := vp.IntR("b", 0, n)
	vp.Assume(a <= b)
	switch vp.Choose("op", 4) {
	case 0:
		v := fresh("v", 1+vp.Choose("k", args[3]))
		q := p.r.Insert(a, v)
		a = vp.Concrete(a)
		(&pair{q, append(append(dup(p.m[:a]), v...), p.m[a:]...)}).light()
	case 1:
		q := p.r.Remove(a, b)
		a, b = vp.Concrete(a), vp.Concrete(b)
		(&pair{q, append(dup(p.m[:a]), p.m[b:]...)}).light()
	case 2:
		l, r := p.r.SplitAt(a)
		a = vp.Concrete(a)
		(&pair{l, p.m[:a]}).light()
		(&pair{r, p.m[a:]}).light()
	case 3:
		s := p.r.Slice(a, b)
		a, b = vp.Concrete(a), vp.Concrete(b)
		same(s, p.m[a:b], "Slice reads every range")
	}
	p.light()
	vp.Reach()
}

// Versions: up to args[2] initial elements; args[3] operations on any versions; every
// version is read again after each operation, and everything returned is overwritten.
// args[6] = 1: begins with two ropes made from neighbouring slices.
func Versions(args []int) {
	setup(args[0], args[1])
	if vp.Choose("ratio", 2) == 1 {
		prope.RebalanceRatio = 1.1
	}
	ps := []*pair{start(vp.Choose("n", args[2]+1))}
	if len(args) > 6 && args[6] == 1 { // two ropes made from neighbouring slices
		buf := make([]int, 0, 2*args[2])
		n := 1 + vp.Choose("n2", args[2])
		ps = []*pair{startAt(buf, n), startAt(buf[:n], 1+vp.Choose("m", 2))}
	}
	for i := 0; i < args[3]; i++ {
		w := vp.Choose("who", len(ps))
		ps = append(ps, op(ps, w, args[4])...)
		for _, p := range ps {
			p.light()
		}
		if i == args[3]-1 || args[5] == 1 {
			for _, p := range ps {
				p.scribble()
			}
			for _, p := range ps {
				p.light()
			}
		}
	}
	vp.Observe(len(ps))
	vp.Reach()
}

// Many: args[2] ropes at most, each of up to args[3] elements (all of any length if args[3]
// is 1, else of one length except for one of any length), joined in one call with a slice
// that belongs to the caller; then args[4] edits inserting up to args[5] elements.
func Many(args []int) {
	setup(args[0], args[1])
	n := vp.Choose("ropes", args[2]+1)
	each, odd, oddlen := 0, -1, 0
	if args[3] > 1 {
		each, odd, oddlen = 1+vp.Choose("each", args[3]), vp.Choose("odd", n+1), vp.Choose("oddlen", args[3]+1)
	}
	var ps []*pair
	var m []int
	buf := make([]int, 0, 64) // the ropes are made from neighbouring slices
	for i := 0; i < n; i++ {
		l := each
		if args[3] == 1 {
			l = vp.Choose("len", 2)
		} else if i == odd {
			l = oddlen
		}
		x := startAt(buf, l)
		buf = buf[:len(buf)+l]
		ps = append(ps, x)
		m = append(m, x.m...)
	}
	more := make([]*prope.Node[int], 0, n+2)
	for _, x := range ps {
		more = append(more, x.r)
	}
	spare := start(1)
	more = append(more, spare.r, spare.r)[:n]
	p := &pair{prope.Join(more...), m}
	for i, x := range ps {
		vp.Assert(more[i] == x.r, "Join does not change the slice of ropes")
	}
	vp.Assert(more[:n+2][n] == spare.r && more[:n+2][n+1] == spare.r, "Join does not write behind the slice of ropes")
	p.full()
	for i := 0; i < args[4]; i++ {
		p = p.edit(args[5])
		p.full()
	}
	if vp.Choose("rebuild", 2) == 1 {
		p.r.Rebuild()
		p.full()
	} else {
		p.r.Rebalance()
		p.full()
	}
	for _, x := range ps {
		x.light()
	}
	vp.Reach()
}

// Default: the package's own thresholds and args[0] elements; one edit or split at or next
// to a position that matters, then a second one.
func Default(args []int) {
	n := args[0]
	m := make([]int, n)
	for i := range m {
		m[i] = i*7 + 1
	}
	p := &pair{prope.New(dup(m)), m}
	read := func() {
		p.light()
		n := len(p.m)
		for _, a := range []int{0, n / 4, n/2 - 1, n - n/3} {
			for _, b := range []int{a + 1, n/2 + 1, n - 1, n} {
				if a >= 0 && a <= b && b <= n {
					same(p.r.Slice(a, b), p.m[a:b], "Slice reads every range")
				}
			}
			if a >= 0 && a < n {
				vp.Assert(p.r.At(a) == p.m[a], "At reads the element at every position")
			}
		}
		vp.Progress()
	}
	read()
	for i := 0; i < args[1]; i++ {
		n := len(p.m)
		at := []int{0, n / 4, n/2 - 1, n / 2, n}[vp.Choose("at", 5)]
		switch vp.Choose("op", 3) {
		case 0:
			v := fresh("v", 3)
			w := dup(v)
			p = &pair{p.r.Insert(at, w), append(append(dup(p.m[:at]), v...), p.m[at:]...)}
		case 1:
			b := at + (n-at)*vp.Choose("len", 3)/2
			p = p.remove(at, b)
		case 2:
			l, r := p.r.SplitAt(at)
			same(l.Value(), p.m[:at], "the left part holds the elements before the position")
			same(r.Value(), p.m[at:], "the right part holds the elements from the position on")
			p.r = prope.Join(l, r)
		}
		read()
	}
	vp.Reach()
}

// Mill: thresholds args[0], args[1]; args[2] operations at fixed positions on ropes of up to
// args[3] elements, one of an arbitrary value, each on one of the last few versions;
// args[4] histories. Every version is read again at the end.
func Mill(args []int) {
	setup(args[0], args[1])
	x := hl.NewRand(args[4])
	special := vp.Int("v")
	at := args[2] * (1 + vp.Choose("at", 3)) / 5
	ps := []*pair{{r: prope.New([]int{})}}
	up := true
	c := 0
	for i := 0; i < args[2]; i++ {
		vp.Progress()
		p := ps[len(ps)-1]
		if k := x.N(8); k < len(ps) && k > 4 {
			p = ps[len(ps)-k]
		}
		n := len(p.m)
		pos := x.N(n + 1)
		if k := x.N(6); k < 2 {
			pos = k * n
		}
		switch o := x.N(16); {
		case o == 0:
			p.r.Rebalance()
		case o == 1:
			p.r.Rebuild()
		case o < 4:
			l, r := p.r.SplitAt(pos)
			a, b := &pair{l, dup(p.m[:pos])}, &pair{r, dup(p.m[pos:])}
			ps = append(ps, a, b)
			if o == 2 || n > args[3] {
				p = &pair{prope.Join(b.r, a.r), append(dup(b.m), a.m...)}
			} else {
				p = &pair{prope.Join(a.r, b.r, a.r), append(dup(p.m), a.m...)}
			}
		case o < 12 == up || n == 0:
			v := make([]int, 1+x.N(2*args[0]))
			for j := range v {
				c++
				v[j] = c
			}
			if i >= at && at >= 0 {
				v[0] = special
				at = -1
			}
			vs := dup(v)
			r := p.r.Insert(pos, vs)
			wreck(vs)
			p = &pair{r, append(append(dup(p.m[:pos]), v...), p.m[pos:]...)}
		default:
			b := pos + x.N(2*args[0]+2)
			if b > n {
				b = n
			}
			p = p.remove(pos, b)
		}
		ps = append(ps, p)
		n = len(p.m)
		if n >= args[3] {
			up = false
		}
		if n == 0 {
			up = true
		}
		p.light()
		if n > 0 {
			a := x.N(n)
			b := a + x.N(n-a+1)
			s := p.r.Slice(a, b)
			same(s, p.m[a:b], "Slice reads every range")
			wreck(s)
			vp.Assert(p.r.At(a) == p.m[a], "At reads the element at every position")
		}
	}
	for _, p := range ps {
		p.light()
		vp.Progress()
	}
	p := ps[len(ps)-1]
	good := true
	for i := range p.m {
		good = vp.And(good, p.r.At(i) == p.m[i])
	}
	vp.Assert(good, "At reads the element at every position")
	vp.Observe(len(p.m))
	vp.Reach()
}
