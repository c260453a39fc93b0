// Package bimaph checks the bidirectional map.
package bimaph

import (
	"github.com/zyedidia/generic/bimap"
	"verif/harness/hl"
	"verif/harness/vp"
)

func init() {
	vp.Register("bimaph.Mill", Mill)
	vp.Register("bimaph.Hist", Hist)
	vp.Register("bimaph.Of", Of)
	vp.Register("bimaph.Copies", Copies)
	vp.Register("bimaph.Big", Big)
	vp.Register("bimaph.Scale", Scale)
}

type rel struct{ k, v int }

type pair struct {
	b bimap.Bimap[int, int]
	m []rel
}

func (p *pair) drop(bad func(r rel) bool) {
	var m []rel
	for _, r := range p.m {
		if vp.Decide(vp.Not(bad(r))) {
			m = append(m, r)
		}
	}
	p.m = m
}

func (p *pair) add(k, v int) {
	p.b.Add(k, v)
	p.drop(func(r rel) bool { return vp.Or(r.k == k, r.v == v) })
	p.m = append(p.m, rel{k, v})
}

func (p *pair) step() {
	switch vp.Choose("op", 4) {
	case 0:
		p.add(vp.Int("k"), vp.Int("v"))
	case 1:
		k := vp.Int("k")
		p.b.RemoveForward(k)
		p.drop(func(r rel) bool { return r.k == k })
	case 2:
		v := vp.Int("v")
		p.b.RemoveReverse(v)
		p.drop(func(r rel) bool { return r.v == v })
	case 3:
		p.b.Clear()
		p.m = nil
	}
}

// query asks for one arbitrary key and one arbitrary value.
func (p *pair) query(k, v int) {
	hk, hv := false, false
	wv, wk := 0, 0
	for _, r := range p.m {
		e := r.k == k
		hk = vp.Or(hk, e)
		wv = vp.Ite(e, r.v, wv)
		e = r.v == v
		hv = vp.Or(hv, e)
		wk = vp.Ite(e, r.k, wk)
	}
	gv, ok := p.b.GetForward(k)
	vp.Assert(vp.And(ok == hk, gv == wv), "GetForward is the value of the pair with the key")
	gk, ok := p.b.GetReverse(v)
	vp.Assert(vp.And(ok == hv, gk == wk), "GetReverse is the key of the pair with the value")
	vp.Assert(p.b.ContainsForward(k) == hk, "ContainsForward agrees")
	vp.Assert(p.b.ContainsReverse(v) == hv, "ContainsReverse agrees")
}

func (p *pair) check() {
	vp.Assert(p.b.Len() == len(p.m), "Len counts the pairs")
	vp.MapOrder(-1)
	defer vp.MapOrder(0)
	n := 0
	good := true
	var vis []rel
	p.b.Each(func(k, v int) {
		in := false
		for _, r := range p.m {
			in = vp.Or(in, vp.And(r.k == k, r.v == v))
		}
		for _, r := range vis {
			good = vp.And(good, r.k != k)
		}
		vis = append(vis, rel{k, v})
		good = vp.And(good, in)
		n++
	})
	vp.Assert(n == len(p.m), "Each visits each pair once")
	vp.Assert(good, "Each visits the pairs present")
	for _, r := range p.m {
		v, ok := p.b.GetForward(r.k)
		vp.Assert(vp.And(ok, v == r.v), "forward lookup of a pair present")
		k, ok := p.b.GetReverse(r.v)
		vp.Assert(vp.And(ok, k == r.k), "reverse lookup of a pair present")
	}
}

// Hist: args[0] arbitrary operations on a zero bimap, everything read after each, with an
// arbitrary query if args[1] is set.
func Hist(args []int) {
	p := &pair{}
	vp.Assert((*bimap.Bimap[int, int])(nil).Len() == 0, "a nil bimap has no pairs")
	p.check()
	p.query(vp.Int("qk"), vp.Int("qv"))
	for i := 0; i < args[0]; i++ {
		p.step()
		p.check()
		if args[1] == 1 && i < args[0]-1 {
			p.query(vp.Int("qk"), vp.Int("qv"))
		}
	}
	p.query(vp.Int("qk"), vp.Int("qv"))
	vp.Observe(len(p.m))
	vp.Reach()
}

// Of: a bimap of an arbitrary map of up to args[0] entries, all iteration orders; then
// args[1] operations.
func Of(args []int) {
	vp.MapOrder(3)
	src := map[int]int{}
	n := vp.Choose("n", args[0]+1)
	if n == 0 && vp.Choose("nil", 2) == 1 {
		src = nil
	}
	for i := 0; i < n; i++ {
		src[vp.Int("k")] = vp.Int("v")
	}
	p := &pair{b: bimap.Of(src)}
	vp.MapOrder(-1)
	size := len(src)
	p.b.Each(func(k, v int) {
		w, ok := src[k]
		vp.Assert(vp.And(ok, w == v), "Of takes its pairs from the map")
		p.m = append(p.m, rel{k, v})
	})
	distinct := 0
	var vs []int
	for _, v := range src {
		vp.Assert(p.b.ContainsReverse(v), "Of keeps one pair for every value")
		found := false
		for _, x := range vs {
			found = vp.Or(found, x == v)
		}
		distinct += vp.B2I(vp.Not(found))
		vs = append(vs, v)
	}
	vp.Assert(len(p.m) == distinct, "Of keeps one pair for every value")
	p.check()
	for i := 0; i < args[1]; i++ {
		p.step()
		p.check()
	}
	vp.Assert(args[1] == 0 || len(src) == size, "Of does not share the map")
	p.query(vp.Int("qk"), vp.Int("qv"))
	vp.Reach()
}

// Copies: args[0] initial pairs, then args[1] steps, each a copy of or an operation on any
// bimap so far.
func Copies(args []int) {
	p := &pair{}
	n := vp.Choose("n", args[0]+1)
	for i := 0; i < n; i++ {
		p.add(vp.Int("k"), vp.Int("v"))
	}
	if n > 0 {
		switch vp.Choose("emptied", 3) {
		case 1:
			p.b.Clear()
			p.m = nil
		case 2:
			for _, r := range p.m {
				p.b.RemoveForward(r.k)
			}
			p.m = nil
		}
	}
	ps := []*pair{p}
	for i := 0; i < args[1]; i++ {
		w := ps[vp.Choose("who", len(ps))]
		if i == 0 || (i < 3 && vp.Choose("copy", 2) == 1) {
			ps = append(ps, &pair{w.b.Copy(), append([]rel(nil), w.m...)})
		} else {
			w.step()
		}
		for _, x := range ps {
			x.check()
		}
	}
	for _, x := range ps {
		x.query(vp.Int("qk"), vp.Int("qv"))
	}
	vp.Reach()
}

// Big: args[0] concrete pairs, then args[1] arbitrary operations.
func Big(args []int) {
	p := &pair{}
	for i := 0; i < args[0]; i++ {
		p.add(3*i, 1000-7*i)
	}
	for i := 0; i < args[1]; i++ {
		p.step()
	}
	p.check()
	p.query(vp.Int("qk"), vp.Int("qv"))
	vp.Reach()
}

// Scale: args[0] concrete pairs, a wave of removals, then one operation whose key and value
// are among the first, a middle, the last pair and new ones, on the bimap or a copy.
func Scale(args []int) {
	n := args[0]
	p := &pair{}
	for i := 0; i < n; i++ {
		p.add(3*i, 1000-7*i)
	}
	p.check()
	switch vp.Choose("wave", 4) {
	case 1:
		for i := 0; i < n; i += 2 {
			p.b.RemoveForward(3 * i)
			p.drop(func(r rel) bool { return r.k == 3*i })
		}
	case 2:
		for i := n - 1; i > 2; i-- {
			p.b.RemoveReverse(1000 - 7*i)
			p.drop(func(r rel) bool { return r.v == 1000-7*i })
		}
	case 3:
		for i := 0; i < n; i++ {
			p.add(3*i, 1000-7*((i+1)%n))
		}
	}
	p.check()
	ps := []*pair{p}
	if vp.Choose("copy", 2) == 1 {
		ps = append(ps, &pair{p.b.Copy(), append([]rel(nil), p.m...)})
	}
	w := ps[vp.Choose("who", len(ps))]
	at := func(name string) int { return []int{0, n / 2, n - 1, n + 1}[vp.Choose(name, 4)] }
	switch vp.Choose("op", 4) {
	case 0:
		w.add(3*at("k"), 1000-7*at("v"))
	case 1:
		k := 3 * at("k")
		w.b.RemoveForward(k)
		w.drop(func(r rel) bool { return r.k == k })
	case 2:
		v := 1000 - 7*at("v")
		w.b.RemoveReverse(v)
		w.drop(func(r rel) bool { return r.v == v })
	case 3:
		w.b.Clear()
		w.m = nil
	}
	for _, x := range ps {
		x.check()
		for i := 0; i < n+2; i++ {
			x.query(3*i, 1000-7*i)
		}
	}
	if vp.Choose("dir", 2) == 0 {
		w.query(vp.Int("qk"), 1000)
	} else {
		w.query(0, vp.Int("qv"))
	}
	vp.Reach()
}

// Mill: args[1] operations in waves on args[0] keys and values, with copies that are changed
// in turn; one operation on an arbitrary key and value; args[2] histories.
func Mill(args []int) {
	n := args[0]
	r := hl.NewRand(args[2])
	ps := []*pair{{}}
	up := []bool{true, true}
	for i := 0; i < args[1]; i++ {
		vp.Progress()
		w := r.N(len(ps))
		p := ps[w]
		k, v := 3*r.N(n), 1000-7*r.N(n)
		if (r.N(16) < 11) == up[w] {
			p.add(k, v)
		} else if r.N(2) == 0 {
			p.b.RemoveForward(k)
			p.drop(func(r rel) bool { return r.k == k })
		} else {
			p.b.RemoveReverse(v)
			p.drop(func(r rel) bool { return r.v == v })
		}
		if len(p.m) > n/2 {
			up[w] = false
		}
		if len(p.m) == 0 {
			up[w] = true
		}
		vp.MapOrder(-1)
		if i%8 == 7 {
			for _, p := range ps {
				p.check()
			}
		}
		p.query(3*r.N(n), 1000-7*r.N(n))
		if r.N(60) == 0 {
			p.b.Clear()
			p.m = nil
		}
		if i%20 == 19 {
			c := &pair{p.b.Copy(), append([]rel(nil), p.m...)}
			if len(ps) < 2 {
				ps = append(ps, c)
			} else {
				ps[1-w] = c
				up[1-w] = up[w]
			}
		}
	}
	ps[0].add(vp.Int("k"), 1000-7*vp.Choose("v", 3))
	for _, p := range ps {
		p.check()
	}
	vp.Reach()
}
