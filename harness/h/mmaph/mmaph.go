// Package mmaph checks the multimaps.
package mmaph

import (
	"github.com/zyedidia/generic/multimap"
	"verif/harness/hl"
	"verif/harness/vp"
)

func init() {
	vp.Register("mmaph.Hist", Hist)
	vp.Register("mmaph.Build", Build)
	vp.Register("mmaph.Big", Big)
	vp.Register("mmaph.Drain", Drain)
}

type entry[K, V any] struct {
	k K
	v V
}

type pair[K, V any] struct {
	m     multimap.MultiMap[K, V]
	e     []entry[K, V]
	ke    func(a, b K) bool
	ve    func(a, b V) bool
	kl    func(a, b K) bool // nil if keys are not ordered
	vl    func(a, b V) bool // nil if values are not ordered (and may repeat)
	nk    func(name string) K
	nv    func(name string) V
	ck    func(i int) K
	cv    func(i int) V
	rank  func(v V) int
	dupes bool
}

func (p *pair[K, V]) put(k K, v V) {
	p.m.Put(k, v)
	if !p.dupes {
		for _, e := range p.e {
			if vp.Decide(vp.And(p.ke(e.k, k), p.ve(e.v, v))) {
				return
			}
		}
	}
	p.e = append(p.e, entry[K, V]{k, v})
}

func (p *pair[K, V]) remove(k K, v V) {
	p.m.Remove(k, v)
	for i, e := range p.e {
		if vp.Decide(vp.And(p.ke(e.k, k), p.ve(e.v, v))) {
			p.e = append(p.e[:i:i], p.e[i+1:]...)
			return
		}
	}
}

func (p *pair[K, V]) removeAll(k K) {
	p.m.RemoveAll(k)
	var r []entry[K, V]
	for _, e := range p.e {
		if !vp.Decide(p.ke(e.k, k)) {
			r = append(r, e)
		}
	}
	p.e = r
}

func (p *pair[K, V]) step() {
	switch vp.Choose("op", 4) {
	case 0:
		p.put(p.nk("k"), p.nv("v"))
	case 1:
		p.remove(p.nk("k"), p.nv("v"))
	case 2:
		p.removeAll(p.nk("k"))
	case 3:
		p.m.Clear()
		p.e = nil
	}
}

// list asserts that vs holds exactly the values of k, sorted if promised.
func (p *pair[K, V]) list(vs []V, k K, what string) {
	n := 0
	good := true
	for _, e := range p.e {
		of := p.ke(e.k, k)
		n += vp.B2I(of)
		// as many occurrences in the list as in the model
		c, w := 0, 0
		for _, f := range p.e {
			w += vp.B2I(vp.And(p.ke(f.k, k), p.ve(f.v, e.v)))
		}
		for _, x := range vs {
			c += vp.B2I(p.ve(x, e.v))
		}
		good = vp.And(good, vp.Or(vp.Not(of), c == w))
	}
	vp.Assert(len(vs) == n, what+" has the right number of values")
	vp.Assert(good, what+" has the right values")
	if p.vl != nil {
		for i := 1; i < len(vs); i++ {
			vp.Assert(p.vl(vs[i-1], vs[i]), what+" is ascending")
		}
	}
}

// query asks about one key.
func (p *pair[K, V]) query(k K) {
	n := 0
	for _, e := range p.e {
		n += vp.B2I(p.ke(e.k, k))
	}
	vp.Assert(p.m.Count(k) == n, "Count counts the entries of the key")
	vp.Assert(p.m.Has(k) == (n > 0), "Has says whether there are any")
	p.list(p.m.Get(k), k, "Get")
}

func (p *pair[K, V]) counts() {
	vp.Assert(p.m.Size() == len(p.e), "Size counts the entries")
	d := 0
	for i, e := range p.e {
		first := true
		for _, f := range p.e[:i] {
			first = vp.And(first, vp.Not(p.ke(e.k, f.k)))
		}
		d += vp.B2I(first)
	}
	vp.Assert(p.m.Dimension() == d, "Dimension counts the distinct keys")
}

func (p *pair[K, V]) all() {
	vp.MapOrder(-1)
	p.counts()
	var vis []entry[K, V]
	p.m.Each(func(k K, v V) { vis = append(vis, entry[K, V]{k, v}) })
	vp.Assert(len(vis) == len(p.e), "Each visits every entry once")
	for _, e := range p.e {
		c, w := 0, 0
		for _, f := range p.e {
			w += vp.B2I(vp.And(p.ke(e.k, f.k), p.ve(e.v, f.v)))
		}
		for _, f := range vis {
			c += vp.B2I(vp.And(p.ke(e.k, f.k), p.ve(e.v, f.v)))
		}
		vp.Assert(c == w, "Each visits every entry as often as it is held")
	}
	for i := 1; i < len(vis); i++ {
		a, b := vis[i-1], vis[i]
		if p.kl != nil {
			vp.Assert(vp.Not(p.kl(b.k, a.k)), "Each visits keys in ascending order")
		}
		if p.vl != nil {
			vp.Assert(vp.Or(vp.Not(p.ke(a.k, b.k)), p.vl(a.v, b.v)), "Each visits the values of a key in ascending order")
		}
	}
	var ks []K
	p.m.EachAssociation(func(k K, vs []V) {
		p.list(vs, k, "EachAssociation")
		vp.Assert(len(vs) > 0, "EachAssociation visits keys that have entries")
		for _, o := range ks {
			vp.Assert(vp.Not(p.ke(o, k)), "EachAssociation visits each key once")
		}
		if p.kl != nil && len(ks) > 0 {
			vp.Assert(p.kl(ks[len(ks)-1], k), "EachAssociation visits keys in ascending order")
		}
		ks = append(ks, k)
	})
	vp.Assert(len(ks) == p.m.Dimension(), "EachAssociation visits every key")
	vp.MapOrder(0)
}

type runner interface {
	history(n int, each bool)
	build(n, spread int)
	finish()
	drain(n, spread int)
}

func (p *pair[K, V]) history(n int, each bool) {
	for i := 0; i < n; i++ {
		p.step()
		if each {
			p.all()
		} else {
			p.counts()
		}
	}
}

func (p *pair[K, V]) build(n, spread int) {
	for _, i := range hl.Order(n, vp.Choose("order", 5)) {
		p.put(p.ck(i/spread), p.cv(i%spread))
	}
}

// cell is how often each value of one key is held.
type cell []int

func (c cell) sum() int {
	n := 0
	for _, x := range c {
		n += x
	}
	return n
}

// drain fills a multimap with n entries, spread per key (values of an arbitrary rank among
// them), takes them out again in several orders, and puts some back.
func (p *pair[K, V]) drain(n, spread int) {
	vp.MapOrder(-1)
	nk := (n + spread - 1) / spread
	ref := make([]cell, nk+1)
	for i := range ref {
		ref[i] = make(cell, spread+1)
	}
	put := func(k, v int) {
		p.m.Put(p.ck(k), p.cv(v))
		if ref[k][v] == 0 || p.dupes {
			ref[k][v]++
		}
		vp.Progress()
	}
	total := func() int {
		t := 0
		for _, c := range ref {
			t += c.sum()
		}
		return t
	}
	remove := func(k, v int) {
		p.m.Remove(p.ck(k), p.cv(v))
		if ref[k][v] > 0 {
			ref[k][v]--
		}
		vp.Progress()
	}
	one := func(k int) {
		c := ref[k].sum()
		vp.Assert(p.m.Count(p.ck(k)) == c, "Count counts the entries of the key")
		vp.Assert(p.m.Has(p.ck(k)) == (c > 0), "Has says whether there are any")
		vs := p.m.Get(p.ck(k))
		vp.Assert(len(vs) == c, "Get has the right number of values")
		got := make(cell, spread+1)
		for i, v := range vs {
			x := p.rank(v)
			vp.Assert(x >= 0 && x <= spread, "Get has only values put for the key")
			got[x]++
			if p.vl != nil && i > 0 {
				vp.Assert(p.vl(vs[i-1], v), "Get is ascending")
			}
		}
		for x := range got {
			vp.Assert(got[x] == ref[k][x], "Get has the right values")
		}
		vp.Progress()
	}
	look := func() {
		vp.Assert(p.m.Size() == total(), "Size counts the entries")
		d := 0
		for k, c := range ref {
			d += vp.B2I(c.sum() > 0)
			one(k)
		}
		vp.Assert(p.m.Dimension() == d, "Dimension counts the distinct keys")
		vis := 0
		p.m.Each(func(K, V) { vis++ })
		vp.Assert(vis == total(), "Each visits every entry once")
		vis = 0
		p.m.EachAssociation(func(k K, vs []V) { vis++ })
		vp.Assert(vis == d, "EachAssociation visits every key")
	}
	for _, i := range hl.Order(n, []int{0, 4}[vp.Choose("order", 2)]) {
		put(i/spread, i%spread)
	}
	k := vp.Choose("k", nk+1)
	v := vp.IntR("v", 0, spread)
	if p.dupes { // Put of a list compares nothing
		v = vp.Concrete(v)
	}
	p.m.Put(p.ck(k), p.cv(v))
	if v = vp.Concrete(v); ref[k][v] == 0 || p.dupes {
		ref[k][v]++
	}
	look()
	order := []int{0, 1, 4}[vp.Choose("rorder", 3)]
	take := func(odd bool) {
		for j, i := range hl.Order(n, order) {
			if odd && i%3 != 1 {
				continue
			}
			remove(i/spread, i%spread)
			if j%8 == 0 {
				one(i / spread)
			}
			vp.Assert(p.m.Count(p.ck(i/spread)) == ref[i/spread].sum(), "Count counts the entries of the key")
		}
		look()
	}
	switch vp.Choose("phase", 3) {
	case 0:
		take(false)
	case 1:
		take(true)
		for i := 0; i < n; i += 4 {
			put(i/spread, i%spread)
		}
		look()
		take(false)
	case 2:
		p.m.RemoveAll(p.ck(k))
		ref[k] = make(cell, spread+1)
		look()
		take(true)
	}
	put(nk-1, 0)
	look()
	vp.Observe(p.m.Size())
	vp.Reach()
}

func (p *pair[K, V]) finish() {
	p.all()
	p.query(p.nk("q"))
	vp.Observe(p.m.Size())
	vp.Reach()
}

func eqInt(a, b int) bool  { return a == b }
func symInt(n string) int  { return vp.Int(n) }
func conInt(i int) int     { return 10 * i }
func rankInt(v int) int    { return v / 10 }
func rankKey(v hl.Key) int { return int(v.R) / 10 }
func conKey(i int) hl.Key  { return hl.Key{R: int16(10 * i), ID: 1} }
func symKey(n string) hl.Key {
	return hl.Key{R: vp.I16(n), ID: vp.U8(n + ".id")}
}

func start(kind int) runner {
	switch kind {
	case 0:
		return &pair[int, int]{m: multimap.NewMapSlice[int, int](), ke: eqInt, ve: eqInt,
			nk: symInt, nv: symInt, ck: conInt, cv: conInt, rank: rankInt, dupes: true}
	case 1:
		return &pair[hl.Key, int]{m: multimap.NewAvlSlice[hl.Key, int](hl.KeyLess), ke: hl.KeyEquiv, ve: eqInt,
			kl: hl.KeyLess, nk: symKey, nv: symInt, ck: conKey, cv: conInt, rank: rankInt, dupes: true}
	case 2:
		return &pair[int, hl.Key]{m: multimap.NewMapSet[int, hl.Key](hl.KeyLess), ke: eqInt, ve: hl.KeyEquiv,
			vl: hl.KeyLess, nk: symInt, nv: symKey, ck: conInt, cv: conKey, rank: rankKey}
	}
	return &pair[hl.Key, hl.Key]{m: multimap.NewAvlSet[hl.Key, hl.Key](hl.KeyLess, hl.KeyLess), ke: hl.KeyEquiv, ve: hl.KeyEquiv,
		kl: hl.KeyLess, vl: hl.KeyLess, nk: symKey, nv: symKey, ck: conKey, cv: conKey, rank: rankKey}
}

// Hist: implementation args[0], args[1] arbitrary operations, everything read after each.
func Hist(args []int) {
	p := start(args[0])
	p.history(args[1], true)
	p.finish()
}

// Build: as Hist, reading everything only at the end.
func Build(args []int) {
	p := start(args[0])
	p.history(args[1], false)
	p.finish()
}

// Big: args[1] concrete entries, args[2] per key, then args[3] arbitrary operations.
func Big(args []int) {
	p := start(args[0])
	p.build(args[1], args[2])
	p.history(args[3], false)
	p.finish()
}

// Drain: args[1] concrete entries, args[2] per key, taken out again.
func Drain(args []int) { start(args[0]).drain(args[1], args[2]) }
