// Package cacheh checks the LRU cache.
package cacheh

import (
	"github.com/zyedidia/generic/cache"
	"verif/harness/hl"
	"verif/harness/vp"
)

func init() {
	vp.Register("cacheh.Hist", Hist)
	vp.Register("cacheh.Big", Big)
	vp.Register("cacheh.Evict", Evict)
	vp.Register("cacheh.EvictBig", EvictBig)
	vp.Register("cacheh.Mill", Mill)
}

type kv struct{ k, v int }

type pair struct {
	c   *cache.Cache[int, int]
	cap int
	m   []kv // most recent first

	cb   int  // number of the installed callback, 0 for none
	mode int  // what callbacks do: 1 looks at everything, 2 looks up look
	look int  // the key callbacks look up
	exp  []kv // evictions expected of the current operation
	got  int
}

func (p *pair) find(k int) int {
	for i := range p.m {
		if p.m[i].k == k {
			return i
		}
	}
	return -1
}

func (p *pair) use(i int) {
	e := p.m[i]
	m := append(make([]kv, 0, len(p.m)+1), e)
	m = append(m, p.m[:i]...)
	p.m = append(m, p.m[i+1:]...)
}

func (p *pair) drop(i int) {
	p.m = append(append(make([]kv, 0, len(p.m)), p.m[:i]...), p.m[i+1:]...)
}

// evictOne is the model's eviction: the victim is chosen, the callback's lookups happen,
// then the victim goes.
func (p *pair) evictOne() {
	n := len(p.m)
	victim := p.m[n-1]
	if p.cb > 0 {
		p.exp = append(p.exp, victim)
		if p.mode == 2 {
			if i := p.find(p.look); i >= 0 {
				p.use(i)
			}
		}
	}
	p.drop(p.find(victim.k))
}

// install registers callback number id.
func (p *pair) install(id int) {
	p.cb = id
	if id == 0 {
		p.c.SetEvictCallback(nil)
		return
	}
	p.c.SetEvictCallback(func(k, v int) {
		vp.Assert(p.cb == id, "only the callback set last is called")
		if p.mode == 1 {
			// the entry is still in the cache
			here := 0
			all := 0
			p.c.Each(func(ek, ev int) {
				here += vp.B2I(vp.And(ek == k, ev == v))
				all++
			})
			vp.Assert(here == 1, "the entry is still in the cache when the callback runs")
			vp.Assert(p.c.Size() == all, "the cache is consistent inside the callback")
		}
		if p.mode == 2 {
			p.c.Get(p.look)
		}
		seen = append(seen, kv{k, v})
	})
}

var seen []kv

// evictions compares the callback's calls with the model's evictions.
func (p *pair) evictions() {
	vp.Assert(len(seen) == len(p.exp), "the callback is called once per eviction")
	for i := range p.exp {
		vp.Assert(vp.And(seen[i].k == p.exp[i].k, seen[i].v == p.exp[i].v), "the callback gets the evicted entry, in eviction order")
	}
	seen, p.exp = nil, nil
}

func (p *pair) put(k, v int) {
	p.c.Put(k, v)
	if i := p.find(k); i >= 0 {
		p.use(i)
		p.m[0].v = v
		return
	}
	if p.cap == 0 {
		return
	}
	if len(p.m) == p.cap {
		p.evictOne()
	}
	p.m = append([]kv{{k, v}}, p.m...)
}

func (p *pair) get(k int) {
	v, ok := p.c.Get(k)
	i := p.find(k)
	vp.Assert(ok == (i >= 0), "Get finds exactly the entries held")
	if i < 0 {
		vp.Assert(v == 0, "Get of an absent key returns the zero value")
		return
	}
	vp.Assert(v == p.m[i].v, "Get returns the last value")
	p.use(i)
}

func (p *pair) remove(k int) {
	p.c.Remove(k)
	if i := p.find(k); i >= 0 {
		p.drop(i)
	}
}

func (p *pair) resize(n int) {
	p.c.Resize(n)
	p.cap = n
	for len(p.m) > n {
		p.evictOne()
	}
}

func (p *pair) check() {
	vp.Assert(p.c.Size() == len(p.m), "Size counts the entries held")
	vp.Assert(p.c.Size() <= p.cap, "the cache never exceeds its capacity")
	vp.Assert(p.c.Capacity() == p.cap, "Capacity is the capacity set last")
	i := 0
	good := true
	p.c.Each(func(k, v int) {
		vp.Assert(i < len(p.m), "Each visits no more than the entries held")
		good = vp.And(good, vp.And(k == p.m[i].k, v == p.m[i].v))
		i++
	})
	vp.Assert(i == len(p.m), "Each visits every entry held")
	vp.Assert(good, "Each visits from the most to the least recently used")
}

func (p *pair) step(maxCap int) {
	switch vp.Choose("op", 4) {
	case 0:
		p.put(vp.Int("k"), vp.Int("v"))
	case 1:
		p.get(vp.Int("k"))
	case 2:
		p.remove(vp.Int("k"))
	case 3:
		p.resize(vp.Choose("cap", maxCap+1))
	}
}

func start(n int) *pair {
	seen = nil
	return &pair{c: cache.New[int, int](n), cap: n}
}

// Hist: any capacity up to args[0], args[1] arbitrary operations, then any lookup.
func Hist(args []int) {
	p := start(vp.Choose("cap", args[0]+1))
	p.check()
	for i := 0; i < args[1]; i++ {
		p.step(args[0])
		p.check()
	}
	p.get(vp.Int("q"))
	p.check()
	vp.Observe(len(p.m))
	vp.Reach()
}

// Big: capacity args[0] filled beyond with concrete keys, then args[1] arbitrary
// operations; the entries then leave in the right order.
func Big(args []int) {
	p := start(args[0])
	for i := 0; i < args[0]+args[0]/2; i++ {
		p.put(10*i, i)
		if i%3 == 2 {
			p.get(10 * (i / 2))
		}
	}
	p.check()
	for i := 0; i < args[1]; i++ {
		switch vp.Choose("op", 4) {
		case 0:
			p.put(vp.Int("k"), vp.Int("v"))
		case 1:
			p.get(vp.Int("k"))
		case 2:
			p.remove(vp.Int("k"))
		case 3:
			p.resize(args[0] - 2 + vp.Choose("cap", 5))
		}
		p.check()
	}
	for i := 0; i < args[0] && p.cap > 0; i++ {
		p.put(-1-i, i)
		p.check()
	}
	vp.Reach()
}

// Evict: as Hist with a callback that may be set, replaced or removed at any time;
// args[2] is what the callback does (1 looks at everything, 2 looks up an arbitrary key).
func Evict(args []int) {
	p := start(vp.Choose("cap", args[0]+1))
	p.mode = args[2]
	if p.mode == 2 {
		p.look = vp.Int("look")
	}
	p.install(1)
	next := 2
	for i := 0; i < args[1]; i++ {
		if i == args[1]-2 {
			switch vp.Choose("callback", 3) {
			case 1:
				p.install(next)
				next++
			case 2:
				p.install(0)
			}
		}
		p.step(args[0])
		p.evictions()
		p.check()
	}
	p.resize(0)
	p.evictions()
	p.check()
	vp.Reach()
}

// EvictBig: capacity args[0], concrete fill, args[1] arbitrary operations, shrinking.
func EvictBig(args []int) {
	p := start(args[0])
	p.mode = args[2]
	if p.mode == 2 {
		p.look = vp.Int("look")
	}
	p.install(1)
	for i := 0; i < args[0]+3; i++ {
		p.put(10*i, i)
		p.evictions()
		if i%3 == 2 {
			p.get(10 * (i / 2))
		}
	}
	for i := 0; i < args[1]; i++ {
		p.step(args[0] + 1)
		p.evictions()
	}
	p.check()
	p.install(7)
	p.resize(vp.Choose("down", 3))
	p.evictions()
	p.check()
	p.put(vp.Int("k"), vp.Int("v"))
	p.evictions()
	p.check()
	vp.Reach()
}

// Mill: capacities up to args[0], args[1] operations on 2*args[0] keys, one of an arbitrary
// key; the callback does args[2]; args[3] histories.
func Mill(args []int) {
	n := args[0]
	p := start(n)
	r := hl.NewRand(args[3])
	if p.mode = args[2]; p.mode > 0 {
		p.look = n / 2
		p.install(1)
	}
	at := args[1] * (1 + vp.Choose("at", 3)) / 4
	op := vp.Choose("op", 3)
	for i := 0; i < args[1]; i++ {
		vp.Progress()
		k := r.N(2 * n)
		if i == at {
			k = vp.Concrete(vp.IntR("k", -1, 2*n))
		}
		switch o := r.N(16); {
		case i == at && op == 0 || o < 8:
			p.put(k, i)
		case i == at && op == 1 || o < 12:
			p.get(k)
		case i == at || o < 15 || i%4 != 0:
			p.remove(k)
		default:
			p.resize([]int{n, n, n / 2, n / 4, 1, n - 1}[r.N(6)])
		}
		if i%32 == 31 {
			p.resize(n)
		}
		p.evictions()
		if i%4 == 0 {
			p.check()
		}
	}
	p.check()
	for i := 0; i < n && p.cap > 0; i++ {
		p.put(-5-i, i)
		p.evictions()
		vp.Assert(p.c.Size() == len(p.m), "Size counts the entries held")
	}
	p.check()
	vp.Reach()
}
