// Package hashh checks the hash map and its lazy copies.
package hashh

import (
	"github.com/zyedidia/generic/hashmap"
	"github.com/zyedidia/generic/hashset"
	"verif/harness/hl"
	"verif/harness/vp"
)

func init() {
	vp.Register("hashh.Mill", Mill)
	vp.Register("hashh.Runs", Runs)
	vp.Register("hashh.Hist", Hist)
	vp.Register("hashh.Big", Big)
	vp.Register("hashh.Copies", Copies)
	vp.Register("hashh.BigCopies", BigCopies)
	vp.Register("hashh.SetCopies", SetCopies)
	vp.Register("hashh.Scale", Scale)
}

// key carries its own hash, so the hash function is arbitrary; keys assumes only that
// it is a function of what equality looks at.
type key struct {
	R  int16
	H  uint64
	ID uint8
}

func equal(a, b key) bool   { return a.R == b.R }
func hash(k key) uint64     { return k.H }
func newMap(c uint64) *hmap { return hashmap.New[key, int](c, equal, hash) }

type hmap = hashmap.Map[key, int]
type log = hl.Log[key]

// keys hands out keys whose hashes are consistent with equality.
type keys struct {
	all  []key
	mode int
}

// sym is an arbitrary key. Mode 0: any 64-bit hash; 1: hashes -2..1, so that they
// collide and wrap around the end of a table of any size; 2: one hash for all.
func (s *keys) sym(name string, lo, hi int) key {
	k := key{R: vp.I16(name), ID: uint8(len(s.all))}
	if lo > hi {
		lo, hi = -32768, 32767
	}
	vp.Assume(vp.And(int(k.R) >= lo, int(k.R) <= hi))
	switch s.mode {
	case 0:
		k.H = vp.U64(name + ".hash")
	case 1:
		k.H = uint64(vp.IntR(name+".hash", -2, 1))
	default:
		k.H = 1<<64 - 1
	}
	for _, o := range s.all {
		vp.Assume(vp.Implies(o.R == k.R, o.H == k.H))
	}
	s.all = append(s.all, k)
	return k
}

// conc is a concrete key.
func (s *keys) conc(r int, h uint64) key {
	k := key{R: int16(r), H: h, ID: uint8(len(s.all))}
	s.all = append(s.all, k)
	return k
}

type pair struct {
	m *hmap
	l *log
}

func (p *pair) step(s *keys, i, ops, lo, hi int) {
	switch vp.Choose("op", ops) {
	case 0:
		k := s.sym("k", lo, hi)
		p.m.Put(k, i+1)
		p.l.DoPut(k, i+1)
	case 1:
		k := s.sym("k", lo, hi)
		p.m.Remove(k)
		p.l.DoRemove(k)
	case 2:
		p.m.Clear()
		p.l.DoClear()
	}
}

func (p *pair) content() {
	n := p.m.Size()
	vp.Assert(n == p.l.Size(), "Size is the number of keys present")
	var seen []key
	good, once := true, true
	p.m.Each(func(k key, v int) {
		w, ok := p.l.Get(k)
		good = vp.And(good, vp.And(ok, v == w))
		for _, o := range seen {
			once = vp.And(once, vp.Not(o.R == k.R))
		}
		seen = append(seen, k)
	})
	vp.Assert(good, "Each passes present keys with their last value")
	vp.Assert(once, "Each visits no key twice")
	vp.Assert(len(seen) == n, "Each visits every key")
	vp.Observe(n)
}

func (p *pair) get(q key) {
	v, ok := p.m.Get(q)
	w, has := p.l.Get(q)
	vp.Assert(ok == has, "Get reports presence")
	vp.Assert(v == w, "Get returns the last value")
}

// Hist: capacity args[0], args[1] arbitrary operations, hash mode args[2], an arbitrary lookup;
// with args[3]=1 everything is looked at after every operation.
func Hist(args []int) {
	s := &keys{mode: args[2]}
	p := &pair{newMap(uint64(args[0])), &log{Eq: equal}}
	for i := 0; i < args[1]; i++ {
		p.step(s, i, 3, 0, 100)
		if args[3] == 1 && i < args[1]-1 {
			p.content()
			p.get(s.sym("q", 0, 100))
		}
	}
	p.content()
	p.get(s.sym("q", 0, 100))
	vp.Reach()
}

func pattern(mode, r int) uint64 {
	switch mode {
	case 0:
		return uint64(r)
	case 1:
		return 7
	case 2:
		return ^uint64(r % 3)
	}
	return uint64(r) * 0x9E3779B97F4A7C15
}

// preload puts n concrete keys and removes rem of them; hashes follow a pattern.
func preload(p *pair, s *keys, n, rem, mode int) {
	var ks []key
	for r := 0; r < n; r++ {
		k := s.conc(2*r+1, pattern(mode, r))
		ks = append(ks, k)
		p.m.Put(k, 1000+r)
		p.l.DoPut(k, 1000+r)
		vp.Progress()
	}
	if rem == 0 {
		return
	}
	o := hl.Order(n, vp.Choose("rorder", 3))
	for i := 0; i < rem; i++ {
		k := ks[o[i]]
		p.m.Remove(k)
		p.l.DoRemove(k)
		vp.Progress()
	}
}

// Big: args[0]-args[3]..args[0] keys, args[1] removed, then args[2] operations on
// arbitrary keys: preloaded ones, or new ones with any hash.
func Big(args []int) {
	s := &keys{}
	p := &pair{newMap(uint64(vp.Choose("cap", 2) * 5)), &log{Eq: equal}}
	n := args[0] - vp.Choose("n", args[3]+1)
	pat := vp.Choose("pattern", 4)
	preload(p, s, n, args[1], pat)
	for i := 0; i < args[2]; i++ {
		k := s.pick("k", n, pat)
		if vp.Choose("op", 2) == 0 {
			p.m.Put(k, i+1)
			p.l.DoPut(k, i+1)
		} else {
			p.m.Remove(k)
			p.l.DoRemove(k)
		}
	}
	p.content()
	for _, k := range s.all {
		p.get(k)
	}
	for h := uint64(0); h < 40; h++ {
		p.get(key{R: -1, H: h})
	}
	vp.Reach()
}

// pick is an arbitrary preloaded key, or one of two new ones with any hash.
func (s *keys) pick(name string, n, pat int) key {
	c := vp.Choose(name, n+2)
	if c < n {
		return key{R: int16(2*c + 1), ID: 99, H: pattern(pat, c)}
	}
	k := key{R: int16(2 * c), ID: 99}
	for _, o := range s.all {
		if o.R == k.R {
			return o
		}
	}
	k.H = vp.U64(name + ".hash")
	s.all = append(s.all, k)
	return k
}

// Copies: args[0] initial keys, left or cleared or removed, then args[1] steps, each an operation on or a copy of
// any map so far; every map is compared at the end. Hash mode args[2].
func Copies(args []int) {
	s := &keys{mode: args[2]}
	p := &pair{newMap(uint64(vp.Choose("cap", 2) * 8)), &log{Eq: equal}}
	for i := 0; i < args[0]; i++ {
		k := s.conc(i, uint64(i*5))
		if args[2] == 2 {
			k.H = 1<<64 - 1
			s.all[len(s.all)-1] = k
		}
		p.m.Put(k, 1000+i)
		p.l.DoPut(k, 1000+i)
	}
	switch vp.Choose("emptied", 3) {
	case 1:
		p.m.Clear()
		p.l.DoClear()
	case 2:
		for _, k := range s.all {
			p.m.Remove(k)
			p.l.DoRemove(k)
		}
	}
	all := []*pair{p}
	for i := 0; i < args[1]; i++ {
		p := all[vp.Choose("who", len(all))]
		if i == 0 || vp.Choose("copy", 2) == 1 {
			all = append(all, &pair{p.m.Copy(), p.l.Clone()})
		} else {
			p.step(s, i, 3, -1, args[0])
		}
	}
	q := s.sym("q", -1, args[0])
	for _, p := range all {
		p.content()
		p.get(q)
	}
	vp.Reach()
}

// BigCopies: args[0]-3..args[0] keys, args[1] removed, a copy, args[2] operations on
// either map, compared in full. The operations hit the points of growth and shrinking.
func BigCopies(args []int) {
	s := &keys{}
	p := &pair{newMap(0), &log{Eq: equal}}
	n := args[0] - vp.Choose("n", 4)
	pat := vp.Choose("pattern", 4)
	preload(p, s, n, args[1], pat)
	c := &pair{p.m.Copy(), p.l.Clone()}
	both := []*pair{p, c}
	for i := 0; i < args[2]; i++ {
		x := both[vp.Choose("who", 2)]
		switch vp.Choose("op", 3) {
		case 0:
			k := s.pick("k", n, pat)
			x.m.Put(k, i+1)
			x.l.DoPut(k, i+1)
		case 1:
			k := s.pick("k", n, pat)
			x.m.Remove(k)
			x.l.DoRemove(k)
		case 2:
			x.m.Clear()
			x.l.DoClear()
		}
	}
	for _, x := range both {
		x.content()
		for _, k := range s.all {
			x.get(k)
		}
	}
	vp.Reach()
}

type spair struct {
	s *hashset.Set[key]
	l *log
}

// SetCopies: as Copies for hash sets.
func SetCopies(args []int) {
	s := &keys{mode: args[2]}
	p := &spair{hashset.New(uint64(vp.Choose("cap", 2)*8), equal, hash), &log{Eq: equal}}
	for i := 0; i < args[0]; i++ {
		k := s.conc(i, uint64(i*5))
		if args[2] == 2 {
			k.H = 1<<64 - 1
			s.all[len(s.all)-1] = k
		}
		p.s.Put(k)
		p.l.DoPut(k, 1)
	}
	switch vp.Choose("emptied", 3) {
	case 1:
		p.s.Clear()
		p.l.DoClear()
	case 2:
		for _, k := range s.all {
			p.s.Remove(k)
			p.l.DoRemove(k)
		}
	}
	all := []*spair{p}
	for i := 0; i < args[1]; i++ {
		p := all[vp.Choose("who", len(all))]
		if i == 0 || vp.Choose("copy", 2) == 1 {
			all = append(all, &spair{p.s.Copy(), p.l.Clone()})
			continue
		}
		switch vp.Choose("op", 3) {
		case 0:
			k := s.sym("k", -1, args[0])
			p.s.Put(k)
			p.l.DoPut(k, 1)
		case 1:
			k := s.sym("k", -1, args[0])
			p.s.Remove(k)
			p.l.DoRemove(k)
		case 2:
			p.s.Clear()
			p.l.DoClear()
		}
	}
	q := s.sym("q", -1, args[0])
	for _, p := range all {
		n := p.s.Size()
		vp.Assert(n == p.l.Size(), "Size is the number of elements")
		cnt := 0
		good := true
		var seen []key
		p.s.Each(func(k key) {
			_, ok := p.l.Get(k)
			good = vp.And(good, ok)
			for _, o := range seen {
				good = vp.And(good, vp.Not(o.R == k.R))
			}
			seen = append(seen, k)
			cnt++
		})
		vp.Assert(good, "Each visits elements, none twice")
		vp.Assert(cnt == n, "Each visits every element")
		_, has := p.l.Get(q)
		vp.Assert(p.s.Has(q) == has, "Has reports membership")
		vp.Observe(n)
	}
	vp.Reach()
}

// ref is a map of concrete ranks.
type ref struct {
	on  []bool
	val []int
	n   int
}

func (r *ref) put(k, v int) {
	if !r.on[k] {
		r.n++
	}
	r.on[k], r.val[k] = true, v
}

func (r *ref) remove(k int) {
	if r.on[k] {
		r.n--
	}
	r.on[k], r.val[k] = false, 0
}

func (r *ref) clear() {
	for k := range r.on {
		r.on[k], r.val[k] = false, 0
	}
	r.n = 0
}

func (r *ref) clone() *ref {
	return &ref{append([]bool(nil), r.on...), append([]int(nil), r.val...), r.n}
}

type big struct {
	m *hmap
	r *ref
}

// same compares everything.
func (b *big) same(ks []key) {
	vp.Assert(b.m.Size() == b.r.n, "Size is the number of keys present")
	for i, k := range ks {
		v, ok := b.m.Get(k)
		vp.Assert(vp.And(ok == b.r.on[i], v == b.r.val[i]), "Get returns the last value of exactly the keys present")
	}
	n := 0
	vis := make([]bool, len(ks))
	b.m.Each(func(k key, v int) {
		i := int(k.R)
		vp.Assert(b.r.on[i] && !vis[i], "Each visits present keys, none twice")
		vp.Assert(v == b.r.val[i], "Each passes the last value")
		vis[i] = true
		n++
	})
	vp.Assert(n == b.r.n, "Each visits every key")
	vp.Progress()
}

// Scale: args[0] keys in hash pattern args[1], one of them with a hash of -1..1; put,
// some removed, copied if args[2]=1, then churned: a phase of puts, removals or a Clear on
// either map, and everything is compared.
func Scale(args []int) {
	n := args[0]
	b := &big{newMap(uint64(vp.Choose("cap", 2) * 21)), &ref{on: make([]bool, n+2), val: make([]int, n+2)}}
	var ks []key
	for i := 0; i < n+2; i++ {
		ks = append(ks, key{R: int16(i), H: pattern(args[1], i), ID: uint8(i)})
	}
	odd := []int{0, n / 2}[vp.Choose("odd", 2)]
	ks[odd].H = uint64(vp.IntR("hash", -1, 1))
	for i := 0; i < n; i++ {
		k := ks[i]
		k.ID = 77
		b.m.Put(k, 1000+i)
		b.r.put(i, 1000+i)
		vp.Progress()
	}
	b.same(ks)
	remove := func(b *big, part int) {
		for _, i := range hl.Order(n, []int{0, 1, 4}[vp.Choose("rorder", 3)]) {
			if part == 0 || (part == 1 && i%8 != 3) || (part == 2 && i%2 == 1) {
				b.m.Remove(ks[i])
				b.r.remove(i)
				vp.Progress()
			}
		}
	}
	remove(b, vp.Choose("part", 3))
	b.same(ks)
	all := []*big{b}
	if args[2] == 1 {
		all = append(all, &big{b.m.Copy(), b.r.clone()})
	}
	x := all[vp.Choose("who", len(all))]
	switch vp.Choose("phase", 3) {
	case 0:
		for i := n - 1; i >= 0; i -= 2 {
			x.m.Put(ks[i], i)
			x.r.put(i, i)
			vp.Progress()
		}
	case 1:
		remove(x, 0)
	case 2:
		x.m.Clear()
		x.r.clear()
	}
	for _, x := range all {
		x.same(ks)
	}
	x.m.Put(ks[n+1], 5)
	x.r.put(n+1, 5)
	x.m.Put(ks[odd], 6)
	x.r.put(odd, 6)
	for _, x := range all {
		x.same(ks)
	}
	vp.Reach()
}

// Mill: args[1] operations in waves on args[0] keys in hash pattern args[2], one of them with
// a hash of -1..1; with args[3]=1 also copies, which are changed in turn; args[4] histories.
func Mill(args []int) {
	n := args[0]
	r := hl.NewRand(args[4])
	bs := []*big{{newMap(uint64(vp.Choose("cap", 2) * 21)), &ref{on: make([]bool, n), val: make([]int, n)}}}
	var ks []key
	for i := 0; i < n; i++ {
		ks = append(ks, key{R: int16(i), H: pattern(args[2], i), ID: uint8(i)})
	}
	odd := []int{0, n / 2}[vp.Choose("odd", 2)]
	ks[odd].H = uint64(vp.IntR("hash", -1, 1))
	up := []bool{true, true, true}
	for i := 0; i < args[1]; i++ {
		vp.Progress()
		w := r.N(len(bs))
		b := bs[w]
		k := r.N(n)
		if (r.N(16) < 11) == up[w] {
			kk := ks[k]
			kk.ID = 77
			b.m.Put(kk, i+1)
			b.r.put(k, i+1)
		} else {
			b.m.Remove(ks[k])
			b.r.remove(k)
		}
		if b.r.n > n*3/4 {
			up[w] = false
		}
		if b.r.n < 2 {
			up[w] = true
		}
		k = r.N(n)
		v, ok := b.m.Get(ks[k])
		vp.Assert(vp.And(ok == b.r.on[k], v == b.r.val[k]), "Get returns the last value of exactly the keys present")
		vp.Assert(b.m.Size() == b.r.n, "Size is the number of keys present")
		if i%16 == 15 {
			for _, b := range bs {
				b.same(ks)
			}
		}
		if r.N(100) == 0 {
			b.m.Clear()
			b.r.clear()
		}
		if args[3] == 1 && i%24 == 10 {
			c := &big{b.m.Copy(), b.r.clone()}
			c.same(ks)
			if len(bs) < 3 {
				bs = append(bs, c)
			} else {
				w := r.N(3)
				bs[w] = c
				up[w] = c.r.n < n/2
			}
		}
	}
	for _, b := range bs {
		b.same(ks)
	}
	vp.Reach()
}

// Runs: args[0] keys put, a run of them removed, the map copied if args[2] is 1, some put,
// another run removed in either map, the first run put again. Hash pattern args[1]; one key
// has hash -1, 0 or 1. Everything is compared after every few steps.
func Runs(args []int) {
	n := args[0]
	b := &big{newMap(uint64(vp.Choose("cap", 2) * 16)), &ref{on: make([]bool, n), val: make([]int, n)}}
	var ks []key
	for i := 0; i < n; i++ {
		ks = append(ks, key{R: int16(i), H: pattern(args[1], i), ID: uint8(i)})
	}
	ks[0].H = uint64(vp.IntR("hash", -1, 1))
	c := 0
	put := func(b *big, i int) {
		c++
		b.m.Put(ks[i], c)
		b.r.put(i, c)
		vp.Progress()
	}
	all := []*big{b}
	look := func() {
		for _, x := range all {
			x.same(ks)
		}
	}
	seg := func(name string) (int, int) {
		k := [][2]int{{0, 2}, {2, 4}, {1, 3}, {0, 1}, {3, 4}, {1, 4}, {0, 4}}[vp.Choose(name, 7)]
		return k[0] * n / 4, k[1] * n / 4
	}
	remove := func(b *big, x, y int, down bool) {
		for i := x; i < y; i++ {
			j := i
			if down {
				j = x + y - 1 - i
			}
			b.m.Remove(ks[j])
			b.r.remove(j)
			if i%4 == 0 {
				look()
			}
			v, ok := b.m.Get(ks[(j+n/2)%n])
			vp.Assert(vp.And(ok == b.r.on[(j+n/2)%n], v == b.r.val[(j+n/2)%n]), "Get returns the last value of exactly the keys present")
		}
	}
	for _, i := range hl.Order(n, vp.Choose("order", 2)) {
		put(b, i)
	}
	x, y := seg("first")
	remove(b, x, y, vp.Choose("up", 2) == 0)
	if args[2] == 1 {
		all = append(all, &big{b.m.Copy(), b.r.clone()})
	}
	look()
	w := all[vp.Choose("who", len(all))]
	for i := vp.Choose("add", 3); i > 0 && i < n; i += 3 {
		put(w, i)
	}
	look()
	w = all[len(all)-1]
	d, e := seg("second")
	remove(w, d, e, vp.Choose("down", 2) == 1)
	for i := x; i < y; i++ {
		put(w, i)
	}
	look()
	vp.Reach()
}
