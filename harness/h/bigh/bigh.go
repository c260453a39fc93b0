// Package bigh runs the containers at sizes well beyond those of the other harnesses: long
// fixed histories with one operation of the solver's choice in the middle.
package bigh

import (
	g "github.com/zyedidia/generic"
	"github.com/zyedidia/generic/array2d"
	"github.com/zyedidia/generic/avl"
	"github.com/zyedidia/generic/bimap"
	"github.com/zyedidia/generic/btree"
	"github.com/zyedidia/generic/cache"
	"github.com/zyedidia/generic/hashmap"
	"github.com/zyedidia/generic/hashset"
	"github.com/zyedidia/generic/heap"
	"github.com/zyedidia/generic/interval"
	"github.com/zyedidia/generic/list"
	"github.com/zyedidia/generic/mapset"
	"github.com/zyedidia/generic/multimap"
	"github.com/zyedidia/generic/queue"
	"github.com/zyedidia/generic/set"
	"github.com/zyedidia/generic/stack"
	"github.com/zyedidia/generic/trie"
	"github.com/zyedidia/generic/ulist"
	"verif/harness/hl"
	"verif/harness/vp"
)

func init() {
	vp.Register("bigh.Maps", Maps)
	vp.Register("bigh.Seqs", Seqs)
	vp.Register("bigh.Array", Array)
	vp.Register("bigh.Multi", Multi)
	vp.Register("bigh.Heap", Heap)
	vp.Register("bigh.Words", Words)
	vp.Register("bigh.Sets", Sets)
}

// table is what the keyed containers have in common.
type table struct {
	put    func(k, v int)
	remove func(k int)
	get    func(k int) (int, bool)
	size   func() int
	each   func(f func(k, v int))
	copy   func() *table // nil if there is none
	sorted bool
	novals bool
	height func() int
}

func num(n int) string {
	b := []byte{}
	for ; n > 0; n /= 10 {
		b = append(b, byte('0'+n%10))
	}
	return "k" + string(b)
}

func hmap(m *hashmap.Map[int, int]) *table {
	return &table{put: m.Put, remove: m.Remove, get: m.Get, size: m.Size, each: m.Each,
		copy: func() *table { return hmap(m.Copy()) }}
}

func keys(has func(int) bool) func(int) (int, bool) {
	return func(k int) (int, bool) { b := has(k); return 0, b }
}

func bim(b *bimap.Bimap[int, int]) *table {
	// values are told apart by their key so that Add drops nothing
	const w = 1 << 20
	return &table{
		put:    func(k, v int) { b.Add(k, k+w*v) },
		remove: b.RemoveForward,
		get: func(k int) (int, bool) {
			v, ok := b.GetForward(k)
			if ok {
				x, back := b.GetReverse(v)
				vp.Assert(back && x == k && b.ContainsReverse(v), "the reverse lookup inverts the forward lookup")
				v = (v - k) / w
			}
			return v, ok
		},
		size: b.Len,
		each: func(f func(k, v int)) { b.Each(func(k, v int) { f(k, (v-k)/w) }) },
		copy: func() *table { c := b.Copy(); return bim(&c) },
	}
}

func make1(kind, n int) *table {
	switch kind {
	case 0:
		t := avl.New[int, int](g.Less[int])
		return &table{put: t.Put, remove: t.Remove, get: t.Get, size: t.Size, each: t.Each, sorted: true, height: t.Height}
	case 1:
		t := btree.New[int, int](g.Less[int])
		return &table{put: t.Put, remove: t.Remove, get: t.Get, size: t.Size, each: t.Each, sorted: true}
	case 2:
		return hmap(hashmap.New[int, int](0, g.Equals[int], g.HashInt))
	case 3:
		return hmap(hashmap.New[int, int](uint64(n), g.Equals[int], func(k int) uint64 { return uint64(k) * 3 }))
	case 4:
		t := hashset.New[int](0, g.Equals[int], g.HashInt)
		return hset(t)
	case 5:
		t := mapset.New[int]()
		return &table{put: func(k, _ int) { t.Put(k) }, remove: t.Remove, get: keys(t.Has), size: t.Size,
			each: func(f func(k, v int)) { t.Each(func(k int) { f(k, 0) }) }, novals: true}
	case 6:
		t := cache.New[int, int](n)
		return &table{put: t.Put, remove: t.Remove, get: t.Get, size: t.Size, each: t.Each}
	case 7:
		t := interval.New[int, int]()
		return &table{
			put:    func(k, v int) { t.Put(2*k, 2*k+3, v) },
			remove: func(k int) { t.Remove(2 * k) },
			get: func(k int) (int, bool) {
				x, ok := t.Get(2 * k)
				found := false
				for _, y := range t.Overlaps(2*k+1, 2*k+2) {
					found = found || y.Low == 2*k
					vp.Assert(y.Low == 2*k || y.Low == 2*k-2, "only overlapping intervals are returned")
				}
				vp.Assert(found == ok, "every overlapping interval is returned")
				return x.Val, ok
			},
			size: t.Size, each: func(f func(k, v int)) { t.Each(func(l, _, v int) { f(l/2, v) }) },
			sorted: true, height: t.Height,
		}
	case 8:
		t := trie.New[int]()
		back := map[string]int{}
		for i := 0; i < n; i++ {
			back[num(i)] = i
		}
		return &table{
			put:    func(k, v int) { t.Put(num(k), v) },
			remove: func(k int) { t.Remove(num(k)) },
			get:    func(k int) (int, bool) { return t.Get(num(k)) },
			size:   t.Size,
			each: func(f func(k, v int)) {
				for _, s := range t.Keys() {
					k, known := back[s]
					vp.Assert(known, "only keys that were put are listed")
					v, ok := t.Get(s)
					vp.Assert(ok, "listed keys are present")
					f(k, v)
				}
			},
		}
	}
	return bim(&bimap.Bimap[int, int]{})
}

func hset(t *hashset.Set[int]) *table {
	return &table{put: func(k, _ int) { t.Put(k) }, remove: t.Remove, get: keys(t.Has), size: t.Size,
		each: func(f func(k, v int)) { t.Each(func(k int) { f(k, 0) }) }, novals: true,
		copy: func() *table { return hset(t.Copy()) }}
}

// model is the value of every key, -1 if absent.
type model []int

func (m model) count() (n int) {
	for _, v := range m {
		if v >= 0 {
			n++
		}
	}
	return
}

func (t *table) put1(m model, k, v int) {
	if t.novals {
		v = 0
	}
	t.put(k, v)
	m[k] = v
}

func (t *table) rem1(m model, k int) {
	t.remove(k)
	m[k] = -1
}

func (t *table) check(m model) {
	n := m.count()
	vp.Assert(t.size() == n, "the size is the number of entries")
	for k, v := range m {
		x, ok := t.get(k)
		vp.Assert(ok == (v >= 0), "a key is found exactly if it is present")
		vp.Assert(!ok || x == v, "a key has its last value")
		if k%64 == 0 {
			vp.Progress()
		}
	}
	seen := make([]bool, len(m))
	c, last := 0, -1
	t.each(func(k, v int) {
		vp.Assert(k >= 0 && k < len(m) && m[k] >= 0 && !seen[k], "every entry is visited once")
		vp.Assert(v == m[k], "entries are visited with their values")
		vp.Assert(!t.sorted || k > last, "entries are visited in ascending order")
		seen[k] = true
		last = k
		c++
	})
	vp.Assert(c == n, "every entry is visited once")
	if t.height != nil {
		h := t.height()
		vp.Assert(n >= hl.AVLMin(h) && n <= hl.AVLMax(h), "height within the AVL bound")
	}
	vp.Progress()
}

func some(n, at, w int) int {
	lo, hi := at-w, at+w
	if lo < 0 {
		lo = 0
	}
	if hi > n-1 {
		hi = n - 1
	}
	return vp.Concrete(vp.IntR("k", lo, hi))
}

// Maps: kind args[0], args[1] keys put, most removed, some put again, all removed; one
// operation within args[2] keys of one of three places after each stage; with args[3] = 1 a
// copy taken before the first removal is compared at the end.
func Maps(args []int) {
	n := args[1]
	vp.MapOrder(-1) // the orders are explored at smaller sizes
	t := make1(args[0], n)
	m := make(model, n)
	for i := range m {
		m[i] = -1
	}
	o := hl.Order(n, []int{0, 1, 3}[vp.Choose("order", 3)])
	stage := vp.Choose("stage", 3)
	step := func(i int) {
		if i == stage {
			k := some(n, vp.Choose("place", 3)*(n-1)/2, args[2])
			if vp.Choose("op", 2) == 0 {
				t.put1(m, k, 7)
			} else {
				t.rem1(m, k)
			}
		}
		t.check(m)
	}
	for i, k := range o {
		t.put1(m, k, i)
		if i%64 == 0 {
			vp.Progress()
		}
	}
	step(0)
	var c *table
	var was model
	if args[3] == 1 {
		c, was = t.copy(), append(model(nil), m...)
	}
	for i, k := range o {
		if i%8 != 5 {
			t.rem1(m, (k*7+3)%n)
		}
		if i%64 == 0 {
			vp.Progress()
		}
	}
	step(1)
	for i, k := range o {
		if k%3 != 0 {
			t.put1(m, k, n+i)
		}
	}
	vp.Progress()
	step(2)
	for k := 0; k < n; k++ {
		t.rem1(m, k)
	}
	vp.Progress()
	t.check(m)
	t.put1(m, 1, 5)
	t.check(m)
	if c != nil {
		c.check(was)
		c.rem1(was, n/2)
		c.put1(was, n/3, 8)
		c.check(was)
		t.check(m)
	}
	vp.Reach()
}

// line is what the sequences have in common.
type line struct {
	push  func(v int)
	pop   func() int
	front bool // pop takes the oldest
	all   func() []int
	size  func() int
	copy  func() *line
}

func stk(s *stack.Stack[int]) *line {
	return &line{push: s.Push, pop: s.Pop, size: s.Size, copy: func() *line { return stk(s.Copy()) },
		all: func() []int {
			c := s.Copy()
			r := make([]int, c.Size())
			for i := len(r) - 1; i >= 0; i-- {
				r[i] = c.Pop()
			}
			return r
		}}
}

func que(q *queue.Queue[int]) *line {
	return &line{push: q.Enqueue, pop: q.Dequeue, front: true, size: q.Len, all: q.PeekAll, copy: func() *line { return que(q.Copy()) }}
}

func seq(kind int) *line {
	switch kind {
	case 0:
		return stk(stack.New[int]())
	case 1:
		return que(queue.New[int]())
	case 2:
		l := list.New[int]()
		return &line{push: l.PushBack, front: true, pop: func() int { v := l.Front.Value; l.Remove(l.Front); return v },
			all: func() (r []int) {
				for n := l.Front; n != nil; n = n.Next {
					vp.Assert(n.Next == nil && n == l.Back || n.Next != nil && n.Next.Prev == n, "the links are consistent")
					r = append(r, n.Value)
				}
				return
			}}
	}
	l := ulist.New[int]([]int{2, 64, 300}[kind-3])
	return &line{push: l.PushBack, size: l.Size,
		pop: func() int { it := l.End(); v := it.Get(); l.Remove(it); return v },
		all: func() (r []int) {
			for it := l.Begin(); it.IsValid(); it.Next() {
				r = append(r, it.Get())
			}
			return
		}}
}

// Seqs: kind args[0], args[1] elements added, most removed, as many added again, all removed;
// one of them of an arbitrary value; with args[2] = 1 a copy is taken and compared at the end.
func Seqs(args []int) {
	n := args[1]
	l := seq(args[0])
	var m []int
	sp := vp.Choose("at", 3)
	v := vp.Int("v")
	c := 0
	push := func(k int) {
		for i := 0; i < k; i++ {
			c++
			x := c
			if i == sp*(k-1)/2 {
				x = v
			}
			l.push(x)
			m = append(m, x)
		}
		vp.Progress()
	}
	pop := func(k int) {
		good := true
		for i := 0; i < k; i++ {
			x := l.pop()
			if l.front {
				good = vp.And(good, x == m[0])
				m = m[1:]
			} else {
				good = vp.And(good, x == m[len(m)-1])
				m = m[:len(m)-1]
			}
		}
		vp.Assert(good, "elements come back in the order promised")
		vp.Progress()
	}
	check := func(l *line, m []int) {
		vp.Assert(l.size == nil || l.size() == len(m), "the size is the number of elements")
		r := l.all()
		vp.Assert(len(r) == len(m), "the elements are those added and not removed")
		good := true
		for i := range m {
			good = vp.And(good, r[i] == m[i])
		}
		vp.Assert(good, "the elements are those added and not removed")
		vp.Progress()
	}
	push(n)
	check(l, m)
	var cp *line
	var was []int
	if args[2] == 1 {
		cp, was = l.copy(), append([]int(nil), m...)
	}
	pop(n - n/5)
	check(l, m)
	push(n)
	check(l, m)
	pop(n)
	push(n / 2)
	check(l, m)
	pop(len(m))
	check(l, m)
	push(3)
	check(l, m)
	if cp != nil {
		check(cp, was)
		cp.push(4)
		check(l, m)
	}
	vp.Reach()
}

// Array: a large array of args[0] by args[1]; cells set, rectangles filled, rows written.
func Array(args []int) {
	w, h := args[0], args[1]
	a := array2d.New[int](w, h)
	m := make([]int, w*h)
	check := func() {
		good := true
		for y := 0; y < h; y++ {
			r := a.Row(y)
			vp.Assert(len(r) == w, "a row has as many cells as the array is wide")
			for x := 0; x < w; x++ {
				good = vp.And(good, vp.And(a.Get(x, y) == m[y*w+x], r[x] == m[y*w+x]))
			}
			vp.Progress()
		}
		vp.Assert(good, "every cell has its last value")
	}
	for i := range m {
		m[i] = i + 1
		a.Set(i%w, i/w, i+1)
	}
	check()
	x1, x2 := []int{0, 1, w / 2}[vp.Choose("x1", 3)], w-1-vp.Choose("x2", 2)
	y1, y2 := []int{0, h / 3, h - 1}[vp.Choose("y1", 3)], vp.Choose("y2", 2)*(h-1)
	v := vp.Int("v")
	a.Fill(x2, y1, x1, y2, v)
	for y := g.Min(y1, y2); y <= g.Max(y1, y2); y++ {
		for x := x1; x <= x2; x++ {
			m[y*w+x] = v
		}
	}
	check()
	b := a.Copy()
	s := a.RowSpan(x1, x2, y2)
	vp.Assert(len(s) == x2-x1+1, "a span has the named cells")
	for i := range s {
		s[i] = i
		m[y2*w+x1+i] = i
	}
	check()
	b.Set(0, 0, -1)
	check()
	f := array2d.NewFilled(w, h, v)
	good := true
	for i := range m {
		good = vp.And(good, f.Get(i%w, i/w) == v)
	}
	vp.Assert(good, "NewFilled sets all cells")
	vp.Reach()
}

// Multi: kind args[0]: args[1] keys of one value and one key of args[1] values, removed again.
func Multi(args []int) {
	n := args[1]
	vp.MapOrder(-1)
	var m multimap.MultiMap[int, int]
	switch args[0] {
	case 0:
		m = multimap.NewMapSlice[int, int]()
	case 1:
		m = multimap.NewAvlSlice[int, int](g.Less[int])
	case 2:
		m = multimap.NewMapSet[int, int](g.Less[int])
	case 3:
		m = multimap.NewAvlSet[int, int](g.Less[int], g.Less[int])
	}
	one := make([]bool, n)
	many := make([]int, n) // occurrences of the values of key n
	size, dim := 0, 0
	put := func(v int) {
		m.Put(n, v)
		if args[0] < 2 || many[v] == 0 {
			many[v]++
			size++
		}
	}
	rem := func(v int) {
		m.Remove(n, v)
		if many[v] > 0 {
			many[v]--
			size--
		}
	}
	check := func() {
		dim = 0
		tot := 0
		for _, o := range one {
			dim += vp.B2I(o)
		}
		for _, c := range many {
			tot += c
		}
		dim += vp.B2I(tot > 0)
		vp.Assert(m.Size() == size, "Size is the number of entries")
		vp.Assert(m.Dimension() == dim, "Dimension is the number of keys")
		vp.Assert(m.Count(n) == tot && m.Has(n) == (tot > 0), "Count is the number of values of the key")
		got := make([]int, n)
		last := -1
		for _, v := range m.Get(n) {
			vp.Assert(v >= 0 && v < n, "Get returns the values of the key")
			vp.Assert(args[0] < 2 || v > last, "values come in ascending order")
			last = v
			got[v]++
		}
		for v := range many {
			vp.Assert(got[v] == many[v], "Get returns the values of the key")
			vp.Assert(m.Count(v) == vp.B2I(one[v]), "Count is the number of values of the key")
		}
		vp.Progress()
		c := 0
		last = -1
		m.Each(func(k, v int) {
			vp.Assert(args[0]%2 == 0 || k >= last, "keys come in ascending order")
			last = k
			c++
		})
		vp.Assert(c == size, "Each visits every entry")
		c = 0
		m.EachAssociation(func(k int, vs []int) { c++ })
		vp.Assert(c == dim, "EachAssociation visits every key")
		vp.Progress()
	}
	for i, k := range hl.Order(n, []int{0, 3}[vp.Choose("order", 2)]) {
		m.Put(k, 1)
		one[k] = true
		size++
		put(k)
		if i%4 == 0 {
			put(k)
		}
	}
	check()
	k := some(n, vp.Choose("place", 3)*(n-1)/2, 1)
	switch vp.Choose("op", 3) {
	case 0:
		rem(k)
	case 1:
		m.RemoveAll(k)
		if one[k] {
			size--
		}
		one[k] = false
	case 2:
		put(k)
	}
	check()
	for k := 0; k < n; k++ {
		if k%5 != 2 {
			rem((k*7 + 1) % n)
			m.Remove(k, 1)
			if one[k] {
				size--
			}
			one[k] = false
		}
	}
	check()
	m.RemoveAll(n)
	for v := range many {
		size -= many[v]
		many[v] = 0
	}
	check()
	put(3)
	check()
	vp.Reach()
}

// Heap: args[0] elements pushed in some order or given as a slice, half popped, more pushed,
// all popped; one of a value of the solver's choice.
func Heap(args []int) {
	n := args[0]
	less := func(a, b int) bool { return vp.Decide(a < b) }
	o := hl.Order(n, vp.Choose("order", 4))
	s := make([]int, n)
	cnt := make([]int, 2*n+8)
	for i, x := range o {
		s[i] = 2 * x
		cnt[2*x]++
	}
	var h *heap.Heap[int]
	if vp.Choose("how", 2) == 0 {
		h = heap.New[int](less)
		for _, x := range s {
			h.Push(x)
		}
	} else {
		h = heap.FromSlice(less, s)
	}
	vp.Progress()
	size := n
	pop := func(k int) {
		for i := 0; i < k; i++ {
			p, _ := h.Peek()
			x, ok := h.Pop()
			size--
			vp.Assert(ok && x == p && h.Size() == size, "Pop returns the element Peek shows")
			x = vp.Concrete(x)
			vp.Assert(cnt[x] > 0, "Pop returns an element of the heap")
			cnt[x]--
			for y := x - 12; y < x; y++ {
				vp.Assert(y < 0 || cnt[y] == 0, "Pop returns a smallest element")
			}
		}
		vp.Progress()
	}
	at := vp.Choose("where", 3) * n
	x := vp.Concrete(vp.IntR("x", at, at+2))
	h.Push(x)
	cnt[x]++
	size++
	pop(n / 2)
	for i := 0; i < n/2; i++ {
		y := (i * 13) % (2 * n)
		h.Push(y)
		cnt[y]++
		size++
	}
	least := 0
	for size > 0 {
		for cnt[least] == 0 {
			least++
		}
		x, ok := h.Pop()
		vp.Assert(ok && x == least, "Pop returns a smallest element")
		cnt[least]--
		size--
		vp.Progress()
	}
	_, ok := h.Pop()
	vp.Assert(!ok && h.Size() == 0, "an emptied heap is empty")
	vp.Reach()
}

// Words: tries of long words: prefixes of one word of args[0] letters at several lengths,
// and the same with another last letter.
func Words(args []int) {
	n := args[0]
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + i*7%26)
	}
	w := string(b)
	t := trie.New[int]()
	m := map[string]int{}
	var in []string
	put := func(s string, v int) {
		t.Put(s, v)
		if _, ok := m[s]; !ok {
			in = append(in, s)
		}
		m[s] = v
	}
	for l := 1; l <= n; l += 1 + l/4 {
		put(w[:l], l)
		put(w[:l-1]+"~", -l)
	}
	put(w, 1)
	check := func() {
		vp.Assert(t.Size() == len(m), "Size is the number of keys")
		for _, s := range in {
			v, ok := t.Get(s)
			want, has := m[s]
			vp.Assert(ok == has && v == want, "a key has its last value")
			vp.Assert(t.Contains(s) == has, "a key is found exactly if it is present")
		}
		vp.Assert(len(t.Keys()) == len(m), "Keys lists every key")
		vp.Progress()
	}
	check()
	l := vp.Concrete(vp.IntR("l", 1, n))
	q := w[:l]
	if vp.Choose("other", 2) == 1 {
		q = w[:l-1] + string([]byte{byte(vp.Concrete(int(vp.IntR("c", 120, 127))))})
	}
	lp := ""
	c := 0
	for _, s := range in { // all are present here
		if len(s) <= len(q) && q[:len(s)] == s && len(s) > len(lp) {
			lp = s
		}
		c += vp.B2I(len(s) >= len(q) && s[:len(q)] == q)
	}
	vp.Assert(t.LongestPrefix(q) == lp, "LongestPrefix is the longest key that is a prefix")
	vp.Assert(len(t.KeysWithPrefix(q)) == c, "KeysWithPrefix lists exactly the keys with the prefix")
	t.Remove(q)
	delete(m, q)
	check()
	put(q, 99)
	check()
	for i, s := range in {
		if i%3 != 0 {
			t.Remove(s)
			delete(m, s)
		}
	}
	check()
	vp.Reach()
}

// Sets: two sets over args[0] elements in one of six relations, one element near one of three
// places added to or taken from the second; args[1] = 0 the algebra, 1 the predicates, 2 the
// operands afterwards.
func Sets(args []int) {
	n := args[0]
	vp.MapOrder(-1)
	mk := func(kind int) set.Set[int] {
		if kind == 0 {
			return set.NewMapset[int]()
		}
		return set.NewHashset(0, g.Equals[int], g.HashInt)
	}
	a, b := mk(vp.Choose("kinda", 2)), mk(vp.Choose("kindb", 2))
	in := func(rel, k int) bool {
		switch rel {
		case 0, 1, 2:
			return k%4 != 3
		case 3:
			return k%4 == 1
		case 4:
			return k%4 == 3
		}
		return k%2 == 0
	}
	rel := vp.Choose("rel", 6)
	ia, ib := make([]bool, n), make([]bool, n)
	for k := 0; k < n; k++ {
		if ia[k] = in(0, k) && rel != 2 || rel == 2 && k < 5; ia[k] {
			a.Put(k)
		}
		if ib[k] = in(rel, k); ib[k] {
			b.Put(k)
		}
	}
	k := some(n, vp.Choose("place", 3)*(n-1)/2, 1)
	if ib[k] {
		b.Remove(k)
	} else {
		b.Put(k)
	}
	ib[k] = !ib[k]
	vp.Progress()
	is := func(s set.Set[int], want func(x, y bool) bool, msg string) {
		c := 0
		for k := range ia {
			w := want(ia[k], ib[k])
			vp.Assert(s.Has(k) == w, msg)
			c += vp.B2I(w)
		}
		vp.Assert(s.Size() == c && len(s.Keys()) == c, msg)
		vp.Progress()
	}
	and := func(x, y bool) bool { return x && y }
	or := func(x, y bool) bool { return x || y }
	but := func(x, y bool) bool { return x && !y }
	xor := func(x, y bool) bool { return x != y }
	fst := func(x, y bool) bool { return x }
	snd := func(x, y bool) bool { return y }
	switch args[1] {
	case 0:
		is(a.Union(b), or, "Union has the elements of either")
		is(a.Intersection(b), and, "Intersection has the elements of both")
		is(a.Difference(b), but, "Difference has the elements of the first only")
		is(a.SymmetricDifference(b), xor, "SymmetricDifference has the elements of one")
		is(a.Clone(), fst, "Clone has the same elements")
		ks := b.Keys()
		is(a.ConstUnion(ks...), or, "ConstUnion has the elements of either")
		is(a.ConstIntersection(ks...), and, "ConstIntersection has the elements of both")
		is(a.ConstDifference(ks...), but, "ConstDifference has the elements of the first only")
		is(a.ConstSymmetricDifference(ks...), xor, "ConstSymmetricDifference has the elements of one")
		is(a.Clone().InPlaceUnion(b), or, "InPlaceUnion adds the elements")
		is(a.Clone().InPlaceIntersection(b), and, "InPlaceIntersection keeps the elements of both")
		is(a.Clone().InPlaceDifference(b), but, "InPlaceDifference removes the elements")
	case 1:
		sub, sup, dis := true, true, true
		for k := range ia {
			sub = sub && (!ia[k] || ib[k])
			sup = sup && (!ib[k] || ia[k])
			dis = dis && !(ia[k] && ib[k])
		}
		eq := sub && sup
		vp.Assert(a.IsSubset(b) == sub && b.IsSuperset(a) == sub, "IsSubset holds exactly if every element is in the other")
		vp.Assert(a.IsSuperset(b) == sup && b.IsSubset(a) == sup, "IsSuperset holds exactly if it has every element of the other")
		vp.Assert(a.Equal(b) == eq && b.Equal(a) == eq, "Equal holds exactly if the elements are the same")
		vp.Assert(a.IsDisjoint(b) == dis && b.IsDisjoint(a) == dis, "IsDisjoint holds exactly if no element is in both")
		vp.Assert(a.IsProperSubset(b) == (sub && !eq) && b.IsProperSuperset(a) == (sub && !eq), "IsProperSubset is IsSubset and not Equal")
		vp.Assert(a.IsProperSuperset(b) == (sup && !eq) && b.IsProperSubset(a) == (sup && !eq), "IsProperSuperset is IsSuperset and not Equal")
	case 2:
		r := []set.Set[int]{a.Union(b), a.Intersection(b), a.Difference(b), a.SymmetricDifference(b), a.Clone()}
		a.IsSubset(b)
		a.Equal(b)
		a.IsDisjoint(b)
		is(a, fst, "operands are not changed")
		is(b, snd, "operands are not changed")
		for _, s := range r {
			s.Put(k)
			s.Remove(0)
			s.Clear()
		}
		is(a, fst, "results are independent of the operands")
		is(b, snd, "results are independent of the operands")
		c := a.Clone()
		c.InPlaceUnion(b)
		is(b, snd, "in-place operations do not change the argument")
		c.InPlaceDifference(b)
		is(b, snd, "in-place operations do not change the argument")
		is(c, but, "in-place operations change the receiver")
		c = a.Clone()
		c.InPlaceIntersection(b)
		is(b, snd, "in-place operations do not change the argument")
		is(c, and, "in-place operations change the receiver")
		is(a, fst, "a clone is independent")
	}
	vp.Reach()
}
