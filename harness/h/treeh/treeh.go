// Package treeh checks the AVL tree and the B-tree as sorted maps.
package treeh

import (
	"github.com/zyedidia/generic/avl"
	"github.com/zyedidia/generic/btree"
	"verif/harness/hl"
	"verif/harness/vp"
)

func init() {
	vp.Register("treeh.AvlHist", AvlHist)
	vp.Register("treeh.AvlShape", AvlShape)
	vp.Register("treeh.AvlFib", AvlFib)
	vp.Register("treeh.AvlSparse", AvlSparse)
	vp.Register("treeh.AvlLook", AvlLook)
	vp.Register("treeh.BtLook", BtLook)
	vp.Register("treeh.AvlScale", AvlScale)
	vp.Register("treeh.AvlMill", AvlMill)
	vp.Register("treeh.BtMill", BtMill)
	vp.Register("treeh.BtScale", BtScale)
	vp.Register("treeh.BtRuns", BtRuns)
	vp.Register("treeh.AvlRuns", AvlRuns)
	vp.Register("treeh.AvlBig", AvlBig)
	vp.Register("treeh.AvlCost", AvlCost)
	vp.Register("treeh.AvlInt", AvlInt)
	vp.Register("treeh.BtHist", BtHist)
	vp.Register("treeh.BtBig", BtBig)
	vp.Register("treeh.BtWindow", BtWindow)
	vp.Register("treeh.BtInt", BtInt)
}

type sortedMap interface {
	Put(hl.Key, int)
	Remove(hl.Key)
	Get(hl.Key) (int, bool)
	Size() int
	Each(func(hl.Key, int))
}

type log = hl.Log[hl.Key]

func newLog() *log { return &log{Eq: hl.KeyEquiv} }

// step performs one arbitrary operation.
func step(t sortedMap, m *log, i, lo, hi int) {
	k := hl.SymKey("k", lo, hi)
	if vp.Choose("op", 2) == 0 {
		t.Put(k, i+1)
		m.DoPut(k, i+1)
	} else {
		t.Remove(k)
		m.DoRemove(k)
	}
}

// check compares everything observable; get also looks up an arbitrary key.
func check(t sortedMap, m *log, get bool, lo, hi int) {
	look(t, m, get, lo, hi)
	vp.Reach()
}

// look compares everything observable; get also looks up an arbitrary key.
func look(t sortedMap, m *log, get bool, lo, hi int) {
	n := t.Size()
	vp.Assert(n == m.Size(), "Size is the number of keys present")
	cnt := 0
	var prev hl.Key
	t.Each(func(k hl.Key, v int) {
		if cnt > 0 {
			vp.Assert(prev.R < k.R, "Each visits keys in strictly ascending order")
		}
		prev = k
		cnt++
		w, ok := m.Get(k)
		vp.Assert(ok, "Each visits only present keys")
		vp.Assert(v == w, "Each passes the last value of the key")
	})
	vp.Assert(cnt == n, "Each visits every key once")
	if get {
		q := hl.SymKey("q", lo, hi)
		v, ok := t.Get(q)
		w, p := m.Get(q)
		vp.Assert(ok == p, "Get reports presence")
		vp.Assert(v == w, "Get returns the last value")
		vp.Observe(v)
	}
	vp.Observe(cnt)
}

// balance asserts the AVL bound between height and size.
func balance(t *avl.Tree[hl.Key, int]) {
	n, h := t.Size(), t.Height()
	vp.Assert(h >= 0 && n >= hl.AVLMin(h), "height within the AVL bound")
	vp.Assert(n <= hl.AVLMax(h), "height can hold the keys")
}

func newAvl() *avl.Tree[hl.Key, int] { return avl.New[hl.Key, int](hl.KeyLess) }

// AvlHist: up to args[0] arbitrary operations on arbitrary keys.
func AvlHist(args []int) {
	n := args[0]
	t := newAvl()
	m := newLog()
	l := 1 + vp.Choose("len", n)
	for i := 0; i < l; i++ {
		step(t, m, i, 0, 100)
		balance(t)
	}
	check(t, m, true, 0, 100)
}

func buildAvl(ranks []int) (*avl.Tree[hl.Key, int], *log) {
	t := newAvl()
	m := newLog()
	for i, r := range ranks {
		k := hl.Key{R: int16(2*r + 1), ID: uint8(i)}
		t.Put(k, 1000+i)
		m.DoPut(k, 1000+i)
	}
	return t, m
}

// AvlShape: every AVL shape of height args[0], then args[1] arbitrary operations;
// args[2]=1 adds an arbitrary lookup.
func AvlShape(args []int) {
	s := hl.AVLShape(args[0])
	c := s.Count()
	t, m := buildAvl(s.LevelOrder())
	vp.Assert(t.Height() == args[0], "level order builds the shape")
	for i := 0; i < args[1]; i++ {
		step(t, m, i, 0, 2*c)
		balance(t)
	}
	check(t, m, args[2] == 1, 0, 2*c)
}

// AvlFib: the sparsest AVL trees of height args[0], then args[1] arbitrary removals or puts.
func AvlFib(args []int) {
	s := hl.FibShape(args[0], vp.Choose("mode", 4))
	c := s.Count()
	t, m := buildAvl(s.LevelOrder())
	for i := 0; i < args[1]; i++ {
		step(t, m, i, 0, 2*c)
		balance(t)
	}
	check(t, m, args[2] == 1, 0, 2*c)
}

// AvlSparse: every AVL shape of height args[0] with at most args[1] nodes more than the
// fewest possible, then args[2] arbitrary operations.
func AvlSparse(args []int) {
	s := hl.AVLShape(args[0])
	c := s.Count()
	vp.Assume(c <= hl.AVLMin(args[0])+args[1])
	t, m := buildAvl(s.LevelOrder())
	for i := 0; i < args[2]; i++ {
		step(t, m, i, 0, 2*c)
		balance(t)
	}
	check(t, m, false, 0, 2*c)
}

// looks performs nops steps, each an arbitrary Put, Remove or Get, on a tree holding the
// ranks 1, 3, .. 2n-1, and compares everything after each change if each is set, and at the end.
func looks(t sortedMap, n, nops int, each bool, step func()) {
	val, has := make([]int, 2*n+1), make([]bool, 2*n+1)
	for r := 1; r <= 2*n; r += 2 {
		val[r], has[r] = 1000+r, true
	}
	all := func() {
		quickCheck(t, val, has)
		good := true
		for r := range has {
			v, ok := t.Get(hl.Key{R: int16(r)})
			good = vp.And(good, ok == has[r] && v == val[r])
		}
		vp.Assert(good, "Get agrees for every key")
	}
	for i := 0; i < nops; i++ {
		r := vp.IntR("k", 0, 2*n)
		k := hl.Key{R: int16(r), ID: 200}
		switch vp.Choose("op", 3) {
		case 0:
			t.Put(k, i+1)
			c := vp.Concrete(r)
			val[c], has[c] = i+1, true
		case 1:
			t.Remove(k)
			c := vp.Concrete(r)
			val[c], has[c] = 0, false
		case 2:
			v, ok := t.Get(k)
			c := vp.Concrete(r)
			vp.Assert(ok == has[c] && v == val[c], "Get agrees between changes")
		}
		if each {
			all()
		}
		step()
	}
	q := vp.IntR("q", 0, 2*n)
	v, ok := t.Get(hl.Key{R: int16(q)})
	c := vp.Concrete(q)
	vp.Assert(ok == has[c] && v == val[c], "Get agrees after the last change")
	all()
	vp.Observe(t.Size())
	vp.Reach()
}

// AvlLook: every AVL shape of height args[0], then args[1] steps, each an arbitrary
// change or lookup; with args[2] everything is looked at after each step.
func AvlLook(args []int) {
	s := hl.AVLShape(args[0])
	t := newAvl()
	for _, r := range s.LevelOrder() {
		t.Put(hl.Key{R: int16(2*r + 1)}, 1000+2*r+1)
	}
	looks(t, s.Count(), args[1], args[2] == 1, func() { balance(t) })
}

// BtLook: args[0] keys, then args[1] steps, each an arbitrary change or lookup; with
// args[2] everything is looked at after each step.
func BtLook(args []int) {
	t := newBt()
	for _, r := range hl.Order(args[0], vp.Choose("order", 2)) {
		t.Put(hl.Key{R: int16(2*r + 1)}, 1000+2*r+1)
	}
	looks(t, args[0], args[1], args[2] == 1, vp.Progress)
}

// AvlBig: args[0] keys inserted in one of six orders, args[1] of them removed in
// another, then args[2] arbitrary operations.
func AvlBig(args []int) {
	n, rem := args[0], args[1]
	t, m := buildAvl(hl.Order(n, vp.Choose("order", 6)))
	ro := hl.Order(n, vp.Choose("rorder", 4))
	for i := 0; i < rem; i++ {
		k := hl.Key{R: int16(2*ro[i] + 1)}
		t.Remove(k)
		m.DoRemove(k)
		balance(t)
	}
	for i := 0; i < args[2]; i++ {
		step(t, m, i, 0, 2*n)
		balance(t)
	}
	check(t, m, false, 0, 2*n)
}

// AvlCost: comparisons of a lookup of an arbitrary key, in big trees.
func AvlCost(args []int) {
	n, rem := args[0], args[1]
	calls := 0
	t := avl.New[hl.Key, int](func(a, b hl.Key) bool {
		calls++
		return a.R < b.R
	})
	for _, r := range hl.Order(n, vp.Choose("order", 6)) {
		t.Put(hl.Key{R: int16(2*r + 1)}, r)
	}
	ro := hl.Order(n, vp.Choose("rorder", 4))
	for i := 0; i < rem; i++ {
		t.Remove(hl.Key{R: int16(2*ro[i] + 1)})
	}
	for i := 0; i < args[2]; i++ {
		k := hl.SymKey("k", 0, 2*n)
		if vp.Choose("op", 2) == 0 {
			t.Put(k, 1)
		} else {
			t.Remove(k)
		}
	}
	vp.Assert(t.Size() >= hl.AVLMin(t.Height()), "height within the AVL bound")
	vp.Assert(t.Size() <= hl.AVLMax(t.Height()), "height can hold the keys")
	q := hl.SymKey("q", 0, 2*n)
	calls = 0
	t.Get(q)
	vp.Assert(calls <= 4*t.Height(), "a lookup needs at most a constant number of comparisons per level")
	vp.Observe(calls)
	vp.Reach()
}

// AvlInt: arbitrary machine integers as keys, plain order.
func AvlInt(args []int) {
	t := avl.New[int, int](func(a, b int) bool { return a < b })
	m := &hl.Log[int]{Eq: func(a, b int) bool { return a == b }}
	intHist(t, m, args[0])
}

type intMap interface {
	Put(int, int)
	Remove(int)
	Get(int) (int, bool)
	Size() int
}

func intHist(t intMap, m *hl.Log[int], n int) {
	for i := 0; i < n; i++ {
		k := vp.Int("k")
		if vp.Choose("op", 2) == 0 {
			t.Put(k, i+1)
			m.DoPut(k, i+1)
		} else {
			t.Remove(k)
			m.DoRemove(k)
		}
	}
	vp.Assert(t.Size() == m.Size(), "Size is the number of keys present")
	q := vp.Int("q")
	v, ok := t.Get(q)
	w, p := m.Get(q)
	vp.Assert(ok == p, "Get reports presence")
	vp.Assert(v == w, "Get returns the last value")
	vp.Observe(v)
	vp.Reach()
}

func newBt() *btree.Tree[hl.Key, int] { return btree.New[hl.Key, int](hl.KeyLess) }

// BtHist: up to args[0] arbitrary operations on arbitrary keys in one leaf.
func BtHist(args []int) {
	t := newBt()
	m := newLog()
	l := 1 + vp.Choose("len", args[0])
	for i := 0; i < l; i++ {
		step(t, m, i, 0, 100)
	}
	check(t, m, true, 0, 100)
}

// BtInt: arbitrary machine integers as keys, plain order.
func BtInt(args []int) {
	t := btree.New[int, int](func(a, b int) bool { return a < b })
	m := &hl.Log[int]{Eq: func(a, b int) bool { return a == b }}
	intHist(t, m, args[0])
}

func buildBt(ranks []int) (*btree.Tree[hl.Key, int], *log) {
	t := newBt()
	m := newLog()
	for i, r := range ranks {
		k := hl.Key{R: int16(2*r + 1), ID: uint8(i)}
		t.Put(k, 1000+i)
		m.DoPut(k, 1000+i)
	}
	return t, m
}

// quickCheck is check without the quadratic model fold: content is compared against
// a flat array indexed by rank, which the caller maintains.
func quickCheck(t sortedMap, val []int, has []bool) {
	n := 0
	for i := range has {
		n += vp.B2I(has[i])
	}
	vp.Assert(t.Size() == n, "Size is the number of keys present")
	cnt := 0
	prev := -1
	t.Each(func(k hl.Key, v int) {
		r := vp.Concrete(int(k.R))
		vp.Assert(r > prev, "Each visits keys in strictly ascending order")
		prev = r
		cnt++
		vp.Assert(r < len(has) && has[r], "Each visits only present keys")
		vp.Assert(v == val[r], "Each passes the last value of the key")
	})
	vp.Assert(cnt == n, "Each visits every key once")
}

// window performs ops on keys in [lo,hi] of a tree of concrete content; every key is
// decided to one rank, so the content stays concrete. Afterwards Each is compared in
// full, Get for every key within near of the window and every 17th elsewhere.
func window(t sortedMap, val []int, has []bool, nops, lo, hi, near int) {
	for i := 0; i < nops; i++ {
		r := vp.IntR("k", lo, hi)
		k := hl.Key{R: int16(r), ID: 200}
		if vp.Choose("op", 2) == 0 {
			t.Put(k, i+1)
			c := vp.Concrete(r)
			val[c], has[c] = i+1, true
		} else {
			t.Remove(k)
			c := vp.Concrete(r)
			val[c], has[c] = 0, false
		}
	}
	quickCheck(t, val, has)
	vp.Progress()
	good := true
	for r := range has {
		if r%17 == 0 || (r >= lo-near && r <= hi+near) {
			v, ok := t.Get(hl.Key{R: int16(r)})
			good = vp.And(good, ok == has[r] && v == val[r])
		}
	}
	vp.Assert(good, "Get agrees for every key")
	vp.Observe(t.Size())
	vp.Reach()
}

func preload(t *btree.Tree[hl.Key, int], n int, order []int) ([]int, []bool) {
	has := make([]bool, 2*n+1)
	val := make([]int, 2*n+1)
	for i, r := range order {
		t.Put(hl.Key{R: int16(2*r + 1)}, 1000+i)
		has[2*r+1], val[2*r+1] = true, 1000+i
		vp.Progress()
	}
	return val, has
}

// BtBig: args[0]..args[0]+args[1] keys in one of the first args[4] orders, every args[3]-th
// removed (0: none), then args[2] operations on arbitrary keys over the whole range.
func BtBig(args []int) {
	n := args[0] + vp.Choose("n", args[1]+1)
	t := newBt()
	val, has := preload(t, n, hl.Order(n, vp.Choose("order", args[4])))
	if args[3] > 0 {
		for r := 0; r < n; r += args[3] {
			t.Remove(hl.Key{R: int16(2*r + 1)})
			has[2*r+1], val[2*r+1] = false, 0
			vp.Progress()
		}
	}
	window(t, val, has, args[2], 0, 2*n, 2*n)
}

// BtWindow: args[0] keys in order args[1], then args[2] operations on arbitrary keys
// within args[3] ranks of one of nine places across the range.
func BtWindow(args []int) {
	n, mode, nops, w := args[0], args[1], args[2], args[3]
	t := newBt()
	val, has := preload(t, n, hl.Order(n, mode))
	at := vp.Choose("where", 9) * n / 4
	lo, hi := at-w, at+w
	if lo < 0 {
		lo = 0
	}
	if hi > 2*n {
		hi = 2 * n
	}
	window(t, val, has, nops, lo, hi, 70)
}

// scale puts n keys in one of six orders, removes all but each keep-th in one of five, puts
// half of those again, and performs nops operations on arbitrary keys within w ranks of one
// of five places.
func scale(t sortedMap, n, keep, nops, w int, mid func()) {
	val, has := make([]int, 2*n+1), make([]bool, 2*n+1)
	put := func(r, v int) {
		t.Put(hl.Key{R: int16(r)}, v)
		val[r], has[r] = v, true
		vp.Progress()
	}
	for i, r := range hl.Order(n, vp.Choose("order", 6)) {
		put(2*r+1, 1000+i)
	}
	quickCheck(t, val, has)
	mid()
	o := hl.Order(n, vp.Choose("rorder", 5))
	for i, r := range o {
		if i%keep > 0 {
			t.Remove(hl.Key{R: int16(2*r + 1)})
			val[2*r+1], has[2*r+1] = 0, false
			vp.Progress()
		}
	}
	quickCheck(t, val, has)
	mid()
	if vp.Choose("again", 2) == 1 {
		for i, r := range o {
			if i%2 == 0 {
				put(2*r+1, 3000+i)
			}
		}
		quickCheck(t, val, has)
		mid()
	}
	at := vp.Choose("where", 5) * n / 2
	lo, hi := at-w, at+w
	if lo < 0 {
		lo = 0
	}
	if hi > 2*n {
		hi = 2 * n
	}
	window(t, val, has, nops, lo, hi, 30)
	mid()
}

// AvlScale: args are those of scale.
func AvlScale(args []int) {
	t := newAvl()
	scale(t, args[0], args[1], args[2], args[3], func() { balance(t) })
}

// BtScale: args are those of scale.
func BtScale(args []int) {
	scale(newBt(), args[0], args[1], args[2], args[3], func() {})
}

// mill performs nops puts, removals and lookups on the keys of 2*n ranks in waves, then one
// operation on an arbitrary key within w ranks of one of five places; hs histories.
func mill(t sortedMap, n, nops, w, hs int, mid func()) {
	val, has := make([]int, 2*n+1), make([]bool, 2*n+1)
	r := hl.NewRand(hs)
	up, cnt, run, dir := true, 0, 0, 1
	for i := 0; i < nops; i++ {
		vp.Progress()
		k := r.N(2*n + 1)
		if r.N(4) == 0 { // runs of neighbours
			run = (run + dir + 2*n + 1) % (2*n + 1)
			k = run
		} else if r.N(16) == 0 {
			run, dir = k, 2*r.N(2)-1
		}
		if (r.N(16) < 11) == up {
			t.Put(hl.Key{R: int16(k), ID: uint8(i)}, i+1)
			cnt += vp.B2I(!has[k])
			val[k], has[k] = i+1, true
		} else {
			t.Remove(hl.Key{R: int16(k)})
			cnt -= vp.B2I(has[k])
			val[k], has[k] = 0, false
		}
		if cnt >= n {
			up = false
		}
		if cnt == 0 {
			up = true
		}
		vp.Assert(t.Size() == cnt, "Size is the number of keys present")
		k = r.N(2*n + 1)
		v, ok := t.Get(hl.Key{R: int16(k)})
		vp.Assert(ok == has[k] && v == val[k], "Get agrees for every key")
		if i%16 == 15 {
			quickCheck(t, val, has)
			mid()
		}
	}
	at := vp.Choose("where", 5) * n / 2
	lo, hi := at-w, at+w
	if lo < 0 {
		lo = 0
	}
	if hi > 2*n {
		hi = 2 * n
	}
	window(t, val, has, 1, lo, hi, 30)
	mid()
}

// AvlMill: args are those of mill.
func AvlMill(args []int) {
	t := newAvl()
	mill(t, args[0], args[1], args[2], args[3], func() { balance(t) })
}

// BtMill: args are those of mill.
func BtMill(args []int) {
	mill(newBt(), args[0], args[1], args[2], args[3], func() {})
}

// runs: n keys put in some order, a run of neighbouring keys removed, few or many keys
// put, another run removed, the first run put again; compared completely every few steps.
// If w is not 0 it ends with one operation on an arbitrary key within w of some place.
func runs(t sortedMap, n, w int, mid func()) {
	val, has := make([]int, 2*n+1), make([]bool, 2*n+1)
	c := 0
	put := func(r int) {
		c++
		t.Put(hl.Key{R: int16(r)}, c)
		val[r], has[r] = c, true
		vp.Progress()
	}
	seg := func(name string, kinds int) (int, int) {
		k := [][2]int{{0, 2}, {2, 4}, {1, 3}, {0, 1}, {3, 4}, {1, 4}, {0, 4}}[vp.Choose(name, kinds)]
		return k[0] * n / 4, k[1] * n / 4
	}
	for _, r := range hl.Order(n, vp.Choose("order", 2)) {
		put(2*r + 1)
	}
	remove := func(a, b int, down bool) {
		for i := a; i < b; i++ {
			r := 2*i + 1
			if down {
				r = 2*(a+b-1-i) + 1
			}
			t.Remove(hl.Key{R: int16(r)})
			val[r], has[r] = 0, false
			vp.Progress()
			if i%8 == 0 || b-i < 3 {
				quickCheck(t, val, has)
				mid()
			}
		}
	}
	kinds := 7
	if w > 0 {
		kinds = 4
	}
	a, b := seg("first", kinds)
	remove(a, b, false)
	switch vp.Choose("add", 4) {
	case 0:
		put(0)
	case 1:
		put(2 * n)
	case 2:
		put(2 * (n / 2))
	case 3:
		for i := 0; i < n; i += 3 {
			put(2 * i)
		}
	}
	quickCheck(t, val, has)
	mid()
	x, y := seg("second", kinds)
	remove(x, y, kinds == 7 && vp.Choose("down", 2) == 1)
	if vp.Choose("again", 2) == 1 {
		for i := a; i < b; i++ {
			put(2*i + 1)
		}
		quickCheck(t, val, has)
		mid()
	}
	if w > 0 {
		window(t, val, has, 1, n-w, n+w, 30)
		mid()
		return
	}
	vp.Reach()
}

// BtRuns: see runs. args: keys, width of the final window (0: none).
func BtRuns(args []int) { runs(newBt(), args[0], args[1], func() {}) }

// AvlRuns: see runs; the balance is checked too.
func AvlRuns(args []int) {
	t := newAvl()
	runs(t, args[0], args[1], func() { balance(t) })
}
