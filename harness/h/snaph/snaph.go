// Package snaph checks that what a container hands out or copies in belongs to the caller,
// and that containers of one type share nothing.
package snaph

import (
	g "github.com/zyedidia/generic"
	"github.com/zyedidia/generic/array2d"
	"github.com/zyedidia/generic/avl"
	"github.com/zyedidia/generic/bimap"
	"github.com/zyedidia/generic/btree"
	"github.com/zyedidia/generic/cache"
	"github.com/zyedidia/generic/hashmap"
	"github.com/zyedidia/generic/hashset"
	"github.com/zyedidia/generic/heap"
	"github.com/zyedidia/generic/interval"
	"github.com/zyedidia/generic/list"
	"github.com/zyedidia/generic/mapset"
	"github.com/zyedidia/generic/multimap"
	"github.com/zyedidia/generic/prope"
	"github.com/zyedidia/generic/queue"
	"github.com/zyedidia/generic/rope"
	"github.com/zyedidia/generic/set"
	"github.com/zyedidia/generic/stack"
	"github.com/zyedidia/generic/trie"
	"github.com/zyedidia/generic/ulist"
	"verif/harness/vp"
)

func init() {
	vp.Register("snaph.Results", Results)
	vp.Register("snaph.Inputs", Inputs)
	vp.Register("snaph.Two", Two)
}

// taken is a result that was handed out.
type taken interface {
	read() []int
	wreck()
}

// subject is a container with a model of its content.
type subject interface {
	change(op, k, v int) // op 0 adds, op 1 removes
	check()
	take(kind int) taken
}

func equal(a, b []int, msg string) {
	vp.Assert(len(a) == len(b), msg)
	good := true
	for i := range b {
		good = vp.And(good, a[i] == b[i])
	}
	vp.Assert(good, msg)
}

type ints []int

func (s ints) read() []int { return append([]int(nil), s...) }
func (s ints) wreck() {
	s = s[:cap(s)]
	for i := range s {
		s[i] = -77
	}
}

type words []string

func (s words) read() (r []int) {
	for _, w := range s {
		r = append(r, len(w))
		for i := 0; i < len(w); i++ {
			r = append(r, int(w[i]))
		}
	}
	return
}
func (s words) wreck() {
	s = s[:cap(s)]
	for i := range s {
		s[i] = "wrecked"
	}
}

type members map[int]struct{}

func (m members) read() []int {
	r := make([]int, 5)
	for k := range m {
		vp.Assert(k >= 0 && k < 4, "only members are handed out")
		r[k] = 1
	}
	return append(r, len(m))
}
func (m members) wreck() { m[4] = struct{}{}; delete(m, 0); delete(m, 1) }

// keyed is the model of the containers with four keys.
type keyed struct {
	on  [4]bool
	val [4]int
}

func (m *keyed) set(op, k, v int) { m.on[k], m.val[k] = op == 0, v*(1-op) }
func (m *keyed) n() (n int) {
	for _, x := range m.on {
		n += vp.B2I(x)
	}
	return
}

type kv interface {
	Put(int, int)
	Remove(int)
	Get(int) (int, bool)
	Size() int
	Each(func(int, int))
}

type mapped struct {
	keyed
	m kv
}

func (s *mapped) change(op, k, v int) {
	if op == 0 {
		s.m.Put(k, v)
	} else {
		s.m.Remove(k)
	}
	s.set(op, k, v)
}
func (s *mapped) check() {
	vp.Assert(s.m.Size() == s.n(), "the size is that of this container")
	for k := range s.on {
		v, ok := s.m.Get(k)
		vp.Assert(ok == s.on[k] && v == s.val[k], "the content is that of this container")
	}
	c := 0
	s.m.Each(func(k, v int) {
		vp.Assert(s.on[k] && s.val[k] == v, "the content is that of this container")
		c++
	})
	vp.Assert(c == s.n(), "the content is that of this container")
}
func (s *mapped) take(int) taken { return nil }

type asKV struct {
	put  func(int, int)
	rem  func(int)
	get  func(int) (int, bool)
	size func() int
	each func(func(int, int))
}

func (a asKV) Put(k, v int)          { a.put(k, v) }
func (a asKV) Remove(k int)          { a.rem(k) }
func (a asKV) Get(k int) (int, bool) { return a.get(k) }
func (a asKV) Size() int             { return a.size() }
func (a asKV) Each(f func(k, v int)) { a.each(f) }
func hash(k int) uint64              { return uint64(k * 5) }
func one(has func(int) bool) func(int) (int, bool) {
	return func(k int) (int, bool) { b := has(k); return vp.B2I(b), b }
}

// sets ignore the values.
type members1 struct {
	mapped
}

func (s *members1) change(op, k, v int) { s.mapped.change(op, k, 1) }

func keep(s *mapped) subject { return s }

type trees struct {
	keyed
	t *interval.Tree[int, int]
}

type kvs []interval.KV[int, int]

func (s kvs) read() (r []int) {
	for _, x := range s {
		r = append(r, x.Low, x.High, x.Val)
	}
	return
}
func (s kvs) wreck() {
	s = s[:cap(s)]
	for i := range s {
		s[i] = interval.KV[int, int]{Low: -3, High: 99, Val: -77}
	}
}

func (s *trees) change(op, k, v int) {
	if op == 0 {
		s.t.Put(k, k+2, v)
	} else {
		s.t.Remove(k)
	}
	s.set(op, k, v)
}
func (s *trees) take(kind int) taken { return kvs(s.t.Overlaps(0, 1+kind*8)) }
func (s *trees) check() {
	vp.Assert(s.t.Size() == s.n(), "the size is that of this container")
	var want []int
	for k := range s.on {
		x, ok := s.t.Get(k)
		vp.Assert(ok == s.on[k] && x.Val == s.val[k], "the content is that of this container")
		if ok {
			want = append(want, k, k+2, s.val[k])
		}
	}
	equal(kvs(s.t.Overlaps(-1, 9)).read(), want, "the content is that of this container")
}

type tries struct {
	keyed
	t *trie.Trie[int]
}

var lexicon = [4]string{"a", "ab", "abc", "b"}

func (s *tries) change(op, k, v int) {
	if op == 0 {
		s.t.Put(lexicon[k], v)
	} else {
		s.t.Remove(lexicon[k])
	}
	s.set(op, k, v)
}
func (s *tries) take(kind int) taken {
	if kind == 0 {
		return words(s.t.Keys())
	}
	return words(s.t.KeysWithPrefix("a"))
}
func (s *tries) check() {
	vp.Assert(s.t.Size() == s.n(), "the size is that of this container")
	var want words
	for k := range s.on {
		v, ok := s.t.Get(lexicon[k])
		vp.Assert(ok == s.on[k] && v == s.val[k], "the content is that of this container")
		if ok {
			want = append(want, lexicon[k])
		}
	}
	equal(words(s.t.Keys()).read(), want.read(), "the content is that of this container")
}

// seq is the model of the sequences.
type seq struct {
	m []int
}

func (s *seq) ins(at, v int) {
	s.m = append(append(append([]int(nil), s.m[:at]...), v), s.m[at:]...)
}
func (s *seq) del(at int) {
	s.m = append(append([]int(nil), s.m[:at]...), s.m[at+1:]...)
}

type queues struct {
	seq
	q *queue.Queue[int]
}

func (s *queues) change(op, k, v int) {
	if op == 0 {
		s.q.Enqueue(v)
		s.ins(len(s.m), v)
	} else if len(s.m) > 0 {
		vp.Assert(s.q.Dequeue() == s.m[0], "the content is that of this container")
		s.del(0)
	}
}
func (s *queues) take(kind int) taken {
	if kind == 0 {
		return ints(s.q.PeekAll())
	}
	s.m = nil
	return ints(s.q.DequeueAll())
}
func (s *queues) check() {
	vp.Assert(s.q.Len() == len(s.m), "the size is that of this container")
	equal(s.q.PeekAll(), s.m, "the content is that of this container")
	var got []int
	s.q.Each(func(v int) { got = append(got, v) })
	equal(got, s.m, "the content is that of this container")
}

type sets struct {
	keyed
	s set.Set[int]
}

func (s *sets) change(op, k, v int) {
	if op == 0 {
		s.s.Put(k)
	} else {
		s.s.Remove(k)
	}
	s.set(op, k, 1)
}
func (s *sets) take(kind int) taken {
	if kind == 0 {
		return ints(s.s.Keys())
	}
	return members(s.s.Map())
}
func (s *sets) check() {
	vp.Assert(s.s.Size() == s.n(), "the size is that of this container")
	for k := range s.on {
		vp.Assert(s.s.Has(k) == s.on[k], "the content is that of this container")
	}
}

type multis struct {
	set  bool
	m    multimap.MultiMap[int, int]
	want [2][]int // sorted values of keys 0 and 1
}

// value k%2*10+k stands for k, so that values are concrete and ordered.
func (s *multis) change(op, k, v int) {
	x := k / 2
	w := s.want[k%2]
	at := -1
	for i := range w {
		if w[i] == x {
			at = i
		}
	}
	if op == 0 {
		s.m.Put(k%2, x)
		if at < 0 {
			i := 0
			for i < len(w) && w[i] < x {
				i++
			}
			s.want[k%2] = append(append(append([]int(nil), w[:i]...), x), w[i:]...)
		}
	} else {
		s.m.Remove(k%2, x)
		if at >= 0 {
			s.want[k%2] = append(append([]int(nil), w[:at]...), w[at+1:]...)
		}
	}
}
func (s *multis) take(kind int) taken { return ints(s.m.Get(kind)) }
func (s *multis) check() {
	vp.Assert(s.m.Size() == len(s.want[0])+len(s.want[1]), "the size is that of this container")
	for k := range s.want {
		equal(s.m.Get(k), s.want[k], "the content is that of this container")
	}
}

type propes struct {
	seq
	r *prope.Node[int]
}

func (s *propes) change(op, k, v int) {
	if op == 0 {
		at := k % (len(s.m) + 1)
		s.r = s.r.Insert(at, []int{v})
		s.ins(at, v)
	} else if len(s.m) > 0 {
		at := k % len(s.m)
		s.r = s.r.Remove(at, at+1)
		s.del(at)
	}
}
func (s *propes) take(kind int) taken {
	if kind == 0 {
		return ints(s.r.Value())
	}
	return ints(s.r.Slice(len(s.m)/2, len(s.m)))
}
func (s *propes) check() { equal(s.r.Value(), s.m, "the content is that of this container") }

type ropes struct {
	seq
	r *rope.Node[int]
}

func (s *ropes) change(op, k, v int) {
	if op == 0 {
		at := k % (len(s.m) + 1)
		s.r.Insert(at, []int{v})
		s.ins(at, v)
	} else if len(s.m) > 0 {
		at := k % len(s.m)
		s.r.Remove(at, at+1)
		s.del(at)
	}
}
func (s *ropes) take(int) taken { return nil }
func (s *ropes) check()         { equal(s.r.Value(), s.m, "the content is that of this container") }

type stacks struct {
	seq
	s *stack.Stack[int]
}

func (s *stacks) change(op, k, v int) {
	if op == 0 {
		s.s.Push(v)
		s.ins(len(s.m), v)
	} else if len(s.m) > 0 {
		vp.Assert(s.s.Pop() == s.m[len(s.m)-1], "the content is that of this container")
		s.del(len(s.m) - 1)
	}
}
func (s *stacks) take(int) taken { return nil }
func (s *stacks) check() {
	vp.Assert(s.s.Size() == len(s.m), "the size is that of this container")
	c := s.s.Copy()
	for i := len(s.m) - 1; i >= 0; i-- {
		vp.Assert(c.Pop() == s.m[i], "the content is that of this container")
	}
}

type lists struct {
	seq
	l *list.List[int]
}

func (s *lists) change(op, k, v int) {
	if op == 0 {
		if k%2 == 0 {
			s.l.PushBack(v)
			s.ins(len(s.m), v)
		} else {
			s.l.PushFront(v)
			s.ins(0, v)
		}
	} else if len(s.m) > 0 {
		n := s.l.Front
		for i := 0; i < k%len(s.m); i++ {
			n = n.Next
		}
		s.l.Remove(n)
		s.del(k % len(s.m))
	}
}
func (s *lists) take(int) taken { return nil }
func (s *lists) check() {
	var got []int
	if s.l.Front != nil {
		s.l.Front.Each(func(v int) { got = append(got, v) })
	}
	equal(got, s.m, "the content is that of this container")
}

type ulists struct {
	seq
	l *ulist.UList[int]
}

func (s *ulists) change(op, k, v int) {
	if op == 0 {
		if k%2 == 0 {
			s.l.PushBack(v)
			s.ins(len(s.m), v)
		} else {
			s.l.PushFront(v)
			s.ins(0, v)
		}
	} else if len(s.m) > 0 {
		it := s.l.Begin()
		for i := 0; i < k%len(s.m); i++ {
			it.Next()
		}
		s.l.Remove(it)
		s.del(k % len(s.m))
	}
}
func (s *ulists) take(int) taken { return nil }
func (s *ulists) check() {
	vp.Assert(s.l.Size() == len(s.m), "the size is that of this container")
	var got []int
	for it := s.l.Begin(); it.IsValid(); it.Next() {
		got = append(got, it.Get())
	}
	equal(got, s.m, "the content is that of this container")
}

// heaps hold the values 10*k, so that their order is concrete.
type heaps struct {
	h   *heap.Heap[int]
	cnt [4]int
}

func (s *heaps) least() int {
	for k, c := range s.cnt {
		if c > 0 {
			return k
		}
	}
	return -1
}
func (s *heaps) change(op, k, v int) {
	if op == 0 {
		s.h.Push(10 * k)
		s.cnt[k]++
	} else if l := s.least(); l >= 0 {
		x, ok := s.h.Pop()
		vp.Assert(ok && x == 10*l, "the content is that of this container")
		s.cnt[l]--
	}
}
func (s *heaps) take(int) taken { return nil }
func (s *heaps) check() {
	n := 0
	for _, c := range s.cnt {
		n += c
	}
	x, ok := s.h.Peek()
	vp.Assert(s.h.Size() == n && ok == (n > 0) && (!ok || x == 10*s.least()), "the content is that of this container")
}

type arrays struct {
	keyed
	a array2d.Array2D[int]
}

func (s *arrays) change(op, k, v int) {
	if op == 1 {
		s.a.Fill(k%2, 0, k%2, 1, v)
		s.val[k%2], s.val[2+k%2] = v, v
		return
	}
	s.a.Set(k%2, k/2, v)
	s.val[k] = v
}
func (s *arrays) take(int) taken { return nil }
func (s *arrays) check() {
	for k := range s.val {
		vp.Assert(s.a.Get(k%2, k/2) == s.val[k], "the content is that of this container")
	}
}

// Kinds 0 to 7 hand out results; all of them can be had twice.
const withResults, all = 8, 21

func make1(kind int) subject {
	switch kind {
	case 0:
		return &trees{t: interval.New[int, int]()}
	case 1:
		return &tries{t: trie.New[int]()}
	case 2:
		return &queues{q: queue.New[int]()}
	case 3:
		return &sets{s: set.NewMapset[int]()}
	case 4:
		return &sets{s: set.NewHashset[int](room, g.Equals[int], hash)}
	case 5:
		return &multis{m: multimap.NewMapSet[int, int](g.Less[int])}
	case 6:
		return &multis{m: multimap.NewAvlSet[int, int](g.Less[int], g.Less[int])}
	case 7:
		prope.SplitLength, prope.JoinLength = 3, 2
		return &propes{r: prope.New([]int{})}
	case 8:
		return &mapped{m: avl.New[int, int](g.Less[int])}
	case 9:
		return &mapped{m: btree.New[int, int](g.Less[int])}
	case 10:
		return &mapped{m: hashmap.New[int, int](room, g.Equals[int], hash)}
	case 11:
		return &mapped{m: cache.New[int, int](9)}
	case 12:
		s := hashset.New[int](room, g.Equals[int], hash)
		return &members1{mapped{m: asKV{func(k, v int) { s.Put(k) }, s.Remove, one(s.Has), s.Size,
			func(f func(int, int)) { s.Each(func(k int) { f(k, 1) }) }}}}
	case 13:
		s := mapset.New[int]()
		return &members1{mapped{m: asKV{func(k, v int) { s.Put(k) }, s.Remove, one(s.Has), s.Size,
			func(f func(int, int)) { s.Each(func(k int) { f(k, 1) }) }}}}
	case 14:
		b := &bimap.Bimap[int, int]{}
		return &members2{mapped{m: asKV{b.Add, b.RemoveForward, b.GetForward, b.Len, b.Each}}}
	case 15:
		return &stacks{s: stack.New[int]()}
	case 16:
		return &lists{l: list.New[int]()}
	case 17:
		return &ulists{l: ulist.New[int](2)}
	case 18:
		rope.SplitLength, rope.JoinLength = 3, 2
		return &ropes{r: rope.New([]int{})}
	case 19:
		return &heaps{h: heap.New(g.Less[int])}
	}
	return &arrays{a: array2d.New[int](2, 2)}
}

// bimaps map k to 10*k+1, one to one.
type members2 struct{ mapped }

func (s *members2) change(op, k, v int) { s.mapped.change(op, k, 10*k+1) }

func any1(s subject) {
	s.change(vp.Choose("op", 2), vp.Concrete(vp.IntR("k", 0, 3)), vp.Int("v"))
}

func prepare(s subject) {
	for k := 0; k < 4; k++ {
		if vp.Choose("has", 2) == 1 {
			s.change(0, k, vp.Int("v"))
		}
	}
}

// Results: a container with any of four entries; a result is taken, the container changed by
// up to args[1] operations, another result taken; both are read and overwritten in turn.
func Results(args []int) {
	kind := args[0]
	if kind == 3 || kind == 4 {
		vp.MapOrder(-1) // the results are compared, the order does not matter
	}
	s := make1(kind)
	prepare(s)
	a := s.take(vp.Choose("take", 2))
	x := a.read()
	for i := 0; i < args[1]; i++ {
		any1(s)
	}
	equal(a.read(), x, "a result stays as it was when the container changes")
	b := s.take(vp.Choose("take", 2))
	y := b.read()
	equal(a.read(), x, "a result stays as it was when another one is taken")
	a.wreck()
	equal(b.read(), y, "results share nothing")
	s.check()
	any1(s)
	equal(b.read(), y, "a result stays as it was when the container changes")
	b.wreck()
	s.check()
	any1(s)
	s.check()
	vp.Reach()
}

// room is the capacity hash tables are made with.
var room uint64

// Two: two containers of one kind, changed in turn; each keeps its own content.
func Two(args []int) {
	room = 0
	if k := args[0]; k == 4 || k == 10 || k == 12 {
		room = []uint64{0, 7, 300}[vp.Choose("cap", 3)]
	}
	s, t := make1(args[0]), make1(args[0])
	room = 0
	for i := 0; i < args[1]; i++ {
		if vp.Choose("who", 2) == 0 {
			any1(s)
		} else {
			any1(t)
		}
		s.check()
		t.check()
	}
	vp.Reach()
}

// Inputs: what is copied in stays the caller's: changing it does not change the container,
// and changing the container does not change it.
func Inputs(args []int) {
	n := vp.Choose("n", 5)
	in := make([]int, 0, 6)
	for i := 0; i < n; i++ {
		in = append(in, vp.Int("v"))
	}
	in = append(in, 91, 92)[:n]
	orig := append([]int(nil), in...)
	intact := func() {
		equal(in[:n+2], append(append([]int(nil), orig...), 91, 92), "the slice passed in is not changed")
	}
	switch args[0] {
	case 0:
		s := &queues{q: queue.Of(in)}
		s.m = orig
		intact()
		s.check()
		any1(s)
		any1(s)
		intact()
		ints(in).wreck()
		s.check()
		any1(s)
		s.check()
	case 1:
		a := array2d.OfJagged(2, 2, [][]int{in, in})
		var s arrays
		s.a = a
		for k := range s.val {
			if k%2 < n {
				s.val[k] = orig[k%2]
			}
		}
		intact()
		s.check()
		any1(&s)
		intact()
		s.check()
		ints(in).wreck()
		s.check()
	case 2:
		m := map[int]int{}
		s := &members2{}
		for k := 0; k < n && k < 4; k++ {
			m[k] = 10*k + 1
			s.set(0, k, 10*k+1)
		}
		b := bimap.Of(m)
		s.m = asKV{b.Add, b.RemoveForward, b.GetForward, b.Len, b.Each}
		s.check()
		l := len(m)
		had := make([]bool, 4)
		for k := range had {
			_, had[k] = m[k]
		}
		any1(s)
		any1(s)
		vp.Assert(len(m) == l, "the map passed in is not changed")
		for k := range had {
			v, ok := m[k]
			vp.Assert(ok == had[k] && (!ok || v == 10*k+1), "the map passed in is not changed")
		}
		m[5] = 51
		delete(m, 0)
		s.check()
		any1(s)
		s.check()
	case 3, 4, 5, 6, 7:
		ks := make([]int, 0, 6)
		for i := 0; i < n; i++ {
			ks = append(ks, vp.Choose("key", 3))
		}
		ks = append(ks, 91, 92)[:n]
		was := append([]int(nil), ks[:n+2]...)
		var s subject
		x := &members1{}
		y := &sets{}
		for _, k := range ks {
			x.set(0, k, 1)
			y.set(0, k, 1)
		}
		switch args[0] {
		case 3:
			z := hashset.Of[int](0, g.Equals[int], hash, ks...)
			x.m = asKV{func(k, v int) { z.Put(k) }, z.Remove, one(z.Has), z.Size, func(f func(int, int)) { z.Each(func(k int) { f(k, 1) }) }}
			s = x
		case 4:
			z := mapset.Of(ks...)
			x.m = asKV{func(k, v int) { z.Put(k) }, z.Remove, one(z.Has), z.Size, func(f func(int, int)) { z.Each(func(k int) { f(k, 1) }) }}
			s = x
		case 5:
			y.s = set.NewMapset(ks...)
			s = y
		case 6:
			y.s = set.NewHashset(0, g.Equals[int], hash, ks...)
			s = y
		case 7:
			y.s = set.NewSet(func() set.SetOf[int] { return mapset.New[int]() }, ks...)
			s = y
		}
		s.check()
		any1(s)
		any1(s)
		equal(ks[:n+2], was, "the slice passed in is not changed")
		ints(ks).wreck()
		s.check()
	}
	vp.Reach()
}

var _ = keep
