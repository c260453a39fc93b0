// Package typeh checks the containers with elements of many types: nil pointers, nil
// interfaces, empty structs, empty strings, slices and structs of several fields are values
// like any other.
package typeh

import (
	g "github.com/zyedidia/generic"
	"github.com/zyedidia/generic/array2d"
	"github.com/zyedidia/generic/avl"
	"github.com/zyedidia/generic/bimap"
	"github.com/zyedidia/generic/btree"
	"github.com/zyedidia/generic/cache"
	"github.com/zyedidia/generic/hashmap"
	"github.com/zyedidia/generic/hashset"
	"github.com/zyedidia/generic/heap"
	"github.com/zyedidia/generic/interval"
	"github.com/zyedidia/generic/list"
	"github.com/zyedidia/generic/mapset"
	"github.com/zyedidia/generic/multimap"
	"github.com/zyedidia/generic/prope"
	"github.com/zyedidia/generic/queue"
	"github.com/zyedidia/generic/rope"
	"github.com/zyedidia/generic/set"
	"github.com/zyedidia/generic/stack"
	"github.com/zyedidia/generic/trie"
	"github.com/zyedidia/generic/ulist"
	"verif/harness/vp"
)

func init() {
	vp.Register("typeh.Maps", Maps)
	vp.Register("typeh.Natives", Natives)
	vp.Register("typeh.Seqs", Seqs)
	vp.Register("typeh.Slices", Slices)
}

// pick lets the solver choose among n.
func pick(name string, n int) int { return vp.Concrete(vp.IntR(name, 0, n-1)) }

// pool is a few values of a type, told apart by id.
type pool[T any] struct {
	v  []T
	id func(T) int
}

func of[T comparable](v ...T) pool[T] {
	return pool[T]{v, func(x T) int {
		for i := range v {
			if v[i] == x {
				return i
			}
		}
		return -1
	}}
}

type pair struct {
	A int16
	B string
}

type named interface{ Name() string }
type ptr struct{ n string }

func (p *ptr) Name() string { return p.n }

func anys() pool[any] { return of[any](nil, vp.Int("i"), "", (*int)(nil)) }
func ptrs() pool[*int] {
	a, b := new(int), new(int)
	return of(nil, a, b)
}
func empties() pool[struct{}] { return of(struct{}{}) }
func strs() pool[string]      { return of("", vp.Str("s", 1), vp.Str("t", 2)) }
func pairs() pool[pair] {
	a, b := vp.I16("a"), vp.I16("b")
	vp.Assume(a != b)
	return of(pair{a, ""}, pair{b, ""}, pair{a, "x"})
}
func ifaces() pool[named] { return of[named](nil, (*ptr)(nil), &ptr{"p"}) }

// A shy value says of itself that it is nothing special.
type shy struct{ n int }

func (s shy) Empty() bool     { return true }
func (s shy) IsEmpty() bool   { return true }
func (s shy) IsZero() bool    { return true }
func (s shy) IsNil() bool     { return true }
func (s shy) IsValid() bool   { return false }
func (s shy) Valid() bool     { return false }
func (s shy) Len() int        { return 0 }
func (s shy) Size() int       { return 0 }
func (s shy) Equal(shy) bool  { return true }
func (s shy) Equals(shy) bool { return true }
func (s shy) Less(shy) bool   { return false }
func (s shy) Compare(shy) int { return 0 }
func (s shy) Hash() uint64    { return 0 }
func (s shy) String() string  { return "" }
func (s shy) Error() string   { return "" }
func (s shy) Unwrap() error   { return nil }
func (s shy) Is(error) bool   { return true }
func (s shy) Copy() shy       { return shy{} }
func (s shy) Clone() shy      { return shy{} }
func shies() pool[shy]        { return of(shy{}, shy{vp.IntR("shy", 1, 9)}, shy{-1}) }
func anyshies() pool[any]     { return of[any](shy{1}, shy{2}, error(shy{0})) }
func bools() pool[bool]       { return of(false, true) }
func floats() pool[float64]   { return of(0, -1.5, 1e300) }
func arrays() pool[[2]int16] {
	a, b := vp.I16("a"), vp.I16("b")
	vp.Assume(vp.Or(a != 0, b != 0))
	return of([2]int16{}, [2]int16{a, b})
}
func slices() pool[[]int] {
	v := [][]int{nil, {}, {vp.Int("i")}, {1, 2}}
	return pool[[]int]{v, func(x []int) int {
		if x == nil {
			return 0
		}
		return len(x) + 1
	}}
}

// model is the expected content by key index: 1 + value index, 0 if absent.
type model []int

func (m model) size() int {
	n := 0
	for _, x := range m {
		n += vp.B2I(x > 0)
	}
	return n
}

type kv[K, V any] interface {
	Put(K, V)
	Remove(K)
	Size() int
	Each(func(K, V))
}

// hist applies up to n operations to m and compares after each.
func hist[K, V any](m kv[K, V], get func(K) (V, bool), kp pool[K], vs pool[V], sorted bool, n int) {
	want := make(model, len(kp.v))
	for i := 0; i < n; i++ {
		k := pick("k", len(kp.v))
		if vp.Choose("op", 2) == 0 {
			j := pick("v", len(vs.v))
			m.Put(kp.v[k], vs.v[j])
			want[k] = j + 1
		} else {
			m.Remove(kp.v[k])
			want[k] = 0
		}
		if get != nil {
			for k := range want {
				x, ok := get(kp.v[k])
				vp.Assert(ok == (want[k] > 0), "presence is reported whatever the value")
				if ok {
					vp.Assert(vs.id(x) == want[k]-1, "the stored value comes back")
				}
			}
		}
		vp.Assert(m.Size() == want.size(), "Size counts the entries")
		seen := make(model, len(want))
		last := -1
		m.Each(func(k K, v V) {
			i := kp.id(k)
			vp.Assert(i >= 0 && want[i] > 0 && seen[i] == 0, "Each visits the entries present, none twice")
			vp.Assert(vs.id(v) == want[i]-1, "Each passes the stored value")
			vp.Assert(!sorted || i > last, "Each visits the keys in order")
			last = i
			seen[i] = 1
		})
		vp.Assert(seen.size() == want.size(), "Each visits every entry")
	}
	vp.Reach()
}

type asMap[K any] struct{ *hashset.Set[K] }

func (s asMap[K]) Put(k K, _ struct{})          { s.Set.Put(k) }
func (s asMap[K]) Each(f func(K, struct{}))     { s.Set.Each(func(k K) { f(k, struct{}{}) }) }
func (s asMap[K]) get(k K) (x struct{}, b bool) { return x, s.Has(k) }

func maps[K, V any](kp pool[K], vs pool[V], n int) {
	less := func(a, b K) bool { return kp.id(a) < kp.id(b) }
	eq := func(a, b K) bool { return kp.id(a) == kp.id(b) }
	hash := func(a K) uint64 { return uint64(kp.id(a) * 3) }
	switch vp.Choose("kind", 5) {
	case 0:
		t := avl.New[K, V](less)
		hist[K, V](t, t.Get, kp, vs, true, n)
	case 1:
		t := btree.New[K, V](less)
		hist[K, V](t, t.Get, kp, vs, true, n)
	case 2:
		t := hashmap.New[K, V](uint64(vp.Choose("cap", 2)*8), eq, hash)
		hist[K, V](t, t.Get, kp, vs, false, n)
	case 3:
		t := asMap[K]{hashset.New[K](0, eq, hash)}
		hist[K, struct{}](t, t.get, kp, empties(), false, n)
	case 4:
		if len(kp.v) > 1 {
			ps := pool[int]{v: []int{0, 1, 2}, id: func(x int) int { return x }}
			t := tree[V]{interval.New[int, V]()}
			hist[int, V](t, t.get, ps, vs, true, n)
			return
		}
		t := word[V]{trie.New[V]()}
		hist[string, V](t, t.Get, of("a", "ab", "b"), vs, true, n)
	}
}

type tree[V any] struct{ *interval.Tree[int, V] }

func (t tree[V]) Put(k int, v V)      { t.Tree.Put(k, k+2, v) }
func (t tree[V]) Remove(k int)        { t.Tree.Remove(k) }
func (t tree[V]) Each(f func(int, V)) { t.Tree.Each(func(l, h int, v V) { f(l, v) }) }
func (t tree[V]) get(k int) (V, bool) {
	kv, ok := t.Tree.Get(k)
	n := 0
	for _, x := range t.Overlaps(k, k+1) {
		n += vp.B2I(x.Low == k)
	}
	vp.Assert((n == 1) == ok, "Overlaps finds the interval whatever its value")
	return kv.Val, ok
}

type word[V any] struct{ *trie.Trie[V] }

func (t word[V]) Each(f func(string, V)) {
	for _, k := range t.Keys() {
		v, ok := t.Get(k)
		vp.Assert(ok && t.Contains(k) && t.LongestPrefix(k+"x") == k, "a listed key is present whatever its value")
		f(k, v)
	}
}

// Maps: maps, trees and sets of element type kind args[0], up to args[1] operations.
func Maps(args []int) {
	n := args[1]
	switch args[0] {
	case 0:
		maps(anys(), anys(), n)
	case 1:
		maps(ptrs(), ptrs(), n)
	case 2:
		maps(empties(), empties(), n)
	case 3:
		maps(strs(), slices(), n)
	case 4:
		maps(pairs(), pairs(), n)
	case 5:
		maps(ifaces(), ifaces(), n)
	case 6:
		maps(empties(), anys(), n)
	case 7:
		maps(slices(), floats(), n)
	case 8:
		maps(arrays(), bools(), n)
	case 9:
		maps(shies(), anyshies(), n)
	}
}

type lru[K comparable, V any] struct{ *cache.Cache[K, V] }

type bi[K, V comparable] struct{ *bimap.Bimap[K, V] }

func (b bi[K, V]) Put(k K, v V) { b.Add(k, v) }
func (b bi[K, V]) Remove(k K)   { b.RemoveForward(k) }
func (b bi[K, V]) Size() int    { return b.Len() }

type ms[K comparable] struct{ mapset.Set[K] }

func (s ms[K]) Put(k K, _ struct{})          { s.Set.Put(k) }
func (s ms[K]) Each(f func(K, struct{}))     { s.Set.Each(func(k K) { f(k, struct{}{}) }) }
func (s ms[K]) get(k K) (x struct{}, b bool) { return x, s.Has(k) }

type st[K comparable] struct{ set.Set[K] }

func (s st[K]) Put(k K, _ struct{})          { s.Set.Put(k) }
func (s st[K]) Each(f func(K, struct{}))     { s.Set.Each(func(k K) { f(k, struct{}{}) }) }
func (s st[K]) get(k K) (x struct{}, b bool) { return x, s.Has(k) }

func natives[K, V comparable](kp pool[K], vs pool[V], n int) {
	switch vp.Choose("kind", 5) {
	case 0:
		t := lru[K, V]{cache.New[K, V](9)}
		hist[K, V](t, t.Get, kp, vs, false, n)
	case 1: // a bimap of keys to themselves in another order
		var b bimap.Bimap[K, K]
		l := len(kp.v)
		fw, bw := make(model, l), make(model, l)
		for i := 0; i < n; i++ {
			k, v := pick("k", l), pick("v", l)
			switch vp.Choose("op", 3) {
			case 0:
				b.Add(kp.v[k], kp.v[v])
				if x := fw[k]; x > 0 {
					bw[x-1] = 0
				}
				if x := bw[v]; x > 0 {
					fw[x-1] = 0
				}
				fw[k], bw[v] = v+1, k+1
			case 1:
				b.RemoveForward(kp.v[k])
				if x := fw[k]; x > 0 {
					bw[x-1], fw[k] = 0, 0
				}
			case 2:
				b.RemoveReverse(kp.v[v])
				if x := bw[v]; x > 0 {
					fw[x-1], bw[v] = 0, 0
				}
			}
			vp.Assert(b.Len() == fw.size(), "Len counts the pairs")
			for k := range fw {
				x, ok := b.GetForward(kp.v[k])
				vp.Assert(ok == (fw[k] > 0) && b.ContainsForward(kp.v[k]) == ok, "presence is reported whatever the value")
				vp.Assert(!ok || kp.id(x) == fw[k]-1, "the stored value comes back")
				y, ok := b.GetReverse(kp.v[k])
				vp.Assert(ok == (bw[k] > 0) && b.ContainsReverse(kp.v[k]) == ok, "presence is reported whatever the value")
				vp.Assert(!ok || kp.id(y) == bw[k]-1, "the stored value comes back")
			}
		}
		vp.Reach()
	case 2:
		t := ms[K]{mapset.New[K]()}
		hist[K, struct{}](t, t.get, kp, empties(), false, n)
	case 3:
		t := st[K]{set.NewMapset[K]()}
		hist[K, struct{}](t, t.get, kp, empties(), false, n)
	case 4:
		multi(kp, vs, n)
	}
}

// multi: the multimaps.
func multi[K, V comparable](kp pool[K], vs pool[V], n int) {
	kless := func(a, b K) bool { return kp.id(a) < kp.id(b) }
	vless := func(a, b V) bool { return vs.id(a) < vs.id(b) }
	var m multimap.MultiMap[K, V]
	kind := vp.Choose("multi", 4)
	switch kind {
	case 0:
		m = multimap.NewMapSlice[K, V]()
	case 1:
		m = multimap.NewMapSet[K, V](vless)
	case 2:
		m = multimap.NewAvlSlice[K, V](kless)
	case 3:
		m = multimap.NewAvlSet[K, V](kless, vless)
	}
	want := make([]model, len(kp.v))
	for i := range want {
		want[i] = make(model, len(vs.v))
	}
	for i := 0; i < n; i++ {
		k, v := pick("k", len(kp.v)), pick("v", len(vs.v))
		if vp.Choose("op", 2) == 0 {
			m.Put(kp.v[k], vs.v[v])
			if kind%2 == 0 || want[k][v] == 0 {
				want[k][v]++
			}
		} else {
			m.Remove(kp.v[k], vs.v[v])
			if want[k][v] > 0 {
				want[k][v]--
			}
		}
		all, dim := 0, 0
		for k := range want {
			n := 0
			for _, c := range want[k] {
				n += c
			}
			all += n
			dim += vp.B2I(n > 0)
			vp.Assert(m.Count(kp.v[k]) == n && m.Has(kp.v[k]) == (n > 0), "Count and Has agree whatever the values")
			got := make(model, len(vs.v))
			for _, x := range m.Get(kp.v[k]) {
				got[vs.id(x)]++
			}
			for v := range got {
				vp.Assert(got[v] == want[k][v], "Get returns the values of the key")
			}
		}
		vp.Assert(m.Size() == all && m.Dimension() == dim, "Size and Dimension agree whatever the values")
	}
	vp.Reach()
}

// Natives: as Maps for the containers that need comparable keys.
func Natives(args []int) {
	n := args[1]
	switch args[0] {
	case 0:
		natives(anys(), anys(), n)
	case 1:
		natives(ptrs(), ptrs(), n)
	case 2:
		natives(empties(), empties(), n)
	case 3:
		natives(strs(), floats(), n)
	case 4:
		natives(pairs(), bools(), n)
	case 5:
		natives(ifaces(), ifaces(), n)
	case 6:
		natives(empties(), anys(), n)
	case 7:
		natives(arrays(), strs(), n)
	case 8:
		natives(anyshies(), shies(), n)
	}
}

// fill puts n arbitrary pool values in a slice and returns their ids as well.
func fill[T any](p pool[T], n int) (s []T, ids []int) {
	for i := 0; i < n; i++ {
		j := pick("x", len(p.v))
		s = append(s, p.v[j])
		ids = append(ids, j)
	}
	return
}

func same[T any](p pool[T], s []T, ids []int, msg string) {
	vp.Assert(len(s) == len(ids), msg)
	for i := range s {
		vp.Assert(p.id(s[i]) == ids[i], msg)
	}
}

func seqs[T any](p pool[T], n int) {
	s, ids := fill(p, n)
	zero := -1
	var z T
	zero = p.id(z)
	var got []T
	add := func(x T) { got = append(got, x) }
	switch vp.Choose("kind", 6) {
	case 0:
		q := queue.New[T]()
		for i := range s {
			q.Enqueue(s[i])
			vp.Assert(q.Len() == i+1 && !q.Empty(), "Len counts the items")
		}
		same(p, q.PeekAll(), ids, "PeekAll returns the items")
		q.Each(add)
		same(p, got, ids, "Each visits the items")
		for i := range s {
			x, ok := q.TryPeek()
			vp.Assert(ok && p.id(x) == ids[i], "TryPeek returns the oldest item")
			x, ok = q.TryDequeue()
			vp.Assert(ok && p.id(x) == ids[i], "TryDequeue returns the oldest item")
		}
		_, ok := q.TryDequeue()
		vp.Assert(!ok && q.Empty(), "an empty queue is empty")
	case 1:
		t := stack.New[T]()
		for i := range s {
			t.Push(s[i])
			vp.Assert(t.Size() == i+1 && p.id(t.Peek()) == ids[i], "Peek returns the value pushed last")
		}
		for i := len(s) - 1; i >= 0; i-- {
			vp.Assert(p.id(t.Pop()) == ids[i] && t.Size() == i, "Pop returns the value pushed last")
		}
		vp.Assert(p.id(t.Pop()) == zero && t.Size() == 0, "an empty stack returns the zero value")
	case 2:
		l := list.New[T]()
		for i := range s {
			l.PushBack(s[i])
		}
		if n > 0 {
			l.Front.Each(add)
		}
		same(p, got, ids, "Each visits the values")
		if n > 1 {
			l.Remove(l.Front.Next)
			got = nil
			l.Front.Each(add)
			same(p, got, append(append([]int{}, ids[0]), ids[2:]...), "Each visits the values")
		}
	case 3:
		l := ulist.New[T](2)
		for i := range s {
			l.PushBack(s[i])
		}
		for it := l.Begin(); it.IsValid(); it.Next() {
			add(it.Get())
		}
		same(p, got, ids, "iteration visits the values")
		if n > 1 {
			it := l.Begin()
			it.Next()
			l.Remove(it)
			got = nil
			for it := l.Begin(); it.IsValid(); it.Next() {
				add(it.Get())
			}
			same(p, got, append(append([]int{}, ids[0]), ids[2:]...), "iteration visits the values")
		}
	case 4:
		less := func(a, b T) bool { return p.id(a) < p.id(b) }
		h := heap.New[T](less)
		left := make(model, len(p.v))
		for i := range s {
			h.Push(s[i])
			left[ids[i]]++
		}
		last := -1
		for i := range s {
			x, ok := h.Peek()
			y, ok2 := h.Pop()
			j := p.id(y)
			vp.Assert(ok && ok2 && p.id(x) == j && j >= last && left[j] > 0 && h.Size() == n-1-i, "Pop returns a smallest element")
			last = j
			left[j]--
		}
		x, ok := h.Pop()
		vp.Assert(!ok && p.id(x) == zero, "an empty heap returns the zero value")
	case 5:
		h := heap.FromSlice(func(a, b T) bool { return p.id(a) > p.id(b) }, append([]T{}, s...))
		last := len(p.v)
		for range s {
			y, ok := h.Pop()
			j := p.id(y)
			vp.Assert(ok && j <= last, "Pop returns a smallest element")
			last = j
		}
	}
	vp.Reach()
}

// Seqs: queues, stacks, lists and heaps of up to args[1] elements of type kind args[0].
func Seqs(args []int) {
	n := vp.Choose("n", args[1]+1)
	switch args[0] {
	case 0:
		seqs(anys(), n)
	case 1:
		seqs(ptrs(), n)
	case 2:
		seqs(empties(), n)
	case 3:
		seqs(strs(), n)
	case 4:
		seqs(pairs(), n)
	case 5:
		seqs(ifaces(), n)
	case 6:
		seqs(slices(), n)
	case 7:
		seqs(arrays(), n)
	case 8:
		seqs(shies(), n)
	case 9:
		seqs(anyshies(), n)
	}
}

func arrs[T any](p pool[T], n int) {
	s, ids := fill(p, n)
	var z T
	zero := p.id(z)
	switch vp.Choose("kind", 3) {
	case 0:
		rope.SplitLength, rope.JoinLength = 2, 1
		r := rope.New(append([]T{}, s...))
		x := pick("v", len(p.v))
		at := vp.Choose("at", n+1)
		r.Insert(at, []T{p.v[x]})
		m := append(append(append([]int{}, ids[:at]...), x), ids[at:]...)
		same(p, r.Value(), m, "Value is the flat array")
		for i := range m {
			vp.Assert(p.id(r.At(i)) == m[i], "At reads the element")
		}
		r.Remove(0, 1)
		same(p, r.Value(), m[1:], "Value is the flat array")
	case 1:
		prope.SplitLength, prope.JoinLength = 2, 1
		r := prope.New(append([]T{}, s...))
		x := pick("v", len(p.v))
		at := vp.Choose("at", n+1)
		q := r.Insert(at, []T{p.v[x]})
		m := append(append(append([]int{}, ids[:at]...), x), ids[at:]...)
		same(p, q.Value(), m, "Value is the flat array")
		for i := range m {
			vp.Assert(p.id(q.At(i)) == m[i], "At reads the element")
		}
		same(p, q.Remove(0, 1).Value(), m[1:], "Value is the flat array")
		same(p, r.Value(), ids, "older versions stay")
	case 2:
		a := array2d.New[T](2, 2)
		for y := 0; y < 2; y++ {
			for x := 0; x < 2; x++ {
				vp.Assert(p.id(a.Get(x, y)) == zero, "new cells hold the zero value")
			}
		}
		for i := range s {
			a.Set(i%2, i/2%2, s[i])
			vp.Assert(p.id(a.Get(i%2, i/2%2)) == ids[i], "Get returns the value set")
		}
		j := pick("v", len(p.v))
		b := array2d.NewFilled(2, 2, p.v[j])
		c := a.Copy()
		a.Fill(0, 0, 1, 1, p.v[j])
		for y := 0; y < 2; y++ {
			for x := 0; x < 2; x++ {
				vp.Assert(p.id(a.Get(x, y)) == j && p.id(b.Get(x, y)) == j, "filled cells hold the value")
				w := zero
				for i := range s {
					if i%2 == x && i/2%2 == y {
						w = ids[i]
					}
				}
				vp.Assert(p.id(c.Get(x, y)) == w, "the copy keeps its cells")
			}
		}
		o := array2d.OfJagged(2, 2, [][]T{s})
		for i := 0; i < 2 && i < n; i++ {
			vp.Assert(p.id(o.Get(i, 0)) == ids[i], "OfJagged copies the rows")
		}
	}
	vp.Reach()
}

// Slices: ropes and 2D arrays of up to args[1] elements of type kind args[0].
func Slices(args []int) {
	n := vp.Choose("n", args[1]+1)
	switch args[0] {
	case 0:
		arrs(anys(), n)
	case 1:
		arrs(ptrs(), n)
	case 2:
		arrs(empties(), n)
	case 3:
		arrs(strs(), n)
	case 4:
		arrs(pairs(), n)
	case 5:
		arrs(ifaces(), n)
	case 6:
		arrs(slices(), n)
	case 7:
		arrs(arrays(), n)
	case 8:
		arrs(shies(), n)
	case 9:
		arrs(anyshies(), n)
	}
}

var _ = g.Less[int]
