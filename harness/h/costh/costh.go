// Package costh counts the calls of the user's functions: the operations documented as
// logarithmic or constant do not look at everything they hold.
package costh

import (
	g "github.com/zyedidia/generic"
	"github.com/zyedidia/generic/avl"
	"github.com/zyedidia/generic/btree"
	"github.com/zyedidia/generic/hashmap"
	"github.com/zyedidia/generic/heap"
	"github.com/zyedidia/generic/multimap"
	"verif/harness/hl"
	"verif/harness/vp"
)

func init() {
	vp.Register("costh.Heap", Heap)
	vp.Register("costh.Tree", Tree)
	vp.Register("costh.Hash", Hash)
	vp.Register("costh.Multi", Multi)
}

// lg is the number of binary digits of n.
func lg(n int) int {
	d := 0
	for ; n > 0; n /= 2 {
		d++
	}
	return d
}

type counter struct{ n int }

// upTo says how many calls f made and resets the count.
func (c *counter) upTo(max int, msg string) {
	vp.Assert(c.n <= max, msg)
	c.n = 0
	vp.Progress()
}

// Heap: args[0] elements pushed or given at the start in some order, an arbitrary one pushed,
// everything popped.
func Heap(args []int) {
	n := args[0]
	var c counter
	less := func(a, b int) bool { c.n++; return vp.Decide(a < b) }
	o := hl.Order(n, vp.Choose("order", 6))
	var h *heap.Heap[int]
	if vp.Choose("how", 2) == 0 {
		h = heap.New[int](less)
		for i, x := range o {
			h.Push(2 * x)
			c.upTo(2*lg(i+1)+2, "a push compares logarithmically often")
		}
	} else {
		s := make([]int, n)
		for i, x := range o {
			s[i] = 2 * x
		}
		h = heap.FromSlice(less, s)
		c.upTo(2*n*lg(n)+8, "making a heap of a slice compares as often as pushing its elements at most")
	}
	h.Peek()
	h.Size()
	c.upTo(2, "looking at a heap does not search it")
	at := vp.Choose("where", 3) * n
	h.Push(vp.IntR("v", at-2, at+2))
	c.upTo(2*lg(n)+4, "a push compares logarithmically often")
	for i := n + 1; i > 0; i-- {
		_, ok := h.Pop()
		vp.Assert(ok, "Pop returns an element")
		c.upTo(4*lg(i)+4, "a pop compares logarithmically often")
	}
	vp.Reach()
}

type sortedMap interface {
	Put(hl.Key, int)
	Remove(hl.Key)
	Get(hl.Key) (int, bool)
	Size() int
}

// Tree: args[0] = 0 AVL tree, 1 B-tree; args[1] keys put in some order, args[2] of them
// removed; then an operation on an arbitrary key within args[3] of some place.
func Tree(args []int) {
	n := args[1]
	var c counter
	less := func(a, b hl.Key) bool { c.n++; return hl.KeyLess(a, b) }
	var t sortedMap = avl.New[hl.Key, int](less)
	if args[0] == 1 {
		t = btree.New[hl.Key, int](less)
	}
	max := func(n int) int {
		if args[0] == 0 {
			return 12*lg(n) + 12
		}
		return 800 * (1 + lg(n)/5)
	}
	for i, r := range hl.Order(n, vp.Choose("order", 4)) {
		t.Put(hl.Key{R: int16(2*r + 1)}, i)
		c.upTo(max(i+1), "Put compares logarithmically often")
	}
	for _, r := range hl.Order(n, vp.Choose("rorder", 2))[:args[2]] {
		t.Remove(hl.Key{R: int16(2*r + 1)})
		c.upTo(max(n), "Remove compares logarithmically often")
	}
	at := vp.Choose("where", 3) * n
	k := hl.Key{R: int16(vp.IntR("k", at-args[3], at+args[3])), ID: 9}
	switch vp.Choose("op", 3) {
	case 0:
		t.Put(k, 5)
		c.upTo(max(n), "Put compares logarithmically often")
	case 1:
		t.Remove(k)
		c.upTo(max(n), "Remove compares logarithmically often")
	case 2:
		t.Get(k)
		c.upTo(max(n), "Get compares logarithmically often")
	}
	t.Size()
	c.upTo(2, "Size does not compare")
	vp.Reach()
}

// Hash: up to args[0] keys with well-spread hashes; at each of many sizes entries are removed
// and put back again and again; one key has an arbitrary small hash.
func Hash(args []int) {
	n := args[0]
	var eq, hash counter
	odd := uint64(vp.IntR("hash", -1, 1))
	m := hashmap.New[int, int](uint64(vp.Choose("cap", 2)*33),
		func(a, b int) bool { eq.n++; return a == b },
		func(k int) uint64 {
			hash.n++
			if k == 3 {
				return odd
			}
			return g.HashInt(k)
		})
	size := 0
	var put, cmp counter // the calls of all first puts together
	for i := 0; i < n; i++ {
		hash.n, eq.n = 0, 0
		m.Put(i, i)
		size++
		put.n += hash.n
		cmp.n += eq.n
		if i&(i-1) == 0 || i%23 == 0 || i == n-1 {
			vp.Assert(put.n <= 24*size+80, "putting calls the hash function a constant number of times per key")
			vp.Assert(cmp.n <= 10*size+80, "putting compares a constant number of times per key")
			hash.n, eq.n = 0, 0
			for j := 0; j < 40; j++ {
				m.Remove(i)
				m.Put(i, i)
			}
			hash.upTo(40*24+8*size+80, "removing and putting back does not rebuild the table every time")
			eq.upTo(40*24+8*size+80, "removing and putting back does not rebuild the table every time")
			for j := 0; j < 40; j++ {
				m.Get(j)
			}
			hash.upTo(40*4, "a lookup calls the hash function a constant number of times")
			eq.upTo(40*16, "a lookup compares a constant number of times")
		}
	}
	for i := n - 1; i > 4; i-- {
		m.Remove(i)
		size--
		if i&(i-1) == 0 || i%23 == 0 {
			hash.n, eq.n = 0, 0
			for j := 0; j < 40; j++ {
				m.Put(i, i)
				m.Remove(i)
			}
			hash.upTo(40*24+8*n+80, "removing and putting back does not rebuild the table every time")
			vp.Progress()
		}
	}
	vp.Reach()
}

// Multi: tree multimaps of args[0] keys and args[0] values of one key.
func Multi(args []int) {
	n := args[0]
	var c, v counter
	kless := func(a, b int) bool { c.n++; return a < b }
	vless := func(a, b int) bool { v.n++; return a < b }
	m := multimap.NewAvlSet[int, int](kless, vless)
	for i, x := range hl.Order(n, vp.Choose("order", 4)) {
		m.Put(2*x, 1)
		c.upTo(24*lg(i+1)+24, "Put compares logarithmically often")
		m.Put(n, 2*x)
		c.upTo(24*lg(i+1)+24, "Put compares logarithmically often")
		v.upTo(24*lg(i+1)+24, "Put compares logarithmically often")
	}
	at := vp.Choose("where", 3) * n
	k := vp.IntR("k", at-2, at+2)
	switch vp.Choose("op", 5) {
	case 0:
		m.Put(k, 3)
	case 1:
		m.Put(n, k)
	case 2:
		m.Remove(n, k)
	case 3:
		m.Remove(k, 1)
	case 4:
		m.Has(k)
		m.Count(k)
	}
	c.upTo(24*lg(n)+24, "an operation compares logarithmically often")
	v.upTo(24*lg(n)+24, "an operation compares logarithmically often")
	m.Size()
	m.Dimension()
	c.upTo(2, "Size does not compare")
	vp.Reach()
}
