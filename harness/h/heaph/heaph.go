// Package heaph checks the binary heap.
package heaph

import (
	"github.com/zyedidia/generic/heap"
	"verif/harness/hl"
	"verif/harness/vp"
)

func init() {
	vp.Register("heaph.Hist", Hist)
	vp.Register("heaph.Big", Big)
	vp.Register("heaph.Deep", Deep)
	vp.Register("heaph.Ints", Ints)
	vp.Register("heaph.Scale", Scale)
}

// model: element i was pushed as Key{rank, i+1}; alive says whether it is still in.
type model struct {
	k     []hl.Key
	alive []bool
	n     int
}

func (m *model) add(r int16) hl.Key {
	k := hl.Key{R: r, ID: uint8(len(m.k) + 1)}
	m.k = append(m.k, k)
	m.alive = append(m.alive, true)
	m.n++
	return k
}

// min asserts that x is one of the current elements and that none is smaller.
func (m *model) min(x hl.Key) {
	found, least := false, true
	for i := range m.k {
		found = vp.Or(found, vp.And(m.alive[i], vp.And(x.ID == m.k[i].ID, x.R == m.k[i].R)))
		least = vp.And(least, vp.Not(vp.And(m.alive[i], m.k[i].R < x.R)))
	}
	vp.Assert(found, "the element is one of those in the heap")
	vp.Assert(least, "no element is smaller")
}

func (m *model) take(x hl.Key) {
	for i := range m.k {
		m.alive[i] = vp.And(m.alive[i], vp.Not(x.ID == m.k[i].ID))
	}
	m.n--
}

func peek(h *heap.Heap[hl.Key], m *model) {
	vp.Assert(h.Size() == m.n, "Size counts the elements")
	x, ok := h.Peek()
	vp.Assert(ok == (m.n > 0), "Peek says whether there is an element")
	if m.n > 0 {
		m.min(x)
	} else {
		vp.Assert(vp.And(x.R == 0, x.ID == 0), "Peek of an empty heap is the zero value")
	}
}

func pop(h *heap.Heap[hl.Key], m *model) {
	x, ok := h.Pop()
	vp.Assert(ok == (m.n > 0), "Pop says whether there was an element")
	if m.n > 0 {
		m.min(x)
		m.take(x)
	} else {
		vp.Assert(vp.And(x.R == 0, x.ID == 0), "Pop of an empty heap is the zero value")
	}
}

func drain(h *heap.Heap[hl.Key], m *model) {
	for m.n > 0 {
		peek(h, m)
		pop(h, m)
		vp.Progress()
	}
	peek(h, m)
	pop(h, m)
	k := m.add(7)
	h.Push(k)
	peek(h, m)
	pop(h, m)
	vp.Reach()
}

func make_(ranks []int16, how int, m *model) *heap.Heap[hl.Key] {
	var data []hl.Key
	for _, r := range ranks {
		data = append(data, m.add(r))
	}
	switch how {
	case 0:
		return heap.FromSlice(hl.KeyLess, data)
	case 1:
		return heap.From(hl.KeyLess, data...)
	}
	h := heap.New(hl.KeyLess)
	for _, k := range data {
		h.Push(k)
	}
	return h
}

// Hist: up to args[0] arbitrary initial elements, args[1] arbitrary pushes and pops, drained.
func Hist(args []int) {
	m := &model{}
	n := vp.Choose("n", args[0]+1)
	var ranks []int16
	for i := 0; i < n; i++ {
		ranks = append(ranks, vp.I16("r"))
	}
	h := make_(ranks, vp.Choose("how", 3), m)
	for i := 0; i < args[1]; i++ {
		peek(h, m)
		if vp.Choose("op", 2) == 0 {
			h.Push(m.add(vp.I16("r")))
		} else {
			pop(h, m)
		}
	}
	drain(h, m)
}

// Big: args[0]-args[3]..args[0] concrete elements in one of six orders (with duplicates),
// args[1] pops, args[2] arbitrary pushes or pops, drained.
func Big(args []int) {
	m := &model{}
	n := args[0] - vp.Choose("n", args[3]+1)
	dup := 1 + vp.Choose("dup", 2)*2
	var ranks []int16
	for _, r := range hl.Order(n, vp.Choose("order", 6)) {
		ranks = append(ranks, int16(2*(r/dup)))
	}
	h := make_(ranks, 2*vp.Choose("how", 2), m)
	for i := 0; i < args[1]; i++ {
		pop(h, m)
	}
	for i := 0; i < args[2]; i++ {
		if vp.Choose("op", 2) == 0 {
			h.Push(m.add(vp.I16("r")))
		} else {
			pop(h, m)
		}
		peek(h, m)
	}
	drain(h, m)
}

// Deep: heapify args[0] elements of which args[1] at chosen places are arbitrary.
func Deep(args []int) {
	m := &model{}
	var ranks []int16
	for _, r := range hl.Order(args[0], vp.Choose("order", 6)) {
		ranks = append(ranks, int16(2*r))
	}
	for i := 0; i < args[1]; i++ {
		ranks[vp.Choose("at", len(ranks))] = vp.I16("r")
	}
	h := make_(ranks, 0, m)
	drain(h, m)
}

// Ints: args[0] arbitrary machine integers with args[1] pushes or pops.
func Ints(args []int) {
	var in []int
	for i := 0; i < args[0]; i++ {
		in = append(in, vp.Int("x"))
	}
	h := heap.FromSlice(func(a, b int) bool { return a > b }, append([]int(nil), in...))
	x := vp.Int("x")
	in = append(in, x)
	h.Push(x)
	prev := 0
	q := vp.Int("q")
	want, got := 0, 0
	for _, v := range in {
		want += vp.B2I(v == q)
	}
	for i := range in {
		v, ok := h.Pop()
		vp.Assert(ok, "an element is there")
		if i > 0 {
			vp.Assert(prev >= v, "elements come in order")
		}
		prev = v
		got += vp.B2I(v == q)
	}
	vp.Assert(got == want, "every value comes out as often as it went in")
	_, ok := h.Pop()
	vp.Assert(!ok && h.Size() == 0, "the heap is drained")
	vp.Observe(got)
	vp.Reach()
}

// Scale: args[0] elements in one of six orders, one of them with an arbitrary rank, pushed or
// heapified; args[1] of them are popped, pushed again as others, and all are drained.
func Scale(args []int) {
	n := args[0]
	dup := 1 + vp.Choose("dup", 2)*4
	var in []hl.Key
	for i, r := range hl.Order(n, vp.Choose("order", 6)) {
		in = append(in, hl.Key{R: int16(2 * (r / dup)), ID: uint8(i)})
	}
	in[n/3].R = int16(vp.IntR("r", -1, 2*(n/dup)+1))
	var h *heap.Heap[hl.Key]
	if vp.Choose("how", 2) == 0 {
		h = heap.FromSlice(hl.KeyLess, append([]hl.Key(nil), in...))
	} else {
		h = heap.New(hl.KeyLess)
		for i, k := range in {
			h.Push(k)
			vp.Progress()
			if i < n-1 && i%16 != 0 {
				continue
			}
			vp.Assert(h.Size() == i+1, "Size counts the elements")
		}
	}
	inside := make([]bool, n)
	for i := range inside {
		inside[i] = true
	}
	size := n
	take := func(prev hl.Key) hl.Key {
		y, ok := h.Peek()
		x, ok2 := h.Pop()
		size--
		vp.Assert(ok && ok2 && h.Size() == size, "an element is there")
		vp.Assert(vp.And(x.R == y.R, x.ID == y.ID), "Pop takes what Peek shows")
		vp.Assert(prev.R <= x.R, "elements come in order")
		id := vp.Concrete(int(x.ID))
		vp.Assert(id < n && inside[id], "it is one of those in the heap")
		vp.Assert(x.R == in[id].R, "elements keep their rank")
		inside[id] = false
		vp.Progress()
		return x
	}
	if args[1] > 0 {
		prev := hl.Key{R: -9}
		var out []hl.Key
		for i := 0; i < args[1]; i++ {
			prev = take(prev)
			out = append(out, prev)
		}
		for i, k := range out {
			if i%2 == 0 {
				k.R = int16(2*n) - k.R
			}
			in[k.ID] = k
			inside[vp.Concrete(int(k.ID))] = true
			h.Push(k)
			size++
		}
	}
	prev := hl.Key{R: -9}
	for i := 0; i < n; i++ {
		prev = take(prev)
	}
	_, ok := h.Pop()
	_, ok2 := h.Peek()
	vp.Assert(!ok && !ok2 && h.Size() == 0, "the heap is drained")
	h.Push(hl.Key{R: 5, ID: 9})
	x, ok := h.Pop()
	vp.Assert(ok && x.R == 5 && x.ID == 9, "a drained heap can be used again")
	vp.Reach()
}
