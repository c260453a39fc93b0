// Package listh checks the doubly linked list.
package listh

import (
	"github.com/zyedidia/generic/list"
	"verif/harness/hl"
	"verif/harness/vp"
)

func init() {
	vp.Register("listh.Hist", Hist)
	vp.Register("listh.Long", Long)
	vp.Register("listh.Mill", Mill)
}

type node = list.Node[int]

type model struct {
	l       *list.List[int]
	seq     []*node
	val     []int
	removed []*node
	rval    []int
}

func (m *model) insert(at int, n *node, v int) {
	m.seq = append(m.seq, nil)
	copy(m.seq[at+1:], m.seq[at:])
	m.seq[at] = n
	m.val = append(m.val, 0)
	copy(m.val[at+1:], m.val[at:])
	m.val[at] = v
}

// fresh is a new node, or one removed before.
func (m *model) fresh() (*node, int) {
	if i := vp.Choose("which", 1+len(m.removed)); i > 0 {
		n, v := m.removed[i-1], m.rval[i-1]
		m.removed = append(m.removed[:i-1], m.removed[i:]...)
		m.rval = append(m.rval[:i-1], m.rval[i:]...)
		return n, v
	}
	v := vp.Int("v")
	return &node{Value: v}, v
}

func (m *model) step() {
	n := len(m.seq)
	ops := 4
	if n > 0 {
		ops = 7
	}
	switch vp.Choose("op", ops) {
	case 0:
		v := vp.Int("v")
		m.l.PushFront(v)
		m.insert(0, m.l.Front, v)
	case 1:
		v := vp.Int("v")
		m.l.PushBack(v)
		m.insert(n, m.l.Back, v)
	case 2:
		x, v := m.fresh()
		m.l.PushFrontNode(x)
		m.insert(0, x, v)
	case 3:
		x, v := m.fresh()
		m.l.PushBackNode(x)
		m.insert(n, x, v)
	case 4:
		at := vp.Choose("at", n)
		x, v := m.fresh()
		r := m.l.InsertAfter(m.seq[at], x)
		vp.Assert(r == x, "InsertAfter returns the added node")
		m.insert(at+1, x, v)
	case 5:
		at := vp.Choose("at", n)
		x, v := m.fresh()
		r := m.l.InsertBefore(m.seq[at], x)
		vp.Assert(r == x, "InsertBefore returns the added node")
		m.insert(at, x, v)
	case 6:
		at := vp.Choose("at", n)
		m.l.Remove(m.seq[at])
		m.removed = append(m.removed, m.seq[at])
		m.rval = append(m.rval, m.val[at])
		m.seq = append(m.seq[:at:at], m.seq[at+1:]...)
		m.val = append(m.val[:at:at], m.val[at+1:]...)
	}
}

func (m *model) check() {
	n := len(m.seq)
	if n == 0 {
		vp.Assert(m.l.Front == nil && m.l.Back == nil, "an empty list has no ends")
	} else {
		vp.Assert(m.l.Front == m.seq[0] && m.l.Back == m.seq[n-1], "Front and Back are the end nodes")
		vp.Assert(m.l.Front.Prev == nil && m.l.Back.Next == nil, "the end nodes have no outer neighbours")
	}
	x := m.l.Front
	for i := 0; i < n; i++ {
		vp.Assert(x == m.seq[i], "forward traversal gives the expected nodes")
		vp.Assert(x.Value == m.val[i], "values stay with their nodes")
		x = x.Next
	}
	vp.Assert(x == nil, "forward traversal ends after the last node")
	x = m.l.Back
	for i := n - 1; i >= 0; i-- {
		vp.Assert(x == m.seq[i], "backward traversal mirrors the forward one")
		x = x.Prev
	}
	vp.Assert(x == nil, "backward traversal ends after the first node")
}

func (m *model) each() {
	n := len(m.seq)
	at := vp.Choose("from", n+1)
	var x *node
	if at < n {
		x = m.seq[at]
	}
	i := at
	x.Each(func(v int) {
		vp.Assert(i < n && v == m.val[i], "Each visits the values from the node to the end")
		i++
	})
	vp.Assert(i == n, "Each visits all of them")
	i = at
	x.EachNode(func(y *node) {
		vp.Assert(i < n && y == m.seq[i], "EachNode visits the nodes from the node to the end")
		i++
	})
	vp.Assert(i == n, "EachNode visits all of them")
	if at == n {
		at = -1
	}
	i = at
	x.EachReverse(func(v int) {
		vp.Assert(i >= 0 && v == m.val[i], "EachReverse visits the values from the node to the front")
		i--
	})
	vp.Assert(i == -1, "EachReverse visits all of them")
	i = at
	x.EachReverseNode(func(y *node) {
		vp.Assert(i >= 0 && y == m.seq[i], "EachReverseNode visits the nodes from the node to the front")
		i--
	})
	vp.Assert(i == -1, "EachReverseNode visits all of them")
	vp.Observe(n)
	vp.Reach()
}

func newList() *list.List[int] {
	if vp.Choose("zero", 2) == 0 {
		return list.New[int]()
	}
	return &list.List[int]{}
}

// Hist: args[0] arbitrary operations at arbitrary nodes.
func Hist(args []int) {
	m := &model{l: newList()}
	for i := 0; i < args[0]; i++ {
		m.step()
		m.check()
	}
	m.each()
}

// Long: args[0] nodes pushed alternately, then args[1] arbitrary operations.
func Long(args []int) {
	m := &model{l: list.New[int]()}
	for i := 0; i < args[0]; i++ {
		if i%3 == 1 {
			m.l.PushFront(i)
			m.insert(0, m.l.Front, i)
		} else {
			m.l.PushBack(i)
			m.insert(i, m.l.Back, i)
		}
	}
	for i := 0; i < args[1]; i++ {
		m.step()
	}
	m.check()
	m.each()
}

// Mill: args[0] operations in waves of up to args[1] nodes, one of an arbitrary value;
// args[2] histories.
func Mill(args []int) {
	m := &model{l: newList()}
	r := hl.NewRand(args[2])
	special := vp.Int("v")
	at := args[0] * (1 + vp.Choose("at", 3)) / 5
	up := true
	for i := 0; i < args[0]; i++ {
		vp.Progress()
		n := len(m.seq)
		x := i
		if i == at {
			x = special
		}
		nd := &node{Value: x}
		if k := len(m.removed); k > 0 && r.N(2) == 0 && i != at {
			nd, x = m.removed[k-1], m.rval[k-1]
			m.removed, m.rval = m.removed[:k-1], m.rval[:k-1]
		}
		if (r.N(16) < 11) == up || n == 0 {
			switch p := r.N(n + 1); r.N(6) {
			case 0:
				m.l.PushFrontNode(nd)
				m.insert(0, nd, x)
			case 1:
				m.l.PushBackNode(nd)
				m.insert(n, nd, x)
			case 2:
				m.l.PushFront(i)
				m.insert(0, m.l.Front, i)
			case 3:
				m.l.PushBack(i)
				m.insert(n, m.l.Back, i)
			case 4:
				if p < n {
					m.l.InsertAfter(m.seq[p], nd)
					m.insert(p+1, nd, x)
				}
			case 5:
				if p < n {
					m.l.InsertBefore(m.seq[p], nd)
					m.insert(p, nd, x)
				}
			}
		} else {
			p := r.N(n)
			if r.N(3) == 0 {
				p = []int{0, n - 1}[r.N(2)]
			}
			m.l.Remove(m.seq[p])
			m.removed = append(m.removed, m.seq[p])
			m.rval = append(m.rval, m.val[p])
			m.seq = append(m.seq[:p:p], m.seq[p+1:]...)
			m.val = append(m.val[:p:p], m.val[p+1:]...)
		}
		if len(m.seq) >= args[1] {
			up = false
		}
		if len(m.seq) == 0 {
			up = true
		}
		m.check()
	}
	m.each()
}
