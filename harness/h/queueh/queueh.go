// Package queueh checks the queue.
package queueh

import (
	"github.com/zyedidia/generic/queue"
	"verif/harness/hl"
	"verif/harness/vp"
)

func init() {
	vp.Register("queueh.Hist", Hist)
	vp.Register("queueh.Copies", Copies)
	vp.Register("queueh.Long", Long)
	vp.Register("queueh.Mill", Mill)
}

type pair struct {
	q *queue.Queue[int]
	m []int
}

func (p *pair) slice(s []int, msg string) {
	vp.Assert(len(s) == len(p.m), msg)
	good := true
	for i := range s {
		good = vp.And(good, s[i] == p.m[i])
	}
	vp.Assert(good, msg)
	for i := range s {
		s[i] = -77 // the caller owns the slice
	}
}

func (p *pair) check() {
	n := len(p.m)
	vp.Assert(p.q.Len() == n, "Len counts the items")
	vp.Assert(p.q.Empty() == (n == 0), "Empty says whether there are none")
	v, ok := p.q.TryPeek()
	if n == 0 {
		vp.Assert(!ok && v == 0, "TryPeek of an empty queue returns the zero value and false")
		vp.Assert(vp.Panics(func() { p.q.Peek() }), "Peek of an empty queue panics")
	} else {
		vp.Assert(vp.And(ok, v == p.m[0]), "TryPeek returns the oldest item")
		vp.Assert(p.q.Peek() == p.m[0], "Peek returns the oldest item")
	}
	p.slice(p.q.PeekAll(), "PeekAll returns all items in order")
	i := 0
	p.q.Each(func(x int) {
		vp.Assert(i < n, "Each visits no more than the items")
		vp.Assert(x == p.m[i], "Each visits the items in order")
		i++
	})
	vp.Assert(i == n, "Each visits all items")
}

func (p *pair) step() {
	n := len(p.m)
	switch vp.Choose("op", 5) {
	case 0:
		v := vp.Int("v")
		p.q.Enqueue(v)
		p.m = append(p.m[:n:n], v)
	case 1:
		if n == 0 {
			vp.Assert(vp.Panics(func() { p.q.Dequeue() }), "Dequeue of an empty queue panics")
		} else {
			vp.Assert(p.q.Dequeue() == p.m[0], "Dequeue returns the oldest item")
			p.m = p.m[1:]
		}
	case 2:
		v, ok := p.q.TryDequeue()
		if n == 0 {
			vp.Assert(!ok && v == 0, "TryDequeue of an empty queue returns the zero value and false")
		} else {
			vp.Assert(vp.And(ok, v == p.m[0]), "TryDequeue returns the oldest item")
			p.m = p.m[1:]
		}
	case 3:
		p.slice(p.q.DequeueAll(), "DequeueAll returns all items in order")
		p.m = nil
	case 4:
		p.q.Clear()
		p.m = nil
	}
}

func start(n int) *pair {
	if n == 0 && vp.Choose("new", 2) == 0 {
		return &pair{q: queue.New[int]()}
	}
	s := make([]int, n, n+2)
	for i := range s {
		s[i] = vp.Int("init")
	}
	p := &pair{q: queue.Of(s), m: append([]int(nil), s...)}
	for i := range s {
		s[i] = -99
	}
	_ = append(s, -99)
	return p
}

func (p *pair) drain() {
	for len(p.m) > 0 {
		vp.Assert(p.q.Dequeue() == p.m[0], "items leave in the order they entered")
		p.m = p.m[1:]
	}
	p.check()
}

// Hist: up to args[0] initial items, args[1] arbitrary operations, everything observed
// after each, drained at the end.
func Hist(args []int) {
	p := start(vp.Choose("n", args[0]+1))
	p.check()
	for i := 0; i < args[1]; i++ {
		p.step()
		p.check()
	}
	vp.Observe(len(p.m))
	p.drain()
	vp.Reach()
}

// Long: args[0] enqueued with dequeues in between, then args[1] arbitrary operations.
func Long(args []int) {
	p := &pair{q: queue.New[int]()}
	per := 2 + vp.Choose("per", 4)
	for i := 0; i < args[0]; i++ {
		p.q.Enqueue(i)
		p.m = append(p.m, i)
		if i%per == per-1 {
			vp.Assert(p.q.Dequeue() == p.m[0], "Dequeue returns the oldest item")
			p.m = p.m[1:]
		}
	}
	for i := 0; i < args[1]; i++ {
		p.step()
	}
	p.check()
	p.drain()
	vp.Reach()
}

// Copies: up to args[0] initial items and one operation, then args[1] steps, each an
// operation on or a copy of any queue so far.
func Copies(args []int) {
	qs := []*pair{start(vp.Choose("n", args[0]+1))}
	for i := 0; i < args[1]; i++ {
		p := qs[vp.Choose("who", len(qs))]
		if i == 0 || (i < 3 && vp.Choose("copy", 2) == 1) {
			qs = append(qs, &pair{p.q.Copy(), append([]int(nil), p.m...)})
		} else {
			p.step()
		}
		for _, x := range qs {
			x.check()
		}
	}
	for _, x := range qs {
		x.drain()
	}
	vp.Reach()
}

// Mill: args[0] operations in waves of up to args[1] items, with copies, among them one of
// an arbitrary value; args[2] histories.
func Mill(args []int) {
	r := hl.NewRand(args[2])
	var m []int
	q := queue.New[int]()
	special := vp.Int("v")
	at := args[0] * (1 + vp.Choose("at", 3)) / 5
	up := true
	for i := 0; i < args[0]; i++ {
		vp.Progress()
		x := i
		if i == at {
			x = special
		}
		switch n := r.N(16); {
		case n < 11 == up || len(m) == 0:
			q.Enqueue(x)
			m = append(m, x)
		case n%2 == 0:
			v, ok := q.TryDequeue()
			vp.Assert(vp.And(ok, v == m[0]), "TryDequeue returns the oldest item")
			m = m[1:]
		default:
			vp.Assert(q.Dequeue() == m[0], "Dequeue returns the oldest item")
			m = m[1:]
		}
		if len(m) >= args[1] {
			up = false
		}
		if len(m) == 0 {
			up = true
		}
		vp.Assert(q.Len() == len(m) && q.Empty() == (len(m) == 0), "Len counts the items")
		if len(m) > 0 {
			vp.Assert(q.Peek() == m[0], "Peek returns the oldest item")
		}
		if r.N(64) == 0 {
			p := &pair{q, m}
			p.check()
			if r.N(2) == 0 {
				c := &pair{q.Copy(), m}
				c.drain()
				p.check()
			}
		}
		if r.N(256) == 0 {
			if r.N(2) == 0 {
				p := &pair{q, m}
				p.slice(q.DequeueAll(), "DequeueAll returns all items in order")
			} else {
				q.Clear()
			}
			m = nil
			up = true
		}
	}
	p := &pair{q, m}
	p.check()
	vp.Reach()
}
