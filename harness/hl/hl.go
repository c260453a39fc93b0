// Package hl holds the reference models shared by the harnesses.
package hl

import "verif/harness/vp"

// Key carries an identity besides its rank; orders compare ranks only, so two
// different keys can be equivalent (a strict weak order).
type Key struct {
	R  int16
	ID uint8
}

func KeyLess(a, b Key) bool  { return a.R < b.R }
func KeyEquiv(a, b Key) bool { return a.R == b.R }

// SymKey is an arbitrary key with rank in [lo, hi].
func SymKey(name string, lo, hi int) Key {
	r := vp.I16(name)
	vp.Assume(vp.And(int(r) >= lo, int(r) <= hi))
	return Key{r, vp.U8(name + ".id")}
}

// Log is a reference map: the history itself. Every question is answered by a fold
// over the operations, so that it never depends on how the implementation is built.
type Log[K any] struct {
	Eq  func(a, b K) bool
	K   []K
	V   []int
	Put []bool
}

func (l *Log[K]) DoPut(k K, v int) {
	l.K = append(l.K, k)
	l.V = append(l.V, v)
	l.Put = append(l.Put, true)
}

func (l *Log[K]) DoRemove(k K) {
	l.K = append(l.K, k)
	l.V = append(l.V, 0)
	l.Put = append(l.Put, false)
}

func (l *Log[K]) DoClear() { l.K, l.V, l.Put = nil, nil, nil }

// Get returns the last value put for q and whether q is present.
func (l *Log[K]) Get(q K) (int, bool) {
	v := 0
	p := false
	for i := range l.K {
		e := l.Eq(l.K[i], q)
		if l.Put[i] {
			v = vp.Ite(e, l.V[i], v)
			p = vp.Or(e, p)
		} else {
			v = vp.Ite(e, 0, v)
			p = vp.And(vp.Not(e), p)
		}
	}
	return v, p
}

// Size counts the present keys: puts that no later operation on the same key supersedes.
func (l *Log[K]) Size() int {
	n := 0
	for i := range l.K {
		if !l.Put[i] {
			continue
		}
		last := true
		for j := i + 1; j < len(l.K); j++ {
			last = vp.And(last, vp.Not(l.Eq(l.K[i], l.K[j])))
		}
		n += vp.B2I(last)
	}
	return n
}

func (l *Log[K]) Clone() *Log[K] {
	return &Log[K]{Eq: l.Eq, K: append([]K(nil), l.K...), V: append([]int(nil), l.V...), Put: append([]bool(nil), l.Put...)}
}

// AVLMin is the least number of nodes of an AVL tree of height h: Fib(h+2)-1.
func AVLMin(h int) int {
	a, b := 0, 1
	for i := 0; i < h; i++ {
		a, b = b, a+b+1
	}
	return a
}

// AVLMax is the largest number of nodes of a binary tree of height h.
func AVLMax(h int) int { return 1<<uint(h) - 1 }
