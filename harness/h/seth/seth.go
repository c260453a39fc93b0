// Package seth checks the sets and the set algebra.
package seth

import (
	"github.com/zyedidia/generic/hashset"
	"github.com/zyedidia/generic/mapset"
	"github.com/zyedidia/generic/set"
	"verif/harness/hl"
	"verif/harness/vp"
)

func init() {
	vp.Register("seth.Mill", Mill)
	vp.Register("seth.AlgebraScale", AlgebraScale)
	vp.Register("seth.PredScale", PredScale)
	vp.Register("seth.KeepScale", KeepScale)
	vp.Register("seth.Hist", Hist)
	vp.Register("seth.Big", Big)
	vp.Register("seth.Algebra", Algebra)
	vp.Register("seth.AlgebraBig", AlgebraBig)
	vp.Register("seth.Pred", Pred)
	vp.Register("seth.PredBig", PredBig)
	vp.Register("seth.Keep", Keep)
}

type key = int16

func eq(a, b key) bool { return a == b }

// Three hash functions: one value for all, -2..1 (collisions that wrap around the end of
// any table), and the identity.
func hash0(k key) uint64 { return 1<<64 - 1 }
func hash1(k key) uint64 { return uint64(k)&3 - 2 }
func hash2(k key) uint64 { return uint64(k) }

var hashes = []func(key) uint64{hash0, hash1, hash2}

type log = hl.Log[key]

// ---- C06: each implementation is exactly a set

func newSet(kind int, vals ...key) set.SetOf[key] {
	switch kind {
	case 0:
		return mapset.Of(vals...)
	case 1, 2, 3:
		return hashset.Of(0, eq, hashes[kind-1], vals...)
	case 4:
		return set.NewMapset(vals...)
	case 5:
		return set.NewHashset(4, eq, hash1, vals...)
	}
	return hashset.Of(uint64(kind), eq, hash1, vals...)
}

// content compares a set with its reference in full.
func content(s set.SetOf[key], l *log, q key) {
	n := s.Size()
	vp.Assert(n == l.Size(), "Size is the number of elements")
	var seen []key
	good := true
	s.Each(func(k key) {
		_, ok := l.Get(k)
		good = vp.And(good, ok)
		for _, o := range seen {
			good = vp.And(good, vp.Not(o == k))
		}
		seen = append(seen, k)
	})
	vp.Assert(good, "Each visits only elements, none twice")
	vp.Assert(len(seen) == n, "Each visits every element")
	_, has := l.Get(q)
	vp.Assert(s.Has(q) == has, "Has reports membership")
	vp.Observe(n)
}

// Hist: implementation args[0], constructed from up to args[1] values, args[2] arbitrary operations;
// with args[3]=1 everything is looked at after every operation.
func Hist(args []int) {
	l := &log{Eq: eq}
	var in []key
	for i := vp.Choose("n", args[1]+1); i > 0; i-- {
		k := vp.I16("init")
		in = append(in, k)
		l.DoPut(k, 1)
	}
	s := newSet(args[0], in...)
	for i := 0; i < args[2]; i++ {
		switch vp.Choose("op", 3) {
		case 0:
			k := vp.I16("k")
			s.Put(k)
			l.DoPut(k, 1)
		case 1:
			k := vp.I16("k")
			s.Remove(k)
			l.DoRemove(k)
		case 2:
			s.Clear()
			l.DoClear()
		}
		if args[3] == 1 && i < args[2]-1 {
			content(s, l, vp.I16("q"))
		}
	}
	content(s, l, vp.I16("q"))
	vp.Reach()
}

// Big: implementation args[0], args[1] concrete elements, args[2] removed, then args[3]
// operations on arbitrary elements, compared in full.
func Big(args []int) {
	n := args[1]
	s := newSet(args[0])
	has := make([]bool, 2*n+1)
	for _, r := range hl.Order(n, vp.Choose("order", 3)) {
		s.Put(key(2*r + 1))
		vp.Progress()
		has[2*r+1] = true
	}
	for i := 0; i < args[2]; i++ {
		s.Remove(key(2*i + 1))
		vp.Progress()
		has[2*i+1] = false
	}
	for i := 0; i < args[3]; i++ {
		r := vp.Choose("k", 2*n+1)
		if vp.Choose("op", 2) == 0 {
			s.Put(key(r))
			has[r] = true
		} else {
			s.Remove(key(r))
			has[r] = false
		}
	}
	want := 0
	for r := range has {
		want += vp.B2I(has[r])
		vp.Assert(s.Has(key(r)) == has[r], "Has reports membership")
		vp.Progress()
	}
	vp.Assert(s.Size() == want, "Size is the number of elements")
	seen := make([]bool, len(has))
	s.Each(func(k key) {
		vp.Assert(has[k] && !seen[k], "Each visits only elements, none twice")
		seen[k] = true
		want--
	})
	vp.Assert(want == 0, "Each visits every element")
	vp.Reach()
}

// ---- the algebra

// operand is a set with the elements put into it.
type operand struct {
	s set.SetOf[key]
	e []key
}

func (o *operand) has(q key) bool {
	h := false
	for _, k := range o.e {
		h = vp.Or(h, k == q)
	}
	return h
}

func some(n int) []key {
	var e []key
	for i := vp.Choose("n", n+1); i > 0; i-- {
		e = append(e, vp.I16("e"))
	}
	return e
}

// receiver: backing 0 is the built-in map, 1..3 a hash set with one of the hash functions.
func receiver(back int, e []key) (set.Set[key], *operand) {
	var s set.Set[key]
	if back == 0 {
		s = set.NewMapset(e...)
	} else {
		s = set.NewHashset(1, eq, hashes[back-1], e...)
	}
	return s, &operand{s, e}
}

// other: backing as for receivers, plus 4: a mapset itself, 5: a hashset itself.
func other(back int, e []key) *operand {
	if back < 4 {
		_, o := receiver(back, e)
		return o
	}
	if back == 4 {
		return &operand{mapset.Of(e...), e}
	}
	return &operand{hashset.Of(0, eq, hash1, e...), e}
}

// exact asserts that s holds exactly the elements of universe for which in is true.
func exact(s set.SetOf[key], universe []key, in func(key) bool, msg string) {
	n := s.Size()
	cnt := 0
	for i, k := range universe {
		first := true
		for _, o := range universe[:i] {
			first = vp.And(first, vp.Not(o == k))
		}
		cnt += vp.B2I(vp.And(first, in(k)))
	}
	vp.Assert(n == cnt, msg+": Size")
	good := true
	var seen []key
	s.Each(func(k key) {
		good = vp.And(good, in(k))
		for _, o := range seen {
			good = vp.And(good, vp.Not(o == k))
		}
		seen = append(seen, k)
	})
	vp.Assert(good, msg+": only such elements, none twice")
	vp.Assert(len(seen) == n, msg+": every element")
	good = true
	for _, k := range universe {
		good = vp.And(good, s.Has(k) == in(k))
	}
	vp.Assert(good, msg+": Has")
	vp.Observe(n)
}

const (
	oUnion = iota
	oInter
	oDiff
	oSym
	oUnionIn
	oInterIn
	oDiffIn
	oUnionC
	oInterC
	oDiffC
	oSymC
	oClone
	nOps
)

// apply runs operation op and returns the result and what it has to contain.
func apply(op int, r set.Set[key], ro *operand, os []*operand) (set.Set[key], func(key) bool) {
	var ss []set.SetOf[key]
	for _, o := range os {
		ss = append(ss, o.s)
	}
	var list []key
	for _, o := range os {
		list = append(list, o.e...)
	}
	anyOf := func(q key) bool {
		h := false
		for _, o := range os {
			h = vp.Or(h, o.has(q))
		}
		return h
	}
	allOf := func(q key) bool {
		h := true
		for _, o := range os {
			h = vp.And(h, o.has(q))
		}
		return h
	}
	listed := (&operand{e: list}).has
	union := func(q key) bool { return vp.Or(ro.has(q), anyOf(q)) }
	inter := func(q key) bool { return vp.And(ro.has(q), allOf(q)) }
	diff := func(q key) bool { return vp.And(ro.has(q), vp.Not(anyOf(q))) }
	switch op {
	case oUnion:
		return r.Union(ss...), union
	case oInter:
		return r.Intersection(ss...), inter
	case oDiff:
		return r.Difference(ss...), diff
	case oSym:
		return r.SymmetricDifference(ss...), func(q key) bool {
			n := vp.B2I(ro.has(q))
			for _, o := range os {
				n += vp.B2I(o.has(q))
			}
			return n == 1
		}
	case oUnionIn:
		return r.InPlaceUnion(ss...), union
	case oInterIn:
		return r.InPlaceIntersection(ss...), inter
	case oDiffIn:
		return r.InPlaceDifference(ss...), diff
	case oUnionC:
		return r.ConstUnion(list...), union
	case oInterC:
		return r.ConstIntersection(list...), func(q key) bool { return vp.And(ro.has(q), listed(q)) }
	case oDiffC:
		return r.ConstDifference(list...), diff
	case oSymC:
		return r.ConstSymmetricDifference(list...), func(q key) bool {
			return vp.Not(vp.Iff(ro.has(q), listed(q)))
		}
	}
	return r.Clone(), ro.has
}

func inPlace(op int) bool { return op == oUnionIn || op == oInterIn || op == oDiffIn }

// setup makes a receiver of up to nr elements and no operands of up to ne elements; an
// operand may also be the receiver itself or another operand again.
func setup(op, back, nr, no, ne int) (set.Set[key], *operand, []*operand) {
	r, ro := receiver(back, some(nr))
	var os []*operand
	if op == oClone {
		return r, ro, nil
	}
	for i := 0; i < no; i++ {
		k := 0
		if op < oUnionC {
			k = vp.Choose("operand", 3+len(os))
		}
		switch {
		case k == 0:
			os = append(os, other((back+3)%6, some(ne)))
		case k == 1:
			os = append(os, other(back, some(ne)))
		case k == 2:
			os = append(os, ro)
		default:
			os = append(os, os[k-3])
		}
	}
	return r, ro, os
}

func universe(ro *operand, os []*operand) []key {
	u := append([]key(nil), ro.e...)
	for _, o := range os {
		if o != ro {
			u = append(u, o.e...)
		}
	}
	return append(u, vp.I16("q"))
}

// Algebra: operation args[0]..args[1]-1, backing args[2], receiver of up to args[3]
// elements, args[4] operands of up to args[5].
func Algebra(args []int) {
	vp.MapOrder(args[6])
	op := args[0] + vp.Choose("operation", args[1]-args[0])
	r, ro, os := setup(op, args[2], args[3], args[4], args[5])
	res, in := apply(op, r, ro, os)
	u := universe(ro, os)
	exact(res, u, in, "result")
	ks := res.Keys()
	m := res.Map()
	vp.Assert(len(ks) == res.Size() && len(m) == res.Size(), "Keys and Map have every element once")
	good := true
	for i, k := range ks {
		good = vp.And(good, res.Has(k))
		for _, o := range ks[:i] {
			good = vp.And(good, vp.Not(o == k))
		}
		_, ok := m[k]
		good = vp.And(good, ok)
	}
	vp.Assert(good, "Keys and Map list the elements")
	vp.Reach()
}

// bits makes a set of the elements of 0..n-1 chosen by pattern p.
func bits(n, p int) []key {
	var e []key
	for i := 0; i < n; i++ {
		in := false
		switch p {
		case 0:
		case 1:
			in = true
		case 2:
			in = i%2 == 0
		case 3:
			in = i < n/2
		case 4:
			in = i >= n/2
		case 5:
			in = i%3 != 0
		}
		if in {
			e = append(e, key(i))
		}
	}
	return e
}

// AlgebraBig: every operation on sets of up to args[0] concrete elements in six patterns
// plus args[1] arbitrary elements in the receiver and one operand.
func AlgebraBig(args []int) {
	vp.MapOrder(0)
	n := args[0]
	op := vp.Choose("operation", nOps)
	back := vp.Choose("back", 4)
	e := bits(n, vp.Choose("p", 6))
	f := bits(n, vp.Choose("p", 6))
	for i := 0; i < args[1]; i++ {
		if vp.Choose("where", 2) == 0 {
			e = append(e, key(vp.IntR("e", -1, n)))
		} else {
			f = append(f, key(vp.IntR("e", -1, n)))
		}
	}
	r, ro := receiver(back, e)
	os := []*operand{other((back+1)%6, f)}
	res, in := apply(op, r, ro, os)
	exact(res, universe(ro, os), in, "result")
	vp.Reach()
}

func pred(which int, r set.Set[key], o set.SetOf[key]) bool {
	switch which {
	case 0:
		return r.IsSubset(o)
	case 1:
		return r.IsSuperset(o)
	case 2:
		return r.Equal(o)
	case 3:
		return r.IsProperSubset(o)
	case 4:
		return r.IsProperSuperset(o)
	}
	return r.IsDisjoint(o)
}

func truth(which int, a, b *operand) bool {
	sub, sup, dis := true, true, true
	for _, k := range a.e {
		h := b.has(k)
		sub = vp.And(sub, h)
		dis = vp.And(dis, vp.Not(h))
	}
	for _, k := range b.e {
		sup = vp.And(sup, a.has(k))
	}
	switch which {
	case 0:
		return sub
	case 1:
		return sup
	case 2:
		return vp.And(sub, sup)
	case 3:
		return vp.And(sub, vp.Not(sup))
	case 4:
		return vp.And(sup, vp.Not(sub))
	}
	return dis
}

// Pred: every predicate, backing args[0], up to args[1] and args[2] arbitrary elements;
// the argument may be the receiver.
func Pred(args []int) {
	vp.MapOrder(args[3])
	which := vp.Choose("predicate", 6)
	r, ro := receiver(args[0], some(args[1]))
	o := ro
	if k := vp.Choose("operand", 3); k > 0 {
		o = other((args[0]+3*(k-1))%6, some(args[2]))
	}
	got := pred(which, r, o.s)
	vp.Assert(got == truth(which, ro, o), "the predicate answers as the relation does")
	vp.Observe(vp.B2I(got))
	vp.Reach()
}

// PredBig: every predicate on sets of up to args[0] concrete elements in six patterns
// plus args[1] arbitrary elements.
func PredBig(args []int) {
	vp.MapOrder(0)
	n := args[0]
	which := vp.Choose("predicate", 6)
	back := vp.Choose("back", 4)
	e := bits(n, vp.Choose("p", 6))
	f := bits(n, vp.Choose("p", 6))
	for i := 0; i < args[1]; i++ {
		if vp.Choose("where", 2) == 0 {
			e = append(e, key(vp.IntR("e", -1, n)))
		} else {
			f = append(f, key(vp.IntR("e", -1, n)))
		}
	}
	r, ro := receiver(back, e)
	o := other((back+1)%6, f)
	got := pred(which, r, o.s)
	vp.Assert(got == truth(which, ro, o), "the predicate answers as the relation does")
	vp.Observe(vp.B2I(got))
	vp.Reach()
}

// Keep: every operation and predicate leaves its operands (and, unless in place, its
// receiver) alone; afterwards result and inputs are independent. args as for Algebra.
func Keep(args []int) {
	vp.MapOrder(args[6])
	op := args[0] + vp.Choose("operation", args[1]-args[0])
	if op < nOps {
		r, ro, os := setup(op, args[2], args[3], args[4], args[5])
		res, in := apply(op, r, ro, os)
		u := universe(ro, os)
		same := func(msg string) {
			if !inPlace(op) {
				exact(ro.s, u, ro.has, "receiver "+msg)
			}
			for _, o := range os {
				if o != ro {
					exact(o.s, u, o.has, "operand "+msg)
				}
			}
		}
		same("unchanged")
		if inPlace(op) {
			// the receiver is the result: same storage
			x := vp.I16("x")
			res.Put(x)
			vp.Assert(r.Has(x), "an in-place operation returns the receiver")
			same("unchanged by the result")
			vp.Reach()
			return
		}
		x := vp.I16("x")
		switch vp.Choose("change", 4) {
		case 0:
			res.Put(x)
			same("unchanged by the result")
		case 1:
			res.Remove(x)
			same("unchanged by the result")
		case 2:
			res.Clear()
			same("unchanged by the result")
		case 3:
			all := append([]*operand{ro}, os...)
			o := all[vp.Choose("who", len(all))]
			switch vp.Choose("how", 3) {
			case 0:
				o.s.Put(x)
			case 1:
				o.s.Remove(x)
			case 2:
				o.s.Clear()
			}
			exact(res, u, in, "result unchanged by the inputs")
		}
		vp.Reach()
		return
	}
	r, ro := receiver(args[2], some(args[3]))
	o := other((args[2]+3*vp.Choose("operand", 2))%6, some(args[5]))
	pred(op-nOps, r, o.s)
	u := universe(ro, []*operand{o})
	exact(ro.s, u, ro.has, "receiver unchanged by a predicate")
	exact(o.s, u, o.has, "operand unchanged by a predicate")
	vp.Reach()
}

// member lists an operand's membership for the elements 0..n-1.
func member(o *operand, n int) []bool {
	m := make([]bool, n)
	for _, k := range o.e {
		m[k] = true
	}
	return m
}

// holds asserts that s holds exactly the elements marked.
func holds(s set.SetOf[key], m []bool, msg string) {
	n := 0
	for k := range m {
		n += vp.B2I(m[k])
		vp.Assert(s.Has(key(k)) == m[k], msg+": Has")
	}
	vp.Assert(s.Size() == n, msg+": Size")
	vis := make([]bool, len(m))
	s.Each(func(k key) {
		vp.Assert(int(k) < len(m) && m[k] && !vis[k], msg+": only such elements, none twice")
		vis[k] = true
		n--
	})
	vp.Assert(n == 0, msg+": every element")
	vp.Progress()
}

// large makes sets of the elements 0..n-1 in six patterns each.
func large(n, op, operands int) (set.Set[key], *operand, []*operand) {
	back := vp.Choose("back", 4)
	r, ro := receiver(back, bits(n, vp.Choose("p", 6)))
	var os []*operand
	if op == oClone {
		return r, ro, nil
	}
	for i := 0; i < operands; i++ {
		os = append(os, other((back+1+3*i)%6, bits(n, vp.Choose("p", 6))))
	}
	return r, ro, os
}

func marks(n int, in func(key) bool) []bool {
	m := make([]bool, n)
	for k := 0; k < n; k++ {
		m[k] = in(key(k))
	}
	return m
}

// AlgebraScale: operations on sets of up to args[0] elements, args[1] operands.
func AlgebraScale(args []int) {
	vp.MapOrder(0)
	op := vp.Choose("operation", nOps)
	r, ro, os := large(args[0], op, args[1])
	res, in := apply(op, r, ro, os)
	m := marks(args[0], in)
	holds(res, m, "result")
	vp.MapOrder(-1)
	ks := res.Keys()
	vis := make([]bool, len(m))
	for _, k := range ks {
		vp.Assert(m[k] && !vis[k], "Keys lists the elements, none twice")
		vis[k] = true
	}
	mm := res.Map()
	vp.Assert(len(ks) == res.Size() && len(mm) == res.Size(), "Keys and Map have every element once")
	for k := range mm {
		vp.Assert(m[k], "Map has the elements")
	}
	x := key(vp.IntR("x", args[0]-2, args[0]))
	has := res.Has(x)
	vp.Assert(has == append(m, false)[vp.Concrete(int(x))], "result: Has")
	vp.Reach()
}

// PredScale: predicates on sets of up to args[0] elements.
func PredScale(args []int) {
	vp.MapOrder(0)
	which := vp.Choose("predicate", 6)
	r, ro, os := large(args[0], 0, 1)
	o := os[0]
	switch vp.Choose("nudge", 3) {
	case 1: // one element more or less
		x := key(args[0] - 1)
		o.s.Put(x)
		o.e = append(o.e, x)
	case 2:
		x := key(vp.IntR("x", args[0]-3, args[0]-1))
		r.Put(x)
		ro.e = append(ro.e, x)
	}
	got := pred(which, r, o.s)
	vp.Assert(got == truth(which, ro, o), "the predicate answers as the relation does")
	vp.Observe(vp.B2I(got))
	vp.Reach()
}

// KeepScale: as Keep with sets of up to args[0] elements.
func KeepScale(args []int) {
	vp.MapOrder(0)
	n := args[0]
	op := vp.Choose("operation", nOps+6)
	if op >= nOps {
		r, ro, os := large(n, 0, 1)
		pred(op-nOps, r, os[0].s)
		holds(r, member(ro, n), "receiver unchanged by a predicate")
		holds(os[0].s, member(os[0], n), "operand unchanged by a predicate")
		vp.Reach()
		return
	}
	r, ro, os := large(n, op, 1)
	res, in := apply(op, r, ro, os)
	m := marks(n, in)
	same := func(msg string) {
		if !inPlace(op) {
			holds(r, member(ro, n), "receiver "+msg)
		}
		for _, o := range os {
			holds(o.s, member(o, n), "operand "+msg)
		}
	}
	same("unchanged")
	x := key(vp.IntR("x", n-2, n-1))
	if vp.Choose("who", 2) == 0 {
		switch vp.Choose("change", 3) {
		case 0:
			res.Put(x)
		case 1:
			res.Remove(x)
		case 2:
			res.Clear()
		}
		same("unchanged by the result")
	} else {
		var o set.SetOf[key] = r
		if len(os) > 0 && vp.Choose("operand", 2) == 1 {
			o = os[0].s
		} else if inPlace(op) {
			vp.Reach()
			return
		}
		switch vp.Choose("change", 3) {
		case 0:
			o.Put(x)
		case 1:
			o.Remove(x)
		case 2:
			o.Clear()
		}
		holds(res, m, "result unchanged by the inputs")
	}
	vp.Reach()
}

// Mill: implementation args[0], built from args[1]/2 values with repeats, then args[2]
// operations in waves on 2*args[1] elements, one of them arbitrary; args[3] histories.
func Mill(args []int) {
	n := args[1]
	r := hl.NewRand(args[3])
	vp.MapOrder(-1)
	has := make([]bool, 2*n)
	var in []key
	for i := 0; i < n/2; i++ {
		k := r.N(2 * n)
		in = append(in, key(k), key(r.N(k+1)))
		has[k] = true
		has[in[len(in)-1]] = true
		if i%3 == 0 {
			in = append(in, in[r.N(len(in))])
		}
	}
	s := newSet(args[0], in...)
	size := func() int {
		c := 0
		for _, h := range has {
			c += vp.B2I(h)
		}
		return c
	}
	look := func() {
		want := size()
		seen := make([]bool, len(has))
		s.Each(func(k key) {
			vp.Assert(has[k] && !seen[k], "Each visits only elements, none twice")
			seen[k] = true
			want--
		})
		vp.Assert(want == 0, "Each visits every element")
		for k := range has {
			vp.Assert(s.Has(key(k)) == has[k], "Has reports membership")
		}
	}
	look()
	at := args[2] * (1 + vp.Choose("at", 3)) / 4
	up := true
	for i := 0; i < args[2]; i++ {
		vp.Progress()
		k := r.N(2 * n)
		if i == at {
			k = vp.IntR("k", 0, 2*n-1)
		}
		if (r.N(16) < 11) == up {
			s.Put(key(k))
			has[vp.Concrete(k)] = true
		} else {
			s.Remove(key(k))
			has[vp.Concrete(k)] = false
		}
		c := size()
		vp.Assert(s.Size() == c, "Size is the number of elements")
		if c > n {
			up = false
		}
		if c == 0 {
			up = true
		}
		if i%16 == 15 {
			look()
		}
		if r.N(80) == 0 {
			s.Clear()
			has = make([]bool, 2*n)
			up = true
		}
	}
	look()
	vp.Reach()
}
