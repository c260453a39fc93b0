// Package intvh checks the interval tree.
package intvh

import (
	"github.com/zyedidia/generic/interval"
	"golang.org/x/exp/constraints"
	"verif/harness/hl"
	"verif/harness/vp"
)

func init() {
	vp.Register("intvh.Mill", Mill)
	vp.Register("intvh.Runs", Runs)
	vp.Register("intvh.Refused", Refused)
	vp.Register("intvh.Hist", Hist)
	vp.Register("intvh.HistInt", HistInt)
	vp.Register("intvh.HistF", HistF)
	vp.Register("intvh.HistStr", HistStr)
	vp.Register("intvh.Shape", Shape)
	vp.Register("intvh.Fib", Fib)
	vp.Register("intvh.Big", Big)
	vp.Register("intvh.OvHist", OvHist)
	vp.Register("intvh.OvInt", OvInt)
	vp.Register("intvh.OvF", OvF)
	vp.Register("intvh.OvShape", OvShape)
	vp.Register("intvh.OvFib", OvFib)
	vp.Register("intvh.OvBig", OvBig)
	vp.Register("intvh.Bal", Bal)
	vp.Register("intvh.Sparse", Sparse)
	vp.Register("intvh.Look", Look)
	vp.Register("intvh.Scale", Scale)
	vp.Register("intvh.OvScale", OvScale)
}

const (
	opPut = iota
	opAdd
	opRemove
)

type ev[I constraints.Ordered] struct {
	kind int
	l, h I
	v    int
}

// model is the history of a tree; every answer is a fold over it.
type model[I constraints.Ordered] struct{ e []ev[I] }

// get: is there an interval at q, which event supplied it, and its value. The
// end is returned by asking each event (so that no term of type I has to be merged).
func (m *model[I]) get(q I) (src int, present bool) {
	src = -1
	for i := range m.e {
		eq := m.e[i].l == q
		switch m.e[i].kind {
		case opPut:
			src = vp.Ite(eq, i, src)
			present = vp.Or(eq, present)
		case opAdd:
			set := vp.And(eq, vp.Not(present))
			src = vp.Ite(set, i, src)
			present = vp.Or(eq, present)
		case opRemove:
			src = vp.Ite(eq, -1, src)
			present = vp.And(vp.Not(eq), present)
		}
	}
	return
}

// is asserts that kv is exactly event src.
func (m *model[I]) is(kv interval.KV[I, int], src int, msg string) {
	good := false
	for i := range m.e {
		if m.e[i].kind != opRemove {
			good = vp.Or(good, vp.And(src == i, vp.And(kv.Low == m.e[i].l, vp.And(kv.High == m.e[i].h, kv.Val == m.e[i].v))))
		}
	}
	vp.Assert(good, msg)
}

func (m *model[I]) isZero(kv interval.KV[I, int], msg string) {
	var z I
	vp.Assert(vp.And(kv.Low == z, vp.And(kv.High == z, kv.Val == 0)), msg)
}

// last: event i is the last one on its start position.
func (m *model[I]) last(i int) bool {
	last := true
	for j := i + 1; j < len(m.e); j++ {
		last = vp.And(last, vp.Not(m.e[i].l == m.e[j].l))
	}
	return last
}

func (m *model[I]) size() int {
	n := 0
	for i := range m.e {
		_, p := m.get(m.e[i].l)
		n += vp.B2I(vp.And(m.last(i), p))
	}
	return n
}

// count of present intervals that share a point with [lo, hi).
func (m *model[I]) overlapping(lo, hi I) int {
	n := 0
	for i := range m.e {
		if m.e[i].kind == opRemove {
			continue
		}
		src, p := m.get(m.e[i].l)
		o := vp.And(m.e[i].l < hi, lo < m.e[i].h)
		n += vp.B2I(vp.And(p, vp.And(src == i, o)))
	}
	return n
}

type tree[I constraints.Ordered] struct {
	*interval.Tree[I, int]
	m *model[I]
}

func newTree[I constraints.Ordered]() tree[I] {
	return tree[I]{interval.New[I, int](), &model[I]{}}
}

func (t tree[I]) bal() {
	n, h := t.Size(), t.Height()
	vp.Assert(h >= 0 && n >= hl.AVLMin(h), "height within the AVL bound")
	vp.Assert(n <= hl.AVLMax(h), "height can hold the intervals")
}

// do applies one operation and checks what it returns.
func (t tree[I]) do(kind int, l, h I, v int) {
	src, p := t.m.get(l)
	var kv interval.KV[I, int]
	var ok bool
	switch kind {
	case opPut:
		kv, ok = t.Put(l, h, v)
	case opAdd:
		kv, ok = t.Add(l, h, v)
	case opRemove:
		kv, ok = t.Remove(l)
	}
	vp.Assert(ok == p, "the returned flag says whether an interval existed")
	if ok {
		t.m.is(kv, src, "the returned interval is the one that existed")
	} else {
		t.m.isZero(kv, "the zero interval is returned if none existed")
	}
	t.m.e = append(t.m.e, ev[I]{kind, l, h, v})
	t.bal()
}

// symOp performs one arbitrary operation.
func symOp[I constraints.Ordered](t tree[I], sym func(string) I, i int) {
	l := sym("low")
	k := vp.Choose("op", 3)
	h := l
	if k != opRemove {
		h = sym("high")
		vp.Assume(l < h)
	}
	t.do(k, l, h, i+1)
}

func (t tree[I]) check(q I) {
	n := t.Size()
	vp.Assert(n == t.m.size(), "Size is the number of intervals present")
	cnt := 0
	var prev I
	t.Each(func(l, h I, v int) {
		if cnt > 0 {
			vp.Assert(prev < l, "Each visits intervals in strictly ascending start order")
		}
		prev = l
		cnt++
		src, p := t.m.get(l)
		vp.Assert(p, "Each visits only present intervals")
		t.m.is(interval.KV[I, int]{Low: l, High: h, Val: v}, src, "Each passes the current end and value")
	})
	vp.Assert(cnt == n, "Each visits every interval once")
	kv, ok := t.Get(q)
	src, p := t.m.get(q)
	vp.Assert(ok == p, "Get reports presence")
	if ok {
		t.m.is(kv, src, "Get returns the interval with its current end and value")
	} else {
		t.m.isZero(kv, "Get of nothing returns the zero interval")
	}
	vp.Observe(cnt)
	vp.Reach()
}

func (t tree[I]) overlaps(sym func(string) I) {
	lo, hi := sym("qlow"), sym("qhigh")
	vp.Assume(lo < hi)
	res := t.Overlaps(lo, hi)
	for i := range res {
		if i > 0 {
			vp.Assert(res[i-1].Low < res[i].Low, "the result is sorted by start, without duplicates")
		}
		src, p := t.m.get(res[i].Low)
		vp.Assert(p, "only present intervals are returned")
		t.m.is(res[i], src, "intervals are returned with their current end and value")
		vp.Assert(vp.And(res[i].Low < hi, lo < res[i].High), "only overlapping intervals are returned")
	}
	vp.Assert(len(res) == t.m.overlapping(lo, hi), "every overlapping interval is returned")
	vp.Observe(len(res))
	vp.Reach()
}

func i16(n string) int16 { return vp.I16(n) }
func i8(n string) int8   { return vp.I8(n) }
func in(n string) int    { return vp.Int(n) }
func f64(n string) float64 {
	f := vp.F64(n)
	vp.Assume(f == f)
	return f
}
func str(n string) string { return vp.Str(n, vp.Choose(n+".len", 3)) }

func hist[I constraints.Ordered](n int, sym func(string) I, any bool) tree[I] {
	t := newTree[I]()
	l := n
	if any {
		l = 1 + vp.Choose("len", n)
	}
	for i := 0; i < l; i++ {
		symOp(t, sym, i)
	}
	return t
}

// Hist: up to args[0] arbitrary operations on arbitrary int16 intervals.
func Hist(args []int) { hist(args[0], i16, true).check(i16("q")) }

// HistInt: args[0] arbitrary operations on arbitrary machine integers.
func HistInt(args []int) { hist(args[0], in, false).check(in("q")) }

// HistF: args[0] arbitrary operations on arbitrary floats except NaN.
func HistF(args []int) { hist(args[0], f64, false).check(f64("q")) }

// HistStr: args[0] arbitrary operations on arbitrary strings of up to two bytes.
func HistStr(args []int) { hist(args[0], str, false).check(str("q")) }

// OvHist: up to args[0] arbitrary operations, then an arbitrary overlap query.
func OvHist(args []int) { hist(args[0], i8, true).overlaps(i8) }

// OvInt: the same on machine integers.
func OvInt(args []int) { hist(args[0], in, false).overlaps(in) }

// OvF: the same on floats.
func OvF(args []int) { hist(args[0], f64, false).overlaps(f64) }

// build puts intervals with concrete starts 2r+1; the ends are arbitrary if symEnds,
// and otherwise 3 (mode 0), 1 (mode 1) or a varying distance beyond the start.
func build(ranks []int, symEnds bool, mode int) tree[int16] {
	t := newTree[int16]()
	for i, r := range ranks {
		l := int16(2*r + 1)
		var h int16
		switch {
		case symEnds:
			h = vp.I16("end")
			vp.Assume(l < h)
		case mode == 0:
			h = l + 3
		case mode == 1:
			h = l + 1
		default:
			h = l + 1 + int16(r*7%13)*3
		}
		t.Put(l, h, 1000+i)
		t.m.e = append(t.m.e, ev[int16]{opPut, l, h, 1000 + i})
		vp.Progress()
	}
	return t
}

func span(n int) func(string) int16 {
	return func(name string) int16 {
		x := vp.I16(name)
		vp.Assume(vp.And(x >= 0, x <= int16(2*n+4)))
		return x
	}
}

// Shape: every AVL shape of height args[0], then args[1] arbitrary operations.
func Shape(args []int) {
	s := hl.AVLShape(args[0])
	t := build(s.LevelOrder(), false, 2)
	sym := span(s.Count())
	for i := 0; i < args[1]; i++ {
		symOp(t, sym, i)
	}
	t.check(sym("q"))
}

// Fib: the sparsest trees of height args[0], then args[1] arbitrary operations.
func Fib(args []int) {
	s := hl.FibShape(args[0], vp.Choose("mode", 4))
	t := build(s.LevelOrder(), false, 0)
	sym := span(s.Count())
	for i := 0; i < args[1]; i++ {
		symOp(t, sym, i)
	}
	t.check(sym("q"))
}

// Big: args[0] intervals in one of six orders, args[1] removed, args[2] arbitrary operations.
func Big(args []int) {
	t := big(args[0], args[1])
	sym := span(args[0])
	for i := 0; i < args[2]; i++ {
		symOp(t, sym, i)
	}
	t.check(sym("q"))
}

func big(n, rem int) tree[int16] {
	t := build(hl.Order(n, vp.Choose("order", 6)), false, vp.Choose("ends", 3))
	ro := hl.Order(n, vp.Choose("rorder", 4))
	for i := 0; i < rem; i++ {
		t.Remove(int16(2*ro[i] + 1))
		t.m.e = append(t.m.e, ev[int16]{kind: opRemove, l: int16(2*ro[i] + 1)})
		t.bal()
		vp.Progress()
	}
	return t
}

// OvShape: every AVL shape of height args[0] with arbitrary ends, args[1] arbitrary
// operations, then an arbitrary query.
func OvShape(args []int) {
	s := hl.AVLShape(args[0])
	t := build(s.LevelOrder(), args[2] == 1, 2)
	sym := span(s.Count())
	for i := 0; i < args[1]; i++ {
		symOp(t, sym, i)
	}
	t.overlaps(i16)
}

// OvFib: the sparsest trees of height args[0], args[1] arbitrary removals, a query.
func OvFib(args []int) {
	s := hl.FibShape(args[0], vp.Choose("mode", 4))
	t := build(s.LevelOrder(), false, vp.Choose("ends", 3))
	sym := span(s.Count())
	for i := 0; i < args[1]; i++ {
		l := sym("low")
		t.do(opRemove, l, l, 0)
	}
	t.overlaps(i16)
}

// OvBig: large trees, args[2] arbitrary operations, an arbitrary query.
func OvBig(args []int) {
	t := big(args[0], args[1])
	sym := span(args[0])
	for i := 0; i < args[2]; i++ {
		symOp(t, sym, i)
	}
	t.overlaps(i16)
}

// Bal: long mixed histories on concrete positions with args[1] arbitrary operations at the end.
func Bal(args []int) {
	t := big(args[0], args[1])
	sym := span(args[0])
	for i := 0; i < args[2]; i++ {
		symOp(t, sym, i)
	}
	vp.Observe(t.Height())
	vp.Reach()
}

// Sparse: every AVL shape of height args[0] with at most args[1] nodes more than the fewest
// possible, then args[2] arbitrary operations, balanced after each.
func Sparse(args []int) {
	s := hl.AVLShape(args[0])
	c := s.Count()
	vp.Assume(c <= hl.AVLMin(args[0])+args[1])
	t := interval.New[int16, int]()
	for _, r := range s.LevelOrder() {
		t.Put(int16(2*r+1), int16(2*r+4), r)
	}
	vp.Assert(t.Height() == args[0], "level order builds the shape")
	for i := 0; i < args[2]; i++ {
		l := int16(vp.IntR("low", 0, 2*c))
		switch vp.Choose("op", 3) {
		case 0:
			t.Put(l, l+1, i)
		case 1:
			t.Add(l, l+1, i)
		case 2:
			t.Remove(l)
		}
		tree[int16]{t, nil}.bal()
	}
	vp.Observe(t.Height())
	vp.Reach()
}

// flat is a tree with the intervals it should hold, by start.
type flat struct {
	t  *interval.Tree[int16, int]
	at []iv
}

type iv struct {
	on bool
	h  int16
	v  int
}

func newFlat(n int) *flat { return &flat{interval.New[int16, int](), make([]iv, n)} }

func (f *flat) put(l int, h int16, v int) {
	f.t.Put(int16(l), h, v)
	f.at[l] = iv{true, h, v}
}

func (f *flat) is(kv interval.KV[int16, int], l int) {
	w := interval.KV[int16, int]{}
	if f.at[l].on {
		w = interval.KV[int16, int]{Low: int16(l), High: f.at[l].h, Val: f.at[l].v}
	}
	vp.Assert(vp.And(kv.Low == w.Low, vp.And(kv.High == w.High, kv.Val == w.Val)), "an interval is returned with its current end and value")
}

// over asks for the overlaps of an arbitrary range.
func (f *flat) over(lo, hi int16) {
	res := f.t.Overlaps(lo, hi)
	want := 0
	for l := range f.at {
		if f.at[l].on {
			want += vp.B2I(vp.And(int16(l) < hi, lo < f.at[l].h))
		}
	}
	prev := -1
	for _, kv := range res {
		l := vp.Concrete(int(kv.Low))
		vp.Assert(l > prev, "the result is sorted by start, without duplicates")
		prev = l
		vp.Assert(l >= 0 && l < len(f.at) && f.at[l].on, "only present intervals are returned")
		f.is(kv, l)
		vp.Assert(vp.And(kv.Low < hi, lo < kv.High), "only overlapping intervals are returned")
	}
	vp.Assert(len(res) == want, "every overlapping interval is returned")
}

func (f *flat) anyOver() {
	lo, hi := vp.I16("qlow"), vp.I16("qhigh")
	vp.Assume(lo < hi)
	f.over(lo, hi)
}

// all looks at everything but overlaps.
func (f *flat) all() {
	cnt := 0
	for l := range f.at {
		cnt += vp.B2I(f.at[l].on)
		kv, ok := f.t.Get(int16(l))
		vp.Assert(ok == f.at[l].on, "Get reports presence")
		f.is(kv, l)
	}
	vp.Assert(f.t.Size() == cnt, "Size is the number of intervals present")
	prev := -1
	f.t.Each(func(l, h int16, v int) {
		vp.Assert(int(l) > prev && f.at[l].on, "Each visits the intervals present in ascending start order")
		prev = int(l)
		f.is(interval.KV[int16, int]{Low: l, High: h, Val: v}, int(l))
		cnt--
	})
	vp.Assert(cnt == 0, "Each visits every interval once")
	tree[int16]{f.t, nil}.bal()
}

// op is an arbitrary change (or lookup) of kind k at an arbitrary start in [a, b].
func (f *flat) op(k, a, b, i int) {
	s := vp.IntR("low", a, b)
	var kv interval.KV[int16, int]
	var ok bool
	var h int16
	switch k {
	case 0, 1:
		h = vp.I16("high")
		vp.Assume(int(h) > s)
		if k == 0 {
			kv, ok = f.t.Put(int16(s), h, i)
		} else {
			kv, ok = f.t.Add(int16(s), h, i)
		}
	case 2:
		kv, ok = f.t.Remove(int16(s))
	case 3:
		kv, ok = f.t.Get(int16(s))
	}
	l := vp.Concrete(s)
	vp.Assert(ok == f.at[l].on, "the returned flag says whether an interval existed")
	f.is(kv, l)
	switch k {
	case 0:
		f.at[l] = iv{true, h, i}
	case 1:
		if !ok {
			f.at[l] = iv{true, h, i}
		}
	case 2:
		f.at[l] = iv{}
	}
}

// Look: every AVL shape of height args[0] with concrete ends of pattern args[2], then args[1]
// steps, each an arbitrary change or query; args[3] set: everything is looked at after each
// step, otherwise only at the end. Starts are decided to one position each.
func Look(args []int) {
	s := hl.AVLShape(args[0])
	n := s.Count()
	f := newFlat(2*n + 1)
	for i, r := range s.LevelOrder() {
		f.put(2*r+1, int16(2*r+2+(i*7+args[2])%5*2), 1000+i)
	}
	for i := 0; i < args[1]; i++ {
		if k := vp.Choose("op", 5); k == 4 {
			f.anyOver()
			continue
		} else {
			f.op(k, 0, 2*n, i)
		}
		if args[3] == 1 {
			f.all()
			f.anyOver()
		}
	}
	if vp.Choose("last", 2) == 0 {
		f.op(3, 0, 2*n, 0)
		f.all()
	} else {
		f.anyOver()
	}
	vp.Reach()
}

// scaled puts n intervals in one of six orders, removes some, gives others new ends and
// values, and puts some again.
func scaled(n, orders, rorders int) *flat {
	f := newFlat(2*n + 1)
	ends := vp.Choose("ends", 3)
	end := func(l, i int) int16 {
		switch ends {
		case 0:
			return int16(l + 1)
		case 1:
			return int16(l + 4)
		}
		return int16(l + 1 + i*7%13*(n/6))
	}
	for i, r := range hl.Order(n, vp.Choose("order", orders)) {
		f.put(2*r+1, end(2*r+1, i), 1000+i)
		vp.Progress()
	}
	o := hl.Order(n, vp.Choose("rorder", rorders))
	switch vp.Choose("wave", 3) {
	case 1:
		for i, r := range o {
			if i%4 > 0 {
				kv, ok := f.t.Remove(int16(2*r + 1))
				vp.Assert(ok, "the returned flag says whether an interval existed")
				f.is(kv, 2*r+1)
				f.at[2*r+1] = iv{}
				vp.Progress()
			}
		}
		for i, r := range o {
			if i%4 == 2 {
				f.put(2*r+1, end(2*r+1, i+3), i)
				vp.Progress()
			}
		}
	case 2:
		for i, r := range o {
			f.put(2*r+1, end(2*r+1, i+2), i)
			vp.Progress()
		}
	}
	return f
}

// Scale: a tree as scaled makes it of args[0] intervals, then args[1] arbitrary changes
// near a few places; everything but overlaps is looked at.
func Scale(args []int) {
	n := args[0]
	f := scaled(n, 6, 5)
	f.all()
	at := vp.Choose("where", 5) * (n - 1) / 2
	for i := 0; i < args[1]; i++ {
		f.op(vp.Choose("op", 3), at, at+2, i)
	}
	f.all()
	vp.Reach()
}

// OvScale: the same, then overlaps of ranges with one end near a few places.
func OvScale(args []int) {
	n := args[0]
	f := scaled(n, 3, 2)
	at := 1
	if args[1] > 0 {
		at += 2 * (vp.Choose("where", 3) * (n - 1) / 2)
	}
	for i := 0; i < args[1]; i++ {
		f.op([]int{0, 2}[vp.Choose("op", 2)], at, at, i)
	}
	lo, hi := vp.I16("qlow"), vp.I16("qhigh")
	vp.Assume(lo < hi)
	at = vp.Choose("qwhere", 3) * (n - 1)
	if vp.Choose("side", 2) == 0 {
		vp.Assume(vp.And(int(lo) >= at, int(lo) <= at+2))
	} else {
		vp.Assume(vp.And(int(hi) >= at, int(hi) <= at+2))
	}
	f.over(lo, hi)
	vp.Reach()
}

// Mill: args[1] operations in waves on the intervals of 2*args[0]+1 starts, with overlap
// queries of fixed ranges in between, then an arbitrary operation and, if args[3]=1, overlaps
// of a range with an arbitrary end; args[2] histories.
func Mill(args []int) {
	n := args[0]
	f := newFlat(2*n + 1)
	r := hl.NewRand(args[2])
	up, cnt := true, 0
	for i := 0; i < args[1]; i++ {
		vp.Progress()
		l := r.N(2*n + 1)
		h := int16(l + 1 + r.N(4))
		if r.N(6) == 0 {
			h = int16(l + 1 + r.N(2*n))
		}
		old := f.at[l].on
		var kv interval.KV[int16, int]
		var ok bool
		set := iv{true, h, i}
		if (r.N(16) < 11) == up {
			if r.N(3) == 0 {
				kv, ok = f.t.Add(int16(l), h, i)
				if ok {
					set = f.at[l]
				}
			} else {
				kv, ok = f.t.Put(int16(l), h, i)
			}
			cnt += vp.B2I(!old)
		} else {
			kv, ok = f.t.Remove(int16(l))
			cnt -= vp.B2I(old)
			set = iv{}
		}
		vp.Assert(ok == old, "the returned flag says whether an interval existed")
		f.is(kv, l)
		f.at[l] = set
		if cnt >= n {
			up = false
		}
		if cnt == 0 {
			up = true
		}
		vp.Assert(f.t.Size() == cnt, "Size is the number of intervals present")
		if i%4 == 3 {
			a := r.N(2*n+4) - 2
			f.over(int16(a), int16(a+1+r.N(2+n/2*r.N(2))))
		}
		if i%16 == 15 {
			f.all()
		}
	}
	at := vp.Choose("where", 5) * (2*n - 2) / 4
	f.op(vp.Choose("op", 3), at, at+2, 7)
	f.all()
	if args[3] == 1 {
		lo, hi := vp.I16("qlow"), vp.I16("qhigh")
		vp.Assume(lo < hi)
		if vp.Choose("side", 2) == 0 {
			vp.Assume(vp.And(int(lo) >= at-1, int(lo) <= at+3))
		} else {
			vp.Assume(vp.And(int(hi) >= at-1, int(hi) <= at+3))
		}
		f.over(lo, hi)
	}
	vp.Reach()
}

// Runs: args[0] intervals put in some order, a few of them far-reaching, a run of neighbouring
// ones removed, some put, another run removed; compared completely, with ranges at many
// places, every few steps; then (args[1]) one operation on an arbitrary interval near some place.
func Runs(args []int) {
	n := args[0]
	f := newFlat(2*n + 1)
	c := 0
	long := vp.Choose("long", 4) * n / 4
	put := func(l int) {
		c++
		h := l + 1 + c%3
		if d := l/2 - long; d == 0 || d == 3 {
			h = l + n + 2*(c%5)
		}
		f.put(l, int16(h), c)
		vp.Progress()
	}
	look := func() {
		f.all()
		for a := -1; a < 3*n; a += 3 {
			f.over(int16(a), int16(a+1+a%4))
		}
		vp.Progress()
	}
	kinds, two := 7, 2
	if args[1] > 0 {
		kinds, two = 3, 1
	}
	seg := func(name string) (int, int) {
		k := [][2]int{{0, 2}, {2, 4}, {1, 3}, {0, 1}, {3, 4}, {1, 4}, {0, 4}}[vp.Choose(name, kinds)]
		return k[0] * n / 4, k[1] * n / 4
	}
	for _, r := range hl.Order(n, vp.Choose("order", two)) {
		put(2*r + 1)
	}
	remove := func(a, b int, down bool) {
		for i := a; i < b; i++ {
			l := 2*i + 1
			if down {
				l = 2*(a+b-1-i) + 1
			}
			old := f.at[l].on
			kv, ok := f.t.Remove(int16(l))
			vp.Assert(ok == old, "the returned flag says whether an interval existed")
			f.is(kv, l)
			f.at[l] = iv{}
			if i%5 == 0 {
				look()
			}
		}
	}
	a, b := seg("first")
	remove(a, b, false)
	for i := vp.Choose("add", 3); i > 0 && i < n; i += 3 {
		put(2 * i)
	}
	look()
	x, y := seg("second")
	remove(x, y, kinds == 7 && vp.Choose("down", 2) == 1)
	if vp.Choose("again", two) == 1 {
		for i := a; i < b; i++ {
			put(2*i + 1)
		}
	}
	look()
	if args[1] > 0 {
		at := vp.Choose("where", 3) * (n - 1)
		f.op(vp.Choose("op", 3), at, at+2, 0)
		f.all()
		for a := -1; a < 3*n; a += 8 {
			f.over(int16(a), int16(a+2))
		}
	}
	vp.Reach()
}

// Refused: args[0] intervals, then an operation with an arbitrary range whose low bound
// exceeds its high one.
func Refused(args []int) {
	t := newTree[int16]()
	for i := 0; i < args[0]; i++ {
		symOp(t, i16, i)
	}
	l, h := vp.I16("badlow"), vp.I16("badhigh")
	vp.Assume(h < l)
	switch vp.Choose("bad", 3) {
	case 0:
		vp.Assert(vp.Panics(func() { t.Put(l, h, 77) }), "Put of an interval with low above high panics")
	case 1:
		vp.Assert(vp.Panics(func() { t.Add(l, h, 77) }), "Add of an interval with low above high panics")
	case 2:
		vp.Assert(vp.Panics(func() { t.Overlaps(l, h) }), "Overlaps of a range with low above high panics")
	}
	t.bal()
	t.check(i16("q"))
}
