package main

// Memory, strings, maps, conversions.

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"reflect"
	"sync"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

const symChainMax = 96

func nilDeref(st *State) {
	st.rtPanic("invalid memory address or nil pointer dereference")
}

func (st *State) load(p Val, ti *TI) Val {
	if p.K != KPtr {
		st.unsupported("load through %v", p.K)
	}
	if p.N == 0 {
		nilDeref(st)
	}
	o := st.rd(p.obj())
	off := p.off()
	if p.P != nil {
		so := p.P.(*SymOff)
		ok := ti.size == 1 && so.n <= symChainMax && ti.kind == KInt
		if ok {
			var r *Term
			for i := so.n - 1; i >= 0; i-- {
				ct := o.cells[off+i].term(ti.w)
				if r == nil {
					r = ct
				} else {
					r = mkIte(mkEq(so.idx, mkConst(uint64(i), 64)), ct, r)
				}
			}
			return cTerm(r)
		}
		off += int(st.concretize(so.idx)) * ti.size
		o = st.rd(p.obj())
	}
	if ti.kind != KAgg {
		if off >= len(o.cells) {
			st.unsupported("load out of object (%d of %d) %s", off, len(o.cells), ti.t)
		}
		return o.cells[off]
	}
	if off+ti.size > len(o.cells) {
		st.unsupported("load out of object (%d+%d of %d) %s", off, ti.size, len(o.cells), ti.t)
	}
	return ti.fromCells(o.cells[off:off+ti.size], true)
}

func (st *State) store(p Val, ti *TI, v Val) {
	if p.N == 0 {
		nilDeref(st)
	}
	off := p.off()
	if p.P != nil {
		so := p.P.(*SymOff)
		if ti.size == 1 && so.n <= symChainMax && ti.kind == KInt {
			o := st.wr(p.obj())
			vt := v.term(ti.w)
			for i := 0; i < so.n; i++ {
				c := &o.cells[off+i]
				*c = cTerm(mkIte(mkEq(so.idx, mkConst(uint64(i), 64)), vt, c.term(ti.w)))
			}
			return
		}
		off += int(st.concretize(so.idx)) * ti.size
	}
	o := st.wr(p.obj())
	if ti.kind != KAgg {
		if off >= len(o.cells) {
			st.unsupported("store out of object")
		}
		o.cells[off] = v
		return
	}
	if off+ti.size > len(o.cells) {
		st.unsupported("store out of object")
	}
	copy(o.cells[off:off+ti.size], v.P.([]Val))
}

// idx64 widens an index term to 64 bits.
func idx64(t *Term, ti *TI) *Term { return mkExt(t, 64, ti.signed) }

func (st *State) symIndex(obj uint32, off, n int, ix *Term, ixti, ei *TI, direct bool) Val {
	i := idx64(ix, ixti)
	if !st.decide(mkUlt(i, mkConst(uint64(n), 64))) {
		st.rtPanic("index out of range with length %d", n)
	}
	if direct && ei.size == 1 && ei.kind == KInt && n <= symChainMax {
		p := ptrVal(obj, off)
		p.P = &SymOff{idx: i, n: n}
		return p
	}
	k := st.concretize(i)
	return ptrVal(obj, off+int(k)*ei.size)
}

func (st *State) indexVal(x Val, xti *TI, ix Val, ixti *TI) Val {
	if x.K == KString {
		n := strLen(x)
		if ix.P == nil {
			k := sext(ix.N, ixti.w)
			if k < 0 || k >= int64(n) || (!ixti.signed && ix.N >= uint64(n)) {
				st.rtPanic("index out of range [%d] with length %d", k, n)
			}
			return strAt(x, int(k))
		}
		i := idx64(ix.P.(*Term), ixti)
		if !st.decide(mkUlt(i, mkConst(uint64(n), 64))) {
			st.rtPanic("index out of range with length %d", n)
		}
		if n <= 300 {
			r := strAt(x, n-1).term(8)
			for k := n - 2; k >= 0; k-- {
				r = mkIte(mkEq(i, mkConst(uint64(k), 64)), strAt(x, k).term(8), r)
			}
			return cTerm(r)
		}
		return strAt(x, int(st.concretize(i)))
	}
	// array value
	cells := x.P.([]Val)
	n := int(xti.n)
	ei := xti.elem
	var k int
	if ix.P == nil {
		kk := sext(ix.N, ixti.w)
		if kk < 0 || kk >= int64(n) || (!ixti.signed && ix.N >= uint64(n)) {
			st.rtPanic("index out of range [%d] with length %d", kk, n)
		}
		k = int(kk)
	} else {
		i := idx64(ix.P.(*Term), ixti)
		if !st.decide(mkUlt(i, mkConst(uint64(n), 64))) {
			st.rtPanic("index out of range with length %d", n)
		}
		k = int(st.concretize(i))
	}
	return ei.fromCells(cells[k*ei.size:(k+1)*ei.size], false)
}

func (st *State) makeSlice(ei *TI, n, c int) Val {
	cells := make([]Val, 0, c*ei.size)
	for i := 0; i < c; i++ {
		cells = append(cells, ei.zeroCells()...)
	}
	return sliceVal(st.alloc(&Obj{cells: cells, ti: ei}), 0, n, c)
}

func (st *State) sliceOp(x Val, xt types.Type, lo, hi, max *Val) Val {
	ci := func(v *Val, d int) int {
		if v == nil {
			return d
		}
		return int(st.concInt(*v, 64))
	}
	switch x.K {
	case KString:
		n := strLen(x)
		h := ci(hi, n)
		l := ci(lo, 0)
		if h < 0 || h > n {
			st.rtPanic("slice bounds out of range [:%d] with length %d", h, n)
		}
		if l < 0 || l > h {
			st.rtPanic("slice bounds out of range [%d:%d]", l, h)
		}
		return strSlice(x, l, h)
	case KPtr: // pointer to array
		ati := typeInfo(xt.(*types.Pointer).Elem())
		n := int(ati.n)
		if x.N == 0 {
			nilDeref(st)
		}
		h, l := ci(hi, n), 0
		m := ci(max, n)
		l = ci(lo, 0)
		if m < 0 || m > n || h < 0 || h > m || l < 0 || l > h {
			st.rtPanic("slice bounds out of range [%d:%d:%d] with capacity %d", l, h, m, n)
		}
		return sliceVal(x.obj(), x.off()+l*ati.elem.size, h-l, m-l)
	case KSlice:
		ei := elemTI(xt)
		c := x.scap()
		h := ci(hi, x.slen())
		m := ci(max, c)
		l := ci(lo, 0)
		if m < 0 || m > c || h < 0 || h > m || l < 0 || l > h {
			st.rtPanic("slice bounds out of range [%d:%d:%d] with capacity %d", l, h, m, c)
		}
		if x.obj() == 0 {
			return Val{K: KSlice}
		}
		return sliceVal(x.obj(), x.off()+l*ei.size, h-l, m-l)
	}
	st.unsupported("slice of %v", x.K)
	return Val{}
}

// strings

func strLen(s Val) int {
	switch p := s.P.(type) {
	case string:
		return len(p)
	case *SymStr:
		return len(p.b)
	}
	return 0
}

func strAt(s Val, i int) Val {
	switch p := s.P.(type) {
	case string:
		return cInt(uint64(p[i]))
	case *SymStr:
		return p.b[i]
	}
	panic("strAt")
}

func strSlice(s Val, l, h int) Val {
	switch p := s.P.(type) {
	case string:
		return cStr(p[l:h])
	case *SymStr:
		return mkStr(p.b[l:h])
	}
	return s
}

func mkStr(b []Val) Val {
	for _, c := range b {
		if c.P != nil {
			return Val{K: KString, P: &SymStr{append([]Val(nil), b...)}}
		}
	}
	bs := make([]byte, len(b))
	for i, c := range b {
		bs[i] = byte(c.N)
	}
	return cStr(string(bs))
}

func strBytes(s Val) []Val {
	n := strLen(s)
	r := make([]Val, n)
	for i := range r {
		r[i] = strAt(s, i)
	}
	return r
}

func strConcat(a, b Val) Val {
	x, ok1 := a.P.(string)
	y, ok2 := b.P.(string)
	if ok1 && ok2 {
		return cStr(x + y)
	}
	return mkStr(append(strBytes(a), strBytes(b)...))
}

func strEq(a, b Val) *Term {
	x, ok1 := a.P.(string)
	y, ok2 := b.P.(string)
	if ok1 && ok2 {
		return mkBool(x == y)
	}
	n := strLen(a)
	if n != strLen(b) {
		return tFalse
	}
	r := tTrue
	for i := 0; i < n; i++ {
		r = mkAnd(r, mkEq(strAt(a, i).term(8), strAt(b, i).term(8)))
	}
	return r
}

func strLess(a, b Val) *Term {
	x, ok1 := a.P.(string)
	y, ok2 := b.P.(string)
	if ok1 && ok2 {
		return mkBool(x < y)
	}
	n, m := strLen(a), strLen(b)
	k := n
	if m < k {
		k = m
	}
	r := mkBool(n < m)
	for i := k - 1; i >= 0; i-- {
		p, q := strAt(a, i).term(8), strAt(b, i).term(8)
		r = mkOr(mkUlt(p, q), mkAnd(mkEq(p, q), r))
	}
	return r
}

// equality

func (st *State) cellEq(a, b Val) *Term {
	if a.K != b.K {
		st.unsupported("compare %v with %v", a.K, b.K)
	}
	switch a.K {
	case KInt:
		if a.P == nil && b.P == nil {
			return mkBool(a.N == b.N)
		}
		var w uint8
		if a.P != nil {
			w = a.P.(*Term).W
		} else {
			w = b.P.(*Term).W
		}
		return mkEq(a.term(w), b.term(w))
	case KFloat:
		if a.P != nil || b.P != nil {
			return st.symFloat(token.EQL, a, b).term(0)
		}
		return mkBool(math.Float64frombits(a.N) == math.Float64frombits(b.N))
	case KString:
		return strEq(a, b)
	case KPtr:
		if a.P != nil || b.P != nil {
			st.unsupported("compare symbolic element pointers")
		}
		return mkBool(a.N == b.N)
	case KSlice:
		return mkBool(a.obj() == b.obj() && (a.obj() == 0))
	case KMap:
		return mkBool(a.N == b.N)
	case KFunc:
		return mkBool(a.P == nil && b.P == nil)
	case KIface:
		if a.P == nil || b.P == nil {
			return mkBool(a.P == nil && b.P == nil)
		}
		x, y := a.P.(*IfaceVal), b.P.(*IfaceVal)
		if x.t != y.t {
			return tFalse
		}
		if !types.Comparable(x.t.t) {
			st.rtPanic("comparing uncomparable type %s", x.t.t)
		}
		return st.valEq(x.v, y.v, x.t)
	case KNone:
		return mkBool(true)
	}
	st.unsupported("compare %v", a.K)
	return nil
}

func (st *State) valEq(a, b Val, ti *TI) *Term {
	if a.K != KAgg {
		return st.cellEq(a, b)
	}
	x, y := a.P.([]Val), b.P.([]Val)
	r := tTrue
	for i := range x {
		r = mkAnd(r, st.cellEq(x[i], y[i]))
		if r == tFalse {
			break
		}
	}
	return r
}

// floats: symbolic floats are IEEE bit patterns; only comparisons are supported

func fbits(v Val, w uint8) *Term {
	if v.P != nil {
		return v.P.(*Term)
	}
	if w == 32 {
		return mkConst(uint64(math.Float32bits(float32(math.Float64frombits(v.N)))), 32)
	}
	return mkConst(v.N, 64)
}

func (st *State) symFloat(op token.Token, a, b Val) Val {
	var w uint8 = 64
	if t, ok := a.P.(*Term); ok {
		w = t.W
	}
	if t, ok := b.P.(*Term); ok {
		w = t.W
	}
	x, y := fbits(a, w), fbits(b, w)
	sign := uint64(1) << (w - 1)
	expAll := uint64(0x7ff) << 52
	if w == 32 {
		expAll = uint64(0xff) << 23
	}
	mag := func(t *Term) *Term { return mkBin(OBAnd, t, mkConst(sign-1, w)) }
	nan := func(t *Term) *Term { return mkUlt(mkConst(expAll, w), mag(t)) }
	ord := mkAnd(mkNot(nan(x)), mkNot(nan(y)))
	bothZero := mkAnd(mkEq(mag(x), mkConst(0, w)), mkEq(mag(y), mkConst(0, w)))
	key := func(t *Term) *Term {
		neg := mkNot(mkEq(mkBin(OBAnd, t, mkConst(sign, w)), mkConst(0, w)))
		return mkIte(neg, mkBin(OBXor, t, mkConst(^uint64(0), w)), mkBin(OBOr, t, mkConst(sign, w)))
	}
	lt := func(p, q *Term) *Term {
		return mkAnd(ord, mkAnd(mkNot(bothZero), mkUlt(key(p), key(q))))
	}
	eq := mkAnd(ord, mkOr(bothZero, mkEq(x, y)))
	switch op {
	case token.EQL:
		return cTerm(eq)
	case token.LSS:
		return cTerm(lt(x, y))
	case token.GTR:
		return cTerm(lt(y, x))
	case token.LEQ:
		return cTerm(mkOr(lt(x, y), eq))
	case token.GEQ:
		return cTerm(mkOr(lt(y, x), eq))
	}
	st.unsupported("symbolic float %s", op)
	return Val{}
}

// maps

func (st *State) mapFind(m *MapObj, k Val) int {
	// concrete identical first is not sound with symbolic keys before it; keys in
	// a map are pairwise distinct on the path, so any definite hit decides.
	for i := range m.ents {
		if m.ents[i].live {
			if t := st.valEq(m.ents[i].key, k, m.kt); t == tTrue {
				return i
			} else if v, ok := st.lookup(t); ok && v {
				return i
			}
		}
	}
	for i := range m.ents {
		if m.ents[i].live && st.decide(st.valEq(m.ents[i].key, k, m.kt)) {
			return i
		}
	}
	return -1
}

func (st *State) hashable(k Val) {
	if k.K == KIface && k.P != nil && !types.Comparable(k.P.(*IfaceVal).t.t) {
		st.rtPanic("hash of unhashable type")
	}
}

func (st *State) mapGet(m, k Val) (Val, bool) {
	st.hashable(k)
	if m.N == 0 {
		return Val{}, false
	}
	mo := st.rd(uint32(m.N)).m
	i := st.mapFind(mo, k)
	if i < 0 {
		return Val{}, false
	}
	return mo.ents[i].val, true
}

func (st *State) mapPut(m, k, v Val) {
	st.hashable(k)
	if m.N == 0 {
		st.rtPanic("assignment to entry in nil map")
	}
	i := st.mapFind(st.rd(uint32(m.N)).m, k)
	mo := st.wr(uint32(m.N)).m
	if i >= 0 {
		mo.ents[i].val = v
		return
	}
	mo.ents = append(mo.ents, mapEnt{k, v, true, mo.seq})
	mo.seq++
	mo.n++
}

func (st *State) mapDelete(m, k Val) {
	st.hashable(k)
	if m.N == 0 {
		return
	}
	i := st.mapFind(st.rd(uint32(m.N)).m, k)
	if i >= 0 {
		mo := st.wr(uint32(m.N)).m
		mo.ents = append(append([]mapEnt(nil), mo.ents[:i]...), mo.ents[i+1:]...)
		mo.n--
	}
}

func (st *State) mapClear(m Val) {
	if m.N == 0 {
		return
	}
	mo := st.wr(uint32(m.N)).m
	mo.ents = nil
	mo.n = 0
}

func (st *State) mapLen(m Val) int {
	if m.N == 0 {
		return 0
	}
	return st.rd(uint32(m.N)).m.n
}

// iteration

func (st *State) rangeStart(x Val) Val {
	if st.merge {
		panic(mergeAbort{})
	}
	it := &IterObj{}
	if x.K == KString {
		it.isStr, it.str = true, x
	} else {
		it.mapID = uint32(x.N)
		if it.mapID != 0 {
			m := st.rd(it.mapID).m
			it.start = m.seq
		}
	}
	return Val{K: KIter, N: uint64(st.alloc(&Obj{it: it}))}
}

func (st *State) rangeNext(itv Val, kz, vz *TI) Val {
	o := st.rd(uint32(itv.N))
	if o.it.isStr {
		s := o.it.str
		if o.it.pos >= strLen(s) {
			return Val{K: KTuple, P: []Val{cBool(false), cInt(0), cInt(0)}}
		}
		pos := o.it.pos
		p, ok := s.P.(string)
		if !ok {
			// symbolic bytes: decide ASCII, otherwise concretize up to 4 bytes
			c := strAt(s, pos)
			if st.decide(mkUlt(c.term(8), mkConst(0x80, 8))) {
				st.wr(uint32(itv.N)).it.pos++
				return Val{K: KTuple, P: []Val{cBool(true), cInt(uint64(pos)), cTerm(mkExt(c.term(8), 32, false))}}
			}
			var bs []byte
			for i := pos; i < strLen(s) && i < pos+4; i++ {
				b := strAt(s, i)
				if b.P == nil {
					bs = append(bs, byte(b.N))
				} else {
					bs = append(bs, byte(st.concretize(b.P.(*Term))))
				}
			}
			r, n := utf8.DecodeRune(bs)
			st.wr(uint32(itv.N)).it.pos += n
			return Val{K: KTuple, P: []Val{cBool(true), cInt(uint64(pos)), cInt(uint64(uint32(r)))}}
		}
		r, n := utf8.DecodeRuneInString(p[pos:])
		st.wr(uint32(itv.N)).it.pos += n
		return Val{K: KTuple, P: []Val{cBool(true), cInt(uint64(pos)), cInt(uint64(uint32(r)))}}
	}
	zv := func(t *TI) Val {
		if t.kind == KNone {
			return Val{}
		}
		return t.zeroVal()
	}
	done := Val{K: KTuple, P: []Val{cBool(false), zv(kz), zv(vz)}}
	if o.it.mapID == 0 {
		return done
	}
	m := st.rd(o.it.mapID).m
	seen := map[int]bool{}
	for _, v := range o.it.visited {
		seen[v] = true
	}
	var old, fresh []int
	for i := range m.ents {
		e := &m.ents[i]
		if seen[e.ins] {
			continue
		}
		if e.ins < o.it.start {
			old = append(old, i)
		} else {
			fresh = append(fresh, i)
		}
	}
	pick := -1
	switch {
	case len(old) == 0 && len(fresh) == 0:
		return done
	case len(old) > 0:
		if (len(old) == 1 || st.mapMax < 0) && len(fresh) == 0 {
			pick = old[0]
		} else if st.orders >= maxOrders {
			st.run.note("more map iteration orders than the bound on one path: insertion order from there on")
			pick = old[0]
		} else if len(old) <= st.mapMax {
			c := st.choose(len(old) + len(fresh))
			st.order = true
			st.orders *= len(old) + len(fresh)
			if c < len(old) {
				pick = old[c]
			} else {
				pick = fresh[c-len(old)]
			}
		} else {
			st.run.note("map iteration over more entries than the order bound: insertion order or its reverse")
			if o.it.visited == nil && len(old) > 1 {
				if st.choose(2) == 1 {
					st.wr(uint32(itv.N)).it.perm = true
				}
				st.order = true
				st.orders *= 2
				o = st.rd(uint32(itv.N))
			}
			pick = old[0]
			if o.it.perm {
				pick = old[len(old)-1]
			}
		}
	default:
		// entries added during the iteration may or may not be produced
		c := st.choose(len(fresh) + 1)
		st.order = true
		if c == len(fresh) {
			return done
		}
		pick = fresh[c]
	}
	e := m.ents[pick]
	it := st.wr(uint32(itv.N)).it
	it.visited = append(it.visited, e.ins)
	return Val{K: KTuple, P: []Val{cBool(true), e.key, e.val}}
}

// maxOrders bounds the combinations of map iteration orders explored along one path.
const maxOrders = 256

// choose forks n ways; the choice is a fresh symbolic byte fixed per path.
func (st *State) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if st.merge {
		panic(mergeAbort{})
	}
	if k := len(st.pend); k > st.pendPos {
		v := st.pend[st.pendPos]
		st.pendPos++
		return v
	}
	for i := n - 1; i >= 1; i-- {
		alt := st.clone()
		alt.pend = append(append([]int(nil), st.pend...), i)
		alt.pendPos = 0
		st.w.push(alt)
		st.w.forks++
	}
	st.pend = append(append([]int(nil), st.pend...), 0)
	st.pendPos++
	return 0
}

// conversions

func (st *State) convert(v Val, from, to *TI) Val {
	switch {
	case from.kind == KInt && to.kind == KInt:
		if v.P == nil {
			x := v.N
			if from.signed {
				x = uint64(sext(x, from.w))
			}
			return cInt(x & maskW(to.w))
		}
		return cTerm(mkExt(v.P.(*Term), to.w, from.signed))
	case from.kind == KInt && to.kind == KFloat:
		if v.P != nil {
			st.unsupported("symbolic integer to float")
		}
		if from.signed {
			return fl(float64(sext(v.N, from.w)), to)
		}
		return fl(float64(v.N), to)
	case from.kind == KFloat && to.kind == KInt:
		if v.P != nil {
			st.unsupported("symbolic float to integer")
		}
		f := math.Float64frombits(v.N)
		if to.signed {
			return cInt(uint64(int64(f)) & maskW(to.w))
		}
		return cInt(uint64(f) & maskW(to.w))
	case from.kind == KFloat && to.kind == KFloat:
		if v.P != nil {
			if from.fk == to.fk {
				return v
			}
			st.unsupported("symbolic float conversion")
		}
		return fl(math.Float64frombits(v.N), to)
	case from.kind == KInt && to.kind == KString:
		if v.P != nil {
			return cStr(string(rune(sext(st.concretize(v.P.(*Term)), from.w))))
		}
		return cStr(string(rune(sext(v.N, from.w))))
	case from.kind == KString && to.kind == KString:
		return v
	case from.kind == KString && to.kind == KSlice:
		ei := elemTI(to.t)
		if ei.w == 8 {
			b := strBytes(v)
			return sliceVal(st.alloc(&Obj{cells: b, ti: ei}), 0, len(b), len(b))
		}
		var cells []Val
		if s, ok := v.P.(string); ok {
			for _, r := range s {
				cells = append(cells, cInt(uint64(uint32(r))))
			}
		} else {
			for _, b := range v.P.(*SymStr).b {
				if !st.decide(mkUlt(b.term(8), mkConst(0x80, 8))) {
					st.unsupported("non-ASCII symbolic string to []rune")
				}
				cells = append(cells, cTerm(mkExt(b.term(8), 32, false)))
			}
		}
		return sliceVal(st.alloc(&Obj{cells: cells, ti: ei}), 0, len(cells), len(cells))
	case from.kind == KSlice && to.kind == KString:
		ei := elemTI(from.t)
		if v.obj() == 0 {
			return cStr("")
		}
		cells := st.rd(v.obj()).cells[v.off() : v.off()+v.slen()]
		if ei.w == 8 {
			return mkStr(cells)
		}
		var rs []rune
		for _, c := range cells {
			if c.P != nil {
				rs = append(rs, rune(sext(st.concretize(c.P.(*Term)), 32)))
			} else {
				rs = append(rs, rune(sext(c.N, 32)))
			}
		}
		return cStr(string(rs))
	case from.kind == to.kind:
		return v
	case from.kind == KPtr && to.kind == KInt, from.kind == KInt && to.kind == KPtr:
		st.unsupported("pointer/integer conversion")
	}
	st.unsupported("conversion %s to %s", from.t, to.t)
	return Val{}
}

func implements(t, it *TI) bool {
	return types.Implements(t.t, it.t.Underlying().(*types.Interface))
}

// growslice capacities are taken from the running runtime

type growKey struct {
	size         int64
	ptr          bool
	oldLen, oldC int
	add          int
}

var growCache sync.Map
var sizes = types.SizesFor("gc", "amd64")

func hasPtr(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.String || u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPtr(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return u.Len() > 0 && hasPtr(u.Elem())
	}
	return true
}

type sizeInfo struct {
	size int64
	ptr  bool
}

var sizeCache sync.Map

func growCap(ei *TI, l, c, add int) int {
	var si sizeInfo
	if x, ok := sizeCache.Load(ei); ok {
		si = x.(sizeInfo)
	} else {
		si = sizeInfo{sizes.Sizeof(ei.t), hasPtr(ei.t)}
		sizeCache.Store(ei, si)
	}
	k := growKey{si.size, si.ptr, l, c, add}
	if x, ok := growCache.Load(k); ok {
		return x.(int)
	}
	var et reflect.Type
	if si.ptr && si.size%8 == 0 {
		et = reflect.ArrayOf(int(si.size/8), reflect.TypeOf((*int)(nil)))
	} else {
		et = reflect.ArrayOf(int(si.size), reflect.TypeOf(byte(0)))
	}
	s := reflect.MakeSlice(reflect.SliceOf(et), l, c)
	extra := reflect.MakeSlice(reflect.SliceOf(et), add, add)
	r := reflect.AppendSlice(s, extra).Cap()
	growCache.Store(k, r)
	return r
}

func (st *State) appendVals(s Val, ei *TI, add []Val, n int) Val {
	if n == 0 {
		return s
	}
	l, c := s.slen(), s.scap()
	if l+n <= c {
		o := st.wr(s.obj())
		copy(o.cells[s.off()+l*ei.size:], add)
		return sliceVal(s.obj(), s.off(), l+n, c)
	}
	nc := growCap(ei, l, c, n)
	if nc < l+n {
		nc = l + n
	}
	if nc*max1(ei.size) > 1<<22 {
		st.unsupported("append to %d elements", nc)
	}
	cells := make([]Val, 0, nc*ei.size)
	if l > 0 {
		cells = append(cells, st.rd(s.obj()).cells[s.off():s.off()+l*ei.size]...)
	}
	cells = append(cells, add...)
	for i := l + n; i < nc; i++ {
		cells = append(cells, ei.zeroCells()...)
	}
	return sliceVal(st.alloc(&Obj{cells: cells, ti: ei}), 0, l+n, nc)
}

func (st *State) sliceCells(s Val, ei *TI) []Val {
	if s.obj() == 0 || s.slen() == 0 {
		return nil
	}
	return st.rd(s.obj()).cells[s.off() : s.off()+s.slen()*ei.size]
}

// builtin returns the implementation of a builtin function.
func builtin(bi *ssa.Builtin, cc *ssa.CallCommon, rt types.Type) func(st *State, fr *Frame, a []Val) Val {
	name := bi.Name()
	switch name {
	case "len", "cap":
		t := cc.Args[0].Type().Underlying()
		return func(st *State, fr *Frame, a []Val) Val {
			x := a[0]
			switch x.K {
			case KString:
				return cInt(uint64(strLen(x)))
			case KSlice:
				if name == "cap" {
					return cInt(uint64(x.scap()))
				}
				return cInt(uint64(x.slen()))
			case KMap:
				return cInt(uint64(st.mapLen(x)))
			case KAgg:
				return cInt(uint64(t.(*types.Array).Len()))
			case KPtr:
				return cInt(uint64(t.(*types.Pointer).Elem().Underlying().(*types.Array).Len()))
			}
			st.unsupported("len of %v", t)
			return Val{}
		}
	case "append":
		ei := elemTI(cc.Args[0].Type())
		return func(st *State, fr *Frame, a []Val) Val {
			if a[1].K == KString {
				b := strBytes(a[1])
				return st.appendVals(a[0], ei, b, len(b))
			}
			return st.appendVals(a[0], ei, append([]Val(nil), st.sliceCells(a[1], ei)...), a[1].slen())
		}
	case "copy":
		ei := elemTI(cc.Args[0].Type())
		return func(st *State, fr *Frame, a []Val) Val {
			d := a[0]
			n := d.slen()
			var src []Val
			if a[1].K == KString {
				src = strBytes(a[1])
				if len(src) < n {
					n = len(src)
				}
			} else {
				if a[1].slen() < n {
					n = a[1].slen()
				}
				if n > 0 {
					src = append(src, st.sliceCells(a[1], ei)[:n*ei.size]...)
				}
			}
			if n > 0 {
				o := st.wr(d.obj())
				copy(o.cells[d.off():d.off()+n*ei.size], src)
			}
			return cInt(uint64(n))
		}
	case "delete":
		return func(st *State, fr *Frame, a []Val) Val { st.mapDelete(a[0], a[1]); return Val{} }
	case "clear":
		if _, ok := cc.Args[0].Type().Underlying().(*types.Map); ok {
			return func(st *State, fr *Frame, a []Val) Val { st.mapClear(a[0]); return Val{} }
		}
		ei := elemTI(cc.Args[0].Type())
		return func(st *State, fr *Frame, a []Val) Val {
			s := a[0]
			if s.slen() > 0 {
				o := st.wr(s.obj())
				for i := 0; i < s.slen(); i++ {
					copy(o.cells[s.off()+i*ei.size:], ei.zeroCells())
				}
			}
			return Val{}
		}
	case "min", "max":
		ti := typeInfo(cc.Args[0].Type())
		return func(st *State, fr *Frame, a []Val) Val {
			r := a[0]
			for _, x := range a[1:] {
				switch ti.kind {
				case KInt:
					p, q := x, r
					if name == "max" {
						p, q = r, x
					}
					var lt *Term
					if ti.signed {
						lt = mkSlt(p.term(ti.w), q.term(ti.w))
					} else {
						lt = mkUlt(p.term(ti.w), q.term(ti.w))
					}
					r = cTerm(mkIte(lt, x.term(ti.w), r.term(ti.w)))
				case KFloat:
					if x.P != nil || r.P != nil {
						st.unsupported("min/max of symbolic floats")
					}
					p, q := math.Float64frombits(x.N), math.Float64frombits(r.N)
					if name == "min" {
						r = fl(math.Min(q, p), ti)
					} else {
						r = fl(math.Max(q, p), ti)
					}
				case KString:
					var lt *Term
					if name == "min" {
						lt = strLess(x, r)
					} else {
						lt = strLess(r, x)
					}
					if st.decide(lt) {
						r = x
					}
				default:
					st.unsupported("min/max of %s", ti.t)
				}
			}
			return r
		}
	case "recover":
		return func(st *State, fr *Frame, a []Val) Val {
			if st.merge {
				panic(mergeAbort{})
			}
			k := len(st.frames)
			if fr.isDefer && k >= 2 {
				p := st.frameAt(k - 2)
				if p.unw && p.pv != nil {
					v := *p.pv
					p.pv = nil
					return v
				}
			}
			return Val{K: KIface}
		}
	case "print", "println":
		return func(st *State, fr *Frame, a []Val) Val { return Val{} }
	case "ssa:wrapnilchk":
		return func(st *State, fr *Frame, a []Val) Val {
			if a[0].N == 0 {
				nilDeref(st)
			}
			return a[0]
		}
	case "SliceData":
		return func(st *State, fr *Frame, a []Val) Val {
			if a[0].obj() == 0 {
				return Val{K: KPtr}
			}
			return ptrVal(a[0].obj(), a[0].off())
		}
	case "String":
		return func(st *State, fr *Frame, a []Val) Val {
			n := int(st.concInt(a[1], 64))
			if n == 0 {
				return cStr("")
			}
			return mkStr(st.rd(a[0].obj()).cells[a[0].off() : a[0].off()+n])
		}
	case "StringData":
		return func(st *State, fr *Frame, a []Val) Val {
			b := strBytes(a[0])
			if len(b) == 0 {
				return Val{K: KPtr}
			}
			return ptrVal(st.alloc(&Obj{cells: b, ti: typeInfo(types.Typ[types.Uint8])}), 0)
		}
	case "Slice":
		return func(st *State, fr *Frame, a []Val) Val {
			n := int(st.concInt(a[1], 64))
			if a[0].N == 0 {
				return Val{K: KSlice}
			}
			return sliceVal(a[0].obj(), a[0].off(), n, n)
		}
	}
	return func(st *State, fr *Frame, a []Val) Val {
		st.unsupported("builtin %s", name)
		return Val{}
	}
}

func (k Kind) String() string {
	return [...]string{"none", "int", "float", "string", "ptr", "slice", "map", "func", "iface", "agg", "tuple", "iter"}[k]
}

var _ = fmt.Sprint
