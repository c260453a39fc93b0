package main

// Hash-consed bit-vector/boolean terms with a light simplifier.

import (
	"fmt"
	"math/bits"
	"strings"
	"sync"
	"sync/atomic"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OUlt
	OSlt
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OShl
	OLShr
	OAShr
	OZExt
	OSExt
	OTrunc // extract low bits
)

var opName = map[Op]string{OAnd: "and", OOr: "or", ONot: "not", OEq: "=", OUlt: "bvult", OSlt: "bvslt", OIte: "ite",
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem",
	OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr"}

// Term is immutable; equal terms are the same pointer. W==0 means Bool.
type Term struct {
	Op      Op
	W       uint8
	C       uint64 // constant value, or variable index
	A, B, D *Term
	ID      uint32
	Name    string // variables
	hash    uint64
	cst     bool // all leaves of an ite tree constant
	size    uint32
}

const nshard = 64

type shard struct {
	mu sync.Mutex
	m  map[uint64][]*Term
}

var shards = newShards()
var termCount uint32

func newShards() (s [nshard]*shard) {
	for i := range s {
		s[i] = &shard{m: map[uint64][]*Term{}}
	}
	return
}

func mix(h, x uint64) uint64 {
	h ^= x + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
	h *= 0xff51afd7ed558ccd
	return h ^ (h >> 31)
}

func intern(t Term) *Term {
	h := mix(uint64(t.Op)<<8|uint64(t.W), t.C)
	if t.A != nil {
		h = mix(h, uint64(t.A.ID))
	}
	if t.B != nil {
		h = mix(h, uint64(t.B.ID)+7)
	}
	if t.D != nil {
		h = mix(h, uint64(t.D.ID)+13)
	}
	for i := 0; i < len(t.Name); i++ {
		h = mix(h, uint64(t.Name[i]))
	}
	s := shards[h%nshard]
	s.mu.Lock()
	for _, x := range s.m[h] {
		if x.Op == t.Op && x.W == t.W && x.C == t.C && x.A == t.A && x.B == t.B && x.D == t.D && x.Name == t.Name {
			s.mu.Unlock()
			return x
		}
	}
	n := new(Term)
	*n = t
	n.hash = h
	n.ID = atomic.AddUint32(&termCount, 1)
	n.size = 1
	for _, c := range []*Term{t.A, t.B, t.D} {
		if c != nil {
			n.size += c.size
			if n.size > 1<<30 {
				n.size = 1 << 30
			}
		}
	}
	n.cst = t.Op == OConst || (t.Op == OIte && t.B.cst && t.D.cst && n.size < 200)
	s.m[h] = append(s.m[h], n)
	s.mu.Unlock()
	return n
}

func maskW(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 || w == 0 {
		return int64(v)
	}
	return int64(v<<(64-w)) >> (64 - w)
}

func mkConst(v uint64, w uint8) *Term { return intern(Term{Op: OConst, W: w, C: v & maskW(w)}) }

var tTrue = mkConst(1, 0)
var tFalse = mkConst(0, 0)

func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func mkVar(name string, w uint8, idx int) *Term {
	return intern(Term{Op: OVar, W: w, C: uint64(idx), Name: name})
}

func isC(t *Term) bool { return t.Op == OConst }

func mkNot(a *Term) *Term {
	switch a.Op {
	case OConst:
		return mkBool(a.C == 0)
	case ONot:
		return a.A
	}
	return intern(Term{Op: ONot, A: a})
}

func mkAnd(a, b *Term) *Term {
	if isC(a) {
		if a.C == 0 {
			return tFalse
		}
		return b
	}
	if isC(b) {
		if b.C == 0 {
			return tFalse
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.Op == ONot && a.A == b) || (b.Op == ONot && b.A == a) {
		return tFalse
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return intern(Term{Op: OAnd, A: a, B: b})
}

func mkOr(a, b *Term) *Term {
	if isC(a) {
		if a.C == 1 {
			return tTrue
		}
		return b
	}
	if isC(b) {
		if b.C == 1 {
			return tTrue
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.Op == ONot && a.A == b) || (b.Op == ONot && b.A == a) {
		return tTrue
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return intern(Term{Op: OOr, A: a, B: b})
}

func mkIte(c, a, b *Term) *Term {
	if isC(c) {
		if c.C == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if c.Op == ONot {
		return mkIte(c.A, b, a)
	}
	if a.W == 0 {
		if isC(a) {
			if a.C == 1 {
				return mkOr(c, b)
			}
			return mkAnd(mkNot(c), b)
		}
		if isC(b) {
			if b.C == 1 {
				return mkOr(mkNot(c), a)
			}
			return mkAnd(c, a)
		}
	}
	if a.Op == OIte && a.A == c {
		a = a.B
	}
	if b.Op == OIte && b.A == c {
		b = b.D
	}
	if a == b {
		return a
	}
	// ite(c, x, ite(d, x, y)) == ite(c||d, x, y)
	if b.Op == OIte && b.B == a {
		return mkIte(mkOr(c, b.A), a, b.D)
	}
	return intern(Term{Op: OIte, W: a.W, A: c, B: a, D: b})
}

func evalBin(op Op, a, b uint64, w uint8) uint64 {
	m := maskW(w)
	switch op {
	case OAnd:
		return a & b
	case OOr:
		return a | b
	case OEq:
		return b2u(a == b)
	case OUlt:
		return b2u(a < b)
	case OSlt:
		return b2u(sext(a, w) < sext(b, w))
	case OAdd:
		return (a + b) & m
	case OSub:
		return (a - b) & m
	case OMul:
		return (a * b) & m
	case OUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case OURem:
		if b == 0 {
			return a
		}
		return a % b
	case OSDiv:
		sa, sb := sext(a, w), sext(b, w)
		if sb == 0 {
			if sa >= 0 {
				return m
			}
			return 1
		}
		if sb == -1 {
			return uint64(-sa) & m
		}
		return uint64(sa/sb) & m
	case OSRem:
		sa, sb := sext(a, w), sext(b, w)
		if sb == 0 {
			return a
		}
		if sb == -1 {
			return 0
		}
		return uint64(sa%sb) & m
	case OBAnd:
		return a & b
	case OBOr:
		return a | b
	case OBXor:
		return a ^ b
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case OLShr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAShr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sext(a, w)>>b) & m
	}
	panic("evalBin")
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func mapIteConst(t *Term, f func(*Term) *Term) *Term {
	if t.Op == OConst {
		return f(t)
	}
	return mkIte(t.A, mapIteConst(t.B, f), mapIteConst(t.D, f))
}

func mkEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if isC(a) && isC(b) {
		return tFalse
	}
	if a.W == 0 {
		if isC(a) {
			a, b = b, a
		}
		if isC(b) {
			if b.C == 1 {
				return a
			}
			return mkNot(a)
		}
		if a == mkNot(b) {
			return tFalse
		}
	}
	if isC(a) {
		a, b = b, a
	}
	if isC(b) {
		if a.Op == OIte && a.cst {
			return mapIteConst(a, func(k *Term) *Term { return mkEq(k, b) })
		}
		switch a.Op {
		case OZExt:
			if b.C > maskW(a.A.W) {
				return tFalse
			}
			return mkEq(a.A, mkConst(b.C, a.A.W))
		case OSExt:
			k := mkConst(b.C, a.A.W)
			if uint64(sext(k.C, a.A.W))&maskW(a.W) != b.C {
				return tFalse
			}
			return mkEq(a.A, k)
		case OAdd:
			if isC(a.B) {
				return mkEq(a.A, mkConst(b.C-a.B.C, a.W))
			}
		case OBXor:
			if isC(a.B) {
				return mkEq(a.A, mkConst(b.C^a.B.C, a.W))
			}
		case OMul:
			if isC(a.B) && a.B.C&1 == 1 {
				return mkEq(a.A, mkConst(b.C*invOdd(a.B.C), a.W))
			}
		}
	}
	if a.Op == OIte && b.Op == OIte && a.cst && b.cst && a.size*b.size < 400 {
		return mapIteConst(a, func(k *Term) *Term { return mkEq(b, k) })
	}
	if (a.Op == OZExt && b.Op == OZExt || a.Op == OSExt && b.Op == OSExt) && a.A.W == b.A.W {
		return mkEq(a.A, b.A)
	}
	// injective shapes: x+k = y+k ; x^k = y^k ; x*odd = y*odd
	if a.Op == b.Op && (a.Op == OAdd || a.Op == OBXor || a.Op == OMul) && isC(a.B) && a.B == b.B && (a.Op != OMul || a.B.C&1 == 1) {
		useLemma(a.Op, a.B.C, a.W)
		return mkEq(a.A, b.A)
	}
	// xorshift x ^ (x >> k) is a bijection for k >= 1 (likewise left shift)
	if x, k, op, ok := xorshift(a); ok {
		if y, k2, op2, ok2 := xorshift(b); ok2 && k == k2 && op == op2 {
			useLemma(op, k, a.W)
			return mkEq(x, y)
		}
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return intern(Term{Op: OEq, A: a, B: b})
}

// xorshift recognises x ^ (x >> k) or x ^ (x << k), k constant >= 1.
func xorshift(t *Term) (x *Term, k uint64, op Op, ok bool) {
	if t.Op != OBXor {
		return
	}
	for _, p := range [2][2]*Term{{t.A, t.B}, {t.B, t.A}} {
		s := p[1]
		if (s.Op == OLShr || s.Op == OShl) && s.A == p[0] && isC(s.B) && s.B.C >= 1 {
			return p[0], s.B.C, s.Op, true
		}
	}
	return
}

func invOdd(a uint64) uint64 {
	x := a
	for i := 0; i < 6; i++ {
		x *= 2 - a*x
	}
	return x
}

func mkUlt(a, b *Term) *Term {
	if a == b {
		return tFalse
	}
	if isC(a) && isC(b) {
		return mkBool(a.C < b.C)
	}
	if isC(b) && b.C == 0 {
		return tFalse
	}
	if isC(a) && a.C == maskW(a.W) {
		return tFalse
	}
	if a.Op == OZExt && b.Op == OZExt && a.A.W == b.A.W {
		return mkUlt(a.A, b.A)
	}
	if isC(b) && a.Op == OZExt {
		if b.C > maskW(a.A.W) {
			return tTrue
		}
		return mkUlt(a.A, mkConst(b.C, a.A.W))
	}
	if isC(a) && b.Op == OZExt {
		if a.C >= maskW(b.A.W) {
			return tFalse
		}
		return mkUlt(mkConst(a.C, b.A.W), b.A)
	}
	if isC(b) && a.Op == OIte && a.cst {
		return mapIteConst(a, func(k *Term) *Term { return mkUlt(k, b) })
	}
	if isC(a) && b.Op == OIte && b.cst {
		return mapIteConst(b, func(k *Term) *Term { return mkUlt(a, k) })
	}
	return intern(Term{Op: OUlt, A: a, B: b})
}

func mkSlt(a, b *Term) *Term {
	if a == b {
		return tFalse
	}
	if isC(a) && isC(b) {
		return mkBool(sext(a.C, a.W) < sext(b.C, b.W))
	}
	w := a.W
	if a.Op == OSExt && b.Op == OSExt && a.A.W == b.A.W {
		return mkSlt(a.A, b.A)
	}
	if a.Op == OZExt && b.Op == OZExt && a.A.W == b.A.W {
		return mkUlt(a.A, b.A)
	}
	if isC(b) {
		k := sext(b.C, w)
		switch a.Op {
		case OZExt:
			if k <= 0 {
				return tFalse
			}
			return mkUlt(a, b)
		case OSExt:
			lo, hi := -(int64(1) << (a.A.W - 1)), int64(1)<<(a.A.W-1)-1
			if k > hi {
				return tTrue
			}
			if k <= lo {
				return tFalse
			}
			return mkSlt(a.A, mkConst(uint64(k), a.A.W))
		case OIte:
			if a.cst {
				return mapIteConst(a, func(x *Term) *Term { return mkSlt(x, b) })
			}
		}
		if k == -(int64(1) << (w - 1)) {
			return tFalse
		}
	}
	if isC(a) {
		k := sext(a.C, w)
		switch b.Op {
		case OZExt:
			if k < 0 {
				return tTrue
			}
			return mkUlt(a, b)
		case OSExt:
			lo, hi := -(int64(1) << (b.A.W - 1)), int64(1)<<(b.A.W-1)-1
			if k >= hi {
				return tFalse
			}
			if k < lo {
				return tTrue
			}
			return mkSlt(mkConst(uint64(k), b.A.W), b.A)
		case OIte:
			if b.cst {
				return mapIteConst(b, func(x *Term) *Term { return mkSlt(a, x) })
			}
		}
		if k == (int64(1)<<(w-1))-1 {
			return tFalse
		}
	}
	return intern(Term{Op: OSlt, A: a, B: b})
}

func mkBin(op Op, a, b *Term) *Term {
	switch op {
	case OAnd:
		return mkAnd(a, b)
	case OOr:
		return mkOr(a, b)
	case OEq:
		return mkEq(a, b)
	case OUlt:
		return mkUlt(a, b)
	case OSlt:
		return mkSlt(a, b)
	}
	w := a.W
	if isC(a) && isC(b) {
		return mkConst(evalBin(op, a.C, b.C, w), w)
	}
	comm := op == OAdd || op == OMul || op == OBAnd || op == OBOr || op == OBXor
	if comm && isC(a) {
		a, b = b, a
	}
	if op == OSub && isC(b) {
		return mkBin(OAdd, a, mkConst(-b.C, w))
	}
	if isC(b) {
		switch op {
		case OAdd:
			if b.C == 0 {
				return a
			}
			if a.Op == OAdd && isC(a.B) {
				return mkBin(OAdd, a.A, mkConst(a.B.C+b.C, w))
			}
		case OBOr, OBXor, OShl, OLShr, OAShr:
			if b.C == 0 {
				return a
			}
			if op == OBXor && a.Op == OBXor && isC(a.B) {
				return mkBin(OBXor, a.A, mkConst(a.B.C^b.C, w))
			}
			if op == OLShr && a.Op == OLShr && isC(a.B) {
				if a.B.C+b.C >= uint64(w) {
					return mkConst(0, w)
				}
				return mkBin(OLShr, a.A, mkConst(a.B.C+b.C, w))
			}
			if (op == OShl || op == OLShr) && b.C >= uint64(w) {
				return mkConst(0, w)
			}
		case OMul:
			if b.C == 0 {
				return b
			}
			if b.C == 1 {
				return a
			}
			if a.Op == OMul && isC(a.B) {
				return mkBin(OMul, a.A, mkConst(a.B.C*b.C, w))
			}
		case OBAnd:
			if b.C == 0 {
				return b
			}
			if b.C == maskW(w) {
				return a
			}
			if a.Op == OZExt && b.C&maskW(a.A.W) == maskW(a.A.W) {
				return a
			}
		case OUDiv:
			if b.C == 1 {
				return a
			}
			if b.C != 0 && b.C&(b.C-1) == 0 {
				return mkBin(OLShr, a, mkConst(uint64(bits.TrailingZeros64(b.C)), w))
			}
		case OURem:
			if b.C != 0 && b.C&(b.C-1) == 0 {
				return mkBin(OBAnd, a, mkConst(b.C-1, w))
			}
		}
		if a.Op == OIte && a.cst {
			return mapIteConst(a, func(k *Term) *Term { return mkBin(op, k, b) })
		}
	}
	if isC(a) {
		if a.C == 0 && (op == OShl || op == OLShr || op == OAShr) {
			return a
		}
		if b.Op == OIte && b.cst {
			return mapIteConst(b, func(k *Term) *Term { return mkBin(op, a, k) })
		}
	}
	if a == b {
		switch op {
		case OSub, OBXor:
			return mkConst(0, w)
		case OBAnd, OBOr:
			return a
		}
	}
	if a.Op == OIte && b.Op == OIte && a.cst && b.cst && a.size*b.size < 100 {
		return mapIteConst(a, func(k *Term) *Term { return mkBin(op, k, b) })
	}
	if comm && !isC(b) && a.ID > b.ID {
		a, b = b, a
	}
	return intern(Term{Op: op, W: w, A: a, B: b})
}

func mkExt(a *Term, w uint8, signed bool) *Term {
	if a.W == w {
		return a
	}
	if a.W > w {
		return mkTrunc(a, w)
	}
	if isC(a) {
		if signed {
			return mkConst(uint64(sext(a.C, a.W)), w)
		}
		return mkConst(a.C, w)
	}
	if a.Op == OIte && a.cst {
		return mapIteConst(a, func(k *Term) *Term { return mkExt(k, w, signed) })
	}
	if a.Op == OZExt {
		return mkExt(a.A, w, false)
	}
	if signed {
		if a.Op == OSExt {
			return mkExt(a.A, w, true)
		}
		return intern(Term{Op: OSExt, W: w, A: a})
	}
	return intern(Term{Op: OZExt, W: w, A: a})
}

func mkTrunc(a *Term, w uint8) *Term {
	if a.W == w {
		return a
	}
	if isC(a) {
		return mkConst(a.C, w)
	}
	if a.Op == OZExt || a.Op == OSExt {
		if a.A.W == w {
			return a.A
		}
		if a.A.W > w {
			return mkTrunc(a.A, w)
		}
		return mkExt(a.A, w, a.Op == OSExt)
	}
	if a.Op == OTrunc {
		return mkTrunc(a.A, w)
	}
	if a.Op == OIte && a.cst {
		return mapIteConst(a, func(k *Term) *Term { return mkTrunc(k, w) })
	}
	return intern(Term{Op: OTrunc, W: w, A: a})
}

// mkB2I turns a Bool into a w-bit 0/1.
func mkB2I(c *Term, w uint8) *Term { return mkIte(c, mkConst(1, w), mkConst(0, w)) }

// Model maps variable terms to values; absent means 0.
type Model map[*Term]uint64

func (m Model) eval(t *Term) uint64 {
	if t.size < 40 {
		return m.evalRec(t)
	}
	return m.evalMemo(t, map[*Term]uint64{})
}

func (m Model) evalRec(t *Term) uint64 {
	switch t.Op {
	case OConst:
		return t.C
	case OVar:
		return m[t]
	case ONot:
		return 1 - m.evalRec(t.A)
	case OIte:
		if m.evalRec(t.A) == 1 {
			return m.evalRec(t.B)
		}
		return m.evalRec(t.D)
	case OZExt:
		return m.evalRec(t.A)
	case OSExt:
		return uint64(sext(m.evalRec(t.A), t.A.W)) & maskW(t.W)
	case OTrunc:
		return m.evalRec(t.A) & maskW(t.W)
	}
	return evalBin(t.Op, m.evalRec(t.A), m.evalRec(t.B), t.A.W)
}

func (m Model) evalMemo(t *Term, memo map[*Term]uint64) uint64 {
	switch t.Op {
	case OConst:
		return t.C
	case OVar:
		return m[t]
	}
	if v, ok := memo[t]; ok {
		return v
	}
	var r uint64
	switch t.Op {
	case ONot:
		r = 1 - m.evalMemo(t.A, memo)
	case OIte:
		if m.evalMemo(t.A, memo) == 1 {
			r = m.evalMemo(t.B, memo)
		} else {
			r = m.evalMemo(t.D, memo)
		}
	case OZExt:
		r = m.evalMemo(t.A, memo)
	case OSExt:
		r = uint64(sext(m.evalMemo(t.A, memo), t.A.W)) & maskW(t.W)
	case OTrunc:
		r = m.evalMemo(t.A, memo) & maskW(t.W)
	default:
		r = evalBin(t.Op, m.evalMemo(t.A, memo), m.evalMemo(t.B, memo), t.A.W)
	}
	memo[t] = r
	return r
}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func constSMT(t *Term) string {
	if t.W == 0 {
		if t.C == 1 {
			return "true"
		}
		return "false"
	}
	if t.W%4 == 0 {
		return fmt.Sprintf("#x%0*x", t.W/4, t.C)
	}
	return fmt.Sprintf("#b%0*b", t.W, t.C)
}

func (t *Term) String() string {
	switch t.Op {
	case OConst:
		if t.W == 0 {
			return constSMT(t)
		}
		return fmt.Sprint(sext(t.C, t.W))
	case OVar:
		return t.Name
	}
	if t.size > 60 {
		return fmt.Sprintf("t%d<%d nodes>", t.ID, t.size)
	}
	var sb strings.Builder
	n := opName[t.Op]
	switch t.Op {
	case OZExt:
		n = "zext"
	case OSExt:
		n = "sext"
	case OTrunc:
		n = "trunc"
	}
	sb.WriteString("(" + n)
	for _, c := range []*Term{t.A, t.B, t.D} {
		if c != nil {
			sb.WriteString(" " + c.String())
		}
	}
	sb.WriteString(")")
	return sb.String()
}
