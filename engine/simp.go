package main

// Simplification of terms under the facts known on a path: bounds and equalities of
// terms against constants, and literals known outright.

type bnd struct {
	slo, shi int64
	ulo, uhi uint64
	ne       []uint64
}

type facts struct {
	lit map[*Term]bool
	b   map[*Term]*bnd
}

func (f *facts) of(t *Term) *bnd {
	x := f.b[t]
	if x == nil {
		w := t.W
		m := maskW(w)
		x = &bnd{slo: -(int64(1) << (w - 1)), shi: int64(1)<<(w-1) - 1, ulo: 0, uhi: m}
		f.b[t] = x
	}
	return x
}

// collect gathers the facts of a path; the list is short.
func (st *State) facts() *facts {
	if st.factsAt == st.known && st.factsC != nil {
		return st.factsC
	}
	f := &facts{lit: map[*Term]bool{}, b: map[*Term]*bnd{}}
	for l := st.known; l != nil; l = l.prev {
		t, v := l.t, true
		if t.Op == ONot {
			t, v = t.A, false
		}
		f.lit[t] = v
		switch t.Op {
		case OEq:
			x, c := t.A, t.B
			if isC(x) {
				x, c = c, x
			}
			if !isC(c) || x.W == 0 {
				break
			}
			b := f.of(x)
			if v {
				s := sext(c.C, x.W)
				b.slo, b.shi, b.ulo, b.uhi = s, s, c.C, c.C
			} else {
				b.ne = append(b.ne, c.C)
			}
		case OSlt:
			if isC(t.B) {
				b, c := f.of(t.A), sext(t.B.C, t.B.W)
				if v && c-1 < b.shi {
					b.shi = c - 1
				} else if !v && c > b.slo {
					b.slo = c
				}
			} else if isC(t.A) {
				b, c := f.of(t.B), sext(t.A.C, t.A.W)
				if v && c+1 > b.slo {
					b.slo = c + 1
				} else if !v && c < b.shi {
					b.shi = c
				}
			}
		case OUlt:
			if isC(t.B) {
				b, c := f.of(t.A), t.B.C
				if v && c-1 < b.uhi {
					b.uhi = c - 1
				} else if !v && c > b.ulo {
					b.ulo = c
				}
			} else if isC(t.A) {
				b, c := f.of(t.B), t.A.C
				if v && c+1 > b.ulo {
					b.ulo = c + 1
				} else if !v && c < b.uhi {
					b.uhi = c
				}
			}
		}
	}
	for t, b := range f.b {
		for ch := true; ch; {
			ch = false
			for _, n := range b.ne {
				if s := sext(n, t.W); b.slo < b.shi {
					if s == b.slo {
						b.slo++
						ch = true
					} else if s == b.shi {
						b.shi--
						ch = true
					}
				}
				if b.ulo < b.uhi {
					if n == b.ulo {
						b.ulo++
						ch = true
					} else if n == b.uhi {
						b.uhi--
						ch = true
					}
				}
			}
			if !ch {
				break
			}
		}
		if b.slo >= 0 && b.slo <= b.shi { // nonnegative: both views agree
			if uint64(b.slo) > b.ulo {
				b.ulo = uint64(b.slo)
			}
			if uint64(b.shi) < b.uhi {
				b.uhi = uint64(b.shi)
			}
		}
		if top := uint64(1) << (t.W - 1); b.uhi < top {
			if int64(b.ulo) > b.slo {
				b.slo = int64(b.ulo)
			}
			if int64(b.uhi) < b.shi {
				b.shi = int64(b.uhi)
			}
		}
	}
	st.factsC, st.factsAt = f, st.known
	return f
}

func (st *State) simp(t *Term) *Term {
	if t.Op == OConst || mergeRaw {
		return t
	}
	if t.size > 20000 {
		return t
	}
	f := st.facts()
	return f.rec(t, map[*Term]*Term{})
}

var mergeRaw = false

func (f *facts) rec(t *Term, memo map[*Term]*Term) *Term {
	if t.Op == OConst {
		return t
	}
	if t.W == 0 {
		if v, ok := f.lit[t]; ok {
			return mkBool(v)
		}
	} else if b := f.b[t]; b != nil {
		if b.slo == b.shi {
			return mkConst(uint64(b.slo), t.W)
		}
		if b.ulo == b.uhi {
			return mkConst(b.ulo, t.W)
		}
	}
	if t.Op == OVar {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	var r *Term
	switch t.Op {
	case ONot:
		r = mkNot(f.rec(t.A, memo))
	case OIte:
		c := f.rec(t.A, memo)
		if isC(c) {
			if c.C == 1 {
				r = f.rec(t.B, memo)
			} else {
				r = f.rec(t.D, memo)
			}
		} else {
			r = mkIte(c, f.rec(t.B, memo), f.rec(t.D, memo))
		}
	case OAnd:
		a := f.rec(t.A, memo)
		if a == tFalse {
			r = a
		} else {
			r = mkAnd(a, f.rec(t.B, memo))
		}
	case OOr:
		a := f.rec(t.A, memo)
		if a == tTrue {
			r = a
		} else {
			r = mkOr(a, f.rec(t.B, memo))
		}
	case OZExt:
		r = mkExt(f.rec(t.A, memo), t.W, false)
	case OSExt:
		r = mkExt(f.rec(t.A, memo), t.W, true)
	case OTrunc:
		r = mkTrunc(f.rec(t.A, memo), t.W)
	default:
		r = mkBin(t.Op, f.rec(t.A, memo), f.rec(t.B, memo))
	}
	r = f.atom(r)
	memo[t] = r
	return r
}

// atom decides a comparison against a constant from bounds.
func (f *facts) atom(t *Term) *Term {
	if t.W != 0 || t.Op == OConst {
		return t
	}
	if v, ok := f.lit[t]; ok {
		return mkBool(v)
	}
	switch t.Op {
	case OEq:
		x, c := t.A, t.B
		if isC(x) {
			x, c = c, x
		}
		if b := f.b[x]; b != nil && isC(c) && x.W != 0 {
			s := sext(c.C, x.W)
			if s < b.slo || s > b.shi || c.C < b.ulo || c.C > b.uhi {
				return tFalse
			}
			for _, n := range b.ne {
				if n == c.C {
					return tFalse
				}
			}
		}
	case OSlt:
		if isC(t.B) {
			if b := f.b[t.A]; b != nil {
				c := sext(t.B.C, t.B.W)
				if b.shi < c {
					return tTrue
				}
				if b.slo >= c {
					return tFalse
				}
			}
		} else if isC(t.A) {
			if b := f.b[t.B]; b != nil {
				c := sext(t.A.C, t.A.W)
				if c < b.slo {
					return tTrue
				}
				if c >= b.shi {
					return tFalse
				}
			}
		}
	case OUlt:
		if isC(t.B) {
			if b := f.b[t.A]; b != nil {
				if b.uhi < t.B.C {
					return tTrue
				}
				if b.ulo >= t.B.C {
					return tFalse
				}
			}
		} else if isC(t.A) {
			if b := f.b[t.B]; b != nil {
				if t.A.C < b.ulo {
					return tTrue
				}
				if t.A.C >= b.uhi {
					return tFalse
				}
			}
		}
	}
	return t
}
