package main

// Symbolic states: copy-on-write heap and frames, path condition, decisions.

import (
	"fmt"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

const chunkSize = 64

type chunk struct {
	owner uint64
	objs  [chunkSize]*Obj
}

type lit struct {
	t    *Term // asserted true
	prev *lit
}

type ndRec struct {
	name string
	v    Val
	w    uint8
	sgn  bool
}

type deferred struct {
	clo  *Closure
	args []Val
	bi   func(st *State, args []Val) // builtin
	next *deferred
}

type Frame struct {
	owner   uint64
	fn      *Fn
	regs    []Val
	blk     *Blk
	prev    int
	ip      int
	dst     int // caller register for the result, -1 none
	defers  *deferred
	isDefer bool // this frame is a deferred call
	unw     bool // running deferred calls because of a panic
	pv      *Val // the active panic, nil once recovered
}

type State struct {
	id       uint64
	w        *Worker
	chunks   []*chunk
	next     uint32
	frames   []*Frame
	pc       []*Term // asserted in solver
	known    *lit    // everything known true, including implied literals
	model    Model
	vars     []*Term
	nd       []ndRec
	obs      []Val
	obsW     []uint8
	steps    int64
	depth    int
	order    bool // map iteration order was chosen on this path
	mapMax   int
	orders   int   // combinations of map iteration orders chosen from so far
	pend     []int // choices already made inside the current instruction
	pendPos  int
	run      *Run
	merge    bool
	floor    uint32 // in merge mode: objects below may not be written
	nasserts int
	factsC   *facts
	factsAt  *lit
	pendA    *pendAssert // assertions not yet decided by the solver
	reached  bool
	folds    *fold // comparisons the term rewriting decided, audited by the solver
}

// fold is a comparison over symbolic operands whose result the rewriting found to be
// the same for all values. The solver confirms all folds of a path in one query.
type fold struct {
	t    *Term // unsimplified comparison, or its negation: must be valid under the path condition
	n    int
	hard bool // an assertion that follows from the path condition only
	prev *fold
}

const maxFolds = 32

func (st *State) noteFold(op Op, a, b *Term, res *Term) {
	if st.folds != nil && st.folds.n >= maxFolds {
		return
	}
	r := intern(Term{Op: op, A: a, B: b})
	if res == tFalse {
		r = intern(Term{Op: ONot, A: r})
	}
	st.addFold(r, false)
}

func (st *State) addFold(r *Term, hard bool) {
	n := 1
	if st.folds != nil {
		if n = st.folds.n + 1; n > maxFolds {
			return
		}
		k := 0
		for p := st.folds; p != nil && k < 8; p = p.prev {
			if p.t == r {
				return
			}
			k++
		}
	}
	st.folds = &fold{r, n, hard, st.folds}
}

// audit has the solver confirm the folds of a finished path.
func (w *Worker) audit(st *State) {
	if st.folds == nil {
		return
	}
	conj := tTrue
	seen := map[*Term]bool{}
	// the hard ones are expensive: quick runs confirm them on every eighth path
	w.auditTick++
	hard := *fTier == "thorough" || w.auditTick&7 == 1
	for p := st.folds; p != nil; p = p.prev {
		if seen[p.t] || p.hard && !hard {
			continue
		}
		seen[p.t] = true
		if conj == tTrue {
			conj = p.t
		} else {
			conj = intern(Term{Op: OAnd, A: p.t, B: conj})
		}
	}
	if conj == tTrue {
		return
	}
	w.audited += int64(len(seen))
	w.auditQueries++
	if r, _ := w.check(st, intern(Term{Op: ONot, A: conj})); r != Unsat {
		w.ex.inconclusive("the solver does not confirm a rewriting: " + r.String())
	}
}

var stateIDs uint64

func newStateID() uint64 { return atomic.AddUint64(&stateIDs, 1) }

func (st *State) clone() *State {
	n := new(State)
	*n = *st
	n.id = newStateID()
	n.chunks = append([]*chunk(nil), st.chunks...)
	n.frames = append([]*Frame(nil), st.frames...)
	st.pc = st.pc[:len(st.pc):len(st.pc)]
	n.pc = st.pc
	st.vars = st.vars[:len(st.vars):len(st.vars)]
	n.vars = st.vars
	st.nd = st.nd[:len(st.nd):len(st.nd)]
	n.nd = st.nd
	st.obs = st.obs[:len(st.obs):len(st.obs)]
	n.obs = st.obs
	st.obsW = st.obsW[:len(st.obsW):len(st.obsW)]
	n.obsW = st.obsW
	n.pendPos = 0
	st.id = newStateID()
	// the running state keeps its top frame exclusively
	if k := len(st.frames); k > 0 {
		top := st.frames[k-1]
		n.frames[k-1] = top.copyFor(n.id)
		top.owner = st.id
	}
	return n
}

func (f *Frame) copyFor(id uint64) *Frame {
	n := new(Frame)
	*n = *f
	n.owner = id
	n.regs = append([]Val(nil), f.regs...)
	return n
}

func (st *State) frameAt(k int) *Frame {
	f := st.frames[k]
	if f.owner != st.id {
		f = f.copyFor(st.id)
		st.frames[k] = f
	}
	return f
}

func (st *State) top() *Frame {
	k := len(st.frames) - 1
	f := st.frames[k]
	if f.owner != st.id {
		f = f.copyFor(st.id)
		st.frames[k] = f
	}
	return f
}

func (st *State) alloc(o *Obj) uint32 {
	id := st.next
	if id < globMax {
		id = globMax
	}
	st.next = id + 1
	st.put(id, o)
	return id
}

func (st *State) put(id uint32, o *Obj) {
	ci := int(id / chunkSize)
	for ci >= len(st.chunks) {
		st.chunks = append(st.chunks, nil)
	}
	c := st.chunks[ci]
	if c == nil {
		c = &chunk{owner: st.id}
		st.chunks[ci] = c
	} else if c.owner != st.id {
		n := new(chunk)
		*n = *c
		n.owner = st.id
		st.chunks[ci] = n
		c = n
	}
	o.owner = st.id
	c.objs[id%chunkSize] = o
}

func (st *State) rd(id uint32) *Obj {
	if id < globMax {
		st.global(id)
	}
	return st.chunks[id/chunkSize].objs[id%chunkSize]
}

// global materialises a package-level variable on first use.
func (st *State) global(id uint32) {
	if ci := int(id / chunkSize); ci < len(st.chunks) && st.chunks[ci] != nil && st.chunks[ci].objs[id%chunkSize] != nil {
		return
	}
	globMu.Lock()
	g := globList[id-1]
	globMu.Unlock()
	ti := elemTI(g.Type())
	st.put(id, &Obj{cells: append([]Val(nil), ti.zeroCells()...), ti: ti})
}

func (st *State) wr(id uint32) *Obj {
	if st.merge && id < st.floor {
		panic(mergeAbort{})
	}
	if id < globMax {
		st.global(id)
	}
	c := st.chunks[id/chunkSize]
	if c.owner != st.id {
		n := new(chunk)
		*n = *c
		n.owner = st.id
		st.chunks[id/chunkSize] = n
		c = n
	}
	o := c.objs[id%chunkSize]
	if o.owner != st.id {
		n := new(Obj)
		*n = *o
		n.owner = st.id
		n.cells = append([]Val(nil), o.cells...)
		if o.m != nil {
			m := *o.m
			m.ents = append([]mapEnt(nil), o.m.ents...)
			n.m = &m
		}
		if o.it != nil {
			it := *o.it
			it.visited = append([]int(nil), o.it.visited...)
			n.it = &it
		}
		c.objs[id%chunkSize] = n
		o = n
	}
	return o
}

// control-flow signals raised with panic
type mergeAbort struct{}

const maxDepth = 3000

type hang struct{ what string }   // no end within the step/depth bound
type endPath struct{ why string } // path silently ends
type goPanic struct{ v Val }      // Go-level panic
type unsupported struct{ what string }
type violation struct {
	msg   string
	model Model
}

func (st *State) unsupported(f string, a ...any) {
	if st.merge {
		panic(mergeAbort{})
	}
	panic(unsupported{fmt.Sprintf(f, a...)})
}

func (st *State) rtPanic(f string, a ...any) {
	if st.merge {
		panic(mergeAbort{})
	}
	panic(goPanic{Val{K: KIface, P: &IfaceVal{t: typeInfo(tString), v: cStr("runtime error: " + fmt.Sprintf(f, a...))}}})
}

func (st *State) addKnown(t *Term) {
	st.known = &lit{t, st.known}
	if t.Op == OAnd {
		st.addKnown(t.A)
		st.addKnown(t.B)
	} else if t.Op == ONot && t.A.Op == OOr {
		st.addKnown(mkNot(t.A.A))
		st.addKnown(mkNot(t.A.B))
	}
}

func (st *State) assertPC(t *Term) {
	if t == tTrue {
		return
	}
	st.pc = append(st.pc, t)
	st.addKnown(t)
}

// lookup finds a literal syntactically known on this path.
func (st *State) lookup(t *Term) (val, ok bool) {
	n := mkNot(t)
	for l := st.known; l != nil; l = l.prev {
		if l.t == t {
			return true, true
		}
		if l.t == n {
			return false, true
		}
	}
	return false, false
}

// decide returns the truth value of t on this path, forking when both are possible.
func (st *State) decide(t *Term) bool {
	if t.Op == OConst {
		return t.C == 1
	}
	if v, ok := st.lookup(t); ok {
		return v
	}
	if st.merge {
		panic(mergeAbort{})
	}
	w := st.w
	w.branches++
	if s := st.simp(t); s.Op == OConst {
		st.addKnown(t2lit(t, s.C == 1))
		return s.C == 1
	}
	b := st.model.eval(t) == 1
	mine, other := t, mkNot(t)
	if !b {
		mine, other = other, mine
	}
	r, m := w.check(st, other)
	switch r {
	case Unsat:
		st.addKnown(mine)
		return b
	case Unknown:
		w.ex.inconclusive("branch feasibility")
		// other side unexplored
		st.assertPC(mine)
		return b
	}
	alt := st.clone()
	alt.assertPC(other)
	alt.model = m
	alt.depth++
	w.push(alt)
	st.assertPC(mine)
	st.depth++
	w.forks++
	return b
}

// concretize picks a concrete value for t, forking over all feasible ones.
func (st *State) concretize(t *Term) uint64 {
	if t.Op == OConst {
		return t.C
	}
	if st.merge {
		panic(mergeAbort{})
	}
	v := st.model.eval(t)
	st.decide(mkEq(t, mkConst(v, t.W)))
	return v
}

func (st *State) concInt(v Val, w uint8) int64 {
	if v.P == nil {
		return sext(v.N, w)
	}
	return sext(st.concretize(v.P.(*Term)), w)
}

func (st *State) assume(t *Term) {
	if t.Op == OConst {
		if t.C == 0 {
			panic(endPath{"assume"})
		}
		return
	}
	st.flushAsserts()
	if v, ok := st.lookup(t); ok {
		if !v {
			panic(endPath{"assume"})
		}
		return
	}
	if st.model.eval(t) == 1 {
		st.assertPC(t)
		return
	}
	r, m := st.w.check(st, t)
	switch r {
	case Sat:
		st.model = m
		st.assertPC(t)
	case Unsat:
		panic(endPath{"assume"})
	default:
		st.w.ex.inconclusive("assume")
		panic(endPath{"assume unknown"})
	}
}

func (st *State) assertProp(t *Term, msg string) {
	w := st.w
	st.nasserts++
	w.asserts++
	if t.Op == OConst {
		if t.C == 1 {
			w.assertsConst++
			return
		}
		panic(violation{msg, st.model})
	}
	if st.model.eval(t) == 0 {
		panic(violation{msg, st.model})
	}
	if s := st.simp(t); s == tTrue {
		w.assertsConst++
		st.addFold(t, true)
		return
	}
	for p := st.pendA; p != nil; p = p.prev {
		if p.t == t {
			return
		}
	}
	st.pendA = &pendAssert{t, msg, st.pendA}
}

type pendAssert struct {
	t    *Term
	msg  string
	prev *pendAssert
}

// flushAsserts decides the pending assertions of the path in one query. They are
// pending only while the path condition grows by decisions whose other outcomes are
// explored with the same pending assertions.
func (st *State) flushAsserts() {
	if st.pendA == nil {
		return
	}
	w := st.w
	conj := tTrue
	for p := st.pendA; p != nil; p = p.prev {
		if st.model.eval(p.t) == 0 {
			m := p.msg
			st.pendA = nil
			panic(violation{m, st.model})
		}
		conj = mkAnd(conj, st.simp(p.t))
	}
	list := st.pendA
	st.pendA = nil
	if conj == tTrue {
		return
	}
	r, m := w.check(st, mkNot(conj))
	w.assertQueries++
	switch r {
	case Unsat:
		st.addKnown(conj)
	case Sat:
		msg := list.msg
		for p := list; p != nil; p = p.prev {
			if m.eval(p.t) == 0 {
				msg = p.msg
			}
		}
		panic(violation{msg, m})
	default:
		w.ex.inconclusive("assertion: " + list.msg)
	}
}

func t2lit(t *Term, v bool) *Term {
	if v {
		return t
	}
	return mkNot(t)
}

func (st *State) freshVar(name string, w uint8) *Term {
	st.steps = 0
	t := mkVar(fmt.Sprintf("%s#%d", name, len(st.nd)), w, len(st.nd))
	st.vars = append(st.vars, t)
	return t
}

func (st *State) pushFrame(fn *Fn, args []Val, free []Val, dst int) *Frame {
	if fn.bad != "" {
		st.unsupported("%s", fn.bad)
	}
	if len(st.frames) > maxDepth {
		if st.merge {
			panic(mergeAbort{})
		}
		panic(hang{fmt.Sprintf("call depth > %d in %s", maxDepth, fn.name)})
	}
	f := &Frame{owner: st.id, fn: fn, regs: make([]Val, fn.nregs), blk: fn.blocks[0], prev: -1, dst: dst}
	for i, r := range fn.params {
		f.regs[r] = args[i]
	}
	for i, r := range fn.frees {
		f.regs[r] = free[i]
	}
	st.frames = append(st.frames, f)
	if fn.repo {
		st.w.touch(fn)
	}
	return f
}

// enter moves a frame to block b coming from block index prev, evaluating phis.
func (fr *Frame) enter(b *Blk, prevIdx int) {
	fr.prev = prevIdx
	fr.blk = b
	fr.ip = 0
	switch len(b.phis) {
	case 0:
	case 1:
		p := &b.phis[0]
		fr.regs[p.dst] = fr.get(p.edges[prevIdx])
	default:
		var buf [8]Val
		tmp := buf[:0]
		for i := range b.phis {
			tmp = append(tmp, fr.get(b.phis[i].edges[prevIdx]))
		}
		for i := range b.phis {
			fr.regs[b.phis[i].dst] = tmp[i]
		}
	}
}

func (fr *Frame) get(o opnd) Val {
	if o.r >= 0 {
		return fr.regs[o.r]
	}
	return *o.v
}

func fnName(f *ssa.Function) string {
	return f.String()
}
