package main

// The interpreter loop, control transfer, panics and state merging.

import (
	"fmt"
	"go/types"
	"sync"
	"sync/atomic"
)

var maxSteps int64 = 4_000_000

// run executes st until its frame stack is empty. In spec mode (stop != nil) it
// stops when the frame at stop.depth reaches block stop.join or returns.
type stopAt struct {
	depth int // number of frames when speculation started
	join  *Blk
	left  int
	// results
	from   int
	joined bool
	phis   []Val // phi values of the join when already merged
	rets   []Val
	resTI  []*TI
	isRet  bool
}

func (st *State) exec(stop *stopAt) {
	for {
		n := len(st.frames)
		if n == 0 {
			return
		}
		fr := st.top()
		if fr.unw {
			st.unwindStep(fr)
			continue
		}
		// straight-line part
		ins := fr.blk.ins
		in := &ins[fr.ip]
		st.steps++
		st.w.steps++
		if stop != nil {
			stop.left--
			if stop.left < 0 {
				panic(mergeAbort{})
			}
		} else if st.steps > maxSteps {
			panic(hang{fmt.Sprintf("more than %d steps", maxSteps)})
		} else if st.steps&1023 == 0 && st.w.ex.stopped() {
			panic(endPath{"stopped"})
		}
		switch in.kind {
		case kOp:
			in.op(st, fr)
			fr.ip++
		case kJump:
			if stop != nil && n == stop.depth && in.succ[0] == stop.join {
				stop.from, stop.joined = in.predIx[0], true
				return
			}
			fr.enter(in.succ[0], in.predIx[0])
		case kIf:
			c := fr.get(in.x)
			var b bool
			if c.P == nil {
				b = c.N != 0
			} else {
				t := c.P.(*Term)
				if v, ok := st.lookup(t); ok {
					b = v
				} else if st.mergeIf(fr, in, t, stop) {
					if stop != nil && (stop.isRet || stop.joined) {
						return
					}
					continue
				} else {
					b = st.decide(t)
				}
			}
			k := 1
			if b {
				k = 0
			}
			if stop != nil && n == stop.depth && in.succ[k] == stop.join {
				stop.from, stop.joined = in.predIx[k], true
				return
			}
			fr.enter(in.succ[k], in.predIx[k])
		case kCall:
			st.call(fr, in)
		case kReturn:
			rets := make([]Val, len(in.rets))
			for i, r := range in.rets {
				rets[i] = fr.get(r)
			}
			if stop != nil && n == stop.depth {
				stop.rets, stop.resTI, stop.isRet = rets, in.resTI, true
				return
			}
			st.doReturn(rets)
		case kPanic:
			v := fr.get(in.x)
			if st.merge {
				panic(mergeAbort{})
			}
			panic(goPanic{v})
		case kRunDefers:
			if fr.defers == nil {
				fr.ip++
				break
			}
			if st.merge {
				panic(mergeAbort{})
			}
			st.runDefer(fr)
		}
		if st.pend != nil {
			st.pend, st.pendPos = nil, 0
		}
	}
}

// runDefer starts the next deferred call of fr.
func (st *State) runDefer(fr *Frame) {
	d := fr.defers
	fr.defers = d.next
	if d.bi != nil {
		d.bi(st, d.args)
		return
	}
	st.invoke(d.clo, d.args, -1, true)
}

func (st *State) unwindStep(fr *Frame) {
	if fr.defers != nil {
		st.runDefer(fr)
		return
	}
	if fr.pv == nil { // recovered
		fr.unw = false
		if fr.fn.recoverBlk >= 0 {
			fr.blk = fr.fn.blocks[fr.fn.recoverBlk]
			fr.ip = 0
			return
		}
		var z []Val
		res := fr.fn.ssa.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			z = append(z, typeInfo(res.At(i).Type()).zeroVal())
		}
		st.doReturn(z)
		return
	}
	pv := fr.pv
	st.frames = st.frames[:len(st.frames)-1]
	if len(st.frames) == 0 {
		panic(violation{"panic: " + panicText(*pv), st.model})
	}
	p := st.top()
	p.unw, p.pv = true, pv
}

func panicText(v Val) string {
	if v.K == KIface {
		if v.P == nil {
			return "nil"
		}
		v = v.P.(*IfaceVal).v
	}
	switch v.K {
	case KString:
		if s, ok := v.P.(string); ok {
			return s
		}
	case KInt:
		if v.P == nil {
			return fmt.Sprint(int64(v.N))
		}
	}
	return "value of kind " + v.K.String()
}

func (st *State) doReturn(rets []Val) {
	k := len(st.frames) - 1
	f := st.frames[k]
	st.frames = st.frames[:k]
	if k == 0 {
		return
	}
	if f.isDefer {
		return // the caller's RunDefers or unwinding goes on
	}
	if f.dst >= 0 {
		c := st.top()
		switch len(rets) {
		case 0:
		case 1:
			c.regs[f.dst] = rets[0]
		default:
			c.regs[f.dst] = Val{K: KTuple, P: rets}
		}
	}
}

func (st *State) call(fr *Frame, in *Inst) {
	var clo *Closure
	var args []Val
	switch {
	case in.static != nil:
		fn := in.static.ready()
		args = getAll(fr, in.args)
		if fn.intr != nil {
			v, set := fn.intr(st, fr, in, args)
			if set {
				if in.dst >= 0 {
					fr.regs[in.dst] = v
				}
				fr.ip++
			}
			return
		}
		fr.ip++
		st.pushFrame(fn, args, nil, in.dst)
		return
	case in.method != nil:
		fn, recv := st.resolveInvoke(fr.get(in.fnv), in.method)
		args = append([]Val{recv}, getAll(fr, in.args)...)
		clo = &Closure{fn: fn}
	default:
		v := fr.get(in.fnv)
		if v.P == nil {
			nilDeref(st)
		}
		clo = v.P.(*Closure)
		args = getAll(fr, in.args)
	}
	if clo.nat != nil {
		v := clo.nat(st, args)
		if in.dst >= 0 {
			fr.regs[in.dst] = v
		}
		fr.ip++
		return
	}
	fn := clo.fn.ready()
	if fn.intr != nil {
		v, set := fn.intr(st, fr, in, args)
		if set {
			if in.dst >= 0 {
				fr.regs[in.dst] = v
			}
			fr.ip++
		}
		return
	}
	fr.ip++
	st.pushFrame(fn, args, clo.free, in.dst)
}

// invoke starts a deferred closure.
func (st *State) invoke(clo *Closure, args []Val, dst int, isDefer bool) {
	if clo.nat != nil {
		clo.nat(st, args)
		return
	}
	fn := clo.fn.ready()
	if fn.intr != nil {
		fn.intr(st, st.top(), nil, args)
		return
	}
	f := st.pushFrame(fn, args, clo.free, dst)
	f.isDefer = isDefer
}

type methKey struct {
	t *TI
	m *types.Func
}

var methCache sync.Map

func (st *State) resolveInvoke(v Val, m *types.Func) (*Fn, Val) {
	if v.P == nil {
		nilDeref(st)
	}
	iv := v.P.(*IfaceVal)
	k := methKey{iv.t, m}
	if f, ok := methCache.Load(k); ok {
		return f.(*Fn), iv.v
	}
	f := prog.LookupMethod(iv.t.t, m.Pkg(), m.Name())
	if f == nil {
		st.unsupported("method %s of %s", m.Name(), iv.t.t)
	}
	fn := getFn(f)
	methCache.Store(k, fn)
	return fn, iv.v
}

// ---- merging

const mergeBudget = 600

var mergeOn = true

// mergeIf tries to execute both sides of a branch up to their join and to combine
// the results with ite terms. It reports false, with the state untouched, when the
// sides have effects that cannot be combined.
func (st *State) mergeIf(fr *Frame, in *Inst, c *Term, outer *stopAt) (ok bool) {
	if !mergeOn {
		return false
	}
	blk := fr.blk
	if f := atomic.LoadInt32(&blk.mfail); f > 6 && f > 2*atomic.LoadInt32(&blk.mok) {
		if st.merge {
			panic(mergeAbort{})
		}
		return false
	}
	if fr.defers != nil || (blk.ipdom < 0 && (fr.isDefer || len(st.frames) == 1)) {
		if st.merge {
			panic(mergeAbort{})
		}
		return false
	}
	depth := len(st.frames)
	sMerge, sFloor, sKnown, sSteps, sFolds := st.merge, st.floor, st.known, st.steps, st.folds
	if !sMerge {
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(mergeAbort); !is {
					panic(r)
				}
				st.merge, st.floor, st.known = sMerge, sFloor, sKnown
				st.steps, st.folds = sSteps, sFolds
				st.frames = st.frames[:depth]
				st.frames[depth-1] = fr
				atomic.AddInt32(&blk.mfail, 1)
				st.w.mergeFails++
				ok = false
			}
		}()
	}
	var join *Blk
	if blk.ipdom >= 0 {
		join = fr.fn.blocks[blk.ipdom]
	}
	left := mergeBudget
	if outer != nil {
		left = outer.left
	}
	var stops [2]*stopAt
	var frs [2]*Frame
	for k := 0; k < 2; k++ {
		lit := c
		if k == 1 {
			lit = mkNot(c)
		}
		s := &stopAt{depth: depth, join: join, left: left, from: -1}
		stops[k] = s
		f := new(Frame)
		*f = *fr
		f.regs = append([]Val(nil), fr.regs...)
		frs[k] = f
		st.merge = true
		st.floor = st.next
		if st.floor < globMax {
			st.floor = globMax
		}
		st.known = sKnown
		st.addKnown(lit)
		st.frames = append(st.frames[:depth-1:depth-1], f)
		if in.succ[k] == join {
			s.from, s.joined = in.predIx[k], true
		} else {
			f.enter(in.succ[k], in.predIx[k])
			st.exec(s)
		}
		frs[k] = st.frames[depth-1]
		left = s.left
	}
	if outer != nil {
		outer.left = left
	}
	st.merge, st.floor, st.known = sMerge, sFloor, sKnown
	st.frames = append(st.frames[:depth-1:depth-1], fr)
	abort := func() { panic(mergeAbort{}) }
	if stops[0].isRet != stops[1].isRet {
		abort()
	}
	if stops[0].isRet {
		a, b := stops[0].rets, stops[1].rets
		m := make([]Val, len(a))
		for i := range a {
			v, good := mergeVal(c, a[i], b[i], stops[0].resTI[i])
			if !good {
				abort()
			}
			m[i] = v
		}
		if outer != nil && outer.depth == depth {
			outer.rets, outer.resTI, outer.isRet = m, stops[0].resTI, true
		} else {
			st.doReturn(m)
		}
	} else {
		ms := make([]Val, len(join.phis))
		for i := range join.phis {
			p := &join.phis[i]
			v, good := mergeVal(c, stops[0].phiVal(frs[0], p, i), stops[1].phiVal(frs[1], p, i), p.ti)
			if !good {
				abort()
			}
			ms[i] = v
		}
		for _, l := range fr.fn.liveAt(join) {
			a, b := frs[0].regs[l.r], frs[1].regs[l.r]
			if sameVal(a, b) {
				fr.regs[l.r] = a
				continue
			}
			v, good := mergeVal(c, a, b, l.ti)
			if !good {
				abort()
			}
			fr.regs[l.r] = v
		}
		if outer != nil && outer.depth == depth && outer.join == join {
			// the enclosing speculation joins here too
			outer.phis, outer.joined = ms, true
			atomic.AddInt32(&blk.mok, 1)
			return true
		}
		for i := range join.phis {
			fr.regs[join.phis[i].dst] = ms[i]
		}
		fr.blk, fr.ip, fr.prev = join, 0, -1
	}
	atomic.AddInt32(&blk.mok, 1)
	st.w.merges++
	return true
}

func (s *stopAt) phiVal(fr *Frame, p *phi, i int) Val {
	if s.phis != nil {
		return s.phis[i]
	}
	return fr.get(p.edges[s.from])
}

func mergeVal(c *Term, a, b Val, ti *TI) (Val, bool) {
	if a.K != b.K {
		return Val{}, false
	}
	switch a.K {
	case KInt:
		if a.P == nil && b.P == nil && a.N == b.N {
			return a, true
		}
		if ti.kind != KInt {
			return Val{}, false
		}
		return cTerm(mkIte(c, a.term(ti.w), b.term(ti.w))), true
	case KAgg:
		x, y := a.P.([]Val), b.P.([]Val)
		if len(x) != len(y) || len(ti.cw) != len(x) {
			return Val{}, false
		}
		r := make([]Val, len(x))
		for i := range x {
			if x[i].K != y[i].K {
				return Val{}, false
			}
			if x[i].K == KInt && ti.cw[i] != 255 {
				if x[i].P == nil && y[i].P == nil && x[i].N == y[i].N {
					r[i] = x[i]
				} else {
					r[i] = cTerm(mkIte(c, x[i].term(ti.cw[i]), y[i].term(ti.cw[i])))
				}
				continue
			}
			if !sameVal(x[i], y[i]) {
				return Val{}, false
			}
			r[i] = x[i]
		}
		return Val{K: KAgg, P: r}, true
	}
	if sameVal(a, b) {
		return a, true
	}
	return Val{}, false
}

func sameVal(a, b Val) bool {
	if a.K != b.K || a.N != b.N || a.M != b.M {
		return false
	}
	if a.P == nil || b.P == nil {
		return a.P == nil && b.P == nil
	}
	switch x := a.P.(type) {
	case string:
		y, ok := b.P.(string)
		return ok && x == y
	case *Term:
		return a.P == b.P
	case *Closure:
		return a.P == b.P
	case *IfaceVal:
		return a.P == b.P
	}
	return false
}
