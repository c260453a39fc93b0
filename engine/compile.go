package main

// Lowering of ssa.Functions to executable instruction lists.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type InKind uint8

const (
	kOp InKind = iota
	kCall
	kJump
	kIf
	kReturn
	kPanic
	kRunDefers
)

type Inst struct {
	kind InKind
	op   func(st *State, fr *Frame)
	dst  int
	// call
	static  *Fn
	fnv     opnd // dynamic callee or receiver interface
	method  *types.Func
	args    []opnd
	isIface bool
	// control
	x      opnd
	succ   [2]*Blk
	predIx [2]int // index of this block among succ's preds
	rets   []opnd
	src    ssa.Instruction
	pure   bool
	resTI  []*TI
}

var fnCache sync.Map // *ssa.Function -> *Fn
var fnMu sync.Mutex

func getFn(f *ssa.Function) *Fn {
	if x, ok := fnCache.Load(f); ok {
		return x.(*Fn)
	}
	x, _ := fnCache.LoadOrStore(f, &Fn{ssa: f, name: f.String()})
	return x.(*Fn)
}

// ready compiles on first use.
func (fn *Fn) ready() *Fn {
	fn.once.Do(func() { compile(fn) })
	return fn
}

var tString = types.Typ[types.String]

type compiler struct {
	fn   *Fn
	regs map[ssa.Value]int
}

func originName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		return o.String()
	}
	return f.String()
}

func compile(fn *Fn) {
	f := fn.ssa
	fn.repo = isRepoFn(f)
	fn.nres = f.Signature.Results().Len()
	if in, ok := intrinsics[originName(f)]; ok {
		fn.intr = in
		return
	}
	if len(f.Blocks) == 0 {
		fn.bad = "no body: " + fn.name
		return
	}
	c := &compiler{fn: fn, regs: map[ssa.Value]int{}}
	for _, p := range f.Params {
		fn.params = append(fn.params, c.reg(p))
	}
	for _, p := range f.FreeVars {
		fn.frees = append(fn.frees, c.reg(p))
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				c.reg(v)
			}
		}
		fn.blocks = append(fn.blocks, &Blk{idx: b.Index, npred: len(b.Preds), ipdom: -1})
	}
	fn.nregs = len(c.regs)
	fn.regOf = c.regs
	fn.recoverBlk = -1
	if f.Recover != nil {
		fn.recoverBlk = f.Recover.Index
	}
	for i, b := range f.Blocks {
		blk := fn.blocks[i]
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Phi:
				p := phi{dst: c.reg(in), ti: typeInfo(in.Type())}
				for _, e := range in.Edges {
					p.edges = append(p.edges, c.op(e))
				}
				blk.phis = append(blk.phis, p)
			case *ssa.DebugRef:
			default:
				blk.ins = append(blk.ins, c.inst(b, in))
			}
		}
	}
	computeIpdom(fn)
}

func (c *compiler) reg(v ssa.Value) int {
	if r, ok := c.regs[v]; ok {
		return r
	}
	r := len(c.regs)
	c.regs[v] = r
	return r
}

func constVal(k *ssa.Const) Val {
	ti := typeInfo(k.Type())
	if k.Value == nil {
		return ti.zeroVal()
	}
	switch ti.kind {
	case KInt:
		if ti.w == 0 {
			return cBool(constant.BoolVal(k.Value))
		}
		v := constant.ToInt(k.Value)
		if i, ok := constant.Int64Val(v); ok {
			return cInt(uint64(i) & maskW(ti.w))
		}
		u, _ := constant.Uint64Val(v)
		return cInt(u & maskW(ti.w))
	case KFloat:
		x, _ := constant.Float64Val(k.Value)
		if ti.fk == 32 {
			x = float64(float32(x))
		}
		return Val{K: KFloat, N: math.Float64bits(x)}
	case KString:
		if k.Value.Kind() == constant.String {
			return cStr(constant.StringVal(k.Value))
		}
	}
	return Val{K: KNone, P: "const " + k.String()}
}

func (c *compiler) op(v ssa.Value) opnd {
	switch v := v.(type) {
	case *ssa.Const:
		x := constVal(v)
		return opnd{r: -1, v: &x}
	case *ssa.Function:
		x := Val{K: KFunc, P: &Closure{fn: getFn(v)}}
		return opnd{r: -1, v: &x}
	case *ssa.Global:
		x := ptrVal(globalID(v), 0)
		return opnd{r: -1, v: &x}
	case *ssa.Builtin:
		x := Val{K: KNone, P: v}
		return opnd{r: -1, v: &x}
	}
	return opnd{r: int32(c.reg(v))}
}

// globals get fixed object ids assigned on demand; states materialise them lazily.
var globMu sync.Mutex
var globIDs = map[*ssa.Global]uint32{}
var globList []*ssa.Global

const globMax = 1 << 12

func globalID(g *ssa.Global) uint32 {
	globMu.Lock()
	defer globMu.Unlock()
	if id, ok := globIDs[g]; ok {
		return id
	}
	if len(globList)+1 >= globMax {
		panic("too many globals")
	}
	id := uint32(len(globList) + 1)
	globList = append(globList, g)
	globIDs[g] = id
	return id
}

func predIndex(from, to *ssa.BasicBlock, nth int) int {
	for i, p := range to.Preds {
		if p == from {
			if nth == 0 {
				return i
			}
			nth--
		}
	}
	panic("pred")
}

func (c *compiler) inst(b *ssa.BasicBlock, in ssa.Instruction) Inst {
	r := Inst{kind: kOp, dst: -1, src: in}
	if v, ok := in.(ssa.Value); ok {
		r.dst = c.reg(v)
	}
	switch in := in.(type) {
	case *ssa.Jump:
		r.kind = kJump
		s := b.Succs[0]
		r.succ[0] = c.fn.blocks[s.Index]
		r.predIx[0] = predIndex(b, s, 0)
	case *ssa.If:
		r.kind = kIf
		r.x = c.op(in.Cond)
		for i, s := range b.Succs {
			r.succ[i] = c.fn.blocks[s.Index]
			nth := 0
			if i == 1 && b.Succs[0] == s {
				nth = 1
			}
			r.predIx[i] = predIndex(b, s, nth)
		}
	case *ssa.Return:
		r.kind = kReturn
		for _, x := range in.Results {
			r.rets = append(r.rets, c.op(x))
			r.resTI = append(r.resTI, typeInfo(x.Type()))
		}
	case *ssa.Panic:
		r.kind = kPanic
		r.x = c.op(in.X)
	case *ssa.RunDefers:
		r.kind = kRunDefers
	case *ssa.Call:
		c.call(&r, in.Common(), in)
	case *ssa.Defer:
		c.deferInst(&r, in)
	case *ssa.Go, *ssa.Select, *ssa.Send, *ssa.MakeChan:
		what := fmt.Sprintf("concurrency instruction %s in %s", in, c.fn.name)
		r.op = func(st *State, fr *Frame) { st.unsupported("%s", what) }
	default:
		r.op, r.pure = c.plain(in, r.dst)
	}
	return r
}

func (c *compiler) call(r *Inst, cc *ssa.CallCommon, in ssa.Instruction) {
	for _, a := range cc.Args {
		r.args = append(r.args, c.op(a))
	}
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		r.kind = kOp
		var rt types.Type
		if v, ok := in.(ssa.Value); ok {
			rt = v.Type()
		}
		f := builtin(bi, cc, rt)
		args, dst := r.args, r.dst
		r.op = func(st *State, fr *Frame) {
			as := make([]Val, len(args))
			for i, a := range args {
				as[i] = fr.get(a)
			}
			v := f(st, fr, as)
			if dst >= 0 {
				fr.regs[dst] = v
			}
		}
		switch bi.Name() {
		case "len", "cap", "min", "max":
			r.pure = true
		}
		return
	}
	r.kind = kCall
	if cc.IsInvoke() {
		r.method = cc.Method
		r.fnv = c.op(cc.Value)
		return
	}
	if f := cc.StaticCallee(); f != nil {
		if _, isClo := cc.Value.(*ssa.MakeClosure); !isClo {
			r.static = getFn(f)
			return
		}
	}
	r.fnv = c.op(cc.Value)
}

func (c *compiler) deferInst(r *Inst, in *ssa.Defer) {
	cc := in.Common()
	var args []opnd
	for _, a := range cc.Args {
		args = append(args, c.op(a))
	}
	if in.DeferStack != nil {
		r.op = func(st *State, fr *Frame) { st.unsupported("defer in range-over-func body") }
		return
	}
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		f := builtin(bi, cc, nil)
		r.op = func(st *State, fr *Frame) {
			as := getAll(fr, args)
			fr.defers = &deferred{bi: func(st *State, a []Val) { f(st, st.top(), a) }, args: as, next: fr.defers}
		}
		return
	}
	if cc.IsInvoke() {
		rv := c.op(cc.Value)
		m := cc.Method
		r.op = func(st *State, fr *Frame) {
			fn, recv := st.resolveInvoke(fr.get(rv), m)
			as := append([]Val{recv}, getAll(fr, args)...)
			fr.defers = &deferred{clo: &Closure{fn: fn}, args: as, next: fr.defers}
		}
		return
	}
	fv := c.op(cc.Value)
	r.op = func(st *State, fr *Frame) {
		v := fr.get(fv)
		if v.P == nil {
			st.rtPanic("invalid memory address or nil pointer dereference")
		}
		fr.defers = &deferred{clo: v.P.(*Closure), args: getAll(fr, args), next: fr.defers}
	}
}

func getAll(fr *Frame, ops []opnd) []Val {
	as := make([]Val, len(ops))
	for i, a := range ops {
		as[i] = fr.get(a)
	}
	return as
}

// scalarElemUse reports whether an address is only used for direct loads/stores.
func onlyDirect(v ssa.Value) bool {
	refs := v.Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		switch r := r.(type) {
		case *ssa.UnOp:
			if r.Op != token.MUL {
				return false
			}
		case *ssa.Store:
			if r.Addr != v || r.Val == v {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

// plain compiles a non-control instruction. pure: no heap effect, no allocation.
func (c *compiler) plain(in ssa.Instruction, dst int) (func(st *State, fr *Frame), bool) {
	switch in := in.(type) {
	case *ssa.Alloc:
		ti := elemTI(in.Type())
		return func(st *State, fr *Frame) {
			z := ti.zeroCells()
			cells := make([]Val, len(z))
			copy(cells, z)
			fr.regs[dst] = ptrVal(st.alloc(&Obj{cells: cells, ti: ti}), 0)
		}, false

	case *ssa.Store:
		a, v := c.op(in.Addr), c.op(in.Val)
		ti := typeInfo(in.Val.Type())
		return func(st *State, fr *Frame) { st.store(fr.get(a), ti, fr.get(v)) }, false

	case *ssa.UnOp:
		return c.unop(in, dst)

	case *ssa.BinOp:
		return c.binop(in, dst), true

	case *ssa.FieldAddr:
		x := c.op(in.X)
		sti := elemTI(in.X.Type())
		off := sti.foff[in.Field]
		return func(st *State, fr *Frame) {
			p := fr.get(x)
			if p.N == 0 {
				st.rtPanic("invalid memory address or nil pointer dereference")
			}
			p.N += uint64(off)
			fr.regs[dst] = p
		}, true

	case *ssa.Field:
		x := c.op(in.X)
		sti := typeInfo(in.X.Type())
		off := sti.foff[in.Field]
		fti := sti.fields[in.Field]
		return func(st *State, fr *Frame) {
			cells := fr.get(x).P.([]Val)
			fr.regs[dst] = fti.fromCells(cells[off:off+fti.size], false)
		}, true

	case *ssa.IndexAddr:
		x, ix := c.op(in.X), c.op(in.Index)
		ixti := typeInfo(in.Index.Type())
		direct := onlyDirect(in)
		switch u := in.X.Type().Underlying().(type) {
		case *types.Slice:
			ei := typeInfo(u.Elem())
			return func(st *State, fr *Frame) {
				s := fr.get(x)
				i := fr.get(ix)
				n := s.slen()
				if i.P == nil {
					k := sext(i.N, ixti.w)
					if k < 0 || k >= int64(n) || (!ixti.signed && i.N >= uint64(n)) {
						st.rtPanic("index out of range [%d] with length %d", k, n)
					}
					fr.regs[dst] = ptrVal(s.obj(), s.off()+int(k)*ei.size)
					return
				}
				fr.regs[dst] = st.symIndex(s.obj(), s.off(), n, i.P.(*Term), ixti, ei, direct)
			}, true
		case *types.Pointer:
			ati := typeInfo(u.Elem())
			n := int(ati.n)
			ei := ati.elem
			return func(st *State, fr *Frame) {
				p := fr.get(x)
				if p.N == 0 {
					st.rtPanic("invalid memory address or nil pointer dereference")
				}
				i := fr.get(ix)
				if i.P == nil {
					k := sext(i.N, ixti.w)
					if k < 0 || k >= int64(n) || (!ixti.signed && i.N >= uint64(n)) {
						st.rtPanic("index out of range [%d] with length %d", k, n)
					}
					fr.regs[dst] = ptrVal(p.obj(), p.off()+int(k)*ei.size)
					return
				}
				fr.regs[dst] = st.symIndex(p.obj(), p.off(), n, i.P.(*Term), ixti, ei, direct)
			}, true
		}

	case *ssa.Index:
		x, ix := c.op(in.X), c.op(in.Index)
		ixti := typeInfo(in.Index.Type())
		xti := typeInfo(in.X.Type())
		return func(st *State, fr *Frame) {
			fr.regs[dst] = st.indexVal(fr.get(x), xti, fr.get(ix), ixti)
		}, true

	case *ssa.Lookup:
		x, ix := c.op(in.X), c.op(in.Index)
		ixti := typeInfo(in.Index.Type())
		xti := typeInfo(in.X.Type())
		if xti.kind == KString {
			return func(st *State, fr *Frame) {
				fr.regs[dst] = st.indexVal(fr.get(x), xti, fr.get(ix), ixti)
			}, true
		}
		vti := elemTI(in.X.Type())
		commaOk := in.CommaOk
		return func(st *State, fr *Frame) {
			v, ok := st.mapGet(fr.get(x), fr.get(ix))
			if !ok {
				v = vti.zeroVal()
			}
			if commaOk {
				fr.regs[dst] = Val{K: KTuple, P: []Val{v, cBool(ok)}}
			} else {
				fr.regs[dst] = v
			}
		}, true

	case *ssa.MapUpdate:
		m, k, v := c.op(in.Map), c.op(in.Key), c.op(in.Value)
		return func(st *State, fr *Frame) { st.mapPut(fr.get(m), fr.get(k), fr.get(v)) }, false

	case *ssa.Slice:
		x := c.op(in.X)
		var lo, hi, max *opnd
		if in.Low != nil {
			o := c.op(in.Low)
			lo = &o
		}
		if in.High != nil {
			o := c.op(in.High)
			hi = &o
		}
		if in.Max != nil {
			o := c.op(in.Max)
			max = &o
		}
		xt := in.X.Type().Underlying()
		return func(st *State, fr *Frame) {
			g := func(o *opnd) *Val {
				if o == nil {
					return nil
				}
				v := fr.get(*o)
				return &v
			}
			fr.regs[dst] = st.sliceOp(fr.get(x), xt, g(lo), g(hi), g(max))
		}, true

	case *ssa.MakeSlice:
		l, cp := c.op(in.Len), c.op(in.Cap)
		lti, cti := typeInfo(in.Len.Type()), typeInfo(in.Cap.Type())
		ei := elemTI(in.Type())
		return func(st *State, fr *Frame) {
			n := st.concInt(fr.get(l), lti.w)
			k := st.concInt(fr.get(cp), cti.w)
			if n < 0 {
				st.rtPanic("makeslice: len out of range")
			}
			if k < n {
				st.rtPanic("makeslice: cap out of range")
			}
			if k*int64(max1(ei.size)) > 1<<22 {
				st.unsupported("make of %d elements", k)
			}
			fr.regs[dst] = st.makeSlice(ei, int(n), int(k))
		}, false

	case *ssa.MakeMap:
		kt := typeInfo(in.Type().Underlying().(*types.Map).Key())
		vt := typeInfo(in.Type().Underlying().(*types.Map).Elem())
		return func(st *State, fr *Frame) {
			fr.regs[dst] = Val{K: KMap, N: uint64(st.alloc(&Obj{m: &MapObj{kt: kt, vt: vt}}))}
		}, false

	case *ssa.MakeClosure:
		fn := getFn(in.Fn.(*ssa.Function))
		var bs []opnd
		for _, b := range in.Bindings {
			bs = append(bs, c.op(b))
		}
		return func(st *State, fr *Frame) {
			fr.regs[dst] = Val{K: KFunc, P: &Closure{fn: fn, free: getAll(fr, bs)}}
		}, true

	case *ssa.MakeInterface:
		x := c.op(in.X)
		ti := typeInfo(in.X.Type())
		return func(st *State, fr *Frame) {
			fr.regs[dst] = Val{K: KIface, P: &IfaceVal{ti, fr.get(x)}}
		}, true

	case *ssa.ChangeInterface:
		x := c.op(in.X)
		return func(st *State, fr *Frame) { fr.regs[dst] = fr.get(x) }, true

	case *ssa.ChangeType:
		x := c.op(in.X)
		return func(st *State, fr *Frame) { fr.regs[dst] = fr.get(x) }, true

	case *ssa.Convert:
		x := c.op(in.X)
		from, to := typeInfo(in.X.Type()), typeInfo(in.Type())
		return func(st *State, fr *Frame) { fr.regs[dst] = st.convert(fr.get(x), from, to) }, true

	case *ssa.MultiConvert:
		x := c.op(in.X)
		from, to := typeInfo(in.X.Type()), typeInfo(in.Type())
		return func(st *State, fr *Frame) { fr.regs[dst] = st.convert(fr.get(x), from, to) }, true

	case *ssa.SliceToArrayPointer:
		x := c.op(in.X)
		ati := elemTI(in.Type())
		return func(st *State, fr *Frame) {
			s := fr.get(x)
			if int64(s.slen()) < ati.n {
				st.rtPanic("cannot convert slice with length %d to array or pointer to array with length %d", s.slen(), ati.n)
			}
			fr.regs[dst] = ptrVal(s.obj(), s.off())
		}, true

	case *ssa.TypeAssert:
		x := c.op(in.X)
		at := typeInfo(in.AssertedType)
		commaOk := in.CommaOk
		return func(st *State, fr *Frame) {
			v := fr.get(x)
			var iv *IfaceVal
			if v.P != nil {
				iv = v.P.(*IfaceVal)
			}
			ok := false
			var r Val
			if iv != nil {
				if at.isIntf {
					ok = implements(iv.t, at)
					r = v
				} else if iv.t == at {
					ok = true
					r = iv.v
				}
			}
			if !ok {
				if !commaOk {
					st.rtPanic("interface conversion failed: to %s", at.t)
				}
				r = at.zeroVal()
			}
			if commaOk {
				r = Val{K: KTuple, P: []Val{r, cBool(ok)}}
			}
			fr.regs[dst] = r
		}, true

	case *ssa.Extract:
		x := c.op(in.Tuple)
		i := in.Index
		return func(st *State, fr *Frame) { fr.regs[dst] = fr.get(x).P.([]Val)[i] }, true

	case *ssa.Range:
		x := c.op(in.X)
		return func(st *State, fr *Frame) { fr.regs[dst] = st.rangeStart(fr.get(x)) }, false

	case *ssa.Next:
		x := c.op(in.Iter)
		tup := in.Type().(*types.Tuple)
		kz, vz := typeInfo(tup.At(1).Type()), typeInfo(tup.At(2).Type())
		return func(st *State, fr *Frame) { fr.regs[dst] = st.rangeNext(fr.get(x), kz, vz) }, false
	}
	what := fmt.Sprintf("instruction %T in %s", in, c.fn.name)
	return func(st *State, fr *Frame) { st.unsupported("%s", what) }, false
}

func max1(n int) int {
	if n < 1 {
		return 1
	}
	return n
}

func (c *compiler) unop(in *ssa.UnOp, dst int) (func(st *State, fr *Frame), bool) {
	x := c.op(in.X)
	ti := typeInfo(in.Type())
	switch in.Op {
	case token.MUL:
		return func(st *State, fr *Frame) { fr.regs[dst] = st.load(fr.get(x), ti) }, true
	case token.NOT:
		return func(st *State, fr *Frame) {
			v := fr.get(x)
			if v.P == nil {
				fr.regs[dst] = cInt(1 - v.N)
			} else {
				fr.regs[dst] = cTerm(mkNot(v.P.(*Term)))
			}
		}, true
	case token.SUB:
		if ti.kind == KFloat {
			return func(st *State, fr *Frame) {
				fr.regs[dst] = fl(-math.Float64frombits(fr.get(x).N), ti)
			}, true
		}
		return func(st *State, fr *Frame) {
			v := fr.get(x)
			if v.P == nil {
				fr.regs[dst] = cInt(-v.N & maskW(ti.w))
			} else {
				fr.regs[dst] = cTerm(mkBin(OSub, mkConst(0, ti.w), v.P.(*Term)))
			}
		}, true
	case token.XOR:
		return func(st *State, fr *Frame) {
			v := fr.get(x)
			if v.P == nil {
				fr.regs[dst] = cInt(^v.N & maskW(ti.w))
			} else {
				fr.regs[dst] = cTerm(mkBin(OBXor, v.P.(*Term), mkConst(^uint64(0), ti.w)))
			}
		}, true
	}
	what := fmt.Sprintf("unop %s in %s", in.Op, c.fn.name)
	return func(st *State, fr *Frame) { st.unsupported("%s", what) }, false
}

func fl(x float64, ti *TI) Val {
	if ti.fk == 32 {
		x = float64(float32(x))
	}
	return Val{K: KFloat, N: math.Float64bits(x)}
}

func (c *compiler) binop(in *ssa.BinOp, dst int) func(st *State, fr *Frame) {
	x, y := c.op(in.X), c.op(in.Y)
	ti := typeInfo(in.X.Type())
	yti := typeInfo(in.Y.Type())
	set := func(fr *Frame, v Val) { fr.regs[dst] = v }
	if in.Op == token.EQL || in.Op == token.NEQ {
		neg := in.Op == token.NEQ
		xi, yi := ti, yti
		return func(st *State, fr *Frame) {
			a, b := fr.get(x), fr.get(y)
			if xi.isIntf != yi.isIntf {
				if xi.isIntf {
					b = Val{K: KIface, P: &IfaceVal{yi, b}}
				} else {
					a = Val{K: KIface, P: &IfaceVal{xi, a}}
				}
			}
			if a.K == KInt && a.P == nil && b.P == nil {
				set(fr, cBool((a.N == b.N) != neg))
				return
			}
			t := st.valEq(a, b, xi)
			if t.Op == OConst && a.K == KInt {
				st.noteFold(OEq, a.term(xi.w), b.term(xi.w), t)
			}
			if neg {
				t = mkNot(t)
			}
			set(fr, cTerm(t))
		}
	}
	switch ti.kind {
	case KInt:
		w := ti.w
		m := maskW(w)
		sg := ti.signed
		switch in.Op {
		case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR, token.AND_NOT:
			var op Op
			andnot := false
			switch in.Op {
			case token.ADD:
				op = OAdd
			case token.SUB:
				op = OSub
			case token.MUL:
				op = OMul
			case token.AND:
				op = OBAnd
			case token.OR:
				op = OBOr
			case token.XOR:
				op = OBXor
			case token.AND_NOT:
				op = OBAnd
				andnot = true
			}
			return func(st *State, fr *Frame) {
				a, b := fr.get(x), fr.get(y)
				if a.P == nil && b.P == nil {
					bn := b.N
					if andnot {
						bn = ^bn & m
					}
					var r uint64
					switch op {
					case OAdd:
						r = a.N + bn
					case OSub:
						r = a.N - bn
					case OMul:
						r = a.N * bn
					case OBAnd:
						r = a.N & bn
					case OBOr:
						r = a.N | bn
					case OBXor:
						r = a.N ^ bn
					}
					set(fr, cInt(r&m))
					return
				}
				bt := b.term(w)
				if andnot {
					bt = mkBin(OBXor, bt, mkConst(^uint64(0), w))
				}
				set(fr, cTerm(mkBin(op, a.term(w), bt)))
			}
		case token.QUO, token.REM:
			op := OUDiv
			if in.Op == token.REM {
				op = OURem
			}
			if sg {
				op = OSDiv
				if in.Op == token.REM {
					op = OSRem
				}
			}
			return func(st *State, fr *Frame) {
				a, b := fr.get(x), fr.get(y)
				if b.P == nil {
					if b.N == 0 {
						st.rtPanic("integer divide by zero")
					}
				} else if st.decide(mkEq(b.P.(*Term), mkConst(0, w))) {
					st.rtPanic("integer divide by zero")
				}
				if a.P == nil && b.P == nil {
					set(fr, cInt(evalBin(op, a.N, b.N, w)))
					return
				}
				set(fr, cTerm(mkBin(op, a.term(w), b.term(w))))
			}
		case token.SHL, token.SHR:
			op := OShl
			if in.Op == token.SHR {
				op = OLShr
				if sg {
					op = OAShr
				}
			}
			yw, ys := yti.w, yti.signed
			return func(st *State, fr *Frame) {
				a, b := fr.get(x), fr.get(y)
				if b.P == nil {
					if ys && sext(b.N, yw) < 0 {
						st.rtPanic("negative shift amount")
					}
					n := b.N
					if n > uint64(w) {
						n = uint64(w)
					}
					if a.P == nil {
						set(fr, cInt(evalBin(op, a.N, n, w)))
						return
					}
					if n == uint64(w) && op != OAShr {
						set(fr, cInt(0))
						return
					}
					if n == uint64(w) {
						n--
					}
					set(fr, cTerm(mkBin(op, a.term(w), mkConst(n, w))))
					return
				}
				bt := b.P.(*Term)
				if ys && st.decide(mkSlt(bt, mkConst(0, yw))) {
					st.rtPanic("negative shift amount")
				}
				at := a.term(w)
				if yw <= w {
					set(fr, cTerm(mkBin(op, at, mkExt(bt, w, false))))
					return
				}
				in := mkBin(op, at, mkTrunc(bt, w))
				var out *Term
				if op == OAShr {
					out = mkBin(op, at, mkConst(uint64(w)-1, w))
				} else {
					out = mkConst(0, w)
				}
				set(fr, cTerm(mkIte(mkUlt(bt, mkConst(uint64(w), yw)), in, out)))
			}
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			op := in.Op
			return func(st *State, fr *Frame) {
				a, b := fr.get(x), fr.get(y)
				if op == token.GTR || op == token.LEQ {
					a, b = b, a
				}
				neg := op == token.LEQ || op == token.GEQ
				if a.P == nil && b.P == nil {
					var r bool
					if sg {
						r = sext(a.N, w) < sext(b.N, w)
					} else {
						r = a.N < b.N
					}
					set(fr, cBool(r != neg))
					return
				}
				var t *Term
				o := OUlt
				if sg {
					o = OSlt
					t = mkSlt(a.term(w), b.term(w))
				} else {
					t = mkUlt(a.term(w), b.term(w))
				}
				if t.Op == OConst {
					st.noteFold(o, a.term(w), b.term(w), t)
				}
				if neg {
					t = mkNot(t)
				}
				set(fr, cTerm(t))
			}
		}
	case KFloat:
		op := in.Op
		return func(st *State, fr *Frame) {
			av, bv := fr.get(x), fr.get(y)
			if av.P != nil || bv.P != nil {
				set(fr, st.symFloat(op, av, bv))
				return
			}
			a, b := math.Float64frombits(av.N), math.Float64frombits(bv.N)
			switch op {
			case token.ADD:
				set(fr, fl(a+b, ti))
			case token.SUB:
				set(fr, fl(a-b, ti))
			case token.MUL:
				set(fr, fl(a*b, ti))
			case token.QUO:
				set(fr, fl(a/b, ti))
			case token.LSS:
				set(fr, cBool(a < b))
			case token.LEQ:
				set(fr, cBool(a <= b))
			case token.GTR:
				set(fr, cBool(a > b))
			case token.GEQ:
				set(fr, cBool(a >= b))
			default:
				st.unsupported("float op %s", op)
			}
		}
	case KString:
		op := in.Op
		return func(st *State, fr *Frame) {
			a, b := fr.get(x), fr.get(y)
			switch op {
			case token.ADD:
				set(fr, strConcat(a, b))
			case token.LSS:
				set(fr, cTerm(strLess(a, b)))
			case token.GTR:
				set(fr, cTerm(strLess(b, a)))
			case token.LEQ:
				set(fr, cTerm(mkNot(strLess(b, a))))
			case token.GEQ:
				set(fr, cTerm(mkNot(strLess(a, b))))
			default:
				st.unsupported("string op %s", op)
			}
		}
	}
	what := fmt.Sprintf("binop %s on %s in %s", in.Op, ti.t, c.fn.name)
	return func(st *State, fr *Frame) { st.unsupported("%s", what) }
}

// computeIpdom computes immediate postdominators ignoring panicking blocks.
func computeIpdom(fn *Fn) {
	n := len(fn.blocks)
	succs := make([][]int, n)
	dead := make([]bool, n)
	for i, b := range fn.blocks {
		if len(b.ins) == 0 {
			dead[i] = true
			continue
		}
		l := &b.ins[len(b.ins)-1]
		switch l.kind {
		case kJump:
			succs[i] = []int{l.succ[0].idx}
		case kIf:
			succs[i] = []int{l.succ[0].idx, l.succ[1].idx}
		case kReturn:
			succs[i] = []int{n}
		default:
			dead[i] = true
		}
	}
	// propagate dead: blocks all of whose successors are dead
	for ch := true; ch; {
		ch = false
		for i := range succs {
			if dead[i] {
				continue
			}
			all := true
			for _, s := range succs[i] {
				if s == n || !dead[s] {
					all = false
				}
			}
			if all {
				dead[i] = true
				ch = true
			}
		}
	}
	full := make([]map[int]bool, n+1)
	full[n] = map[int]bool{n: true}
	all := map[int]bool{}
	for i := 0; i <= n; i++ {
		all[i] = true
	}
	for i := 0; i < n; i++ {
		full[i] = all
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			if dead[i] {
				continue
			}
			var r map[int]bool
			for _, s := range succs[i] {
				if s < n && dead[s] {
					continue
				}
				if r == nil {
					r = map[int]bool{}
					for k := range full[s] {
						r[k] = true
					}
				} else {
					for k := range r {
						if !full[s][k] {
							delete(r, k)
						}
					}
				}
			}
			r[i] = true
			if len(r) != len(full[i]) {
				full[i] = r
				ch = true
			}
		}
	}
	for i, b := range fn.blocks {
		if dead[i] {
			continue
		}
		// the immediate one is the postdominator with the largest set, besides i
		best, bl := -1, -1
		for k := range full[i] {
			if k != i && k < n && len(full[k]) > bl {
				best, bl = k, len(full[k])
			}
		}
		b.ipdom = best
	}
}

// liveAt lists the values defined in strict dominators of block b that are used in b
// or after it.
func (fn *Fn) liveAt(b *Blk) []liveReg {
	b.liveOnce.Do(func() {
		sb := fn.ssa.Blocks[b.idx]
		reach := map[*ssa.BasicBlock]bool{sb: true}
		for q := []*ssa.BasicBlock{sb}; len(q) > 0; q = q[1:] {
			for _, s := range q[0].Succs {
				if !reach[s] {
					reach[s] = true
					q = append(q, s)
				}
			}
		}
		for d := sb.Idom(); d != nil; d = d.Idom() {
			for _, in := range d.Instrs {
				v, ok := in.(ssa.Value)
				if !ok || v.Referrers() == nil {
					continue
				}
				for _, u := range *v.Referrers() {
					if reach[u.Block()] {
						b.live = append(b.live, liveReg{fn.regOf[v], typeInfo(v.Type())})
						break
					}
				}
			}
		}
	})
	return b.live
}
