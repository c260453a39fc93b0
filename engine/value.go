package main

// Runtime values, memory objects and type layout.

import (
	"fmt"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type Kind uint8

const (
	KNone   Kind = iota
	KInt         // bool and integers; N concrete, or P is *Term
	KFloat       // concrete only, N = bits of float64
	KString      // P = string or *SymStr
	KPtr         // N = obj<<32|off ; P = *SymOff for symbolic element pointers
	KSlice       // N = obj<<32|off ; M = len<<32|cap
	KMap         // N = obj id
	KFunc        // P = *Closure or nil
	KIface       // P = *IfaceVal or nil
	KAgg         // struct/array, P = []Val flattened cells
	KTuple       // P = []Val
	KIter        // N = obj id
)

// Val is a runtime value.
type Val struct {
	K Kind
	N uint64
	M uint64
	P any
}

type SymStr struct{ b []Val }

type SymOff struct {
	idx *Term // 64-bit element index
	n   int   // number of elements (stride 1)
}

type Closure struct {
	fn   *Fn
	free []Val
	nat  func(st *State, args []Val) Val // native closure
}

type IfaceVal struct {
	t *TI
	v Val
}

func cInt(v uint64) Val { return Val{K: KInt, N: v} }
func cBool(b bool) Val  { return Val{K: KInt, N: b2u(b)} }
func cStr(s string) Val { return Val{K: KString, P: s} }
func cTerm(t *Term) Val {
	if t.Op == OConst {
		return Val{K: KInt, N: t.C}
	}
	return Val{K: KInt, P: t}
}

// term returns the term of an integer/bool value at width w.
func (v Val) term(w uint8) *Term {
	if v.P != nil {
		t := v.P.(*Term)
		return t
	}
	return mkConst(v.N, w)
}

func (v Val) sym() *Term {
	if v.K == KInt && v.P != nil {
		return v.P.(*Term)
	}
	return nil
}

// TI is the layout of a type.
type TI struct {
	t      types.Type
	id     int
	kind   Kind
	size   int   // cells
	w      uint8 // integer width; 0 for bool
	signed bool
	zero   []Val
	elem   *TI // array/slice/pointer/map elem
	key    *TI
	n      int64 // array length
	fields []*TI
	foff   []int
	fk     int // float bits 32/64
	isIntf bool
	cw     []uint8 // widths of the cells, 255 when not an integer
}

var tiMu sync.Mutex
var tiByPtr sync.Map // types.Type -> *TI
var tiCanon typeutil.Map
var tiNext int

func typeInfo(t types.Type) *TI {
	if x, ok := tiByPtr.Load(t); ok {
		return x.(*TI)
	}
	tiMu.Lock()
	defer tiMu.Unlock()
	return typeInfoLocked(t)
}

func typeInfoLocked(t types.Type) *TI {
	if x, ok := tiByPtr.Load(t); ok {
		return x.(*TI)
	}
	if x := tiCanon.At(t); x != nil {
		tiByPtr.Store(t, x.(*TI))
		return x.(*TI)
	}
	ti := &TI{t: t, id: tiNext}
	tiNext++
	tiCanon.Set(t, ti)
	// layout
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			ti.kind, ti.w = KInt, 0
		case types.Int, types.Int64, types.UntypedInt:
			ti.kind, ti.w, ti.signed = KInt, 64, true
		case types.Int8:
			ti.kind, ti.w, ti.signed = KInt, 8, true
		case types.Int16:
			ti.kind, ti.w, ti.signed = KInt, 16, true
		case types.Int32, types.UntypedRune:
			ti.kind, ti.w, ti.signed = KInt, 32, true
		case types.Uint, types.Uint64, types.Uintptr:
			ti.kind, ti.w = KInt, 64
		case types.Uint8:
			ti.kind, ti.w = KInt, 8
		case types.Uint16:
			ti.kind, ti.w = KInt, 16
		case types.Uint32:
			ti.kind, ti.w = KInt, 32
		case types.Float64, types.UntypedFloat:
			ti.kind, ti.fk = KFloat, 64
		case types.Float32:
			ti.kind, ti.fk = KFloat, 32
		case types.String, types.UntypedString:
			ti.kind = KString
		case types.UnsafePointer, types.UntypedNil:
			ti.kind = KPtr
		default:
			ti.kind = KNone
		}
		ti.size = 1
	case *types.Pointer:
		ti.kind, ti.size = KPtr, 1
	case *types.Slice:
		ti.kind, ti.size = KSlice, 1
	case *types.Map:
		ti.kind, ti.size = KMap, 1
	case *types.Signature:
		ti.kind, ti.size = KFunc, 1
	case *types.Chan:
		ti.kind, ti.size = KNone, 1
	case *types.Interface:
		ti.kind, ti.size = KIface, 1
		ti.isIntf = true
	case *types.Struct:
		ti.kind = KAgg
		for i := 0; i < u.NumFields(); i++ {
			f := typeInfoLocked(u.Field(i).Type())
			ti.fields = append(ti.fields, f)
			ti.foff = append(ti.foff, ti.size)
			ti.size += f.size
		}
	case *types.Array:
		ti.kind = KAgg
		ti.elem = typeInfoLocked(u.Elem())
		ti.n = u.Len()
		ti.size = ti.elem.size * int(u.Len())
	case *types.Tuple:
		ti.kind = KTuple
	default:
		ti.kind = KNone
		ti.size = 1
	}
	// zero cells
	switch ti.kind {
	case KAgg:
		if ti.fields != nil || ti.elem == nil {
			for _, f := range ti.fields {
				ti.zero = append(ti.zero, f.zero...)
			}
		} else if ti.size < 1<<16 {
			for i := int64(0); i < ti.n; i++ {
				ti.zero = append(ti.zero, ti.elem.zero...)
			}
		}
	case KTuple:
	case KString:
		ti.zero = []Val{cStr("")}
	default:
		ti.zero = []Val{{K: ti.kind}}
	}
	switch {
	case ti.kind == KAgg && ti.fields != nil:
		for _, f := range ti.fields {
			ti.cw = append(ti.cw, f.cw...)
		}
	case ti.kind == KAgg && ti.elem != nil && ti.size < 1<<16:
		for i := int64(0); i < ti.n; i++ {
			ti.cw = append(ti.cw, ti.elem.cw...)
		}
	case ti.kind == KInt:
		ti.cw = []uint8{ti.w}
	case ti.kind != KAgg:
		ti.cw = []uint8{255}
	}
	tiByPtr.Store(t, ti)
	return ti
}

// elemTI returns the layout of the element of a slice/array/pointer type.
func elemTI(t types.Type) *TI {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return typeInfo(u.Elem())
	case *types.Array:
		return typeInfo(u.Elem())
	case *types.Pointer:
		return typeInfo(u.Elem())
	case *types.Map:
		return typeInfo(u.Elem())
	case *types.Basic:
		return typeInfo(types.Typ[types.Uint8])
	}
	panic(fmt.Sprintf("elemTI %v", t))
}

func (ti *TI) zeroVal() Val {
	if ti.kind == KAgg {
		return Val{K: KAgg, P: ti.zeroCells()}
	}
	if ti.kind == KTuple {
		tup := ti.t.(*types.Tuple)
		vs := make([]Val, tup.Len())
		for i := range vs {
			vs[i] = typeInfo(tup.At(i).Type()).zeroVal()
		}
		return Val{K: KTuple, P: vs}
	}
	return ti.zero[0]
}

func (ti *TI) zeroCells() []Val {
	if len(ti.zero) == ti.size {
		return ti.zero
	}
	z := make([]Val, 0, ti.size)
	for len(z) < ti.size {
		z = append(z, ti.elem.zero...)
	}
	return z
}

// cells turns a value of type ti into its flattened cells (not to be modified).
func (ti *TI) cells(v Val) []Val {
	if ti.kind == KAgg {
		return v.P.([]Val)
	}
	return []Val{v}
}

// fromCells builds a value of type ti from cells (copied when copyIt).
func (ti *TI) fromCells(c []Val, copyIt bool) Val {
	if ti.kind != KAgg {
		return c[0]
	}
	if copyIt {
		n := make([]Val, len(c))
		copy(n, c)
		c = n
	}
	return Val{K: KAgg, P: c}
}

// Obj is a heap object. Objects are copy-on-write between states.
type Obj struct {
	owner uint64
	cells []Val
	m     *MapObj
	it    *IterObj
	ti    *TI // element/layout type, informational
}

type mapEnt struct {
	key, val Val
	live     bool
	ins      int // insertion sequence number
}

type MapObj struct {
	ents   []mapEnt
	n      int
	seq    int
	kt, vt *TI
}

type IterObj struct {
	mapID   uint32
	isStr   bool
	str     Val
	pos     int
	visited []int // ins numbers already produced
	start   int   // map seq at start
	perm    bool  // enumerate all orders
}

func ptrVal(obj uint32, off int) Val { return Val{K: KPtr, N: uint64(obj)<<32 | uint64(uint32(off))} }
func (v Val) obj() uint32            { return uint32(v.N >> 32) }
func (v Val) off() int               { return int(uint32(v.N)) }
func (v Val) slen() int              { return int(v.M >> 32) }
func (v Val) scap() int              { return int(uint32(v.M)) }
func sliceVal(obj uint32, off, l, c int) Val {
	return Val{K: KSlice, N: uint64(obj)<<32 | uint64(uint32(off)), M: uint64(l)<<32 | uint64(uint32(c))}
}

// Fn is a compiled function.
type Fn struct {
	ssa        *ssa.Function
	name       string
	nregs      int
	regOf      map[ssa.Value]int
	params     []int
	frees      []int
	blocks     []*Blk
	intr       func(st *State, fr *Frame, in *Inst, args []Val) (Val, bool)
	once       sync.Once
	bad        string
	merge      int8 // 0 unknown, 1 yes, 2 no
	repo       bool
	nres       int
	lib        bool
	recoverBlk int
}

type Blk struct {
	idx        int
	phis       []phi
	ins        []Inst
	ipdom      int // immediate postdominator block index, -1 none
	npred      int
	mok, mfail int32 // merge attempts
	// values defined in strict dominators of this block and used from it onwards: when
	// a speculated branch joins here after going round a loop they may have changed
	live     []liveReg
	liveOnce sync.Once
}

type liveReg struct {
	r  int
	ti *TI
}

type phi struct {
	dst   int
	ti    *TI
	edges []opnd
}

type opnd struct {
	r int32
	v *Val
}
