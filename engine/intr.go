package main

// Intrinsics: the vp harness interface and the few library functions that are not
// executed from their source.

import (
	"fmt"
	"go/types"
	"math"
	"strings"
)

type intrFn = func(st *State, fr *Frame, in *Inst, a []Val) (Val, bool)

var intrinsics map[string]intrFn

func noMerge(st *State) {
	if st.merge {
		panic(mergeAbort{})
	}
}

func strArg(v Val) string {
	if s, ok := v.P.(string); ok {
		return s
	}
	return "?"
}

func (st *State) ndRecord(name string, v Val, w uint8, sgn bool) {
	st.nd = append(st.nd, ndRec{name, v, w, sgn})
}

func ndInt(w uint8, sgn bool) intrFn {
	return func(st *State, fr *Frame, in *Inst, a []Val) (Val, bool) {
		noMerge(st)
		n := strArg(a[0])
		v := cTerm(st.freshVar(n, w))
		st.ndRecord(n, v, w, sgn)
		return v, true
	}
}

func (st *State) setModel(t *Term, v uint64) {
	m := make(Model, len(st.model)+1)
	for k, x := range st.model {
		m[k] = x
	}
	m[t] = v
	st.model = m
}

func boolOp(f func(a, b *Term) *Term) intrFn {
	return func(st *State, fr *Frame, in *Inst, a []Val) (Val, bool) {
		return cTerm(f(a[0].term(0), a[1].term(0))), true
	}
}

func retNone(st *State, fr *Frame, in *Inst, a []Val) (Val, bool) { return Val{}, true }

func mathFn(f func(float64) float64) intrFn {
	return func(st *State, fr *Frame, in *Inst, a []Val) (Val, bool) {
		if a[0].P != nil {
			st.unsupported("symbolic float in math function")
		}
		return Val{K: KFloat, N: math.Float64bits(f(math.Float64frombits(a[0].N)))}, true
	}
}

const vpPkg = "verif/harness/vp."

func init() {
	intrinsics = map[string]intrFn{
		vpPkg + "I8": ndInt(8, true), vpPkg + "I16": ndInt(16, true), vpPkg + "I32": ndInt(32, true),
		vpPkg + "I64": ndInt(64, true), vpPkg + "Int": ndInt(64, true),
		vpPkg + "U8": ndInt(8, false), vpPkg + "U16": ndInt(16, false), vpPkg + "U32": ndInt(32, false),
		vpPkg + "U64": ndInt(64, false), vpPkg + "Uint": ndInt(64, false), vpPkg + "Uintptr": ndInt(64, false),
		vpPkg + "Bool": ndInt(0, false),
		vpPkg + "F64": func(st *State, fr *Frame, in *Inst, a []Val) (Val, bool) {
			noMerge(st)
			n := strArg(a[0])
			t := st.freshVar(n, 64)
			st.ndRecord(n, cTerm(t), 64, false)
			return Val{K: KFloat, P: t}, true
		},
		vpPkg + "F32": func(st *State, fr *Frame, in *Inst, a []Val) (Val, bool) {
			noMerge(st)
			n := strArg(a[0])
			t := st.freshVar(n, 32)
			st.ndRecord(n, cTerm(t), 32, false)
			return Val{K: KFloat, P: t}, true
		},
		// IntR(name, lo, hi): lo <= x <= hi
		vpPkg + "IntR": func(st *State, fr *Frame, in *Inst, a []Val) (Val, bool) {
			noMerge(st)
			n := strArg(a[0])
			lo, hi := int64(a[1].N), int64(a[2].N)
			if a[1].P != nil || a[2].P != nil {
				st.unsupported("symbolic range")
			}
			if lo == hi {
				st.ndRecord(n, a[1], 64, true)
				return a[1], true
			}
			t := st.freshVar(n, 64)
			st.ndRecord(n, cTerm(t), 64, true)
			st.setModel(t, uint64(lo))
			st.assertPC(mkNot(mkSlt(t, mkConst(uint64(lo), 64))))
			st.assertPC(mkNot(mkSlt(mkConst(uint64(hi), 64), t)))
			return cTerm(t), true
		},
		// Progress tells the hang detector that the harness itself is getting on.
		vpPkg + "Progress": func(st *State, fr *Frame, in *Inst, a []Val) (Val, bool) {
			noMerge(st)
			st.steps = 0
			return Val{}, true
		},
		vpPkg + "Choose": func(st *State, fr *Frame, in *Inst, a []Val) (Val, bool) {
			st.steps = 0
			n := int(st.concInt(a[1], 64))
			if n < 1 {
				panic(endPath{"choose 0"})
			}
			c := st.choose(n)
			v := cInt(uint64(c))
			st.ndRecord(strArg(a[0]), v, 64, true)
			return v, true
		},
		vpPkg + "Assume": func(st *State, fr *Frame, in *Inst, a []Val) (Val, bool) {
			noMerge(st)
			st.assume(a[0].term(0))
			return Val{}, true
		},
		vpPkg + "Assert": func(st *State, fr *Frame, in *Inst, a []Val) (Val, bool) {
			noMerge(st)
			st.assertProp(a[0].term(0), strArg(a[1]))
			return Val{}, true
		},
		vpPkg + "Observe": func(st *State, fr *Frame, in *Inst, a []Val) (Val, bool) {
			noMerge(st)
			st.obs = append(st.obs, a[0])
			st.obsW = append(st.obsW, 64)
			return Val{}, true
		},
		vpPkg + "Reach": func(st *State, fr *Frame, in *Inst, a []Val) (Val, bool) {
			noMerge(st)
			st.reached = true
			return Val{}, true
		},
		vpPkg + "MapOrder": func(st *State, fr *Frame, in *Inst, a []Val) (Val, bool) {
			noMerge(st)
			st.mapMax = int(st.concInt(a[0], 64))
			return Val{}, true
		},
		vpPkg + "And":     boolOp(mkAnd),
		vpPkg + "Or":      boolOp(mkOr),
		vpPkg + "Iff":     boolOp(mkEq),
		vpPkg + "Implies": boolOp(func(a, b *Term) *Term { return mkOr(mkNot(a), b) }),
		vpPkg + "Not": func(st *State, fr *Frame, in *Inst, a []Val) (Val, bool) {
			return cTerm(mkNot(a[0].term(0))), true
		},
		vpPkg + "Ite": func(st *State, fr *Frame, in *Inst, a []Val) (Val, bool) {
			return cTerm(mkIte(a[0].term(0), a[1].term(64), a[2].term(64))), true
		},
		vpPkg + "B2I": func(st *State, fr *Frame, in *Inst, a []Val) (Val, bool) {
			return cTerm(mkB2I(a[0].term(0), 64)), true
		},
		// Concrete forks over all feasible values of its argument
		vpPkg + "Concrete": func(st *State, fr *Frame, in *Inst, a []Val) (Val, bool) {
			return cInt(uint64(st.concInt(a[0], 64))), true
		},
		// Decide forks on a boolean
		vpPkg + "Decide": func(st *State, fr *Frame, in *Inst, a []Val) (Val, bool) {
			return cBool(st.decide(a[0].term(0))), true
		},
		vpPkg + "Str": func(st *State, fr *Frame, in *Inst, a []Val) (Val, bool) {
			noMerge(st)
			n := int(st.concInt(a[1], 64))
			var b []Val
			for i := 0; i < n; i++ {
				v := cTerm(st.freshVar(strArg(a[0]), 8))
				st.ndRecord(strArg(a[0]), v, 8, false)
				b = append(b, v)
			}
			return mkStr(b), true
		},
		vpPkg + "Register": retNone,

		// any-typed slices for the sort.Slice replacement
		vpPkg + "anyLen": func(st *State, fr *Frame, in *Inst, a []Val) (Val, bool) {
			return cInt(uint64(a[0].P.(*IfaceVal).v.slen())), true
		},
		vpPkg + "anySwap": func(st *State, fr *Frame, in *Inst, a []Val) (Val, bool) {
			iv := a[0].P.(*IfaceVal)
			ei := elemTI(iv.t.t)
			i, j := int(st.concInt(a[1], 64)), int(st.concInt(a[2], 64))
			o := st.wr(iv.v.obj())
			x := o.cells[iv.v.off()+i*ei.size : iv.v.off()+(i+1)*ei.size]
			y := o.cells[iv.v.off()+j*ei.size : iv.v.off()+(j+1)*ei.size]
			for k := range x {
				x[k], y[k] = y[k], x[k]
			}
			return Val{}, true
		},
		"sort.Slice":       redirect("SortSlice"),
		"sort.SliceStable": redirect("SortSlice"),

		// formatting: opaque text for symbolic or structured operands
		"fmt.Sprintf": func(st *State, fr *Frame, in *Inst, a []Val) (Val, bool) {
			return cStr(st.sprintf(strArg(a[0]), a[1])), true
		},
		"fmt.Sprint": func(st *State, fr *Frame, in *Inst, a []Val) (Val, bool) {
			return cStr(fmt.Sprint(st.goArgs(a[0])...)), true
		},
		"fmt.Sprintln": func(st *State, fr *Frame, in *Inst, a []Val) (Val, bool) {
			return cStr(fmt.Sprintln(st.goArgs(a[0])...)), true
		},
		"fmt.Printf": fmtPrint, "fmt.Println": fmtPrint, "fmt.Print": fmtPrint,
		"fmt.Fprintf": fmtPrint, "fmt.Fprintln": fmtPrint, "fmt.Fprint": fmtPrint,
		"fmt.Errorf": func(st *State, fr *Frame, in *Inst, a []Val) (Val, bool) {
			return st.mkError(st.sprintf(strArg(a[0]), a[1])), true
		},
		"(*strings.Builder).copyCheck": retNone,
		"internal/bytealg.MakeNoZero": func(st *State, fr *Frame, in *Inst, a []Val) (Val, bool) {
			n := int(st.concInt(a[0], 64))
			return st.makeSlice(typeInfo(types.Typ[types.Uint8]), n, n), true
		},
		"internal/bytealg.IndexByteString": func(st *State, fr *Frame, in *Inst, a []Val) (Val, bool) {
			for i := 0; i < strLen(a[0]); i++ {
				if st.decide(mkEq(strAt(a[0], i).term(8), a[1].term(8))) {
					return cInt(uint64(i)), true
				}
			}
			return cInt(^uint64(0)), true
		},
		"internal/bytealg.IndexByte": func(st *State, fr *Frame, in *Inst, a []Val) (Val, bool) {
			for i, c := range st.sliceCells(a[0], typeInfo(types.Typ[types.Uint8])) {
				if st.decide(mkEq(c.term(8), a[1].term(8))) {
					return cInt(uint64(i)), true
				}
			}
			return cInt(^uint64(0)), true
		},
		"internal/bytealg.Equal": bytesEqual, "bytes.Equal": bytesEqual,
		"internal/stringslite.Clone": func(st *State, fr *Frame, in *Inst, a []Val) (Val, bool) { return a[0], true },
		"strings.Clone":              func(st *State, fr *Frame, in *Inst, a []Val) (Val, bool) { return a[0], true },
		"maps.clone": func(st *State, fr *Frame, in *Inst, a []Val) (Val, bool) {
			iv := a[0].P.(*IfaceVal)
			return Val{K: KIface, P: &IfaceVal{iv.t, st.cloneMap(iv.v)}}, true
		},
		"slices.overlaps": overlapsIntr, "golang.org/x/exp/slices.overlaps": overlapsIntr,
		"slices.startIdx": startIdxIntr, "golang.org/x/exp/slices.startIdx": startIdxIntr,
		"errors.New": func(st *State, fr *Frame, in *Inst, a []Val) (Val, bool) { return st.mkError(strArg(a[0])), true },

		"math.Sqrt": mathFn(math.Sqrt), "math.Floor": mathFn(math.Floor), "math.Ceil": mathFn(math.Ceil),
		"math.Log": mathFn(math.Log), "math.Log2": mathFn(math.Log2), "math.Abs": mathFn(math.Abs),
		"math.Float64bits": func(st *State, fr *Frame, in *Inst, a []Val) (Val, bool) {
			return cTerm(fbits(a[0], 64)), true
		},
		"math.Float64frombits": func(st *State, fr *Frame, in *Inst, a []Val) (Val, bool) {
			return Val{K: KFloat, N: a[0].N, P: a[0].P}, true
		},
		"math.Float32bits": func(st *State, fr *Frame, in *Inst, a []Val) (Val, bool) {
			return cTerm(fbits(a[0], 32)), true
		},
		"math.IsNaN": func(st *State, fr *Frame, in *Inst, a []Val) (Val, bool) {
			if a[0].P != nil {
				t := a[0].P.(*Term)
				return cTerm(mkUlt(mkConst(0x7ff<<52, 64), mkBin(OBAnd, t, mkConst(1<<63-1, 64)))), true
			}
			return cBool(math.IsNaN(math.Float64frombits(a[0].N))), true
		},

		"(*sync.Mutex).Lock": retNone, "(*sync.Mutex).Unlock": retNone,
		"(*sync.RWMutex).Lock": retNone, "(*sync.RWMutex).Unlock": retNone,
		"(*sync.RWMutex).RLock": retNone, "(*sync.RWMutex).RUnlock": retNone,
		"runtime.KeepAlive": retNone, "runtime.GC": retNone,
		"math/bits.Mul64": func(st *State, fr *Frame, in *Inst, a []Val) (Val, bool) {
			if a[0].P == nil && a[1].P == nil {
				hi, lo := mul64(a[0].N, a[1].N)
				return Val{K: KTuple, P: []Val{cInt(hi), cInt(lo)}}, true
			}
			st.unsupported("symbolic bits.Mul64")
			return Val{}, true
		},
	}
}

func mul64(x, y uint64) (hi, lo uint64) {
	const m = 1<<32 - 1
	x0, x1, y0, y1 := x&m, x>>32, y&m, y>>32
	w0 := x0 * y0
	t := x1*y0 + w0>>32
	w1 := t&m + x0*y1
	return x1*y1 + t>>32 + w1>>32, x * y
}

// redirect runs a Go replacement from the vp package instead.
func redirect(name string) intrFn {
	return func(st *State, fr *Frame, in *Inst, a []Val) (Val, bool) {
		p := prog.ImportedPackage("verif/harness/vp")
		f := p.Func(name)
		fn := getFn(f).ready()
		dst := -1
		if in != nil {
			dst = in.dst
		}
		fr.ip++
		st.pushFrame(fn, a, nil, dst)
		return Val{}, false
	}
}

func fmtPrint(st *State, fr *Frame, in *Inst, a []Val) (Val, bool) {
	return Val{K: KTuple, P: []Val{cInt(0), {K: KIface}}}, true
}

func bytesEqual(st *State, fr *Frame, in *Inst, a []Val) (Val, bool) {
	b := typeInfo(types.Typ[types.Uint8])
	x, y := st.sliceCells(a[0], b), st.sliceCells(a[1], b)
	if len(x) != len(y) {
		return cBool(false), true
	}
	r := tTrue
	for i := range x {
		r = mkAnd(r, mkEq(x[i].term(8), y[i].term(8)))
	}
	return cTerm(r), true
}

func overlapsIntr(st *State, fr *Frame, in *Inst, a []Val) (Val, bool) {
	x, y := a[0], a[1]
	if x.slen() == 0 || y.slen() == 0 || x.obj() != y.obj() {
		return cBool(false), true
	}
	// element size is at least one cell here; compare in cells of the shared object
	sz := 1
	if ti := st.rd(x.obj()).ti; ti != nil {
		sz = ti.size
	}
	return cBool(x.off() < y.off()+y.slen()*sz && y.off() < x.off()+x.slen()*sz), true
}

func startIdxIntr(st *State, fr *Frame, in *Inst, a []Val) (Val, bool) {
	hay, needle := a[0], a[1]
	sz := 1
	if ti := st.rd(hay.obj()).ti; ti != nil {
		sz = max1(ti.size)
	}
	return cInt(uint64((needle.off() - hay.off()) / sz)), true
}

func (st *State) cloneMap(m Val) Val {
	if m.N == 0 {
		return m
	}
	o := st.rd(uint32(m.N)).m
	n := *o
	n.ents = append([]mapEnt(nil), o.ents...)
	return Val{K: KMap, N: uint64(st.alloc(&Obj{m: &n}))}
}

// mkError builds an error value with the given text (an *errors.errorString).
func (st *State) mkError(s string) Val {
	p := prog.ImportedPackage("errors")
	if p == nil {
		st.unsupported("errors package not loaded")
	}
	t := p.Type("errorString").Type()
	obj := st.alloc(&Obj{cells: []Val{cStr(s)}, ti: typeInfo(t)})
	return Val{K: KIface, P: &IfaceVal{typeInfo(types.NewPointer(t)), ptrVal(obj, 0)}}
}

type opaque string

func (o opaque) Format(f fmt.State, c rune) { f.Write([]byte(o)) }

func (st *State) goArg(v Val) any {
	if v.K != KIface {
		return opaque("?")
	}
	if v.P == nil {
		return nil
	}
	iv := v.P.(*IfaceVal)
	switch iv.v.K {
	case KInt:
		if iv.v.P != nil {
			return opaque("<sym>")
		}
		if iv.t.w == 0 {
			return iv.v.N != 0
		}
		if iv.t.signed {
			return sext(iv.v.N, iv.t.w)
		}
		return iv.v.N
	case KString:
		if s, ok := iv.v.P.(string); ok {
			return s
		}
		return opaque("<sym>")
	case KFloat:
		if iv.v.P != nil {
			return opaque("<sym>")
		}
		return math.Float64frombits(iv.v.N)
	}
	return opaque("<" + iv.t.t.String() + ">")
}

func (st *State) goArgs(s Val) []any {
	var out []any
	for _, c := range st.sliceCells(s, typeInfo(types.NewInterfaceType(nil, nil))) {
		out = append(out, st.goArg(c))
	}
	return out
}

func (st *State) sprintf(f string, args Val) string {
	return strings.ToValidUTF8(fmt.Sprintf(f, st.goArgs(args)...), "?")
}
