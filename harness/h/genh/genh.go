// Package genh checks the ordering helpers and hash functions.
package genh

import (
	g "github.com/zyedidia/generic"
	"golang.org/x/exp/constraints"
	"verif/harness/hl"
	"verif/harness/vp"
)

func init() {
	vp.Register("genh.Order", Order)
	vp.Register("genh.Weak", Weak)
	vp.Register("genh.Equal", Equal)
	vp.Register("genh.HashInts", HashInts)
	vp.Register("genh.Injective", Injective)
	vp.Register("genh.HashStr", HashStr)
}

// laws asserts the laws of the helpers for three values of an ordered type.
func laws[T constraints.Ordered](a, b, c T) {
	vp.Assert(vp.And(g.Less(a, b) == (a < b), g.Less(b, a) == (b < a)), "Less agrees with <")
	vp.Assert(g.Equals(a, b) == (a == b), "Equals agrees with ==")
	r := g.Compare(a, b, g.Less[T])
	want := vp.Ite(a < b, -1, vp.Ite(a == b, 0, 1))
	vp.Assert(r == want, "Compare is -1, 0 or 1 as a is less than, equal to or greater than b")
	x := g.Max(a, b)
	vp.Assert(vp.Or(x == a, x == b), "Max returns one of its arguments")
	vp.Assert(vp.And(x >= a, x >= b), "Max is not smaller than either")
	n := g.Min(a, b)
	vp.Assert(vp.Or(n == a, n == b), "Min returns one of its arguments")
	vp.Assert(vp.And(n <= a, n <= b), "Min is not larger than either")
	vp.Assert(g.MaxFunc(a, b, g.Less[T]) == x, "MaxFunc agrees with Max")
	vp.Assert(g.MinFunc(a, b, g.Less[T]) == n, "MinFunc agrees with Min")
	vp.Assume(b <= c)
	k := g.Clamp(a, b, c)
	vp.Assert(vp.Or(vp.Not(a < b), k == b), "Clamp returns lo below the range")
	vp.Assert(vp.Or(vp.Not(a > c), k == c), "Clamp returns hi above the range")
	vp.Assert(vp.Or(vp.Or(a < b, a > c), k == a), "Clamp returns x within the range")
	vp.Assert(g.ClampFunc(a, b, c, g.Less[T]) == k, "ClampFunc agrees with Clamp")
	vp.Reach()
}

type named int32

func f64(n string) float64 {
	x := vp.F64(n)
	vp.Assume(x == x)
	return x
}

func f32(n string) float32 {
	x := vp.F32(n)
	vp.Assume(x == x)
	return x
}

// Order: all values of type number args[0]; strings of up to args[1] bytes.
func Order(args []int) {
	switch args[0] {
	case 0:
		laws(vp.Int("a"), vp.Int("b"), vp.Int("c"))
	case 1:
		laws(vp.I8("a"), vp.I8("b"), vp.I8("c"))
	case 2:
		laws(vp.I16("a"), vp.I16("b"), vp.I16("c"))
	case 3:
		laws(vp.I32("a"), vp.I32("b"), vp.I32("c"))
	case 4:
		laws(vp.I64("a"), vp.I64("b"), vp.I64("c"))
	case 5:
		laws(vp.Uint("a"), vp.Uint("b"), vp.Uint("c"))
	case 6:
		laws(vp.U8("a"), vp.U8("b"), vp.U8("c"))
	case 7:
		laws(vp.U16("a"), vp.U16("b"), vp.U16("c"))
	case 8:
		laws(vp.U32("a"), vp.U32("b"), vp.U32("c"))
	case 9:
		laws(vp.U64("a"), vp.U64("b"), vp.U64("c"))
	case 10:
		laws(vp.Uintptr("a"), vp.Uintptr("b"), vp.Uintptr("c"))
	case 11:
		laws(f64("a"), f64("b"), f64("c"))
	case 12:
		laws(f32("a"), f32("b"), f32("c"))
	case 13:
		laws(named(vp.I32("a")), named(vp.I32("b")), named(vp.I32("c")))
	case 14:
		n := args[1] + 1
		a := vp.Str("a", vp.Choose("na", n))
		b := vp.Str("b", vp.Choose("nb", n))
		c := vp.Str("c", vp.Choose("nc", n))
		laws(a, b, c)
	}
}

func same(a, b hl.Key) bool { return vp.And(a.R == b.R, a.ID == b.ID) }

// Weak: the function-taking variants under a strict weak order that identifies keys.
func Weak(args []int) {
	a, b, c := hl.SymKey("a", -1<<15, 1<<15-1), hl.SymKey("b", -1<<15, 1<<15-1), hl.SymKey("c", -1<<15, 1<<15-1)
	less := hl.KeyLess
	if args[0] == 1 { // descending
		less = func(a, b hl.Key) bool { return a.R > b.R }
	}
	r := g.Compare(a, b, less)
	vp.Assert(r == vp.Ite(less(a, b), -1, vp.Ite(less(b, a), 1, 0)), "Compare is -1, 0 or 1 as a is less than, equivalent to or greater than b")
	x := g.MaxFunc(a, b, less)
	vp.Assert(vp.Or(same(x, a), same(x, b)), "MaxFunc returns one of its arguments")
	vp.Assert(vp.And(vp.Not(less(x, a)), vp.Not(less(x, b))), "MaxFunc is not smaller than either")
	n := g.MinFunc(a, b, less)
	vp.Assert(vp.Or(same(n, a), same(n, b)), "MinFunc returns one of its arguments")
	vp.Assert(vp.And(vp.Not(less(a, n)), vp.Not(less(b, n))), "MinFunc is not larger than either")
	vp.Assume(vp.Not(less(c, b)))
	k := g.ClampFunc(a, b, c, less)
	vp.Assert(vp.Or(vp.Not(less(a, b)), same(k, b)), "ClampFunc returns lo below the range")
	vp.Assert(vp.Or(vp.Not(less(c, a)), same(k, c)), "ClampFunc returns hi above the range")
	vp.Assert(vp.Or(vp.Or(less(a, b), less(c, a)), same(k, a)), "ClampFunc returns x within the range")
	vp.Reach()
}

type rec struct {
	s string
	n int8
	b bool
	a [2]uint16
}

// Equal: Equals on composite, string, pointer and interface values.
func Equal(args []int) {
	mk := func() rec {
		return rec{vp.Str("s", vp.Choose("ns", 3)), vp.I8("n"), vp.Bool("b"), [2]uint16{vp.U16("a0"), vp.U16("a1")}}
	}
	p, q := mk(), mk()
	e := vp.And(vp.And(p.s == q.s, p.n == q.n), vp.And(p.b == q.b, vp.And(p.a[0] == q.a[0], p.a[1] == q.a[1])))
	vp.Assert(g.Equals(p, q) == e, "Equals agrees with == on structs")
	vp.Assert(g.Equals(&p, &q) == false && g.Equals(&p, &p), "Equals agrees with == on pointers")
	var i, j any = p.n, q.n
	vp.Assert(g.Equals(i, j) == (p.n == q.n), "Equals agrees with == on interfaces")
	j = uint8(p.n)
	vp.Assert(!g.Equals(i, j), "Equals agrees with == on interfaces of different types")
	vp.Reach()
}

// HashInts: integers of every width hash as the 64-bit value they convert to.
func HashInts(args []int) {
	i8, i16, i32, i64, i := vp.I8("i8"), vp.I16("i16"), vp.I32("i32"), vp.I64("i64"), vp.Int("i")
	u8, u16, u32, u64, u := vp.U8("u8"), vp.U16("u16"), vp.U32("u32"), vp.U64("u64"), vp.Uint("u")
	vp.Assert(g.HashInt8(i8) == g.HashUint64(uint64(i8)), "HashInt8 hashes the converted value")
	vp.Assert(g.HashInt16(i16) == g.HashUint64(uint64(i16)), "HashInt16 hashes the converted value")
	vp.Assert(g.HashInt32(i32) == g.HashUint64(uint64(i32)), "HashInt32 hashes the converted value")
	vp.Assert(g.HashInt64(i64) == g.HashUint64(uint64(i64)), "HashInt64 hashes the converted value")
	vp.Assert(g.HashInt(i) == g.HashUint64(uint64(i)), "HashInt hashes the converted value")
	vp.Assert(g.HashUint8(u8) == g.HashUint64(uint64(u8)), "HashUint8 hashes the converted value")
	vp.Assert(g.HashUint16(u16) == g.HashUint64(uint64(u16)), "HashUint16 hashes the converted value")
	vp.Assert(g.HashUint32(u32) == g.HashUint64(uint64(u32)), "HashUint32 hashes the converted value")
	vp.Assert(g.HashUint(u) == g.HashUint64(uint64(u)), "HashUint hashes the converted value")
	vp.Assert(g.HashUint64(u64) == g.HashUint64(u64), "HashUint64 depends on the value only")
	vp.Reach()
}

func differ(a, b uint64, same bool, msg string) {
	vp.Assert(vp.Or(same, a != b), msg)
	vp.Assert(vp.Or(vp.Not(same), a == b), "equal values hash equally")
}

// Injective: different integers of type number args[0] have different hashes.
func Injective(args []int) {
	const msg = "different integers have different hashes"
	switch args[0] {
	case 0:
		a, b := vp.U64("a"), vp.U64("b")
		differ(g.HashUint64(a), g.HashUint64(b), a == b, msg)
	case 1:
		a, b := vp.I64("a"), vp.I64("b")
		differ(g.HashInt64(a), g.HashInt64(b), a == b, msg)
	case 2:
		a, b := vp.Int("a"), vp.Int("b")
		differ(g.HashInt(a), g.HashInt(b), a == b, msg)
	case 3:
		a, b := vp.Uint("a"), vp.Uint("b")
		differ(g.HashUint(a), g.HashUint(b), a == b, msg)
	case 4:
		a, b := vp.U32("a"), vp.U32("b")
		differ(g.HashUint32(a), g.HashUint32(b), a == b, msg)
	case 5:
		a, b := vp.I32("a"), vp.I32("b")
		differ(g.HashInt32(a), g.HashInt32(b), a == b, msg)
	case 6:
		a, b := vp.U16("a"), vp.U16("b")
		differ(g.HashUint16(a), g.HashUint16(b), a == b, msg)
	case 7:
		a, b := vp.I16("a"), vp.I16("b")
		differ(g.HashInt16(a), g.HashInt16(b), a == b, msg)
	case 8:
		a, b := vp.U8("a"), vp.U8("b")
		differ(g.HashUint8(a), g.HashUint8(b), a == b, msg)
	case 9:
		a, b := vp.I8("a"), vp.I8("b")
		differ(g.HashInt8(a), g.HashInt8(b), a == b, msg)
	}
	vp.Reach()
}

// HashStr: strings of up to args[0] bytes hash as their bytes, wherever those lie, and
// hashing changes nothing.
func HashStr(args []int) {
	n := vp.Choose("n", args[0]+1)
	s := vp.Str("s", n)
	h := g.HashString(s)
	b := []byte(s)
	vp.Assert(g.HashBytes(b) == h, "hashing a string equals hashing its bytes")
	vp.Assert(string(b) == s, "hashing does not change the bytes")
	big := append(append([]byte{1, 2}, b...), 9, 9)
	vp.Assert(g.HashBytes(big[2:2+n]) == h, "the hash depends on the bytes only")
	vp.Assert(g.HashString(("x" + s + "y")[1:1+n]) == h, "the hash depends on the string only")
	t := vp.Str("t", n)
	vp.Assert(vp.Or(s != t, g.HashString(t) == h), "equal strings hash equally")
	if n == 0 {
		vp.Assert(g.HashBytes(nil) == h && g.HashBytes([]byte{}) == h, "no bytes hash as the empty string")
	}
	vp.Reach()
}
