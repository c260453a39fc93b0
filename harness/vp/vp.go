// Package vp is the harness interface. Under the symbolic engine these functions
// are intercepted; natively they read recorded values, so that a solver model can be
// replayed against the real code.
package vp

import (
	"fmt"
	"math"
	"os"
)

type rec struct {
	Name string `json:"name"`
	Val  int64  `json:"val"`
}

var (
	values []rec
	pos    int
	obs    []uint64
	// Funcs maps registered harness names to functions.
	Funcs = map[string]func([]int){}
	// OnFail is called instead of exiting when set (batch replay).
	OnFail func(code int, msg string)
)

// Register names a harness for native replay.
func Register(name string, f func([]int)) { Funcs[name] = f }

// Load sets the recorded values.
func Load(names []string, vals []int64) {
	values = nil
	for i := range names {
		values = append(values, rec{names[i], vals[i]})
	}
	pos = 0
	obs = nil
}

// Observed returns what Observe collected.
func Observed() []uint64 { return obs }

func fail(code int, f string, a ...any) {
	msg := fmt.Sprintf(f, a...)
	if OnFail != nil {
		OnFail(code, msg)
	}
	fmt.Println(msg)
	os.Exit(code)
}

func next(name string) int64 {
	if pos >= len(values) {
		fail(5, "DIVERGED: no recorded value for %q", name)
	}
	r := values[pos]
	pos++
	if r.Name != name {
		fail(5, "DIVERGED: want %q, recorded %q", name, r.Name)
	}
	return r.Val
}

func I8(name string) int8      { return int8(next(name)) }
func I16(name string) int16    { return int16(next(name)) }
func I32(name string) int32    { return int32(next(name)) }
func I64(name string) int64    { return next(name) }
func Int(name string) int      { return int(next(name)) }
func U8(name string) uint8     { return uint8(next(name)) }
func U16(name string) uint16   { return uint16(next(name)) }
func U32(name string) uint32   { return uint32(next(name)) }
func U64(name string) uint64   { return uint64(next(name)) }
func Uint(name string) uint    { return uint(next(name)) }
func Uintptr(n string) uintptr { return uintptr(next(n)) }
func Bool(name string) bool    { return next(name) != 0 }
func F64(name string) float64  { return math.Float64frombits(uint64(next(name))) }
func F32(name string) float32  { return math.Float32frombits(uint32(next(name))) }

// IntR is an arbitrary integer in [lo, hi].
func IntR(name string, lo, hi int) int {
	x := int(next(name))
	if x < lo || x > hi {
		fail(4, "ASSUME range %s=%d", name, x)
	}
	return x
}

// Choose is an arbitrary integer in [0, n); the engine explores each separately.
func Choose(name string, n int) int {
	x := int(next(name))
	if x < 0 || x >= n {
		fail(4, "ASSUME choice %s=%d", name, x)
	}
	return x
}

// Str is a string of n arbitrary bytes.
func Str(name string, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(next(name))
	}
	return string(b)
}

func Assume(c bool) {
	if !c {
		fail(4, "ASSUME failed")
	}
}

func Assert(c bool, msg string) {
	if !c {
		fail(3, "ASSERT FAILED: %s", msg)
	}
}

// Observe records a value compared between engine and native runs.
func Observe(x int) { obs = append(obs, uint64(x)) }

// Progress tells the engine's hang detector that the harness itself is getting on.
func Progress() {}

// Reach marks that the harness got to its final assertions.
func Reach() {}

// MapOrder sets up to how many entries all map iteration orders are explored; beyond
// that, insertion order and its reverse. With -1 only insertion order is.
func MapOrder(n int) {}

func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Iff(a, b bool) bool     { return a == b }
func Implies(a, b bool) bool { return !a || b }
func Not(a bool) bool        { return !a }
func Ite(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
func B2I(c bool) int {
	if c {
		return 1
	}
	return 0
}

// Concrete makes the engine fork over the feasible values of x.
func Concrete(x int) int { return x }

// Decide makes the engine fork on c.
func Decide(c bool) bool { return c }

// Panics reports whether f panics.
func Panics(f func()) (p bool) {
	defer func() {
		if recover() != nil {
			p = true
		}
	}()
	f()
	return false
}

func anyLen(x any) int        { return 0 }
func anySwap(x any, i, j int) {}

// SortSlice replaces sort.Slice inside the engine.
func SortSlice(x any, less func(i, j int) bool) {
	n := anyLen(x)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			anySwap(x, j, j-1)
		}
	}
}
