package hl

import "verif/harness/vp"

// Rand is a fixed sequence of numbers for long mixed histories.
type Rand struct{ s uint32 }

// NewRand is one of n such sequences.
func NewRand(n int) *Rand { return &Rand{uint32(1 + 7919*vp.Choose("seed", n))} }

// N is the next number below n.
func (r *Rand) N(n int) int {
	r.s = r.s*1664525 + 1013904223
	return int(r.s>>8) % n
}
