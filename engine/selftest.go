package main

// Self test: random terms, simplifier vs solver and vs the evaluator.

import (
	"fmt"
	"math/rand"
)

// raw builds a term without simplification by mirroring the construction in SMT text.
type rawTerm struct {
	smt string
	t   *Term
}

func selftest() int {
	rng := rand.New(rand.NewSource(1))
	sol := NewSolver(solverBin)
	defer sol.Close()
	bad := 0
	for it := 0; it < 1000; it++ {
		w := []uint8{8, 8, 8, 16, 32, 64}[rng.Intn(6)]
		vars := []*Term{mkVar(fmt.Sprintf("a%d_%d", w, 0), w, 0), mkVar(fmt.Sprintf("a%d_%d", w, 1), w, 1), mkVar(fmt.Sprintf("a%d_%d", w, 2), w, 2)}
		var gen func(d int) rawTerm
		var genB func(d int) rawTerm
		k := func() rawTerm {
			c := []uint64{0, 1, 2, 3, 7, 8, 127, 128, 255, ^uint64(0), rng.Uint64()}[rng.Intn(11)]
			t := mkConst(c, w)
			return rawTerm{constSMT(t), t}
		}
		gen = func(d int) rawTerm {
			if d == 0 || rng.Intn(6) == 0 {
				if rng.Intn(2) == 0 {
					return k()
				}
				v := vars[rng.Intn(3)]
				return rawTerm{sol.ref(v), v}
			}
			switch rng.Intn(6) {
			case 0:
				c, a, b := genB(d-1), gen(d-1), gen(d-1)
				return rawTerm{"(ite " + c.smt + " " + a.smt + " " + b.smt + ")", mkIte(c.t, a.t, b.t)}
			case 1:
				a := gen(d - 1)
				if w == 64 || w == 8 {
					return a
				}
				hw := w / 2
				tr := rawTerm{fmt.Sprintf("((_ extract %d 0) %s)", hw-1, a.smt), mkTrunc(a.t, hw)}
				if rng.Intn(2) == 0 {
					return rawTerm{fmt.Sprintf("((_ sign_extend %d) %s)", w-hw, tr.smt), mkExt(tr.t, w, true)}
				}
				return rawTerm{fmt.Sprintf("((_ zero_extend %d) %s)", w-hw, tr.smt), mkExt(tr.t, w, false)}
			}
			ops := []Op{OAdd, OSub, OMul, OUDiv, OSDiv, OURem, OSRem, OBAnd, OBOr, OBXor, OShl, OLShr, OAShr}
			op := ops[rng.Intn(len(ops))]
			if w > 8 && (op == OMul || op == OUDiv || op == OSDiv || op == OURem || op == OSRem) {
				op = OAdd // slow to decide at these widths
			}
			a, b := gen(d-1), gen(d-1)
			if rng.Intn(3) == 0 {
				b = k()
			}
			if rng.Intn(8) == 0 && (op == OBXor) {
				s := k()
				sh := rawTerm{"(bvlshr " + a.smt + " " + s.smt + ")", mkBin(OLShr, a.t, s.t)}
				b = sh
			}
			return rawTerm{"(" + opName[op] + " " + a.smt + " " + b.smt + ")", mkBin(op, a.t, b.t)}
		}
		genB = func(d int) rawTerm {
			if d <= 1 || rng.Intn(3) > 0 {
				a, b := gen(d-1+b2i(d == 0)), gen(d-1+b2i(d == 0))
				switch rng.Intn(3) {
				case 0:
					return rawTerm{"(= " + a.smt + " " + b.smt + ")", mkEq(a.t, b.t)}
				case 1:
					return rawTerm{"(bvult " + a.smt + " " + b.smt + ")", mkUlt(a.t, b.t)}
				}
				return rawTerm{"(bvslt " + a.smt + " " + b.smt + ")", mkSlt(a.t, b.t)}
			}
			a := genB(d - 1)
			switch rng.Intn(3) {
			case 0:
				return rawTerm{"(not " + a.smt + ")", mkNot(a.t)}
			case 1:
				b := genB(d - 1)
				return rawTerm{"(and " + a.smt + " " + b.smt + ")", mkAnd(a.t, b.t)}
			}
			b := genB(d - 1)
			return rawTerm{"(or " + a.smt + " " + b.smt + ")", mkOr(a.t, b.t)}
		}
		r := genB(3)
		// validity of simplified == raw, by evaluation of the model found for a difference
		for _, v := range vars {
			sol.define(v)
		}
		sol.define(r.t)
		sol.w("(push 1)\n(assert (not (= " + r.smt + " " + sol.ref(r.t) + ")))\n(check-sat)\n")
		sol.in.Flush()
		line := sol.readLine()
		sol.w("(pop 1)\n")
		if line == "sat" {
			bad++
			fmt.Println("simplifier differs:", r.smt, "vs", r.t)
		} else if line != "unsat" {
			fmt.Println("selftest:", line)
		}
		// evaluator agrees with solver
		res, m := sol.Check(nil, r.t, vars)
		if res == Sat && m.eval(r.t) != 1 {
			bad++
			fmt.Println("evaluator differs:", r.t, m)
		}
	}
	fmt.Println("selftest: 1000 terms,", bad, "disagreements")
	if bad > 0 {
		return 1
	}
	return 0
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
