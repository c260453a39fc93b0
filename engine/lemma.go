package main

// The injectivity facts the equality rewriting relies on. Each one used is put to a
// solver at the end of the run.

import (
	"bytes"
	"fmt"
	"os/exec"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type lemma struct {
	op Op // OMul, OAdd, OBXor with a constant; OLShr, OShl for x ^ (x shifted by k)
	k  uint64
	w  uint8
}

var lemmas sync.Map

func useLemma(op Op, k uint64, w uint8) { lemmas.LoadOrStore(lemma{op, k, w}, true) }

func (l lemma) smt() string {
	k := fmt.Sprintf("(_ bv%d %d)", l.k, l.w)
	f := func(x string) string {
		switch l.op {
		case OMul:
			return "(bvmul " + x + " " + k + ")"
		case OAdd:
			return "(bvadd " + x + " " + k + ")"
		case OBXor:
			return "(bvxor " + x + " " + k + ")"
		case OLShr:
			return "(bvxor " + x + " (bvlshr " + x + " " + k + "))"
		}
		return "(bvxor " + x + " (bvshl " + x + " " + k + "))"
	}
	return fmt.Sprintf("(set-logic QF_BV)\n(declare-const x (_ BitVec %d))\n(declare-const y (_ BitVec %d))\n(assert (distinct x y))\n(assert (= %s %s))\n(check-sat)\n",
		l.w, l.w, f("x"), f("y"))
}

// dischargeLemmas returns the lemmas confirmed and the first one that is not.
func dischargeLemmas() (n int64, bad string) {
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	lemmas.Range(func(k, _ any) bool {
		l := k.(lemma)
		wg.Add(1)
		sem <- true
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			t := time.Now()
			ok := false
			// z3 decides the products, cvc5 the rest if z3 should not
			for _, bin := range [][]string{{"z3", "-in", "-T:60"}, {"cvc5", "--tlimit=60000"}} {
				c := exec.Command(bin[0], bin[1:]...)
				c.Stdin = strings.NewReader(l.smt())
				var out bytes.Buffer
				c.Stdout = &out
				c.Run()
				if strings.TrimSpace(out.String()) == "unsat" {
					ok = true
					break
				}
			}
			atomic.AddInt64(&gStats.Queries, 1)
			atomic.AddInt64(&gStats.SolverNS, int64(time.Since(t)))
			mu.Lock()
			defer mu.Unlock()
			if ok {
				n++
				gStats.UnsatN++
			} else {
				gStats.UnknownN++
				bad = l.smt()
			}
		}()
		return true
	})
	wg.Wait()
	return
}
