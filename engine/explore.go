package main

// Parallel depth-first exploration of the paths of one harness run.

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"sync"
	"sync/atomic"
	"time"
)

func logf(f string, a ...any) { fmt.Fprintf(os.Stderr, "symgo: "+f+"\n", a...) }
func fatal(f string, a ...any) {
	logf(f, a...)
	os.Exit(3)
}

// Run is one harness function with its concrete configuration.
type Run struct {
	harness string
	args    []int
	fn      *Fn

	mu        sync.Mutex
	paths     int64
	discarded int64
	reached   int64
	notes     map[string]int
	inconc    map[string]int
	viol      []*Violation // candidates, confirmed or not
	samples   []*Sample
	seen      int64
	forks     int64
	steps     int64
	asserts   int64
	maxVars   int
	maxOrd    int
	t0        time.Time
	dur       time.Duration
	done      bool
	stop      int32
}

type Sample struct {
	values []NDVal
	obs    []uint64
	order  bool
}

type NDVal struct {
	Name string `json:"name"`
	Val  int64  `json:"val"`
}

type Violation struct {
	run       *Run
	msg       string
	values    []NDVal
	order     bool
	hang      bool
	confirmed bool
	skipped   bool
	native    string
}

func (r *Run) note(s string) {
	r.mu.Lock()
	r.notes[s]++
	r.mu.Unlock()
}

func (r *Run) String() string {
	s := r.harness
	for _, a := range r.args {
		s += fmt.Sprintf(" %d", a)
	}
	return s
}

type Explorer struct {
	mu       sync.Mutex
	cond     *sync.Cond
	queue    []*State
	idle     int32
	nworkers int
	finished bool
	run      *Run
	deadline time.Time
	workers  []*Worker
	dropped  bool
	vmu      sync.Mutex
	onViol   func(v *Violation) bool // returns confirmed
}

type Worker struct {
	id    int
	ex    *Explorer
	sol   *Solver
	sol2  *Solver // second solver for cross-checking
	local []*State

	branches, forks, asserts, assertsConst, assertQueries int64
	audited, auditQueries, auditTick                      int64
	steps                                                 int64
	merges, mergeFails                                    int64
	touched                                               map[*Fn]bool
}

func NewExplorer(n int) *Explorer {
	ex := &Explorer{nworkers: n}
	ex.cond = sync.NewCond(&ex.mu)
	for i := 0; i < n; i++ {
		ex.workers = append(ex.workers, &Worker{id: i, ex: ex, sol: NewSolver(solverBin), touched: map[*Fn]bool{}})
	}
	return ex
}

func (ex *Explorer) inconclusive(why string) {
	r := ex.run
	r.mu.Lock()
	r.inconc[why]++
	r.mu.Unlock()
}

func (ex *Explorer) stopped() bool {
	return atomic.LoadInt32(&ex.run.stop) != 0
}

func (w *Worker) touch(fn *Fn) {
	if !w.touched[fn] {
		w.touched[fn] = true
	}
}

func (w *Worker) check(st *State, extra *Term) (Result, Model) {
	r, m := w.sol.Check(st.pc, extra, st.vars)
	if *fCross && r != Unknown {
		if w.sol2 == nil {
			w.sol2 = NewSolver(crossBin)
		}
		r2, _ := w.sol2.CheckOnly(st.pc, extra)
		atomic.AddInt64(&gStats.Cross, 1)
		if r2 != Unknown && r2 != r {
			atomic.AddInt64(&gStats.CrossBad, 1)
			w.ex.inconclusive("solvers disagree")
		}
	}
	return r, m
}

func (w *Worker) push(st *State) {
	w.local = append(w.local, st)
	if atomic.LoadInt32(&w.ex.idle) > 0 {
		ex := w.ex
		ex.mu.Lock()
		ex.queue = append(ex.queue, w.local[0])
		ex.cond.Signal()
		ex.mu.Unlock()
		w.local = w.local[1:]
	}
}

func (w *Worker) nextState() *State {
	if k := len(w.local); k > 0 {
		s := w.local[k-1]
		w.local[k-1] = nil
		w.local = w.local[:k-1]
		return s
	}
	ex := w.ex
	ex.mu.Lock()
	defer ex.mu.Unlock()
	atomic.AddInt32(&ex.idle, 1)
	for {
		if k := len(ex.queue); k > 0 {
			s := ex.queue[k-1]
			ex.queue = ex.queue[:k-1]
			atomic.AddInt32(&ex.idle, -1)
			return s
		}
		if int(ex.idle) == ex.nworkers || ex.finished {
			ex.finished = true
			ex.cond.Broadcast()
			return nil
		}
		ex.cond.Wait()
	}
}

// Explore runs one harness to completion, deadline or first confirmed violation.
func (ex *Explorer) Explore(run *Run, root *State, budget time.Duration) {
	ex.run = run
	ex.finished = false
	ex.idle = 0
	ex.queue = []*State{root}
	run.t0 = time.Now()
	ex.deadline = run.t0.Add(budget)
	timer := time.AfterFunc(budget, func() {
		if atomic.CompareAndSwapInt32(&run.stop, 0, 2) {
			ex.inconclusive("time budget exhausted")
		}
	})
	var wg sync.WaitGroup
	for _, w := range ex.workers {
		w.local = nil
		w.sol.Reset()
		wg.Add(1)
		go func(w *Worker) {
			defer wg.Done()
			for {
				st := w.nextState()
				if st == nil {
					return
				}
				if ex.stopped() {
					continue
				}
				w.runState(st)
			}
		}(w)
	}
	wg.Wait()
	timer.Stop()
	run.dur = time.Since(run.t0)
	run.steps = 0
	for _, w := range ex.workers {
		run.steps += w.steps
		w.steps = 0
	}
	run.done = atomic.LoadInt32(&run.stop) == 0
}

func (w *Worker) runState(st *State) {
	st.w = w
	run := st.run
	for {
		sig := w.execSafe(st)
		switch sig.(type) {
		case goPanic, violation:
		default:
			if v := w.flushSafe(st); v != nil {
				sig = v
			}
		}
		switch s := sig.(type) {
		case nil:
			if st.reached && !w.ex.stopped() {
				w.audit(st)
			}
			w.pathDone(st)
			return
		case goPanic:
			f := st.top()
			v := s.v
			f.unw, f.pv = true, &v
			if st.pend != nil {
				st.pend, st.pendPos = nil, 0
			}
			continue
		case endPath:
			run.mu.Lock()
			run.discarded++
			run.mu.Unlock()
			return
		case unsupported:
			w.ex.inconclusive("unsupported: " + s.what)
			return
		case hang:
			w.report(st, &Violation{run: run, msg: "does not terminate: " + s.what, hang: true}, st.model)
			return
		case violation:
			w.report(st, &Violation{run: run, msg: s.msg}, s.model)
			return
		default:
			panic(sig)
		}
	}
}

func (w *Worker) execSafe(st *State) (sig any) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case endPath, unsupported, violation, goPanic, hang:
				sig = r
			case mergeAbort:
				sig = unsupported{"merge abort outside merge"}
			default:
				fn := "?"
				if k := len(st.frames); k > 0 {
					fr := st.frames[k-1]
					fn = fr.fn.name
					if fr.ip < len(fr.blk.ins) {
						fn += ": " + fr.blk.ins[fr.ip].src.String()
					}
				}
				logf("internal error in %s: %v\n%s", fn, r, debug.Stack())
				sig = unsupported{fmt.Sprintf("internal: %v in %s", r, fn)}
			}
		}
	}()
	st.exec(nil)
	return nil
}

func (w *Worker) flushSafe(st *State) (sig any) {
	defer func() {
		if r := recover(); r != nil {
			if v, ok := r.(violation); ok {
				sig = v
				return
			}
			panic(r)
		}
	}()
	if e := st.w.ex; e.stopped() {
		return nil
	}
	st.merge = false
	st.flushAsserts()
	return nil
}

func (st *State) values(m Model) []NDVal {
	var out []NDVal
	for _, r := range st.nd {
		x := r.v.N
		if r.v.P != nil {
			x = m.eval(r.v.P.(*Term))
		}
		if r.sgn {
			x = uint64(sext(x, r.w))
		}
		out = append(out, NDVal{r.name, int64(x)})
	}
	return out
}

func (w *Worker) report(st *State, v *Violation, m Model) {
	v.values = st.values(m)
	v.order = st.order
	run := st.run
	run.mu.Lock()
	n := len(run.viol)
	same := 0
	for _, o := range run.viol {
		if o.msg == v.msg {
			same++
		}
	}
	run.paths++
	if n < 60 && same < 12 {
		run.viol = append(run.viol, v)
	}
	run.mu.Unlock()
	if n >= 60 || same >= 12 {
		return
	}
	if w.ex.onViol != nil && w.ex.onViol(v) {
		atomic.StoreInt32(&run.stop, 1)
	}
}

const maxSamples = 24

func (w *Worker) pathDone(st *State) {
	run := st.run
	run.mu.Lock()
	defer run.mu.Unlock()
	run.paths++
	run.asserts += int64(st.nasserts)
	if st.orders > run.maxOrd {
		run.maxOrd = st.orders
	}
	if len(st.vars) > run.maxVars {
		run.maxVars = len(st.vars)
	}
	if st.reached {
		run.reached++
	}
	run.seen++
	// reservoir with a fixed stride so that samples spread over the exploration
	take := -1
	if len(run.samples) < maxSamples {
		run.samples = append(run.samples, nil)
		take = len(run.samples) - 1
	} else {
		h := mix(uint64(run.seen), 12345) % uint64(run.seen)
		if h < maxSamples {
			take = int(h)
		}
	}
	if take >= 0 {
		s := &Sample{values: st.values(st.model), order: st.order}
		for i, o := range st.obs {
			x := o.N
			if o.P != nil {
				x = st.model.eval(o.P.(*Term))
			}
			s.obs = append(s.obs, x&maskW(st.obsW[i]))
		}
		run.samples[take] = s
	}
}

func (ex *Explorer) touchedFns() []string {
	m := map[string]bool{}
	for _, w := range ex.workers {
		for f := range w.touched {
			m[f.name] = true
		}
	}
	var out []string
	for f := range m {
		out = append(out, f)
	}
	sort.Strings(out)
	return out
}

// newRoot builds the initial state of a run from the state after package init.
func newRoot(base *State, run *Run) *State {
	st := base.clone()
	st.run = run
	st.mapMax = 3
	st.orders = 1
	ti := elemTI(run.fn.ssa.Params[0].Type())
	var cells []Val
	for _, a := range run.args {
		cells = append(cells, cInt(uint64(a)))
	}
	s := Val{K: KSlice}
	if len(cells) > 0 {
		s = sliceVal(st.alloc(&Obj{cells: cells, ti: ti}), 0, len(cells), len(cells))
	}
	st.frames = nil
	st.model = Model{}
	st.steps = 0
	run.fn.ready()
	st.pushFrame(run.fn, []Val{s}, nil, -1)
	return st
}
