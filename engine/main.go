package main

// symgo: solver-based checking of Go code by path-forking symbolic execution of go/ssa.

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

type checkLine struct {
	prop, tier, harness string
	args                []int
	bound               string
}

func readChecks(path string) []checkLine {
	b, err := os.ReadFile(path)
	if err != nil {
		fatal("%v", err)
	}
	var out []checkLine
	for ln, l := range strings.Split(string(b), "\n") {
		bound := ""
		if i := strings.Index(l, "#"); i >= 0 {
			bound = strings.TrimSpace(l[i+1:])
			l = l[:i]
		}
		f := strings.Fields(l)
		if len(f) == 0 {
			continue
		}
		if len(f) < 3 {
			fatal("checks line %d", ln+1)
		}
		c := checkLine{prop: f[0], tier: f[1], harness: f[2], bound: bound}
		for _, a := range f[3:] {
			n, err := strconv.Atoi(a)
			if err != nil {
				fatal("checks line %d: %v", ln+1, err)
			}
			c.args = append(c.args, n)
		}
		out = append(out, c)
	}
	return out
}

var (
	fRoot    = flag.String("root", "/verif", "verification directory")
	fProp    = flag.String("prop", "", "property to check")
	fTier    = flag.String("tier", "quick", "quick or thorough")
	fRun     = flag.String("run", "", "run one harness: 'pkg.Func a b c'")
	fBudget  = flag.Duration("budget", 0, "total exploration budget")
	fWorkers = flag.Int("j", runtime.NumCPU(), "workers")
	fNoMerge = flag.Bool("nomerge", false, "disable state merging")
	fSelf    = flag.Bool("selftest", false, "check the term simplifier against the solver")
	fCross   = flag.Bool("cross", false, "repeat every query with a second solver")
	fFns     = flag.Bool("fns", false, "list functions encoded")
	fAll     = flag.Bool("all", false, "keep exploring after a violation")
)

func main() {
	flag.Parse()
	t0 := time.Now()
	if *fSelf {
		os.Exit(selftest())
	}
	mergeOn = !*fNoMerge
	var lines []checkLine
	if *fRun != "" {
		f := strings.Fields(*fRun)
		c := checkLine{prop: "-", harness: f[0]}
		for _, a := range f[1:] {
			n, _ := strconv.Atoi(a)
			c.args = append(c.args, n)
		}
		lines = []checkLine{c}
	} else {
		for _, c := range readChecks(filepath.Join(*fRoot, "harness", "checks.txt")) {
			if c.prop != *fProp {
				continue
			}
			switch c.tier {
			case "q":
			case "t":
				if *fTier != "thorough" {
					continue
				}
			case "Q":
				if *fTier == "thorough" {
					continue
				}
			default:
				fatal("tier %q", c.tier)
			}
			lines = append(lines, c)
		}
		if len(lines) == 0 {
			fatal("no checks for property %q", *fProp)
		}
	}
	budget := *fBudget
	if budget == 0 {
		budget = 8 * time.Minute
		if *fTier == "thorough" {
			budget = 90 * time.Minute
		}
	}
	os.Exit(runCheck(lines, budget, t0))
}

func pkgsOf(lines []checkLine) []string {
	m := map[string]bool{}
	for _, c := range lines {
		m[c.harness[:strings.Index(c.harness, ".")]] = true
	}
	var out []string
	for p := range m {
		out = append(out, p)
	}
	sort.Strings(out)
	return out
}

type evRun struct {
	Harness      string         `json:"harness"`
	Args         []int          `json:"args"`
	Bound        string         `json:"bound,omitempty"`
	Paths        int64          `json:"paths"`
	Reached      int64          `json:"reached_final_assertions"`
	Discarded    int64          `json:"paths_discarded_by_assumptions"`
	Steps        int64          `json:"instructions"`
	Asserts      int64          `json:"assertions_checked"`
	MaxVars      int            `json:"max_symbolic_variables_on_a_path"`
	Queries      int64          `json:"solver_queries"`
	Seconds      float64        `json:"seconds"`
	Complete     bool           `json:"complete"`
	Inconclusive map[string]int `json:"inconclusive,omitempty"`
	Notes        map[string]int `json:"notes,omitempty"`
	Validated    int            `json:"paths_replayed_natively"`
}

func runCheck(lines []checkLine, budget time.Duration, t0 time.Time) int {
	hdir := filepath.Join(*fRoot, "harness")
	scratch, err := os.MkdirTemp("", "symgo")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(scratch)
	nat := startNative(hdir, scratch, pkgsOf(lines))
	if err := loadProgram(hdir, pkgsOf(lines)); err != nil {
		fmt.Println("cannot load the harness against /repo:")
		fatal("%v", err)
	}
	tLoad := time.Since(t0)
	ex := NewExplorer(*fWorkers)
	defer func() {
		for _, w := range ex.workers {
			w.sol.Close()
			if w.sol2 != nil {
				w.sol2.Close()
			}
		}
	}()
	base := initState(ex)
	var evs []evRun
	var confirmed *Violation
	ex.onViol = func(v *Violation) bool {
		ex.vmu.Lock()
		defer ex.vmu.Unlock()
		if confirmed != nil && !*fAll {
			v.skipped = true
			return true
		}
		v.confirmed, v.native = nat.confirm(v)
		if v.confirmed {
			if confirmed == nil {
				confirmed = v
			}
			return !*fAll
		}
		return false
	}
	validated, mismatches := 0, 0
	var mism []string
	end := time.Now().Add(budget)
	var samples []any
	for li, c := range lines {
		f, err := findHarness(c.harness)
		if err != nil {
			fatal("%v", err)
		}
		run := &Run{harness: c.harness, args: c.args, fn: getFn(f), notes: map[string]int{}, inconc: map[string]int{}}
		q0 := atomic.LoadInt64(&gStats.Queries)
		left := time.Until(end)
		if left < time.Second {
			evs = append(evs, evRun{Harness: c.harness, Args: c.args, Bound: c.bound, Inconclusive: map[string]int{"time budget exhausted before this run": 1}})
			continue
		}
		if li < len(lines)-1 {
			left = left * 2 / 3 // leave some of the time to the later harnesses
		}
		ex.Explore(run, newRoot(base, run), left)
		if run.reached == 0 && confirmed == nil && run.done {
			run.inconc["vacuous: no path reached the final assertions"]++
		}
		n, bad := nat.validate(run)
		validated += n
		for _, b := range bad {
			mismatches++
			mism = append(mism, b.what)
			if b.v != nil && confirmed == nil {
				confirmed = b.v
			}
		}
		for i, v := range run.viol {
			if !v.confirmed {
				if !v.skipped {
					run.inconc["counterexample not reproduced natively: "+v.msg]++
				}
				if i < 3 {
					logf("unconfirmed %s: %s %v: %s", run, v.msg, v.values, v.native)
				}
			}
		}
		ev := evRun{Harness: c.harness, Args: c.args, Bound: c.bound, Paths: run.paths, Reached: run.reached,
			Discarded: run.discarded, Steps: run.steps, Asserts: run.asserts, MaxVars: run.maxVars,
			Queries: atomic.LoadInt64(&gStats.Queries) - q0, Seconds: run.dur.Seconds(),
			Complete: run.done && len(run.inconc) == 0, Inconclusive: run.inconc, Notes: run.notes, Validated: n}
		evs = append(evs, ev)
		logf("%-28s paths=%d reached=%d disc=%d queries=%d steps=%d %.1fs complete=%v validated=%d ord=%d %v %v", run.String(), run.paths, run.reached,
			run.discarded, ev.Queries, run.steps, ev.Seconds, ev.Complete, n, run.maxOrd, run.inconc, run.notes)
		for i, s := range run.samples {
			if i < 2 && s != nil && len(samples) < 12 {
				samples = append(samples, map[string]any{"harness": run.String(), "inputs": s.values, "observed": s.obs})
			}
		}
		if confirmed != nil && !*fAll {
			break
		}
	}
	var states, steps, disc, forks, merges, audited, auditQ int64
	for _, e := range evs {
		states += e.Paths
		disc += e.Discarded
		steps += e.Steps
	}
	var asserts, assertsConst, assertQ int64
	for _, w := range ex.workers {
		forks += w.forks
		merges += w.merges
		audited += w.audited
		auditQ += w.auditQueries
		asserts += w.asserts
		assertsConst += w.assertsConst
		assertQ += w.assertQueries
	}
	if *fFns {
		for _, f := range ex.touchedFns() {
			fmt.Println(f)
		}
	}
	proved, badLemma := int64(0), ""
	if confirmed == nil {
		proved, badLemma = dischargeLemmas()
	}
	complete := badLemma == ""
	if !complete {
		logf("not confirmed by a solver: %s", badLemma)
	}
	for _, e := range evs {
		complete = complete && e.Complete
	}
	if *fProp != "" {
		seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
		nv := 0
		if confirmed != nil {
			nv = 1
		}
		cov := map[string]any{
			"states": states, "transitions": steps,
			"traces_validated_against_impl": validated,
			"samples":                       samples,
			"exhaustive":                    complete && confirmed == nil,
			"states_are":                    "symbolic paths followed to their end, each standing for all inputs satisfying its path condition",
			"transitions_are":               "SSA instructions executed symbolically",
			"functions_encoded":             ex.touchedFns(),
			"runs":                          evs,
			"forks":                         forks, "merged_branches": merges,
			"assertions": asserts, "assertions_folded_syntactically": assertsConst, "assertion_queries": assertQ,
			"rewritten_comparisons_confirmed_by_solver": audited, "confirmation_queries": auditQ,
			"injectivity_lemmas_confirmed_by_solver": proved,
			"solver": map[string]any{"command": strings.Join(solverBin, " "), "queries": gStats.Queries, "sat": gStats.SatN, "unsat": gStats.UnsatN,
				"unknown": gStats.UnknownN, "seconds_summed_over_workers": float64(gStats.SolverNS) / 1e9,
				"cross_checked_with_z3": gStats.Cross, "cross_disagreements": gStats.CrossBad},
			"load_seconds":                tLoad.Seconds(),
			"engine_vs_native_mismatches": mism,
		}
		ev := map[string]any{"property": *fProp, "tier": *fTier, "seed": seed, "level": "model_checking", "coverage": cov,
			"assumptions": assumptions(*fRoot, *fProp), "wall_s": time.Since(t0).Seconds(), "violations": nv}
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Join(*fRoot, "evidence"), 0o755)
		if err := os.WriteFile(filepath.Join(*fRoot, "evidence", *fProp+".json"), b, 0o644); err != nil {
			fatal("%v", err)
		}
	}
	if confirmed != nil {
		v := confirmed
		dir := filepath.Join(*fRoot, "evidence", "replay")
		os.MkdirAll(dir, 0o755)
		p := filepath.Join(dir, fmt.Sprintf("%s-%s.json", *fProp, strings.ReplaceAll(v.run.harness, ".", "_")))
		b, _ := json.MarshalIndent(map[string]any{"property": *fProp, "harness": v.run.harness, "args": v.run.args, "message": v.msg,
			"values": v.values, "map_order_chosen": v.order, "native": v.native,
			"how_to_replay": "bash /verif/replay.sh " + p}, "", " ")
		os.WriteFile(p, b, 0o644)
		fmt.Printf("%s: %s\n  inputs: %v\n  native run: %s\n", v.run, v.msg, v.values, strings.TrimSpace(v.native))
		fmt.Printf("VIOLATION property=%s replay=%s\n", *fProp, p)
		return 1
	}
	fmt.Printf("%s held: %d paths, %d queries, complete=%v, %d native replays, %d mismatches, %.1fs\n", *fProp, states, gStats.Queries, complete, validated, mismatches, time.Since(t0).Seconds())
	return 0
}

func assumptions(root, prop string) []string {
	out := []string{}
	b, _ := os.ReadFile(filepath.Join(root, "harness", "assumptions.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		if i := strings.Index(l, ":"); i > 0 {
			for _, p := range strings.Split(l[:i], ",") {
				if p == "all" || p == prop {
					out = append(out, strings.TrimSpace(l[i+1:]))
				}
			}
		}
	}
	return out
}

// ---- native replay

type native struct {
	bin   string
	ready chan struct{}
	err   error
	dir   string
}

func startNative(hdir, scratch string, pkgs []string) *native {
	n := &native{bin: filepath.Join(scratch, "replay"), ready: make(chan struct{}), dir: scratch}
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n")
	for _, p := range pkgs {
		fmt.Fprintf(&sb, "\t_ %q\n", "verif/harness/h/"+p)
	}
	sb.WriteString(")\n")
	imp := filepath.Join(scratch, "imports.go")
	os.WriteFile(imp, []byte(sb.String()), 0o644)
	ov := filepath.Join(scratch, "overlay.json")
	b, _ := json.Marshal(map[string]any{"Replace": map[string]string{filepath.Join(hdir, "cmd", "replay", "imports.go"): imp}})
	os.WriteFile(ov, b, 0o644)
	go func() {
		defer close(n.ready)
		cmd := exec.Command("go", "build", "-overlay", ov, "-o", n.bin, "./cmd/replay")
		cmd.Dir = hdir
		out, err := cmd.CombinedOutput()
		if err != nil {
			n.err = fmt.Errorf("building the replay program: %v\n%s", err, out)
		}
	}()
	return n
}

func (n *native) wait() {
	<-n.ready
	if n.err != nil {
		fatal("%v", n.err)
	}
}

type replayCase struct {
	Harness string  `json:"harness"`
	Args    []int   `json:"args"`
	Values  []NDVal `json:"values"`
}

// confirm replays a counterexample against the real code.
func (n *native) confirm(v *Violation) (bool, string) {
	n.wait()
	b, _ := json.Marshal([]replayCase{{v.run.harness, v.run.args, v.values}})
	p := filepath.Join(n.dir, "case.json")
	os.WriteFile(p, b, 0o644)
	tries := 1
	if v.order {
		tries = 400
	}
	last := ""
	for i := 0; i < tries; i++ {
		to := 20 * time.Second
		code, out, timedOut := runNative(n.bin, []string{p}, to)
		if len(out) > 4000 {
			out = out[:4000]
		}
		last = fmt.Sprintf("exit %d: %s", code, out)
		if timedOut {
			if v.hang {
				return true, "did not finish within " + to.String()
			}
			return true, "did not finish within " + to.String() + " (the engine expected: " + v.msg + ")"
		}
		if code == 2 || code == 3 || code == 137 {
			return true, last
		}
	}
	return false, last
}

func runNative(bin string, args []string, to time.Duration) (int, string, bool) {
	sh := "ulimit -v 12000000; exec \"$0\" \"$@\""
	cmd := exec.Command("bash", append([]string{"-c", sh, bin}, args...)...)
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single")
	var sb strings.Builder
	cmd.Stdout = &limited{&sb, 1 << 20}
	cmd.Stderr = cmd.Stdout
	if err := cmd.Start(); err != nil {
		fatal("%v", err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		if err == nil {
			return 0, sb.String(), false
		}
		if ee, ok := err.(*exec.ExitError); ok {
			c := ee.ExitCode()
			if c < 0 {
				c = 137
			}
			return c, sb.String(), false
		}
		return -1, err.Error(), false
	case <-time.After(to):
		cmd.Process.Kill()
		<-done
		return -1, "", true
	}
}

type limited struct {
	sb *strings.Builder
	n  int
}

func (l *limited) Write(p []byte) (int, error) {
	if l.sb.Len() < l.n {
		l.sb.Write(p)
	}
	return len(p), nil
}

type badSample struct {
	what string
	v    *Violation
}

// validate runs sampled complete paths natively and compares the observed values.
func (n *native) validate(run *Run) (int, []badSample) {
	var cases []replayCase
	var ss []*Sample
	for _, s := range run.samples {
		if s != nil {
			cases = append(cases, replayCase{run.harness, run.args, s.values})
			ss = append(ss, s)
		}
	}
	if len(cases) == 0 {
		return 0, nil
	}
	n.wait()
	var bad []badSample
	ok := 0
	for len(cases) > 0 {
		b, _ := json.Marshal(cases)
		p := filepath.Join(n.dir, "batch.json")
		os.WriteFile(p, b, 0o644)
		code, out, timedOut := runNative(n.bin, []string{p, "batch"}, 60*time.Second)
		i := 0
		for _, l := range strings.Split(out, "\n") {
			if !strings.HasPrefix(l, "OBS") {
				continue
			}
			if i >= len(ss) {
				break
			}
			f := strings.Fields(l)[1:]
			good := len(f) == len(ss[i].obs)
			if good {
				for j := range f {
					if u, _ := strconv.ParseUint(f[j], 10, 64); u != ss[i].obs[j] {
						good = false
					}
				}
			}
			if !good && !ss[i].order {
				bad = append(bad, badSample{what: fmt.Sprintf("%s %v: engine %v native %v", run, ss[i].values, ss[i].obs, f)})
			} else {
				ok++
			}
			i++
		}
		if code == 0 && !timedOut {
			break
		}
		if i >= len(ss) {
			break
		}
		// case i failed natively
		what := fmt.Sprintf("%s %v: native failure (exit %d) on a path the engine passed: %s", run, ss[i].values, code, tail(out))
		bs := badSample{what: what}
		if code == 2 || code == 3 || timedOut {
			v := &Violation{run: run, msg: "native run fails on a sampled path", values: ss[i].values, order: ss[i].order, confirmed: true, native: tail(out)}
			bs.v = v
		}
		if !(ss[i].order && code == 5) {
			bad = append(bad, bs)
		}
		cases, ss = cases[i+1:], ss[i+1:]
	}
	for _, b := range bad {
		logf("MISMATCH %s", b.what)
	}
	return ok, bad
}

func tail(s string) string {
	if len(s) > 600 {
		return s[len(s)-600:]
	}
	return s
}
