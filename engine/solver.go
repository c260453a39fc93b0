package main

// One SMT solver process spoken to over a pipe, with an assertion stack kept in
// step with the path condition of the state being executed.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

type Stats struct {
	Queries, SatN, UnsatN, UnknownN int64
	SolverNS                        int64
	Terms                           int64
	Cross, CrossBad                 int64
}

var gStats Stats

type Solver struct {
	bin     []string
	cmd     *exec.Cmd
	in      *bufio.Writer
	inc     io.WriteCloser
	out     *bufio.Reader
	defined map[uint32]bool
	stack   []*Term
	ndef    int
	nq      int
	log     io.Writer
	lines   chan string
}

var solverBin = func() []string {
	if s := os.Getenv("SYMGO_SOLVER"); s != "" {
		return strings.Fields(s)
	}
	return []string{"cvc5", "--incremental", "--tlimit-per=30000"}
}()

var maxQueries = func() int {
	if n, err := strconv.Atoi(os.Getenv("SYMGO_MAXQ")); err == nil {
		return n
	}
	return 2000
}()

// A solver process is replaced when it has been given this many definitions.
var maxDefs = func() int {
	if n, err := strconv.Atoi(os.Getenv("SYMGO_MAXDEFS")); err == nil {
		return n
	}
	return 8000
}()

var crossBin = []string{"z3", "-in", "-t:30000"}

func NewSolver(bin []string) *Solver {
	s := &Solver{bin: bin}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin[0], s.bin[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		fatal("solver: %v", err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		fatal("solver: %v", err)
	}
	s.cmd.Stderr = s.cmd.Stdout
	if err := s.cmd.Start(); err != nil {
		fatal("cannot start solver %v: %v", s.bin, err)
	}
	s.inc = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.defined = map[uint32]bool{}
	s.stack = nil
	s.ndef, s.nq = 0, 0
	s.w("(set-option :global-declarations true)\n(set-option :produce-models true)\n(set-logic QF_BV)\n")
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inc.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// Reset forgets the definitions of earlier runs, which slow the solver down.
func (s *Solver) Reset() {
	if s.ndef > 0 {
		s.Close()
		s.start()
	}
}

func (s *Solver) w(x string) {
	s.in.WriteString(x)
}

func (s *Solver) ref(t *Term) string {
	switch t.Op {
	case OConst:
		return constSMT(t)
	case OVar:
		return "v" + strconv.FormatUint(uint64(t.ID), 10)
	}
	return "t" + strconv.FormatUint(uint64(t.ID), 10)
}

func (s *Solver) define(t *Term) {
	if t.Op == OConst || s.defined[t.ID] {
		return
	}
	s.defined[t.ID] = true
	s.ndef++
	if t.Op == OVar {
		s.w("(declare-const " + s.ref(t) + " " + sortName(t.W) + ")\n")
		return
	}
	for _, c := range [3]*Term{t.A, t.B, t.D} {
		if c != nil {
			s.define(c)
		}
	}
	s.w("(define-fun " + s.ref(t) + " () " + sortName(t.W) + " ")
	switch t.Op {
	case OZExt:
		s.w(fmt.Sprintf("((_ zero_extend %d) %s)", t.W-t.A.W, s.ref(t.A)))
	case OSExt:
		s.w(fmt.Sprintf("((_ sign_extend %d) %s)", t.W-t.A.W, s.ref(t.A)))
	case OTrunc:
		s.w(fmt.Sprintf("((_ extract %d 0) %s)", t.W-1, s.ref(t.A)))
	default:
		s.w("(" + opName[t.Op])
		for _, c := range [3]*Term{t.A, t.B, t.D} {
			if c != nil {
				s.w(" " + s.ref(c))
			}
		}
		s.w(")")
	}
	s.w(")\n")
}

func (s *Solver) sync(pc []*Term) {
	if s.ndef > maxDefs || s.nq > maxQueries {
		s.Close()
		s.start()
	}
	n := 0
	for n < len(pc) && n < len(s.stack) && pc[n] == s.stack[n] {
		n++
	}
	if k := len(s.stack) - n; k > 0 {
		s.w("(pop " + strconv.Itoa(k) + ")\n")
		s.stack = s.stack[:n]
	}
	for ; n < len(pc); n++ {
		s.define(pc[n])
		s.w("(push 1)\n(assert " + s.ref(pc[n]) + ")\n")
		s.stack = append(s.stack, pc[n])
	}
}

// CheckOnly decides without counting and without a model.
func (s *Solver) CheckOnly(pc []*Term, extra *Term) (Result, error) {
	s.sync(pc)
	s.define(extra)
	s.w("(push 1)\n(assert " + s.ref(extra) + ")\n(check-sat)\n")
	s.in.Flush()
	line := s.readLine()
	s.w("(pop 1)\n")
	switch line {
	case "sat":
		return Sat, nil
	case "unsat":
		return Unsat, nil
	case "unknown", "timeout":
		return Unknown, nil
	}
	s.Close()
	s.start()
	return Unknown, nil
}

// Check decides pc AND extra. With want, a model over vars is returned on Sat.
func (s *Solver) Check(pc []*Term, extra *Term, vars []*Term) (Result, Model) {
	t0 := time.Now()
	s.sync(pc)
	s.nq++
	s.define(extra)
	for _, v := range vars {
		s.define(v)
	}
	s.w("(push 1)\n(assert " + s.ref(extra) + ")\n(check-sat)\n")
	if err := s.in.Flush(); err != nil {
		fatal("solver write: %v", err)
	}
	line := s.readLine()
	atomic.AddInt64(&gStats.Queries, 1)
	var r Result
	var m Model
	switch line {
	case "sat":
		r = Sat
		atomic.AddInt64(&gStats.SatN, 1)
		if len(vars) > 0 {
			var sb strings.Builder
			sb.WriteString("(get-value (")
			for i, v := range vars {
				if i > 0 {
					sb.WriteByte(' ')
				}
				sb.WriteString(s.ref(v))
			}
			sb.WriteString("))\n")
			s.w(sb.String())
			s.in.Flush()
			m = s.readModel(vars)
		} else {
			m = Model{}
		}
	case "unsat":
		r = Unsat
		atomic.AddInt64(&gStats.UnsatN, 1)
	case "unknown", "timeout":
		r = Unknown
		atomic.AddInt64(&gStats.UnknownN, 1)
	default:
		// any error line is inconclusive; restart to get back in step
		logf("solver said %q", line)
		atomic.AddInt64(&gStats.UnknownN, 1)
		s.Close()
		s.start()
		atomic.AddInt64(&gStats.SolverNS, int64(time.Since(t0)))
		return Unknown, nil
	}
	s.w("(pop 1)\n")
	atomic.AddInt64(&gStats.SolverNS, int64(time.Since(t0)))
	return r, m
}

func (s *Solver) readLine() string {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			fatal("solver died: %v", err)
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l
		}
	}
}

func (s *Solver) readModel(vars []*Term) Model {
	// ((v1 #x00) (v2 #b1) (v3 true)) possibly over several lines
	depth := 0
	var sb strings.Builder
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			fatal("solver died: %v", err)
		}
		sb.WriteString(l)
		depth += strings.Count(l, "(") - strings.Count(l, ")")
		if depth <= 0 && strings.TrimSpace(sb.String()) != "" {
			break
		}
	}
	byRef := map[string]*Term{}
	for _, v := range vars {
		byRef[s.ref(v)] = v
	}
	m := Model{}
	f := strings.Fields(strings.NewReplacer("(", " ", ")", " ").Replace(sb.String()))
	for i := 0; i+1 < len(f); i += 2 {
		v := byRef[f[i]]
		if v == nil {
			fatal("unexpected model %q", sb.String())
		}
		x := f[i+1]
		switch {
		case x == "true":
			m[v] = 1
		case x == "false":
			m[v] = 0
		case strings.HasPrefix(x, "#x"):
			u, err := strconv.ParseUint(x[2:], 16, 64)
			if err != nil {
				fatal("model value %q", x)
			}
			m[v] = u
		case strings.HasPrefix(x, "#b"):
			u, err := strconv.ParseUint(x[2:], 2, 64)
			if err != nil {
				fatal("model value %q", x)
			}
			m[v] = u
		default:
			fatal("model value %q", x)
		}
	}
	return m
}

func (r Result) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }
