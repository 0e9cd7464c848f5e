// Package smt drives SMT solvers over pipes: one long-lived z3 per worker for the many small
// queries of symbolic execution, and one-shot z3-new / cvc5 runs as a second opinion when it
// gives up. Anything the solver prints that is not understood makes the query Unknown.
package smt

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/engine/term"
)

type Result int

const (
	Unknown Result = iota
	Sat
	Unsat
)

func (r Result) String() string { return [...]string{"unknown", "sat", "unsat"}[r] }

// Stats counts what a solver did.
type Stats struct {
	Queries   int     `json:"queries"`
	Sat       int     `json:"sat"`
	Unsat     int     `json:"unsat"`
	Unknown   int     `json:"unknown"`
	Trivial   int     `json:"decided_by_simplifier"`
	CacheHits int     `json:"model_cache_hits"`
	Fallbacks int     `json:"fallback_runs"`
	Seconds   float64 `json:"solver_seconds"`
}

func (s *Stats) Add(o Stats) {
	s.Queries += o.Queries
	s.Sat += o.Sat
	s.Unsat += o.Unsat
	s.Unknown += o.Unknown
	s.Trivial += o.Trivial
	s.CacheHits += o.CacheHits
	s.Fallbacks += o.Fallbacks
	s.Seconds += o.Seconds
}

// Solver answers satisfiability of conjunctions over one term.Ctx.
type Solver struct {
	C        *term.Ctx
	Stats    Stats
	Timeout  time.Duration // of the incremental solver, per query
	HardTime time.Duration // of the one-shot solvers
	Reseed   int

	cmd     *exec.Cmd
	in      *bufio.Writer
	inRaw   io.WriteCloser
	out     *bufio.Reader
	defined map[*term.T]bool
	models  []*term.Evaluator
	lastErr string
	mu      sync.Mutex
}

func New(c *term.Ctx) *Solver {
	return &Solver{C: c, Timeout: 10 * time.Second, HardTime: 60 * time.Second}
}

func (s *Solver) start() error {
	s.cmd = exec.Command("z3", "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.inRaw = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.defined = make(map[*term.T]bool)
	fmt.Fprintf(s.in, "(set-option :timeout %d)\n(set-option :print-success false)\n", s.Timeout.Milliseconds())
	return nil
}

// Close ends the solver process.
func (s *Solver) Close() {
	if s.cmd != nil {
		s.inRaw.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func name(t *term.T) string {
	if t.Op == term.Const || t.Op == term.Var {
		return t.Expr(nil)
	}
	return "n" + strconv.Itoa(t.ID)
}

// define emits definitions of t and everything below it (iteratively, the DAG can be deep).
func define(w *bufio.Writer, defined map[*term.T]bool, t *term.T) {
	type fr struct {
		t *term.T
		i int
	}
	if defined[t] {
		return
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if defined[f.t] {
			st = st[:len(st)-1]
			continue
		}
		if f.i < len(f.t.A) {
			x := f.t.A[f.i]
			f.i++
			if !defined[x] {
				st = append(st, fr{x, 0})
			}
			continue
		}
		switch f.t.Op {
		case term.Const:
		case term.Var:
			fmt.Fprintf(w, "(declare-fun |%s| () %s)\n", f.t.Name, term.Sort(f.t.W))
		case term.SDiv, term.UDiv:
			if !divConst(w, f.t) {
				fmt.Fprintf(w, "(define-fun n%d () %s %s)\n", f.t.ID, term.Sort(f.t.W), f.t.Expr(name))
			}
		default:
			fmt.Fprintf(w, "(define-fun n%d () %s %s)\n", f.t.ID, term.Sort(f.t.W), f.t.Expr(name))
		}
		defined[f.t] = true
		st = st[:len(st)-1]
	}
}

// divConst defines a quotient by a positive constant through its (unique) multiplicative characterisation,
// which bit-vector solvers handle far better than a divider circuit.
func divConst(w *bufio.Writer, t *term.T) bool {
	b := t.A[1]
	if b.Op != term.Const || b.C < 2 || b.C >= 1<<uint(t.W-1) || t.W < 12 {
		return false
	}
	q, x := fmt.Sprintf("n%d", t.ID), name(t.A[0])
	k := func(v uint64) string {
		if t.W < 64 {
			v &= 1<<uint(t.W) - 1
		}
		return fmt.Sprintf("(_ bv%d %d)", v, t.W)
	}
	fmt.Fprintf(w, "(declare-fun %s () %s)\n", q, term.Sort(t.W))
	r := fmt.Sprintf("(bvsub %s (bvmul %s %s))", x, k(b.C), q)
	if t.Op == term.UDiv {
		max := ^uint64(0) >> uint(64-t.W)
		fmt.Fprintf(w, "(assert (and (bvule %s %s) (bvule (bvmul %s %s) %s) (bvult %s %s)))\n", q, k(max/b.C), k(b.C), q, x, r, k(b.C))
		return true
	}
	top := uint64(1) << uint(t.W-1)
	fmt.Fprintf(w, "(assert (ite (bvsge %s %s) (and (bvsge %s %s) (bvsle %s %s) (bvsge %s %s) (bvslt %s %s)) (and (bvsle %s %s) (bvsge %s %s) (bvsle %s %s) (bvsgt %s %s))))\n",
		x, k(0), q, k(0), q, k((top-1)/b.C), r, k(0), r, k(b.C),
		q, k(0), q, k(-(top / b.C)), r, k(0), r, k(-b.C))
	return true
}

func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

// tryModels looks for a known model satisfying all conditions.
func (s *Solver) tryModels(conds []*term.T) term.Model {
	for i := len(s.models) - 1; i >= 0; i-- {
		e := s.models[i]
		ok := true
		for _, c := range conds {
			if e.Eval(c) != 1 {
				ok = false
				break
			}
		}
		if ok {
			if i != len(s.models)-1 {
				copy(s.models[i:], s.models[i+1:])
				s.models[len(s.models)-1] = e
			}
			return e.M
		}
	}
	return nil
}

func (s *Solver) remember(m term.Model) {
	if len(s.models) >= 24 {
		copy(s.models, s.models[1:])
		s.models = s.models[:len(s.models)-1]
	}
	s.models = append(s.models, term.NewEvaluator(m))
}

// Check decides the conjunction. The model is only meaningful for Sat.
func (s *Solver) Check(conds ...*term.T) (Result, term.Model) {
	var cs []*term.T
	for _, c := range conds {
		if c.IsFalse() {
			s.Stats.Trivial++
			return Unsat, nil
		}
		if !c.IsTrue() {
			cs = append(cs, c)
		}
	}
	if m := s.tryModels(cs); m != nil {
		s.Stats.CacheHits++
		return Sat, m
	}
	if len(cs) == 0 {
		m := term.Model{}
		s.remember(m)
		s.Stats.Trivial++
		return Sat, m
	}
	t0 := time.Now()
	s.Stats.Queries++
	r, m := s.incremental(cs)
	if r == Unknown {
		s.Stats.Fallbacks++
		r, m = s.oneShot(cs)
	}
	s.Stats.Seconds += time.Since(t0).Seconds()
	if os.Getenv("VX_SLOW") != "" && time.Since(t0) > time.Second {
		fmt.Fprintf(os.Stderr, "SLOW %v %v\n", time.Since(t0), r)
		for _, c := range cs {
			x := fmt.Sprint(c)
			if len(x) > 900 {
				x = x[:900]
			}
			fmt.Fprintf(os.Stderr, "   %s\n", x)
		}
	}
	switch r {
	case Sat:
		s.Stats.Sat++
		s.remember(m)
	case Unsat:
		s.Stats.Unsat++
	default:
		s.Stats.Unknown++
	}
	return r, m
}

func (s *Solver) incremental(cs []*term.T) (Result, term.Model) {
	if s.cmd != nil && len(s.defined) > 60000 {
		s.Close()
	}
	if s.cmd == nil {
		if err := s.start(); err != nil {
			s.lastErr = err.Error()
			return Unknown, nil
		}
	}
	for _, c := range cs {
		define(s.in, s.defined, c)
	}
	vars := term.Vars(cs...)
	fmt.Fprintf(s.in, "(push 1)\n")
	for _, c := range cs {
		fmt.Fprintf(s.in, "(assert %s)\n", name(c))
	}
	fmt.Fprintf(s.in, "(check-sat)\n")
	if err := s.in.Flush(); err != nil {
		s.Close()
		return Unknown, nil
	}
	done := make(chan struct{})
	cmd := s.cmd
	go func() { // watchdog: z3 sometimes overruns its own timeout
		select {
		case <-done:
		case <-time.After(s.Timeout + 5*time.Second):
			cmd.Process.Kill()
		}
	}()
	defer close(done)
	l, err := s.readLine()
	if err != nil {
		s.Close()
		return Unknown, nil
	}
	switch l {
	case "unsat":
		fmt.Fprintf(s.in, "(pop 1)\n")
		return Unsat, nil
	case "sat":
		m, err := s.getModel(vars)
		if err != nil {
			s.Close()
			return Unknown, nil
		}
		fmt.Fprintf(s.in, "(pop 1)\n")
		e := term.NewEvaluator(m)
		for _, c := range cs {
			if e.Eval(c) != 1 {
				s.lastErr = "model does not satisfy the query"
				s.Close()
				return Unknown, nil
			}
		}
		return Sat, m
	case "unknown", "timeout":
		fmt.Fprintf(s.in, "(pop 1)\n")
		return Unknown, nil
	default:
		s.lastErr = l
		s.Close()
		return Unknown, nil
	}
}

func (s *Solver) getModel(vars []*term.T) (term.Model, error) {
	m := term.Model{}
	if len(vars) == 0 {
		return m, nil
	}
	fmt.Fprint(s.in, "(get-value (")
	for _, v := range vars {
		fmt.Fprintf(s.in, "|%s| ", v.Name)
	}
	fmt.Fprint(s.in, "))\n")
	if err := s.in.Flush(); err != nil {
		return nil, err
	}
	txt, err := readSexp(s.out)
	if err != nil {
		return nil, err
	}
	return parseValues(txt, vars)
}

func readSexp(r *bufio.Reader) (string, error) {
	var sb strings.Builder
	depth, started, quoted := 0, false, false
	for {
		b, err := r.ReadByte()
		if err != nil {
			return "", err
		}
		sb.WriteByte(b)
		if b == '|' {
			quoted = !quoted
		}
		if quoted {
			continue
		}
		if b == '(' {
			depth++
			started = true
		} else if b == ')' {
			depth--
			if started && depth == 0 {
				r.ReadString('\n')
				return sb.String(), nil
			}
		}
	}
}

func parseValues(txt string, vars []*term.T) (term.Model, error) {
	m := term.Model{}
	if strings.HasPrefix(strings.TrimSpace(txt), "(error") {
		return nil, fmt.Errorf("%s", txt)
	}
	for _, v := range vars {
		i := strings.Index(txt, "(|"+v.Name+"| ")
		n := len(v.Name) + 4
		if i < 0 {
			i = strings.Index(txt, "("+v.Name+" ")
			n = len(v.Name) + 2
		}
		if i < 0 {
			return nil, fmt.Errorf("no value for %s in %q", v.Name, txt)
		}
		rest := strings.TrimSpace(txt[i+n:])
		switch {
		case strings.HasPrefix(rest, "#x"):
			j := 2
			for j < len(rest) && strings.IndexByte("0123456789abcdefABCDEF", rest[j]) >= 0 {
				j++
			}
			u, err := strconv.ParseUint(rest[2:j], 16, 64)
			if err != nil {
				return nil, err
			}
			m[v.Name] = u
		case strings.HasPrefix(rest, "#b"):
			j := 2
			for j < len(rest) && (rest[j] == '0' || rest[j] == '1') {
				j++
			}
			u, err := strconv.ParseUint(rest[2:j], 2, 64)
			if err != nil {
				return nil, err
			}
			m[v.Name] = u
		case strings.HasPrefix(rest, "(_ bv"):
			j := 5
			for j < len(rest) && rest[j] >= '0' && rest[j] <= '9' {
				j++
			}
			u, err := strconv.ParseUint(rest[5:j], 10, 64)
			if err != nil {
				return nil, err
			}
			m[v.Name] = u
		case strings.HasPrefix(rest, "true"):
			m[v.Name] = 1
		case strings.HasPrefix(rest, "false"):
			m[v.Name] = 0
		default:
			return nil, fmt.Errorf("cannot read value of %s: %q", v.Name, rest)
		}
	}
	return m, nil
}

// Script renders a conjunction as a stand-alone SMT-LIB script.
func Script(cs []*term.T, getModel bool) string {
	var buf bytes.Buffer
	w := bufio.NewWriter(&buf)
	fmt.Fprintln(w, "(set-logic QF_BV)")
	if getModel {
		fmt.Fprintln(w, "(set-option :produce-models true)")
	}
	d := map[*term.T]bool{}
	for _, c := range cs {
		define(w, d, c)
	}
	for _, c := range cs {
		fmt.Fprintf(w, "(assert %s)\n", name(c))
	}
	fmt.Fprintln(w, "(check-sat)")
	if getModel {
		vars := term.Vars(cs...)
		if len(vars) > 0 {
			fmt.Fprint(w, "(get-value (")
			for _, v := range vars {
				fmt.Fprintf(w, "|%s| ", v.Name)
			}
			fmt.Fprintln(w, "))")
		}
	}
	w.Flush()
	return buf.String()
}

// oneShot races z3-new and cvc5 (plain, and solving bit-vectors as integers) on the query.
func (s *Solver) oneShot(cs []*term.T) (Result, term.Model) {
	script := Script(cs, true)
	vars := term.Vars(cs...)
	ctx, cancel := context.WithTimeout(context.Background(), s.HardTime)
	defer cancel()
	type ans struct {
		r Result
		m term.Model
	}
	runs := [][]string{
		{"z3-new", "-in", "-smt2"},
		{"cvc5", "--lang=smt2", "--produce-models", "-"},
		{"cvc5", "--lang=smt2", "--solve-bv-as-int=sum", "-"},
	}
	ch := make(chan ans, len(runs))
	for _, a := range runs {
		go func(a []string) {
			cmd := exec.CommandContext(ctx, a[0], a[1:]...)
			cmd.Stdin = strings.NewReader(script)
			out, _ := cmd.Output()
			txt := strings.TrimSpace(string(out))
			switch {
			case strings.HasPrefix(txt, "unsat"):
				// get-value after unsat prints an error, which is expected
				ch <- ans{Unsat, nil}
			case strings.HasPrefix(txt, "sat"):
				m, err := parseValues(strings.TrimSpace(txt[3:]), vars)
				if err != nil {
					ch <- ans{}
					return
				}
				e := term.NewEvaluator(m)
				for _, c := range cs {
					if e.Eval(c) != 1 {
						ch <- ans{}
						return
					}
				}
				ch <- ans{Sat, m}
			default:
				ch <- ans{}
			}
		}(a)
	}
	for range runs {
		a := <-ch
		if a.r != Unknown {
			return a.r, a.m
		}
	}
	return Unknown, nil
}

// CrossCheck re-decides a query with an independent solver (cvc5) and reports its verdict.
func CrossCheck(cs []*term.T, timeout time.Duration) Result {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, "cvc5", "--lang=smt2", "-")
	cmd.Stdin = strings.NewReader(Script(cs, false))
	out, _ := cmd.Output()
	txt := strings.TrimSpace(string(out))
	switch txt {
	case "sat":
		return Sat
	case "unsat":
		return Unsat
	}
	return Unknown
}
