package clara

import (
	"encoding/hex"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verif/engine/smt"
	"verif/engine/term"
	"verif/engine/x86"
)

// Ev is an observable event; values are terms (constants in a native run).
type Ev struct {
	Kind string
	K    int
	V    []*term.T // 64-bit values
	B    []*term.T // bytes
	Nul  *term.T   // byte after a string's payload
	Name string
}

// Out is one finished run.
type Out struct {
	C    *term.Ctx
	End  x86.End
	Code *term.T
	Why  string
	Evs  []Ev
	Live int
	// Misaligned lists externals entered with a misaligned stack.
	Misaligned []string
	model      term.Model // native runs: the inputs
	// Feasible says whether the path can satisfy the terms (nil when unknown).
	Feasible func(ts []*term.T) bool
	Native   bool
}

// In is the input variable with this name.
func (o *Out) In(name string, w int) *term.T {
	if o.model != nil {
		return o.C.BV(o.model[name], w)
	}
	return o.C.Var(name, w)
}

// Int is the integer input vxInt(k) as a 63-bit term.
func (o *Out) Int(k int) *term.T { return o.In(fmt.Sprintf("i%d", k), 63) }

// IntS is the integer input sign-extended to 64 bits.
func (o *Out) IntS(k int) *term.T { return o.C.SExt(o.Int(k), 64) }

// BoolIn is the boolean input vxBool(k).
func (o *Out) BoolIn(k int) *term.T {
	return o.C.Eq(o.In(fmt.Sprintf("p%d", k), 1), o.C.BV(1, 1))
}

// Byte is byte j of vxFill(_, k, _).
func (o *Out) Byte(k, j int) *term.T { return o.In(fmt.Sprintf("b%d_%d", k, j), 8) }

// Bytes lists n of them.
func (o *Out) Bytes(k, n int) []*term.T {
	var r []*term.T
	for j := 0; j < n; j++ {
		r = append(r, o.Byte(k, j))
	}
	return r
}

// Of selects the events with a key among the given kinds ("obs" by default).
func (o *Out) Of(k int, kinds ...string) []Ev {
	var r []Ev
	for _, e := range o.Evs {
		if e.K != k {
			continue
		}
		if len(kinds) == 0 {
			if e.Kind == "obs" || e.Kind == "obsb" || e.Kind == "str" || e.Kind == "bytes" {
				r = append(r, e)
			}
			continue
		}
		for _, kd := range kinds {
			if e.Kind == kd {
				r = append(r, e)
			}
		}
	}
	return r
}

// Returned is true if the program ran to completion.
func (o *Out) Returned() bool { return o.End == x86.Returned }

// Panicked is true if the program stopped with a non-zero exit status.
func (o *Out) Panicked() *term.T {
	if o.End != x86.Exited {
		return o.C.False
	}
	return o.C.Ne(o.C.Extract(7, 0, o.Code), o.C.BV(0, 8))
}

// Ints checks that the integer observations are exactly the given (key, 64-bit value) list.
func (o *Out) Seq(want ...KV) *term.T {
	var got []Ev
	for _, e := range o.Evs {
		if e.Kind != "printf" {
			got = append(got, e)
		}
	}
	if len(got) != len(want) {
		return o.C.False
	}
	r := o.C.True
	for i, w := range want {
		g := got[i]
		if g.K != w.K {
			return o.C.False
		}
		r = o.C.And(r, o.match(g, w))
	}
	return r
}

func (o *Out) match(g Ev, w KV) *term.T {
	if w.Kind != "" {
		if g.Kind != w.Kind || len(g.V) != len(w.Vs) || len(g.B) != len(w.S) {
			return o.C.False
		}
		r := o.C.True
		for j := range w.Vs {
			if w.Vs[j] != nil {
				r = o.C.And(r, o.C.Eq(g.V[j], w.Vs[j]))
			}
		}
		for j := range w.S {
			r = o.C.And(r, o.C.Eq(g.B[j], w.S[j]))
		}
		return r
	}
	if w.S != nil || w.IsStr {
		if g.Kind != "str" && g.Kind != "bytes" || len(g.B) != len(w.S) {
			return o.C.False
		}
		r := o.C.True
		for j := range w.S {
			r = o.C.And(r, o.C.Eq(g.B[j], w.S[j]))
		}
		if g.Kind == "str" {
			r = o.C.And(r, o.C.Eq(g.Nul, o.C.BV(0, 8)))
		}
		return r
	}
	if g.Kind != "obs" && g.Kind != "obsb" {
		return o.C.False
	}
	return o.C.Eq(g.V[0], w.V)
}

// KV is an expected observation.
type KV struct {
	K     int
	V     *term.T
	S     []*term.T
	IsStr bool
	Kind  string // other events: kind, 64-bit values (nil: any) and bytes
	Vs    []*term.T
}

// I expects integer observation k to be the 63-bit term v.
func (o *Out) I(k int, v *term.T) KV { return KV{K: k, V: o.C.SExt(v, 64)} }

// N expects integer observation k to be the constant v.
func (o *Out) N(k int, v int64) KV { return KV{K: k, V: o.C.BV(uint64(v), 64)} }

// B expects boolean observation k.
func (o *Out) B(k int, v *term.T) KV { return KV{K: k, V: o.C.ToBV(v, 64)} }

// S expects string observation k.
func (o *Out) S(k int, s []*term.T) KV { return KV{K: k, S: s, IsStr: true} }

// Str is a constant string as byte terms.
func (o *Out) Str(s string) []*term.T {
	var r []*term.T
	for i := 0; i < len(s); i++ {
		r = append(r, o.C.BV(uint64(s[i]), 8))
	}
	return r
}

// Ret requires normal termination and exactly these observations.
func (o *Out) Ret(want ...KV) *term.T {
	if !o.Returned() {
		return o.C.False
	}
	return o.Seq(want...)
}

// Printed renders the printf events of the run as text pieces; integer conversions stay terms.
func (o *Out) Printed() []Ev {
	var r []Ev
	for _, e := range o.Evs {
		if e.Kind == "printf" {
			r = append(r, e)
		}
	}
	return r
}

// Probe is one program with a specification over its inputs and observations.
type Probe struct {
	Name     string
	Src      string
	NoPre    bool
	Oracle   func(o *Out) *term.T
	MaxSteps uint64
	MaxPaths int
	// Prepare may change the initial state (arguments, environment).
	Prepare func(x *x86.Exec, s *x86.State)
	Entry   string
	// NativeArgs/Env give the native equivalents of Prepare's memory for a model.
	NativeArgs func(m term.Model) (args []string, env []string)
	// Known marks a probe that demonstrates a recorded finding.
	Known string
	// ExpectPaths, when set, is the minimal number of finished paths (vacuity guard).
	MinPaths int
	// Thorough probes only run in the thorough tier.
	Thorough bool
	// Raw leaves all rewriting to the solver.
	Raw bool
	// Witnesses is how many path models are replayed natively (default 2).
	Witnesses int
	// Lits are integer literals of the program that stand for any literal of a range: the immediate they
	// become in the emitted code is symbolic. Native replays put the value into the source.
	Lits []Lit
	// Budget bounds the time spent on this probe (0: default).
	Budget time.Duration
}

// Lit is an integer literal made symbolic.
type Lit struct {
	Magic  int64 // as written in the source
	Var    string
	Lo, Hi int64
}

// Report of one probe.
type Report struct {
	Probe       string
	Paths       int
	Queries     int
	Steps       uint64
	Funcs       []string
	Incomplete  []string
	Violation   *Violation
	Mismatch    []string // engine disagreements (inconclusive)
	Validated   int
	Wall        time.Duration
	SolverS     float64
	Stats       smt.Stats
	UnsatProved int
	SampleNote  string
}

// Violation is a confirmed counterexample.
type Violation struct {
	Probe, What string
	Inputs      map[string]uint64
	Detail      string
	Sig         string
	Src         string
}

func (o *Out) describe() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "end=%v", o.End)
	if o.Code != nil && o.End == x86.Exited {
		fmt.Fprintf(&sb, " code=%v", o.Code)
	}
	if o.Why != "" {
		fmt.Fprintf(&sb, " (%s)", o.Why)
	}
	for _, e := range o.Evs {
		fmt.Fprintf(&sb, "\n  %s k=%d", e.Kind, e.K)
		if e.Name != "" {
			fmt.Fprintf(&sb, " %s", e.Name)
		}
		for _, v := range e.V {
			if v.IsConst() {
				fmt.Fprintf(&sb, " %d", int64(v.C))
			} else {
				fmt.Fprintf(&sb, " %s", trunc(v.String(), 200))
			}
		}
		if e.B != nil || e.Kind == "str" || e.Kind == "bytes" {
			if s, ok := x86.ConcreteString(e.B); ok {
				fmt.Fprintf(&sb, " %q", s)
			} else {
				fmt.Fprintf(&sb, " <%d bytes>", len(e.B))
			}
		}
	}
	for _, m := range o.Misaligned {
		fmt.Fprintf(&sb, "\n  misaligned stack at %s", m)
	}
	return sb.String()
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// Run decides one probe.
func (e *Env) Run(p *Probe, deadline time.Time) (rep *Report) {
	t0 := time.Now()
	rep = &Report{Probe: p.Name}
	if b := p.Budget; b > 0 && t0.Add(b).Before(deadline) {
		deadline = t0.Add(b)
	}
	src := p.Src
	defer func() {
		rep.Wall = time.Since(t0)
		if rep.Violation != nil {
			rep.Violation.Src = src
		}
	}()
	if !p.NoPre {
		src += "\n" + Prelude
	}
	c := e.Compile(src)
	if !c.OK() {
		what := "a valid program is rejected by the compiler"
		switch {
		case c.Crashed:
			what = "the compiler crashes on a valid program"
		case c.Hung:
			what = "the compiler does not finish on a valid program"
		case c.Link:
			what = "the compiler's output for a valid program does not assemble or link"
		}
		rep.Violation = &Violation{Probe: p.Name, What: what, Detail: trunc(c.Out, 4000), Sig: "compile"}
		return
	}
	prog, err := c.Prog()
	if err != nil {
		rep.Incomplete = append(rep.Incomplete, "assembling: "+err.Error())
		return
	}
	ctx := term.NewCtx()
	ctx.Raw = p.Raw
	sol := smt.New(ctx)
	defer sol.Close()
	x := x86.New(prog, ctx, sol)
	if p.MaxSteps > 0 {
		x.MaxSteps = p.MaxSteps
	}
	if p.MaxPaths > 0 {
		x.MaxPaths = p.MaxPaths
	}
	addStubs(x)
	x.Deadline = deadline
	sol.Timeout = 3 * time.Second
	if p.Raw {
		sol.Timeout = 300 * time.Millisecond
	}
	entry := p.Entry
	if entry == "" {
		entry = "clara_asm_entrypoint"
	}
	s, err := x.Start(entry)
	if err != nil {
		rep.Incomplete = append(rep.Incomplete, err.Error())
		return
	}
	if p.Prepare != nil {
		p.Prepare(x, s)
	} else {
		DefaultArgs(x, s)
	}
	for _, l := range p.Lits {
		v := ctx.Var(l.Var, 64)
		if x.Imm == nil {
			x.Imm = map[uint64]*term.T{}
		}
		x.Imm[uint64(l.Magic)] = v
		x.Imm[uint64(-l.Magic)] = ctx.Neg(v) // negation of the literal may be folded
		if !x.Assume(s, ctx.Sle(ctx.BV(uint64(l.Lo), 64), v)) || !x.Assume(s, ctx.Sle(v, ctx.BV(uint64(l.Hi), 64))) {
			rep.Incomplete = append(rep.Incomplete, "no literal in the range")
			return
		}
	}
	native := func(m term.Model) (*Out, error) {
		if len(p.Lits) == 0 {
			return c.Native(p, ctx, m)
		}
		t := src
		for _, l := range p.Lits {
			w := strconv.FormatInt(l.Magic, 10)
			v := int64(m[l.Var])
			if l.Lo > v || v > l.Hi {
				v = l.Lo // not part of the model: any will do
				m[l.Var] = uint64(v)
			}
			t = strings.ReplaceAll(t, w, strconv.FormatInt(v, 10))
		}
		cc := e.Compile(t)
		defer os.RemoveAll(cc.Dir)
		if !cc.OK() {
			return nil, fmt.Errorf("the compiler fails with the literals of %v: %s", m, trunc(cc.Out, 500))
		}
		return cc.Native(p, ctx, m)
	}
	wit := p.Witnesses
	if wit == 0 {
		wit = 2
	}
	type cand struct {
		st  *x86.State
		m   term.Model
		out *Out
	}
	var witnesses []cand
	x.OnEnd = func(s *x86.State) {
		if rep.Violation != nil {
			return
		}
		if time.Now().After(deadline) {
			if len(rep.Incomplete) == 0 || rep.Incomplete[len(rep.Incomplete)-1] != "time budget" {
				rep.Incomplete = append(rep.Incomplete, "time budget")
			}
			x.Stop()
			return
		}
		if s.Ended() == x86.Unsupported {
			return
		}
		o := symOut(ctx, s)
		cond := s.Cond()
		o.Feasible = func(ts []*term.T) bool {
			r, _ := sol.Check(append(append([]*term.T{}, cond...), ts...)...)
			return r != smt.Unsat
		}
		ok := p.Oracle(o)
		bad := ctx.Not(ok)
		if !bad.IsFalse() {
			r, m := sol.Check(append(s.Cond(), bad)...)
			switch r {
			case smt.Sat:
				nat, err := native(m)
				if err != nil {
					rep.Mismatch = append(rep.Mismatch, "replay failed: "+err.Error())
					return
				}
				good := p.Oracle(nat)
				if good.IsFalse() {
					rep.Violation = &Violation{Probe: p.Name, What: "the compiled program contradicts the specification", Inputs: m, Detail: "symbolic run:\n" + o.describe() + "\nnative run:\n" + nat.describe(), Sig: sigOf(nat)}
					x.Stop()
				} else {
					rep.Mismatch = append(rep.Mismatch, fmt.Sprintf("counterexample %v does not reproduce\nsymbolic: %s\nnative: %s", m, o.describe(), nat.describe()))
				}
				return
			case smt.Unknown:
				rep.Incomplete = append(rep.Incomplete, "solver gave no answer on the property")
				return
			}
			rep.UnsatProved++
		} else {
			rep.UnsatProved++
		}
		if len(witnesses) < wit {
			witnesses = append(witnesses, cand{s, s.Model, o})
		} else if x.Paths%7 == 0 {
			witnesses[len(witnesses)-1] = cand{s, s.Model, o}
		}
	}
	x.Run(s)
	rep.Paths, rep.Steps = x.Paths, x.Retired
	rep.Incomplete = append(rep.Incomplete, x.Incomplete...)
	rep.Incomplete = dedup(rep.Incomplete)
	for a := range x.Funcs {
		rep.Funcs = append(rep.Funcs, prog.FuncAt(a))
	}
	sort.Strings(rep.Funcs)
	rep.Stats = sol.Stats
	if rep.Violation != nil {
		return
	}
	min := p.MinPaths
	if min == 0 {
		min = 1
	}
	if rep.UnsatProved < min && len(rep.Incomplete) == 0 && len(rep.Mismatch) == 0 {
		rep.Incomplete = append(rep.Incomplete, fmt.Sprintf("only %d of at least %d paths decided", rep.UnsatProved, min))
	}
	// Validate the symbolic execution against the real binary on witnesses.
	for _, w := range witnesses {
		nat, err := native(w.m)
		if err != nil {
			rep.Mismatch = append(rep.Mismatch, "replay failed: "+err.Error())
			continue
		}
		if p.Oracle(nat).IsFalse() {
			rep.Violation = &Violation{Probe: p.Name, What: "the compiled program contradicts the specification", Inputs: w.m, Detail: "native run:\n" + nat.describe(), Sig: sigOf(nat)}
			return
		}
		if d := differ(w.out, nat, w.m); d != "" {
			rep.Mismatch = append(rep.Mismatch, "witness: "+d)
			continue
		}
		rep.Validated++
		rep.SampleNote = trunc(fmt.Sprintf("inputs %v -> %s", w.m, nat.describe()), 400)
	}
	return
}

func sigOf(o *Out) string { return o.End.String() }

func dedup(s []string) []string {
	seen := map[string]bool{}
	var r []string
	for _, v := range s {
		if !seen[v] {
			seen[v] = true
			r = append(r, v)
		}
	}
	return r
}

// differ compares a symbolic run under a model with a native run.
func differ(a, n *Out, m term.Model) string {
	if a.End != n.End {
		return fmt.Sprintf("symbolic end %v, native end %v\n%s\n%s", a.End, n.End, a.describe(), n.describe())
	}
	if a.End == x86.Fault || a.End == x86.StepLimit {
		return ""
	}
	if len(a.Evs) != len(n.Evs) {
		return fmt.Sprintf("%d symbolic events, %d native events\n%s\n%s", len(a.Evs), len(n.Evs), a.describe(), n.describe())
	}
	ev := term.NewEvaluator(m)
	same := func(x, y []*term.T) bool {
		if len(x) != len(y) {
			return false
		}
		for i := range x {
			if ev.Eval(x[i]) != y[i].C {
				return false
			}
		}
		return true
	}
	for i := range a.Evs {
		if a.Evs[i].Kind == "obsp" {
			continue
		}
		if a.Evs[i].Kind != n.Evs[i].Kind || a.Evs[i].K != n.Evs[i].K || !same(a.Evs[i].V, n.Evs[i].V) || !same(a.Evs[i].B, n.Evs[i].B) {
			return fmt.Sprintf("event %d differs under %v\n%s\n%s", i, m, a.describe(), n.describe())
		}
	}
	return ""
}

// Native runs the program for real on the inputs of a model.
func (c *Compiled) Native(p *Probe, ctx *term.Ctx, m term.Model) (*Out, error) {
	bin, err := c.link()
	if err != nil {
		return nil, err
	}
	in := filepath.Join(c.Dir, "input.txt")
	evf := filepath.Join(c.Dir, "events.txt")
	var sb strings.Builder
	var names []string
	for k := range m {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		fmt.Fprintf(&sb, "%s %d\n", k, m[k])
	}
	os.WriteFile(in, []byte(sb.String()), 0o644)
	os.Remove(evf)
	args, env := []string{}, []string{}
	if p.NativeArgs != nil {
		args, env = p.NativeArgs(m)
	}
	cmd := exec.Command(bin)
	if p.NativeArgs != nil {
		cmd.Args = args
	}
	cmd.Dir = c.Dir
	cmd.Env = append(env, "VX_INPUT="+in, "VX_EVENTS="+evf)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	o := &Out{C: ctx, model: m, Native: true}
	timedOut := false
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		timedOut = true
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
	}
	b, err := os.ReadFile(evf)
	if err != nil {
		return nil, err
	}
	ended := false
	bv := func(s string) *term.T {
		v, _ := strconv.ParseInt(s, 10, 64)
		return ctx.BV(uint64(v), 64)
	}
	hx := func(s string) []*term.T {
		r := []*term.T{}
		if s == "-" {
			return r
		}
		d, _ := hex.DecodeString(s)
		for _, x := range d {
			r = append(r, ctx.BV(uint64(x), 8))
		}
		return r
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) == 0 {
			continue
		}
		switch f[0] {
		case "ret":
			o.End, ended = x86.Returned, true
		case "exit":
			o.End, ended = x86.Exited, true
			o.Code = bv(f[1])
		case "fault":
			o.End, ended = x86.Fault, true
			o.Why = "signal " + f[1]
		case "assume":
			return nil, fmt.Errorf("assumption failed natively")
		case "misaligned":
			o.Misaligned = append(o.Misaligned, f[1])
		case "obs", "obsb", "obsp":
			k, _ := strconv.Atoi(f[1])
			o.Evs = append(o.Evs, Ev{Kind: f[0], K: k, V: []*term.T{bv(f[2])}})
		case "str", "bytes":
			k, _ := strconv.Atoi(f[1])
			nul, _ := strconv.Atoi(f[4])
			o.Evs = append(o.Evs, Ev{Kind: f[0], K: k, B: hx(f[3]), Nul: ctx.BV(uint64(nul), 8)})
		case "mem":
			k, _ := strconv.Atoi(f[1])
			o.Evs = append(o.Evs, Ev{Kind: f[0], K: k, B: hx(f[3])})
		case "strbad":
			k, _ := strconv.Atoi(f[1])
			o.Evs = append(o.Evs, Ev{Kind: f[0], K: k, V: []*term.T{bv(f[2])}})
		case "printf":
			e := Ev{Kind: "printf"}
			for _, pc := range f[1:] {
				if pc[0] == 'c' {
					v, _ := strconv.Atoi(pc[1:])
					e.B = append(e.B, ctx.BV(uint64(v), 8))
					e.Name += "c"
				} else {
					i := strings.LastIndexByte(pc, '=')
					e.V = append(e.V, bv(pc[i+1:]))
					e.Name += "%" + pc[:i] + ";"
				}
			}
			o.Evs = append(o.Evs, e)
		default:
			e := Ev{Kind: f[0]}
			rest := f[1:]
			if f[0] == "open" {
				e.V = []*term.T{bv(f[1])}
				e.B = hx(f[2])
				rest = nil
			}
			if f[0] == "ext" || f[0] == "arr" {
				e.K, _ = strconv.Atoi(rest[0])
				rest = rest[1:]
			}
			for _, v := range rest {
				e.V = append(e.V, bv(v))
			}
			o.Evs = append(o.Evs, e)
		}
	}
	if !ended {
		if timedOut {
			o.End = x86.StepLimit
			o.Why = "still running after 10 s"
		} else {
			o.End = x86.Fault
			o.Why = "died without a trace"
		}
	}
	return o, nil
}

