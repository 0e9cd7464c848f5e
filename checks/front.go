package checks

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"verif/engine/clara"
	"verif/engine/gosym"
	"verif/engine/gosym/spec"
	"verif/engine/smt"
	"verif/engine/term"
)

// gprobe is one symbolic source text put through the front end, executed symbolically (engine G).
type gprobe struct {
	name  string
	fn    string // "vxCompile" (default), "vxParse" or "lex"
	build func(s *gosym.Src)
	// accept is the condition under which the program is accepted, and rejected otherwise; nil: the
	// compiler has to answer (accept or reject) without crashing, no matter which.
	accept func(s *gosym.Src) *term.T
	// free: programs the accept condition says nothing about.
	free func(s *gosym.Src) *term.T
	// out gives, for an accepted path, the condition that the output is right.
	out func(g *gpath) (*term.T, string)
	// check replays an output violation natively: it tells whether the compiled program is wrong.
	check    func(c *clara.Compiled, src string) string
	thorough bool
	expect   string // what the accept condition says, in words
}

// gpath is a finished path.
type gpath struct {
	St  *gosym.State
	S   *gosym.Src
	E   *gosym.Engine
	Ctx *term.Ctx
}

var hexRe = regexp.MustCompile(`0x[0-9a-f]+|\d+`)

func sigOf(s string) string {
	s = hexRe.ReplaceAllString(s, "N")
	s = strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
			return r
		}
		return '-'
	}, s)
	for strings.Contains(s, "--") {
		s = strings.ReplaceAll(s, "--", "-")
	}
	return trunc(strings.Trim(s, "-"), 60)
}

func panicLine(out string) string {
	for _, l := range strings.Split(out, "\n") {
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") {
			return l
		}
	}
	return "crash"
}

// verdict of the real compiler.
func verdict(c *clara.Compiled) string {
	switch {
	case c.Crashed:
		return "crash"
	case c.Hung:
		return "hang"
	case c.Link:
		return "link"
	case c.Rejected:
		return "reject"
	}
	return "accept"
}

// runFront explores probes with engine G.
func (r *Runner) runFront(probes []*gprobe) error {
	var ps []*gprobe
	seen := map[string]bool{}
	for _, p := range probes {
		if !selected(p.name, r.Only) || p.thorough && !r.Thorough {
			continue
		}
		if seen[p.name] {
			panic("duplicate probe " + p.name)
		}
		seen[p.name] = true
		ps = append(ps, p)
	}
	if len(ps) == 0 {
		return nil
	}
	f, err := gosym.NewFront(r.Repo)
	if err != nil {
		return fmt.Errorf("the front end could not be loaded for symbolic execution: %v", err)
	}
	for _, n := range f.Notes {
		fmt.Println("NOTE: " + n)
	}
	lexbin := ""
	for _, p := range ps {
		if p.fn == "lex" && lexbin == "" {
			if lexbin, err = buildLexRun(r, f); err != nil {
				return err
			}
		}
	}
	workers := min(8, max(1, runtime.NumCPU()))
	var wg sync.WaitGroup
	ch := make(chan *gprobe)
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for p := range ch {
				if r.enough() {
					continue
				}
				r.runG(f, p, lexbin)
			}
		}()
	}
	for _, p := range ps {
		ch <- p
	}
	close(ch)
	wg.Wait()
	return nil
}

// buildLexRun builds the native counterpart of the lexer comparison.
func buildLexRun(r *Runner, f *gosym.Front) (string, error) {
	d := filepath.Join(r.Env.Dir, "lexrun")
	os.MkdirAll(d, 0o755)
	rep := map[string]string{}
	i := 0
	for k, v := range f.Overlay {
		p := filepath.Join(d, fmt.Sprintf("o%d.go", i))
		i++
		os.WriteFile(p, v, 0o644)
		rep[k] = p
	}
	b, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	ov := filepath.Join(d, "overlay.json")
	os.WriteFile(ov, b, 0o644)
	bin := filepath.Join(d, "lexrun")
	cmd := exec.Command("go", "build", "-buildvcs=false", "-overlay", ov, "-o", bin, "./zzvx/lexrun")
	cmd.Dir = r.Repo
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local")
	if out, err := cmd.CombinedOutput(); err != nil {
		return "", fmt.Errorf("building the lexer replay: %v %s", err, out)
	}
	return bin, nil
}

func runLex(bin, src string) string {
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin)
	cmd.Stdin = strings.NewReader(src)
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	err := cmd.Run()
	if ctx.Err() != nil {
		return "hang"
	}
	if err != nil {
		return "crash " + panicLine(out.String())
	}
	return strings.TrimSpace(out.String())
}

var lexWhat = map[string]string{
	"1": "the lexer stopped without an end-of-file or error token",
	"2": "the lexer rejects a well-formed token",
	"3": "the lexer goes on after its last token",
	"4": "the lexer accepts a malformed token",
	"5": "a token has the wrong kind",
	"6": "a token has the wrong text",
	"7": "a token has the wrong line number",
	"8": "the lexer does not end",
}

func (r *Runner) runG(f *gosym.Front, p *gprobe, lexbin string) {
	t0 := time.Now()
	rep := &clara.Report{Probe: p.name}
	viol := map[string]*clara.Violation{}
	defer func() {
		if x := recover(); x != nil {
			rep.Incomplete = append(rep.Incomplete, fmt.Sprintf("engine failure: %v", x))
			if r.Verbose {
				panic(x)
			}
		}
		rep.Wall = time.Since(t0)
		var ks []string
		for k := range viol {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		if len(ks) > 0 {
			rep.Violation = viol[ks[0]]
		}
		r.Add(rep)
		for i := 1; i < len(ks) && i < 4; i++ {
			r.Add(&clara.Report{Probe: p.name, Violation: viol[ks[i]]})
		}
	}()
	e := f.NewEngine()
	defer e.S.Close()
	s := gosym.NewSrc(e)
	p.build(s)
	c := e.C
	budget := 150 * time.Second
	if r.Thorough {
		budget = 1500 * time.Second
	}
	stop := t0.Add(budget)
	if stop.After(r.Deadline) {
		stop = r.Deadline
	}
	e.MaxPaths = 5_000_000
	e.Stop = func() bool { return time.Now().After(stop) }
	fn := p.fn
	if fn == "" {
		fn = "vxCompile"
	}
	var st *gosym.State
	if fn == "lex" {
		st = f.StartLex(e, s.Value())
	} else {
		st = f.Start(e, fn, s.Value())
	}
	for _, x := range s.Conds {
		if !st.Assume(x) {
			rep.Incomplete = append(rep.Incomplete, "no input satisfies the conditions")
			return
		}
	}
	var acc, free *term.T = nil, c.False
	if p.accept != nil {
		acc = p.accept(s)
	}
	if p.free != nil {
		free = p.free(s)
	}
	add := func(sig, what, src, detail string) {
		if viol[sig] == nil {
			viol[sig] = &clara.Violation{Probe: p.name, What: what, Detail: detail, Sig: sig, Src: src}
		}
	}
	fails := 0
	incs := map[string]int{}
	// replay runs the witness on the real code; why is what the symbolic path claims.
	replay := func(m term.Model, why string) bool {
		src := s.Text(m)
		if fn == "lex" {
			got := runLex(lexbin, src)
			if got == "0" {
				if why != "" {
					rep.Mismatch = append(rep.Mismatch, fmt.Sprintf("%s, but not natively for %q", why, src))
				}
				return false
			}
			what := lexWhat[got]
			if what == "" {
				what = "the lexer fails: " + got
			}
			add("lex-"+sigOf(got), fmt.Sprintf("%s for source %q", what, src), src, "native lexer compared with the reference: code "+got)
			return true
		}
		cc := r.Env.Compile(src)
		defer os.RemoveAll(cc.Dir)
		v := verdict(cc)
		ev := term.NewEvaluator(m)
		switch {
		case v == "crash":
			pl := panicLine(cc.Out)
			add("crash-"+sigOf(pl), "the compiler crashes: "+pl, src, trunc(cc.Out, 2000))
			return true
		case v == "hang":
			add("hang", "the compiler does not end", src, "no answer in 60 s")
			return true
		case v == "link":
			add("link", "the compiler's output does not assemble or link", src, trunc(cc.Out, 2000))
			return true
		}
		if fn == "vxParse" {
			ks, _ := spec.Tokens(src)
			ok := spec.Parses(ks)
			if !ok && v == "accept" {
				add("malformed-accepted", "a program that is not well formed is accepted", src, "accepted without an error")
				return true
			}
			if ok && v == "reject" && strings.Contains(cc.Out, "syntax error") {
				add("wellformed-rejected", "a well-formed program is called a syntax error", src, trunc(cc.Out, 2000))
				return true
			}
		} else if acc != nil && ev.Eval(free) == 0 {
			if ev.Eval(acc) != 0 && v == "reject" {
				add("rejected", "a program the language allows is rejected"+inParens(p.expect), src, trunc(cc.Out, 2000))
				return true
			}
			if ev.Eval(acc) == 0 && v == "accept" {
				add("accepted", "a program the language forbids is accepted"+inParens(p.expect), src, "compiled without an error")
				return true
			}
		}
		if v == "accept" && p.check != nil {
			if bad := p.check(cc, src); bad != "" {
				add("output-"+sigOf(firstLine(bad)), "the compiled program is wrong: "+bad, src, bad)
				return true
			}
		}
		if why != "" {
			rep.Mismatch = append(rep.Mismatch, fmt.Sprintf("%s, but natively: %s %s for\n%s", why, v, trunc(cc.Out, 300), src))
		} else {
			rep.Validated++
		}
		return false
	}
	cand := func(m term.Model, why string) {
		if fails++; fails > 12 {
			return
		}
		replay(m, why)
	}
	var nacc, nrej, tried int
	e.Explore(st, func(x *gosym.State) {
		rep.Paths++
		switch x.End {
		case "return":
		case "panic", "deadlock", "limit":
			if x.End == "limit" && time.Now().After(stop) {
				incs["time"]++
				return
			}
			res, m := x.Model()
			if res == smt.Sat {
				cand(m, "the front end ends with "+x.End+" "+x.Msg)
			}
			return
		default:
			incs[x.End+" "+x.Msg]++
			// The path is beyond the encoding: nothing is claimed for it, but its inputs may still show a violation.
			if tried < 60 && !time.Now().After(stop) {
				tried++
				ex := [][]*term.T{nil}
				if acc != nil {
					ex = [][]*term.T{{acc, c.Not(free)}, {c.Not(acc), c.Not(free)}}
				}
				for _, y := range ex {
					if res, m := x.Model(y...); res == smt.Sat && replay(m, "") {
						break
					}
				}
			}
			return
		}
		if fn != "vxCompile" {
			rep.UnsatProved++
			bad := c.False
			if t, ok := x.Ret.R.(*term.T); ok {
				bad = c.Ne(t, c.BV(0, t.W))
			} else if x.Ret.N != 0 {
				bad = c.True
			}
			if !bad.IsFalse() {
				if res, m := x.Model(bad); res == smt.Sat {
					cand(m, fmt.Sprintf("comparison with the reference gives %v", x.Ret.N))
					return
				}
			}
			if nacc < 2 {
				nacc++
				if res, m := x.Model(); res == smt.Sat {
					if nacc == 1 {
						rep.SampleNote = fmt.Sprintf("%q", trunc(s.Text(m), 200))
					}
					if !replay(m, "") && fn == "lex" {
						rep.Validated++
					}
				}
			}
			return
		}
		if _, ok := x.Ret.R.(*term.T); ok {
			incs["symbolic number of errors"]++
			return
		}
		accepted := x.Ret.N == 0
		if acc != nil {
			bad, why := acc, "rejected although it should be accepted"
			if accepted {
				bad, why = c.Not(acc), "accepted although it should be rejected"
			}
			res, m := x.Model(c.And(bad, c.Not(free)))
			switch res {
			case smt.Sat:
				cand(m, why)
				return
			case smt.Unsat:
				rep.UnsatProved++
			default:
				incs["solver gave up"]++
			}
		}
		if accepted && p.out != nil {
			right, what := p.out(&gpath{x, s, e, c})
			if right == nil {
				incs["output not understood: "+what]++
			} else {
				res, m := x.Model(c.Not(right))
				switch res {
				case smt.Sat:
					cand(m, what)
					return
				case smt.Unsat:
					rep.UnsatProved++
				default:
					incs["solver gave up"]++
				}
			}
		} else if acc == nil {
			rep.UnsatProved++
		}
		n := &nrej
		if accepted {
			n = &nacc
		}
		if *n < 2 {
			*n++
			if res, m := x.Model(); res == smt.Sat {
				if *n == 1 {
					rep.SampleNote = strings.TrimSpace(rep.SampleNote + " " + fmt.Sprintf("%v: %q", map[bool]string{true: "accepted", false: "rejected"}[accepted], trunc(s.Text(m), 200)))
				}
				replay(m, "")
			}
		}
	})
	if e.Dropped > 0 {
		incs["paths left unexplored for lack of time"] += e.Dropped
	}
	if fails > 12 {
		rep.Incomplete = append(rep.Incomplete, fmt.Sprintf("%d candidate counterexamples, 12 replayed", fails))
	}
	var ks []string
	for k := range incs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		rep.Incomplete = append(rep.Incomplete, fmt.Sprintf("%s (%d paths)", k, incs[k]))
	}
	rep.Steps = uint64(e.Steps)
	for k := range e.Funcs {
		rep.Funcs = append(rep.Funcs, k)
	}
	rep.Stats = e.S.Stats
}

func inParens(s string) string {
	if s == "" {
		return ""
	}
	return " (" + s + ")"
}
