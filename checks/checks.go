// Package checks holds the specification of every property as probe programs with oracles.
package checks

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"verif/engine/clara"
	"verif/engine/smt"
)

// Check is one property.
type Check struct {
	ID          string
	Bounds      []string
	Assumptions []string
	Probes      func(thorough bool) []*clara.Probe
	// NoTwins: the check chooses its own raw twins.
	NoTwins bool
	// Extra runs further solver-based parts (the Go engine); nil if none.
	Extra func(r *Runner) error
}

var all = map[string]*Check{}

func register(c *Check) { all[c.ID] = c }

// IDs lists the registered properties.
func IDs() []string {
	var r []string
	for k := range all {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// Finding is a recorded known finding: a violation of one probe with one signature.
type Finding struct{ Property, Probe, Sig, What string }

// LoadFindings reads known-findings.txt.
func LoadFindings(path string) []Finding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []Finding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		f := Finding{}
		for _, w := range strings.Fields(strings.TrimPrefix(l, "known:")) {
			switch {
			case strings.HasPrefix(w, "property=") && f.Property == "":
				f.Property = w[9:]
			case strings.HasPrefix(w, "probe=") && f.Probe == "":
				f.Probe = w[6:]
			case strings.HasPrefix(w, "sig=") && f.Sig == "":
				f.Sig = w[4:]
			default:
				f.What += w + " "
			}
		}
		f.What = strings.TrimSpace(f.What)
		out = append(out, f)
	}
	return out
}

// Runner executes one check.
type Runner struct {
	Check    *Check
	Env      *clara.Env
	Thorough bool
	Deadline time.Time
	Root     string // /verif
	Repo     string
	mu       sync.Mutex
	Reports  []*clara.Report
	Funcs    map[string]bool
	Only     string
	Verbose  bool
	t0       time.Time
	violated bool // an unlisted violation has been found
}

// Add records a report.
func (r *Runner) Add(rep *clara.Report) {
	r.mu.Lock()
	r.Reports = append(r.Reports, rep)
	if rep.Violation != nil && !r.known(rep) {
		r.violated = true
	}
	r.mu.Unlock()
	if r.Verbose {
		v := ""
		if rep.Violation != nil {
			v = "VIOLATED " + rep.Violation.What + " " + rep.Violation.Detail
		}
		fmt.Fprintf(os.Stderr, "%-40s paths=%d proved=%d valid=%d steps=%d %.2fs %+v inc=%v mis=%v %s\n", rep.Probe, rep.Paths, rep.UnsatProved, rep.Validated, rep.Steps, rep.Wall.Seconds(), rep.Stats, rep.Incomplete, rep.Mismatch, v)
	}
}

// known says that the violation is a recorded finding.
func (r *Runner) known(rep *clara.Report) bool {
	for _, k := range LoadFindings(filepath.Join(r.Root, "known-findings.txt")) {
		if k.Property == r.Check.ID && k.Probe == rep.Probe && k.Sig == rep.Violation.Sig {
			return true
		}
	}
	return false
}

// enough says that a violation has been found and that no more time should be spent on finding others.
func (r *Runner) enough() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.violated && (os.Getenv("VX_FAST") != "" || time.Since(r.t0) > 240*time.Second)
}

// selected: the probe is among those asked for (a part of the name, or =name,=name,... for exact ones).
func selected(name, only string) bool {
	if strings.HasPrefix(only, "=") {
		for _, o := range strings.Split(only, ",") {
			if o[1:] == name {
				return true
			}
		}
		return false
	}
	return strings.Contains(name, only)
}

// Dump writes the programs of the probes of every check to dir (for tools/mutate.py).
func Dump(dir string) {
	for id, c := range all {
		if c.Probes == nil {
			continue
		}
		for _, p := range c.Probes(false) {
			if !p.Thorough {
				src := p.Src
				if !p.NoPre {
					src += "\n" + clara.Prelude
				}
				os.WriteFile(filepath.Join(dir, id+"__"+p.Name+".clara"), []byte(src), 0o644)
			}
		}
	}
}

// Run decides the property and returns the process exit code.
func Run(id string, root, repo string, thorough bool, only string, verbose bool) int {
	c := all[id]
	if c == nil {
		fmt.Println("unknown property", id)
		return 0
	}
	t0 := time.Now()
	budget := 600 * time.Second
	if thorough {
		budget = 3600 * time.Second
	}
	r := &Runner{Check: c, Thorough: thorough, Deadline: t0.Add(budget), Root: root, Repo: repo, Only: only, Verbose: verbose, t0: t0, Funcs: map[string]bool{}}
	env, err := clara.Setup(repo)
	if err != nil {
		fmt.Println("INCONCLUSIVE: " + err.Error())
		r.evidence(t0, []string{"setup: " + err.Error()}, 0)
		return 2
	}
	r.Env = env
	defer env.Close()
	var probes []*clara.Probe
	if c.Probes != nil {
		for _, p := range c.Probes(thorough) {
			if !selected(p.Name, only) {
				continue
			}
			if p.Thorough && !thorough {
				continue
			}
			probes = append(probes, p)
		}
	}
	if !c.NoTwins {
		// twins whose terms are not rewritten by the engine, so that the solver does all the work
		var tw []*clara.Probe
		for i, p := range probes {
			if !p.Raw && (thorough || i%7 == 3) {
				tw = append(tw, p)
			}
		}
		probes = append(probes, rawTwins(tw)...)
	}
	seen := map[string]bool{}
	for _, p := range probes {
		if p.Budget == 0 {
			p.Budget = 90 * time.Second
		}
		if thorough {
			p.Budget *= 10
		}
		if seen[p.Name] {
			panic("duplicate probe " + p.Name)
		}
		seen[p.Name] = true
	}
	sem := make(chan bool, max(1, runtime.NumCPU()))
	var wg sync.WaitGroup
	for _, p := range probes {
		p := p
		wg.Add(1)
		sem <- true
		go func() {
			defer func() { <-sem; wg.Done() }()
			if r.enough() {
				return
			}
			r.Add(env.Run(p, r.Deadline))
		}()
	}
	wg.Wait()
	var notes []string
	if c.Extra != nil && !r.enough() {
		if err := c.Extra(r); err != nil {
			notes = append(notes, err.Error())
			fmt.Println("INCONCLUSIVE: " + err.Error())
		}
	}
	return r.finish(t0, notes)
}

func (r *Runner) finish(t0 time.Time, notes []string) int {
	c := r.Check
	sort.Slice(r.Reports, func(i, j int) bool { return r.Reports[i].Probe < r.Reports[j].Probe })
	known := LoadFindings(filepath.Join(r.Root, "known-findings.txt"))
	viol := 0
	for _, rep := range r.Reports {
		for _, m := range rep.Mismatch {
			fmt.Printf("NOTE: %s/%s engine disagreement (not counted): %s\n", c.ID, rep.Probe, firstLine(m))
		}
		if len(rep.Incomplete) > 0 {
			fmt.Printf("NOTE: %s/%s reduced bound: %s\n", c.ID, rep.Probe, trunc(strings.Join(rep.Incomplete, "; "), 300))
		}
		v := rep.Violation
		if v == nil {
			continue
		}
		isKnown := false
		for _, k := range known {
			if k.Property == c.ID && k.Probe == rep.Probe && k.Sig == v.Sig {
				fmt.Printf("KNOWN-FINDING: property=%s %s (probe %s)\n", c.ID, k.What, k.Probe)
				isKnown = true
				break
			}
		}
		if isKnown {
			continue
		}
		viol++
		p := r.writeReplay(rep)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, p)
		fmt.Printf("  probe %s: %s\n", rep.Probe, v.What)
	}
	r.evidence(t0, notes, viol)
	if viol > 0 {
		return 1
	}
	return 0
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func (r *Runner) writeReplay(rep *clara.Report) string {
	d := filepath.Join(r.Root, "evidence", "replay")
	os.MkdirAll(d, 0o755)
	p := filepath.Join(d, r.Check.ID+"-"+strings.Map(func(c rune) rune {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '-' || c == '_' {
			return c
		}
		return '_'
	}, rep.Probe)+".txt")
	var sb strings.Builder
	v := rep.Violation
	fmt.Fprintf(&sb, "property %s, probe %s\n%s\n\ninputs:\n", r.Check.ID, rep.Probe, v.What)
	var ks []string
	for k := range v.Inputs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(&sb, "  %s = %d (%#x)\n", k, v.Inputs[k], v.Inputs[k])
	}
	fmt.Fprintf(&sb, "\n%s\n\nprogram:\n%s\n", v.Detail, v.Src)
	os.WriteFile(p, []byte(sb.String()), 0o644)
	return p
}

func (r *Runner) evidence(t0 time.Time, notes []string, viol int) {
	tier := "quick"
	if r.Thorough {
		tier = "thorough"
	}
	var st smt.Stats
	paths, valid, proved := 0, 0, 0
	var steps uint64
	funcs := map[string]bool{}
	var samples []interface{}
	var inc []string
	for _, rep := range r.Reports {
		st.Add(rep.Stats)
		paths += rep.Paths
		valid += rep.Validated
		proved += rep.UnsatProved
		steps += rep.Steps
		for _, f := range rep.Funcs {
			if !strings.HasPrefix(f, "0x1000") {
				funcs[f] = true
			}
		}
		if len(samples) < 12 || rep.Violation != nil {
			samples = append(samples, map[string]interface{}{"probe": rep.Probe, "paths": rep.Paths, "paths_decided": rep.UnsatProved, "witnesses_replayed_natively": rep.Validated, "wall_s": rep.Wall.Seconds(), "witness": rep.SampleNote})
		}
		for _, i := range rep.Incomplete {
			inc = append(inc, rep.Probe+": "+trunc(i, 200))
		}
		for _, i := range rep.Mismatch {
			inc = append(inc, rep.Probe+": disagreement: "+trunc(i, 200))
		}
	}
	inc = append(inc, notes...)
	var fl []string
	for f := range funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	ev := map[string]interface{}{
		"property": r.Check.ID, "tier": tier, "seed": 1, "level": "model_checking",
		"coverage": map[string]interface{}{
			"states": paths, "transitions": steps, "traces_validated_against_impl": valid,
			"samples":              samples,
			"harnesses":            len(r.Reports),
			"paths_decided":        proved,
			"solver":               st,
			"functions_encoded":    fl,
			"bounds":               r.Check.Bounds,
			"reduced_or_undecided": inc,
			"meaning":              "states = completed symbolic paths (each stands for every input satisfying its path condition); transitions = instructions executed symbolically; traces_validated_against_impl = path witnesses replayed on the natively compiled program (or the Go build) with identical observations",
		},
		"assumptions": r.Check.Assumptions,
		"wall_s":      time.Since(t0).Seconds(),
		"violations":  viol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(r.Root, "evidence"), 0o755)
	os.WriteFile(filepath.Join(r.Root, "evidence", r.Check.ID+".json"), append(b, '\n'), 0o644)
}
