package gosym

import (
	"embed"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"verif/engine/term"
)

//go:embed spec/spec.go spec/harness_main.go.txt spec/harness_lex.go.txt spec/harness_run.go.txt
var specFS embed.FS

// Front is the compiler front end ready to be executed on symbolic sources.
type Front struct {
	P       *Program
	Repo    string
	Overlay map[string][]byte
	init    *State            // packages initialised
	base    map[string]*State // by library variant: paused where the program is read
	Libs    map[string][][2]string
	Notes   []string
	epoch   uint64
}

const ProgPath = "/vx/prog.clara"

func specFile(name string) []byte {
	b, err := specFS.ReadFile("spec/" + name)
	if err != nil {
		panic(err)
	}
	return b
}

// Files laid over the tree under test.
func overlay(repo string) map[string][]byte {
	return map[string][]byte{
		filepath.Join(repo, "zz_vx_harness.go"):    specFile("harness_main.go.txt"),
		filepath.Join(repo, "zzvx/spec/spec.go"):   specFile("spec.go"),
		filepath.Join(repo, "zzvx/lexh/lexh.go"):   specFile("harness_lex.go.txt"),
		filepath.Join(repo, "zzvx/lexrun/main.go"): specFile("harness_run.go.txt"),
	}
}

// NewFront loads the working tree.
func NewFront(repo string) (*Front, error) {
	f := &Front{Repo: repo, Overlay: overlay(repo), base: map[string]*State{}, Libs: map[string][][2]string{}}
	p, err := Load(repo, f.Overlay, ".", "./zzvx/lexh")
	if err != nil {
		return nil, err
	}
	f.P = p
	e := NewEngine(p, 1)
	st, err := e.Base(p.Mod, p.Mod+"/zzvx/lexh")
	if err != nil {
		return nil, err
	}
	f.init = st
	full, err := readLib(repo)
	if err != nil {
		return nil, err
	}
	f.Libs["full"] = full
	f.Libs["core"] = [][2]string{{"/vx/lib/core.clara", trim(repo, full)}}
	for _, k := range []string{"core", "full"} {
		if err := f.pause(k); err != nil {
			return nil, err
		}
		if k == "core" {
			ok, why := f.selfTest()
			if ok {
				break
			}
			f.Notes = append(f.Notes, "the reduced library does not compile ("+why+"): using the whole library")
		}
	}
	if f.base["full"] != nil {
		f.base["core"] = f.base["full"]
		f.Libs["core"] = f.Libs["full"]
	}
	return f, nil
}

func readLib(repo string) ([][2]string, error) {
	fs, err := filepath.Glob(filepath.Join(repo, "install/lib/*.clara"))
	if err != nil {
		return nil, err
	}
	sort.Strings(fs)
	var r [][2]string
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		r = append(r, [2]string{"/vx/lib/" + filepath.Base(f), string(b)})
	}
	return r, nil
}

// pause runs Compile up to the reading of the program.
func (f *Front) pause(lib string) error {
	e := NewEngine(f.P, f.init.e.epoch+1)
	st := e.Adopt(f.init)
	var paths []string
	for _, l := range f.Libs[lib] {
		e.AddFile(l[0], l[1])
		paths = append(paths, l[0])
	}
	e.PauseOn = ProgPath
	e.MaxSteps = 3_000_000_000
	for _, fn := range []string{"vxCompile", "vxParse"} {
		s := e.Adopt(st)
		if err := e.Start(s, f.P.Mod, fn, e.Strings(s, paths), Str1(ProgPath)); err != nil {
			return err
		}
		s.run()
		if s.End != "pause" {
			return fmt.Errorf("compiling the library: %s %s", s.End, s.Msg)
		}
		key := lib
		if fn != "vxCompile" {
			key += ":" + fn
		}
		f.base[key] = s
	}
	return nil
}

const selfProg = `
fn f(a: int, b: string, c: bool, d: []int) int {
    s := "x"
    g := fn(k: int) int { return k + a }
    x := [1, 2]
    for i in d { a = a + i }
    for i in 0 .. 3 { x[i] = g(i) }
    if not c and a == 1 { return d[0] }
    return -a / 3
}
fn main() {
    printf("%d", f(1, "a", true, [1]))
}
`

func (f *Front) selfTest() (bool, string) {
	e := NewEngine(f.P, f.init.e.epoch+1000000)
	st := f.Start(e, "vxCompile", Str1(selfProg))
	ok, why := false, ""
	e.Explore(st, func(s *State) {
		ok = s.End == "return" && s.Ret.N == 0
		why = s.End + " " + s.Msg
	})
	e.S.Close()
	return ok, why
}

// Start begins a compilation of a (symbolic) program in engine e.
func (f *Front) Start(e *Engine, fn string, prog V) *State {
	key := "core"
	if fn != "vxCompile" {
		key += ":" + fn
	}
	b := f.base[key]
	st := e.Adopt(b)
	for _, l := range f.Libs["core"] {
		e.AddFile(l[0], l[1])
	}
	e.Files[ProgPath] = prog
	return st
}

// StartLex begins the comparison of the lexer with the reference.
func (f *Front) StartLex(e *Engine, src V) *State {
	st := e.Adopt(f.init)
	e.Start(st, f.P.Mod+"/zzvx/lexh", "Agrees", src)
	return st
}

// NewEngine makes an engine for use with this front end.
func (f *Front) NewEngine() *Engine {
	max := f.init.e.epoch
	for _, b := range f.base {
		if b.e.epoch > max {
			max = b.e.epoch
		}
	}
	return NewEngine(f.P, max+1)
}

var declRe = regexp.MustCompile(`(?m)^(#\[[^\]]*\]\s*)?(fn|struct|enum)\s+([A-Za-z_0-9]+)`)
var wordRe = regexp.MustCompile(`[A-Za-z_][A-Za-z_0-9]*`)
var goStrRe = regexp.MustCompile("\"([A-Za-z_][A-Za-z_0-9]*)\"")

// trim reduces the library to what the compiler refers to by name and what that needs.
func trim(repo string, full [][2]string) string {
	type decl struct {
		names []string
		text  string
		words []string
	}
	var decls []*decl
	by := map[string][]*decl{}
	for _, l := range full {
		ix := declRe.FindAllStringSubmatchIndex(l[1], -1)
		for i, m := range ix {
			end := len(l[1])
			if i+1 < len(ix) {
				end = ix[i+1][0]
			}
			d := &decl{text: l[1][m[0]:end]}
			kind := l[1][m[4]:m[5]]
			name := l[1][m[6]:m[7]]
			d.names = []string{name}
			if kind == "struct" && name != "" {
				d.names = append(d.names, strings.ToUpper(name[:1])+name[1:])
			}
			body := stripComments(d.text)
			if kind == "enum" {
				for _, c := range regexp.MustCompile(`([A-Za-z_0-9]+)\s*\(`).FindAllStringSubmatch(body, -1) {
					d.names = append(d.names, c[1])
				}
			}
			d.words = wordRe.FindAllString(body, -1)
			decls = append(decls, d)
			for _, n := range d.names {
				by[n] = append(by[n], d)
			}
		}
	}
	want := map[*decl]bool{}
	var add func(w string)
	add = func(w string) {
		for _, d := range by[w] {
			if want[d] {
				continue
			}
			want[d] = true
			if d.names[0] == "entrypoint" {
				continue
			}
			for _, x := range d.words {
				add(x)
			}
		}
	}
	gos, _ := filepath.Glob(filepath.Join(repo, "*.go"))
	for _, g := range gos {
		if strings.HasSuffix(g, "_test.go") {
			continue
		}
		b, _ := os.ReadFile(g)
		for _, m := range goStrRe.FindAllStringSubmatch(string(b), -1) {
			add(m[1])
		}
	}
	var out strings.Builder
	for _, d := range decls {
		switch {
		case want[d] && d.names[0] == "entrypoint":
			sig := stripComments(d.text)
			if i := strings.Index(sig, "{"); i > 0 {
				sig = sig[:i]
			}
			out.WriteString(sig + "{ main() }\n")
		case want[d]:
			out.WriteString(d.text + "\n")
		}
	}
	return out.String()
}

func stripComments(s string) string {
	var ls []string
	for _, l := range strings.Split(s, "\n") {
		if i := strings.Index(l, "//"); i >= 0 {
			l = l[:i]
		}
		ls = append(ls, l)
	}
	return strings.Join(ls, "\n")
}

// ---- symbolic sources ----

// Src builds a source text with holes.
type Src struct {
	e     *Engine
	b     []*term.T
	Holes map[string]*Hole
	Conds []*term.T
}

// Hole is a place filled by one of several texts (Alts), chosen by the variable C, or by free bytes.
type Hole struct {
	Name string
	C    *term.T
	Alts []string
	B    []*term.T
}

func NewSrc(e *Engine) *Src { return &Src{e: e, Holes: map[string]*Hole{}} }

func (s *Src) Lit(t string) *Src {
	for i := 0; i < len(t); i++ {
		s.b = append(s.b, s.e.C.BV(uint64(t[i]), 8))
	}
	return s
}

// Choice adds a hole filled by one of alts, padded with spaces. A name used before repeats that
// hole's choice, with the given texts.
func (s *Src) Choice(name string, alts ...string) *Src {
	c := s.e.C
	h := s.Holes[name]
	if h == nil {
		h = &Hole{Name: name, C: c.Var("c."+name, 8), Alts: alts}
		s.Holes[name] = h
		s.Conds = append(s.Conds, c.Ult(h.C, c.BV(uint64(len(alts)), 8)))
	}
	w := 0
	for _, a := range alts {
		w = max(w, len(a))
	}
	for i := 0; i < w; i++ {
		t := c.BV(' ', 8)
		tb := &table{v: h.C}
		for k := range tb.val {
			b := byte(' ')
			if a := alts[min(k, len(alts)-1)]; i < len(a) {
				b = a[i]
			}
			tb.val[k] = uint64(b)
		}
		for k := len(alts) - 1; k >= 0; k-- {
			b := byte(' ')
			if i < len(alts[k]) {
				b = alts[k][i]
			}
			v := c.BV(uint64(b), 8)
			if k == len(alts)-1 {
				t = v
			} else {
				t = c.Ite(c.Eq(h.C, c.BV(uint64(k), 8)), v, t)
			}
		}
		s.b = append(s.b, s.e.T.register(t, tb))
	}
	return s
}

// Bytes adds n free bytes; allowed restricts them (nil: any).
func (s *Src) Bytes(name string, n int, allowed func(b byte) bool) *Src {
	c := s.e.C
	h := &Hole{Name: name}
	for i := 0; i < n; i++ {
		v := c.Var(fmt.Sprintf("b.%s.%02d", name, i), 8)
		h.B = append(h.B, v)
		s.b = append(s.b, v)
		if allowed != nil {
			var ors []*term.T
			lo, hi := 255, 0
			for k := 0; k < 256; k++ {
				if allowed(byte(k)) {
					lo, hi = min(lo, k), max(hi, k)
					ors = append(ors, c.Eq(v, c.BV(uint64(k), 8)))
				}
			}
			if len(ors) > 1 && len(ors) == hi-lo+1 {
				s.Conds = append(s.Conds, c.Ule(c.BV(uint64(lo), 8), v), c.Ule(v, c.BV(uint64(hi), 8)))
			} else {
				s.Conds = append(s.Conds, c.Or(ors...))
			}
			if lo <= hi {
				c.SetRange(v, uint64(lo), uint64(hi))
			}
		}
	}
	s.Holes[name] = h
	return s
}

// Value is the text.
func (s *Src) Value() V { return symStr(s.b) }

// Text is the text under a model.
func (s *Src) Text(m term.Model) string { return EvalStr(s.Value(), m) }

// In is the condition that the choice of a hole satisfies pred.
func (s *Src) In(name string, pred func(alt string) bool) *term.T {
	c := s.e.C
	h := s.Holes[name]
	var ors []*term.T
	for i, a := range h.Alts {
		if pred(a) {
			ors = append(ors, c.Eq(h.C, c.BV(uint64(i), 8)))
		}
	}
	return c.Or(ors...)
}

// Ctx gives access to the term context.
func (s *Src) Ctx() *term.Ctx { return s.e.C }
