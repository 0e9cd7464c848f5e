package checks

import (
	"fmt"
	"strings"

	"verif/engine/gosym"
	"verif/engine/gosym/spec"
)

// C08: the whole compiler on token sequences; the reference grammar (engine/gosym/spec) executed on
// the same symbolic source says which of them are programs.
func init() {
	register(&Check{
		ID: "C08",
		Bounds: []string{
			"every token of the sample programs (all constructs of the language) deleted, replaced by, or followed by, any token of a 60-token alphabet covering every kind, lexically bad text included",
			"every prefix of the sample programs",
			"every sequence of up to 3 tokens at top level and 2 to 3 tokens in statement, expression, parameter, field, type and case position; thorough: one more token, and every pair of adjacent tokens of the samples replaced",
		},
		Assumptions: []string{"the library is reduced to what the compiler needs by name (the reduction is checked to compile); witnesses are replayed with the whole library"},
		NoTwins:     true,
		Extra:       func(r *Runner) error { return r.runFront(parseProbes()) },
	})
}

var parseSamples = map[string]string{
	"flow": `fn f(a: int, b: []string) int {
 x := a * 2
 if x > 1 { return x } elseif a == 3 { x = 4 } else { return 5 }
 while x < 2 { x = x + 1 }
 for i in 0 .. 3 { x = x + i }
 for s in b { x = x + s.length }
 return x > 1 ? -x : ~a
}
fn main() { }
`,
	"types": `struct pt «T» { x: T y: []int }
enum sh { Aa() Bb(v: int, w: string) }
#[RawValues]
fn ext(p: pointer, q: fn(int, bool) int) int
fn g «T» (t: T, h: fn(T) int) int = h(t)
fn m(s: sh) int {
 match s { case Aa(): return 1 case Bb(v, w): return v }
}
fn main() {
 k := fn(q: int) int { return q }
 z := g «int» (3, k)
 p := Pt(1, [1, 2])
 p.y[0] = p.x
 t := not true and (1 < 2) or false
 m(Aa())
 printf("%d\n", z << 2 | 1 & 3 ^ 4 >> 1)
 return
}
`,
}

var tokenAlts = []string{"x", "int", "5", "\"s\"", "fn", "return", "if", "elseif", "else", "true", "not", "and", "or", "struct", "while", "for", "in", "enum", "match", "case", "type",
	":=", "==", ">=", "<", "<<", "..", "«", "»", "+", "-", "*", "/", "&", "~", "=", "(", ")", "{", "}", "[", "]", ",", ":", ".", "#", "?", "$", "\"", "0x", "// ", "main", "zz"}

type tk struct{ from, to int }

func tokensOf(src string) []tk {
	var r []tk
	for i := 0; ; {
		t := spec.Scan(src, i, 0)
		if t.Kind == spec.EOF {
			return r
		}
		if t.Kind == spec.Bad {
			panic("bad sample")
		}
		if t.Kind != spec.Space && t.Kind != spec.EOL && t.Kind != spec.Comment {
			r = append(r, tk{t.Start, t.End})
		}
		i = t.End
	}
}

func parseProbes() []*gprobe {
	var ps []*gprobe
	add := func(name string, th bool, b func(s *gosym.Src)) {
		ps = append(ps, &gprobe{name: name, fn: "vxParse", build: b, thorough: th})
	}
	for _, sn := range []string{"flow", "types"} {
		src := parseSamples[sn]
		toks := tokensOf(src)
		for i, t := range toks {
			t := t
			orig := src[t.from:t.to]
			var alts []string
			alts = append(alts, " ")
			for _, a := range tokenAlts {
				alts = append(alts, " "+a+" ", " "+orig+" "+a+" ")
			}
			add(fmt.Sprintf("%s-%03d-token", sn, i), false, func(s *gosym.Src) {
				s.Lit(src[:t.from]).Choice("t", alts...).Lit(src[t.to:])
			})
			if i+1 < len(toks) {
				u := toks[i+1]
				add(fmt.Sprintf("%s-%03d-pair", sn, i), true, func(s *gosym.Src) {
					s.Lit(src[:t.from]).Choice("t", spaced(tokenAlts)...).Choice("u", spaced(tokenAlts)...).Lit(src[u.to:])
				})
			}
		}
		// prefixes
		for k := 0; k < len(toks); k += 12 {
			k := k
			add(fmt.Sprintf("%s-%03d-prefix", sn, k), false, func(s *gosym.Src) {
				var alts []string
				for j := k; j < k+12 && j < len(toks); j++ {
					alts = append(alts, src[toks[k].from:toks[j].from])
				}
				s.Lit(src[:toks[k].from]).Choice("p", alts...)
			})
		}
	}
	seq := func(name, pre, post string, n int, th bool, alts []string) {
		add(name, th, func(s *gosym.Src) {
			s.Lit(pre)
			for i := 0; i < n; i++ {
				s.Choice(fmt.Sprint("t", i), spaced(alts)...)
			}
			s.Lit(post)
		})
	}
	expr := strings.Fields(`a b 5 "s" true not - ~ ( ) [ ] , . + == ? : fn type « » { } := = in`)
	seq("top", "", "", 2, false, tokenAlts)
	seq("top-3", "", "", 3, true, tokenAlts)
	seq("top-main", "fn main() { }\n", "", 2, false, tokenAlts)
	seq("stmt", "fn main() {\n a := 1\n b := [a]\n", "\n}\n", 2, false, tokenAlts)
	seq("stmt-3", "fn main() {\n a := 1\n b := [a]\n", "\n}\n", 3, true, tokenAlts)
	seq("expr-3", "fn main() {\n a := 1\n b := [a]\n a = ", "\n}\n", 3, false, expr)
	seq("expr-4", "fn main() {\n a := 1\n b := [a]\n a = ", "\n}\n", 4, true, expr)
	seq("cond", "fn main() {\n a := 1\n b := true\n if ", " { }\n}\n", 2, false, expr)
	seq("cond-3", "fn main() {\n a := 1\n b := true\n if ", " { }\n}\n", 3, true, expr)
	typs := strings.Fields(`int a : , ( ) [ ] fn « » { } = 5 T .`)
	seq("params-3", "fn f(a: ", ") { }\nfn main() { }\n", 3, false, typs)
	seq("result-2", "fn f(a: int)", "\nfn main() { }\n", 3, false, typs)
	seq("field-3", "struct s {", "}\nfn main() { }\n", 3, false, typs)
	seq("typelist-3", "struct s «", "» { }\nfn main() { }\n", 3, false, typs)
	seq("enumcase-3", "enum e { Qq(", ") }\nfn main() { }\n", 3, false, typs)
	seq("attr-3", "", "fn main() { }\n", 3, false, strings.Fields(`# [ ] x , RawValues fn`))
	seq("attr-4", "#", "fn main() { }\n", 4, false, strings.Fields(`# [ ] x , RawValues fn`))
	seq("match-3", "enum e { Qq() }\nfn main() {\n match Qq() {", "}\n}\n", 3, false, strings.Fields(`case Qq ( ) : return { } x , a`))
	seq("match-arg", "enum e { Qq(a: int, b: int) }\nfn main() {\n match Qq(1, 2) { case Qq ", ": return }\n}\n", 4, false, strings.Fields(`( ) x , y : 5`))
	seq("for-3", "fn main() {\n for ", " { }\n}\n", 3, false, strings.Fields(`i in [ ] 1 .. ( ) , : 3 = x`))
	seq("for-4", "fn main() {\n for i", " { }\n}\n", 4, false, strings.Fields(`i in [ ] 1 .. ( )`))
	seq("call-3", "fn f(a: int) { }\nfn main() {\n f", "\n}\n", 3, false, strings.Fields(`( ) , 1 f « » int . [ ] =`))
	seq("anon-3", "fn main() {\n f := fn", "\n}\n", 4, false, strings.Fields(`( ) a : int { } = 1 ,`))
	// phrases: clauses repeated, left out and out of order
	phr := func(name, pre, post string, n int, alts ...string) {
		alts = append(alts, "")
		add("phrase-"+name, false, func(s *gosym.Src) {
			s.Lit(pre)
			for i := 0; i < n; i++ {
				s.Choice(fmt.Sprint("t", i), mapStr(alts, func(x string) string { return " " + x + " " })...)
			}
			s.Lit(post)
		})
	}
	phr("if", "fn main() {\n a := true\n if a { }", "\n}\n", 3, "else { }", "elseif a { }", "if a { }", "{ }", "a = a")
	phr("if-ret", "fn f(a: bool) int {\n if a { return 1 }", "\n}\nfn main() { }\n", 3, "else { return 2 }", "elseif a { return 3 }", "return 4")
	phr("loop", "fn main() {\n a := true\n while", "\n}\n", 3, "a", "{ }", "else { }", "a = a", "while")
	phr("for", "fn main() {\n for i in", "\n}\n", 4, "1", "..", "{ }", "else { }", "i")
	phr("match", "enum e { Qq() Rr() }\nfn main() {\n match Qq() {", "}\n}\n", 3, "case Qq():", "case Rr(): return", "else { }", "{ }", "return", "case Qq(): a := 1")
	phr("match-2", "enum e { Qq() }\nfn main() {\n match Qq()", "\n}\n", 3, "{ case Qq(): }", "{ }", "case Qq():", "Qq()", "else { }")
	phr("fn", "fn f", "\nfn main() { }\n", 4, "(a: int)", "«T»", "int", "{ }", "= 1", "()")
	phr("fn-attr", "", "\nfn main() { }\n", 3, "#[RawValues]", "fn e() int", "fn g() { }", "struct z { }", "enum y { Yy() }", "#[]")
	phr("fn-params", "fn f(", ") { }\nfn main() { }\n", 3, "a: int", ",", "b: bool", "= 1", "fn(int) int")
	phr("struct", "struct s", "\nfn main() { }\n", 3, "«T»", "{ }", "{ a: int }", "(a: int)", "= 1")
	phr("fields", "struct s {", "}\nfn main() { }\n", 3, "a: int", ",", "b: []bool", "= 1", "fn(int) int", "c: fn(int) int")
	phr("enum", "enum s", "\nfn main() { }\n", 3, "«T»", "{ Aa() }", "{ Bb(a: int) Cc() }", "{ }", "(a: int)")
	phr("cases", "enum s {", "}\nfn main() { }\n", 3, "Aa()", ",", "Bb(a: int)", "Cc", "(b: int)", "{ }")
	phr("call", "fn f(a: int) int = a\nfn main() {\n f", "\n}\n", 3, "(1)", "()", "«int»", "[1]", ".x", "{ }", "fn() { }")
	phr("assign", "fn main() {\n a := 1\n a", "\n}\n", 3, "= 1", ":= 1", "+ 1", ", a", "a", "[0]")
	phr("tern", "fn main() {\n a := true\n b := a", "\n}\n", 3, "? a : a", "? a", ": a", "and a", "(a)")
	phr("ret", "fn f(a: int) int {\n return", "\n}\nfn main() { }\n", 3, "a", "return", "+ a", "{ }", ", a")
	phr("anon", "fn main() {\n a := fn", "\n}\n", 4, "(a: int)", "()", "int", "{ }", "= 1", "{ return 1 }")
	phr("array", "fn main() {\n a := [1", "\n}\n", 3, ", 2", ",", "]", "[0]", "..")
	return ps
}

func spaced(a []string) []string {
	var r []string
	for _, x := range a {
		r = append(r, " "+x+" ")
	}
	return append(r, " ")
}
