package checks

import (
	"fmt"
	"strings"
)

// C09: operators on operands of every type. C10: values of every type in every kind of place.
func init() {
	register(&Check{
		ID: "C09",
		Bounds: []string{
			"every binary operator on every pair of 16 operands (a variable and a literal of each basic type, arrays, a struct, an enum, function values, bytes, pointer, nothing, an unknown name), every prefix operator, indexing and ranges on the same operands",
			"indexing, prefix and 3 representative binary operators on 30 compound operands (elements, fields, calls, nested arrays, function results)",
			"two binary operators in a row on int, bool and string operands (6 representative operators; thorough: all 17), with the type of the result required",
			"well-typed and ill-typed expressions in 26 kinds of place",
		},
		Assumptions: []string{"the library is reduced to what the compiler needs by name; witnesses are replayed with the whole library"},
		NoTwins:     true,
		Extra:       func(r *Runner) error { return r.runFront(operatorProbes()) },
	})
	register(&Check{
		ID: "C10",
		Bounds: []string{
			"every pair of 20 types (basic, arrays, structs and enums alike in shape, generic instances, function types alike but for one parameter or the result) in 20 kinds of place",
			"every pair of 36 further types that differ only deep inside (type arguments, element types, parameters of parameters) in 6 kinds of place",
			"every pair of 42 forms of expression (literals, variables, fields, elements, calls, constructors, conditionals, operators, closures, nested array literals) in 2 kinds of place (thorough: 6)",
			"0 to 7 arguments for 0 to 6 parameters, in direct, dot-selection, function-value, struct and enum constructor calls",
			"enums, structs and functions with three type parameters: the type of each case variable, field and result in 5 instances",
			"unknown and repeated names in every kind of declaration, and 20 kinds of assignment target",
		},
		Assumptions: []string{"the library is reduced to what the compiler needs by name; witnesses are replayed with the whole library"},
		NoTwins:     true,
		Extra:       func(r *Runner) error { return r.runFront(placeProbes(r)) },
	})
}

const opPrelude = `struct vp { a: int b: int }
enum ve { Va() Vb(x: int) }
struct vh { y: bytes r: pointer p: vp e: ve f: fn(int) int }
fn vf(x: int) int = x
fn vn() { }
fn t(i: int, b: bool, s: string, ai: []int, sa: []string, h: vh) {
 `
const opEnd = `
}
fn main() { }
`

var operands = []string{"i", "5", "b", "true", "s", "\"a\"", "ai", "sa", "h.p", "h.e", "h.f", "h.y", "h.r", "vf", "vn()", "zz"}
var operandTypes = []string{"int", "int", "bool", "bool", "string", "string", "[]int", "[]string", "vp", "ve", "fn(int) int", "bytes", "pointer", "fn(int) int", "nothing", ""}

var binOps = []string{"+", "-", "*", "/", "<<", ">>", "&", "|", "^", "<", "<=", ">", ">=", "==", "and", "or"}

// binType is the type of l op r, "" if it has none.
func binType(op, l, r string) string {
	switch op {
	case "and", "or":
		if l == "bool" && r == "bool" {
			return "bool"
		}
	case "<", "<=", ">", ">=", "==":
		if l == "int" && r == "int" {
			return "bool"
		}
	default:
		if l == "int" && r == "int" {
			return "int"
		}
	}
	return ""
}

var opPrec = map[string]int{"*": 10, "/": 10, "+": 9, "-": 9, "<<": 8, ">>": 8, "<": 7, "<=": 7, ">": 7, ">=": 7, "==": 6, "&": 5, "^": 4, "|": 3, "and": 2, "or": 1}

func operatorProbes() []*gprobe {
	var ps []*gprobe
	opName := map[string]string{"+": "add", "-": "sub", "*": "mul", "/": "div", "<<": "shl", ">>": "shr", "&": "and-bits", "|": "or-bits", "^": "xor", "<": "lt", "<=": "le", ">": "gt", ">=": "ge", "==": "eq", "and": "and", "or": "or"}
	for _, op := range binOps {
		op := op
		ps = append(ps, choices("binary-"+opName[op], opPrelude+"x := {{L}} "+op+" {{R}}"+opEnd,
			map[string][]string{"L": operands, "R": operands}, []string{"L", "R"},
			func(ix []int) bool { return binType(op, operandTypes[ix[0]], operandTypes[ix[1]]) != "" },
			"operands of the right types"))
	}
	pre := []string{"not", "-", "~", "- -", "not not", "~ -", "not -", "- not"}
	ps = append(ps, choices("prefix", opPrelude+"x := {{P}} {{L}}"+opEnd,
		map[string][]string{"P": pre, "L": operands}, []string{"P", "L"},
		func(ix []int) bool {
			switch t := operandTypes[ix[1]]; pre[ix[0]] {
			case "not", "not not":
				return t == "bool"
			case "-", "~", "- -", "~ -":
				return t == "int"
			}
			return false
		}, "ints for - and ~, bools for not"))
	ps = append(ps, choices("prefix-result", opPrelude+"x := {{T}}\n x = {{P}} {{L}}"+opEnd,
		map[string][]string{"T": {"5", "true", "\"a\""}, "P": pre[:3], "L": {"i", "b", "s"}}, []string{"T", "P", "L"},
		func(ix []int) bool {
			return ix[1] == 0 && ix[2] == 1 && ix[0] == 1 || ix[1] > 0 && ix[2] == 0 && ix[0] == 0
		}, "the result of not is a bool, of - and ~ an int"))
	ps = append(ps, choices("index", opPrelude+"x := {{L}}[{{R}}]"+opEnd,
		map[string][]string{"L": operands, "R": operands}, []string{"L", "R"},
		func(ix []int) bool {
			return strings.HasPrefix(operandTypes[ix[0]], "[]") && operandTypes[ix[1]] == "int"
		}, "an array indexed by an int"))
	more := []string{"aa", "aa[0]", "bs", "ps", "fs", "es", "os", "aaa", "h.p.a", "ps[0].b", "vf(1)", "i + 1", "-i", "b ? 1 : 2", "not b", "i < 2", "bs[0]", "sa[0]", "sa", "fs[0]", "fs[0](1)", "s.length", "aa.length", "os[0]", "[1, 2]", "[b]", "[[1]]", "es[0]", "[vf]", "vi2(1)"}
	moreT := []string{"[]", "[]", "[]", "[]", "[]", "[]", "[]", "[]", "int", "int", "int", "int", "int", "int", "bool", "bool", "bool", "string", "[]", "fn", "int", "int", "int", "vo", "[]", "[]", "[]", "ve", "[]", "[]"}
	morePre := strings.Replace(strings.Replace(opPrelude, "h: vh) {", "h: vh) {\n more(b, i, s, [ai], [[ai]], Vmore([b], [h.p], [vf], [h.e], [Vsm(1)]))\n}\nfn vi2(x: int) []bool = [true]\nstruct vmore { bs: []bool ps: []vp fs: []fn(int) int es: []ve os: []vo«int» }\nenum vo«T» { Vno() Vsm(x: T) }\nfn more(b: bool, i: int, s: string, aa: [][]int, aaa: [][][]int, vm: vmore) {\n bs := vm.bs\n ps := vm.ps\n fs := vm.fs\n es := vm.es\n os := vm.os\n sa := [s]\n h := Vhm(Vp(1, 2))\n", 1), "fn vn() { }", "fn vn() { }\nstruct vhm { p: vp }", 1)
	for j := 0; j < len(more); j += 5 {
		j := j
		ps = append(ps, choices(fmt.Sprintf("index-more-%d", j/5), morePre+"x := ({{L}})[{{R}}]"+opEnd,
			map[string][]string{"L": more[j : j+5], "R": more}, []string{"L", "R"},
			func(ix []int) bool { return moreT[ix[0]+j] == "[]" && moreT[ix[1]] == "int" }, "an array indexed by an int"))
	}
	for _, op := range []string{"+", "==", "and"} {
		op := op
		ps = append(ps, choices("more-"+opName[op], morePre+"x := ({{L}}) "+op+" ({{R}})"+opEnd,
			map[string][]string{"L": more, "R": {"i", "b", "aa", "s", "ps[0]", "fs[0]", "i * 2", "bs[i]"}}, []string{"L", "R"},
			func(ix []int) bool {
				return binType(op, moreT[ix[0]], []string{"int", "bool", "[]", "string", "vp", "fn", "int", "bool"}[ix[1]]) != ""
			}, "operands of the right types"))
		ps = append(ps, choices("more-right-"+opName[op], morePre+"x := ({{L}}) "+op+" ({{R}})"+opEnd,
			map[string][]string{"R": more, "L": {"i", "b", "aa", "i * 2", "bs[i]"}}, []string{"L", "R"},
			func(ix []int) bool {
				return binType(op, []string{"int", "bool", "[]", "int", "bool"}[ix[0]], moreT[ix[1]]) != ""
			}, "operands of the right types"))
	}
	ps = append(ps, choices("prefix-more", morePre+"x := {{P}} ({{L}})"+opEnd,
		map[string][]string{"P": pre[:3], "L": more}, []string{"P", "L"},
		func(ix []int) bool {
			if pre[ix[0]] == "not" {
				return moreT[ix[1]] == "bool"
			}
			return moreT[ix[1]] == "int"
		}, "ints for - and ~, bools for not"))
	ps = append(ps, choices("index-store", opPrelude+"{{L}}[{{R}}] = {{V}}"+opEnd,
		map[string][]string{"L": {"ai", "sa", "s", "i", "h.p", "h.y", "\"a\"", "vf"}, "R": {"i", "b", "s", "ai", "vn()"}, "V": {"5", "\"a\"", "b"}}, []string{"L", "R", "V"},
		func(ix []int) bool { return ix[1] == 0 && (ix[0] == 0 && ix[2] == 0 || ix[0] == 1 && ix[2] == 1) }, "an array indexed by an int"))
	ps = append(ps, choices("index-result", opPrelude+"x := {{T}}\n x = {{L}}[i]"+opEnd,
		map[string][]string{"T": {"5", "true", "\"a\"", "ai"}, "L": {"ai", "sa", "[b]", "[ai]"}}, []string{"T", "L"},
		func(ix []int) bool {
			return ix[0] == 0 && ix[1] == 0 || ix[0] == 1 && ix[1] == 2 || ix[0] == 2 && ix[1] == 1 || ix[0] == 3 && ix[1] == 3
		}, "an element has the array's element type"))
	ps = append(ps, choices("range", opPrelude+"for k in {{L}} .. {{R}} { }"+opEnd,
		map[string][]string{"L": operands, "R": operands}, []string{"L", "R"},
		func(ix []int) bool { return operandTypes[ix[0]] == "int" && operandTypes[ix[1]] == "int" }, "int bounds"))
	ps = append(ps, choices("for-in", opPrelude+"for k in {{L}} { {{B}} }"+opEnd,
		map[string][]string{"L": operands, "B": {"", "x := k + 1", "x := k.length", "k.foo()", "x := k\n x = k"}}, []string{"L", "B"},
		func(ix []int) bool {
			t := operandTypes[ix[0]]
			if !strings.HasPrefix(t, "[]") {
				return false
			}
			switch ix[1] {
			case 1:
				return t == "[]int"
			case 2:
				return t == "[]string"
			case 3:
				return false
			}
			return true
		}, "an array, whose elements the variable has the type of"))
	ps = append(ps, choices("range-variable", opPrelude+"for k in 1 .. i { x := {{T}}\n x = {{V}} }"+opEnd,
		map[string][]string{"T": {"5", "true", "\"a\""}, "V": {"k", "k + 1", "k > 1", "k and b"}}, []string{"T", "V"},
		func(ix []int) bool { return ix[0] == 0 && ix[1] < 2 || ix[0] == 1 && ix[1] == 2 }, "the variable of a range is an int"))
	// two operators
	two := func(name string, ops1, ops2 []string, th bool) {
		ts := []string{"int", "bool", "string"}
		vs := []string{"i", "b", "s"}
		p := choices(name, opPrelude+"x := {{T}}\n x = {{A}} {{P}} {{B}} {{Q}} {{C}}"+opEnd,
			map[string][]string{"T": {"5", "true"}, "A": vs, "B": vs, "C": vs, "P": ops1, "Q": ops2}, []string{"T", "A", "P", "B", "Q", "C"},
			func(ix []int) bool {
				p, q := ops1[ix[2]], ops2[ix[4]]
				var t string
				if opPrec[q] > opPrec[p] {
					t = binType(p, ts[ix[1]], binType(q, ts[ix[3]], ts[ix[5]]))
				} else {
					t = binType(q, binType(p, ts[ix[1]], ts[ix[3]]), ts[ix[5]])
				}
				return t == ts[ix[0]]
			}, "operands of the right types under the documented precedence, and a result of the variable's type")
		p.thorough = th
		ps = append(ps, p)
	}
	reps := []string{"+", "<<", "<", "==", "&", "and"}
	for _, o := range reps {
		two("two-"+opName[o], []string{o}, reps, false)
	}
	for _, o := range binOps {
		two("two-all-"+opName[o], []string{o}, binOps, true)
	}
	// ill-typed expressions in every place an int expression can stand
	exprs := []string{"i", "i + 1", "-i", "ai[0]", "vf(i)", "h.p.a", "(b ? i : 2)", "s.length", "h.f(1)",
		"i + b", "b + b", "-s", "~b", "ai[b]", "s[0]", "vf(b)", "vf()", "h.p.c", "(i ? 1 : 2)", "(b ? 1 : s)", "s.size", "h.f(b)", "zz", "zz()", "i()", "i.a", "ai[i + b]", "vf(vf(s))", "(i + b) * 2", "[i, b][0]", "[zz][0]", "[i < b][0]"}
	good := 9
	places := []string{
		"x := E", "i = E", "h.p.a = E", "ai[0] = E", "ai[E] = 1", "vf(E)", "x := [E, 1]", "x := [1, E]", "x := b ? E : 1", "x := b ? 1 : E",
		"if E > 1 { }", "if b { x := E }", "if b { } elseif b { x := E }", "if b { } else { x := E }", "while E > 1 { }", "while b { x := E }",
		"for k in 0 .. E { }", "for k in E .. 3 { }", "for k in ai { x := E }", "match h.e { case Va(): x := E case Vb(q): }", "match h.e { case Va(): case Vb(q): x := E }",
		"match Vb(E) { case Va(): case Vb(q): }", "g := fn() int { return E }", "g := fn() int = E", "g := fn(q: int) { x := q + E }", "x := Vp(1, E)",
		"g := fn() int { g2 := fn() int = E\n return 1 }", "x := (E)", "x := not (E > 2)", "x := -(E)", "h.f(E)", "vf(i).vf()\n y := E", "x := [[E]]", "printf(\"%d\", E)", "return vn2(E)"}
	for k := 0; k < len(places); k += 5 {
		pl := places[k:min(k+5, len(places))]
		var texts [][2]string
		for _, p := range pl {
			i := strings.Index(p, "E ")
			if i < 0 {
				i = strings.LastIndex(p, "E")
			}
			// the place is the E which stands alone
			for j := 0; j < len(p); j++ {
				if p[j] == 'E' {
					i = j
				}
			}
			texts = append(texts, [2]string{p[:i], p[i+1:]})
		}
		var before, after []string
		for _, t := range texts {
			before, after = append(before, t[0]), append(after, t[1])
		}
		ps = append(ps, choices(fmt.Sprintf("placed-%d", k/5), opPrelude+"{{P}}{{E}}{{P.2}}\n}\nfn vn2(x: int) { }\nfn main() { }\n",
			map[string][]string{"P": before, "P.2": after, "E": exprs}, []string{"E"},
			func(ix []int) bool { return ix[0] < good }, "every expression in the program is well typed"))
	}
	return ps
}

var placeTypes = []string{"int", "bool", "string", "bytes", "pointer", "[]int", "[]string", "[][]int", "vp", "vq", "ve", "vw", "vo«int»", "vo«string»", "vg«int»", "vg«bool»",
	"fn(int) int", "fn(int) bool", "fn(bool) int", "fn(int)", "fn() int", "fn(int, int) int", "nothing"}

const nPlace = 22 // all but nothing

// placePrelude declares, for each type K, a function mK giving a value of it and wK taking one.
func placePrelude() string {
	b := `struct vp { a: int b: int }
struct vq { a: int b: int }
enum ve { Va() Vb(x: int) }
enum vw { Vc() Vd(x: int) }
enum vo«T» { Vn() Vt(x: T) }
struct vg«T» { a: T b: int }
`
	for i, t := range placeTypes[:nPlace] {
		n := string(rune('a' + i))
		b += fmt.Sprintf("fn m%s() %s = m%s()\nfn w%s(x: %s) int = 1\n", n, t, n, n, t)
	}
	b += "fn mw() { }\n"
	return b
}

func placeProbes(r *Runner) []*gprobe {
	var ps []*gprobe
	letters := func(f string, n int) []string {
		var r []string
		for i := 0; i < n; i++ {
			c := string(rune('a' + i))
			if i == nPlace {
				c = "w"
			}
			r = append(r, fmt.Sprintf(f, c))
		}
		return r
	}
	pre := placePrelude()
	n := len(placeTypes)
	all := map[string][]string{
		"T": placeTypes[:nPlace],      // the type wanted, as a type
		"M": letters("m%s()", nPlace), // the type wanted, as a value
		"W": letters("w%s", nPlace),   // a function wanting it
		"V": letters("m%s()", n),      // the value
	}
	holes := func(kv ...string) map[string][]string {
		m := map[string][]string{}
		for i := 0; i+1 < len(kv); i += 2 {
			m[kv[i]] = all[kv[i+1]]
		}
		return m
	}
	eq := func(ix []int) bool { return ix[0] == ix[1] }
	const want = "the value has the type the place wants"
	pair := func(name, text string, h map[string][]string) {
		// split by the type wanted, to spread the work
		a := h["A"]
		const k = 8
		for j := 0; j < len(a); j += k {
			j := j
			hh := map[string][]string{}
			for n, v := range h {
				if n == "A" || strings.HasPrefix(n, "A.") {
					v = v[j:min(j+k, len(v))]
				}
				hh[n] = v
			}
			ps = append(ps, choices(fmt.Sprintf("%s-%d", name, j/k), pre+text, hh, []string{"A", "V"}, func(ix []int) bool { return eq([]int{ix[0] + j, ix[1]}) }, want))
		}
	}
	const end = "\nfn main() { }\n"
	pair("assign", "fn t() {\n x := {{A}}\n x = {{V}}\n}"+end, holes("A", "M", "V", "V"))
	pair("argument", "fn t() {\n {{A}}({{V}})\n}"+end, holes("A", "W", "V", "V"))
	pair("dot-argument", "fn t() {\n {{V}}.{{A}}()\n}"+end, holes("A", "W", "V", "V"))
	pair("second-argument", "fn u(a: int, b: {{A}}, c: bool) { }\nfn t() {\n u(1, {{V}}, true)\n}"+end, holes("A", "T", "V", "V"))
	pair("return", "fn t(b: bool) {{A}} {\n if b { return {{V}} }\n return {{A.m}}\n}"+end, holes("A", "T", "V", "V", "A.m", "M"))
	pair("last-return", "fn t(b: bool) {{A}} {\n return {{V}}\n}"+end, holes("A", "T", "V", "V"))
	pair("expression-function", "fn t(b: bool) {{A}} = {{V}}"+end, holes("A", "T", "V", "V"))
	pair("field-init", "struct vs { a: int f: {{A}} }\nfn t() {\n x := Vs(1, {{V}})\n}"+end, holes("A", "T", "V", "V"))
	pair("field-assign", "struct vs { a: int f: {{A}} }\nfn t(s: vs) {\n s.f = {{V}}\n}"+end, holes("A", "T", "V", "V"))
	pair("element-assign", "fn t(a: []{{A}}) {\n a[0] = {{V}}\n}"+end, holes("A", "T", "V", "V"))
	pair("array-literal", "fn t() {\n x := [{{A}}, {{V}}]\n}"+end, holes("A", "M", "V", "V"))
	pair("array-literal-third", "fn t() {\n x := [{{A}}, {{A.m}}, {{V}}]\n}"+end, holes("A", "M", "A.m", "M", "V", "V"))
	pair("ternary", "fn t(b: bool) {\n x := b ? {{A}} : {{V}}\n}"+end, holes("A", "M", "V", "V"))
	pair("enum-argument", "enum vx { Vx0() Vx(q: int, f: {{A}}) }\nfn t() {\n x := Vx(1, {{V}})\n}"+end, holes("A", "T", "V", "V"))
	pair("closure-argument", "fn t() {\n k := fn(x: {{A}}) { }\n k({{V}})\n}"+end, holes("A", "T", "V", "V"))
	pair("closure-return", "fn t() int {\n k := fn() {{A}} { return {{V}} }\n return 1\n}"+end, holes("A", "T", "V", "V"))
	pair("closure-expression", "fn t() int {\n k := fn() {{A}} = {{V}}\n return 1\n}"+end, holes("A", "T", "V", "V"))
	pair("field-call", "struct vs { f: fn({{A}}) int }\nfn t(s: vs) {\n s.f({{V}})\n}"+end, holes("A", "T", "V", "V"))
	pair("case-variable", "enum vx { Vx0() Vx(q: int, f: {{A}}) }\nfn t(e: vx) {\n match e { case Vx0(): case Vx(q, f): f = {{V}} }\n}"+end, holes("A", "T", "V", "V"))
	pair("for-variable", "fn t(a: []{{A}}) {\n for x in a { x = {{V}} }\n}"+end, holes("A", "T", "V", "V"))
	pair("captured", "fn t(a: {{A}}) {\n k := fn() { a = {{V}} }\n}"+end, holes("A", "T", "V", "V"))

	// every form of expression
	forms := [][2]string{{"1", "int"}, {"i", "int"}, {"h.p.a", "int"}, {"ai[0]", "int"}, {"vf(1)", "int"}, {"(b ? 1 : 2)", "int"}, {"-i", "int"}, {"s.length", "int"},
		{"true", "bool"}, {"b", "bool"}, {"i < 1", "bool"}, {"not b", "bool"}, {"\"a\"", "string"}, {"s", "string"}, {"sa[0]", "string"},
		{"[1]", "[]int"}, {"ai", "[]int"}, {"(b ? ai : [2])", "[]int"}, {"[\"a\"]", "[]string"}, {"sa", "[]string"}, {"[b]", "[]bool"}, {"[[1]]", "[][]int"}, {"[ai]", "[][]int"}, {"[[b]]", "[][]bool"},
		{"Vp(1, 2)", "vp"}, {"h.p", "vp"}, {"Vq(1)", "vq"}, {"Va()", "ve"}, {"h.e", "ve"}, {"vf", "fn1"}, {"h.f", "fn1"}, {"fn(q: int) int = q", "fn1"}, {"vb", "fn2"}, {"fn(q: bool) bool = q", "fn2"}, {"fn() { }", "fn3"},
		{"Vt(1)", "vo1"}, {"Vt(true)", "vo2"}, {"Vn«int»()", "vo1"}, {"Vg(1, 2)", "vg1"}, {"Vg(b, 2)", "vg2"}, {"[Vt(1)]", "avo1"}, {"[Vt(b)]", "avo2"}}
	formPre := opPrelude[:strings.Index(opPrelude, "fn t(")] + "struct vq { a: int }\nenum vo«T» { Vn() Vt(x: T) }\nstruct vg«T» { a: T b: int }\nfn vb(x: bool) bool = x\n"
	formArgs := "fn t(i: int, b: bool, s: string, ai: []int, sa: []string, h: vh) {\n "
	var ft []string
	for _, f := range forms {
		ft = append(ft, f[0])
	}
	for j, f := range forms {
		j, f := j, f
		if !r.Thorough && (j == 1 || j == 3 || j == 4 || j == 6 || j == 7 || j == 9 || j == 11 || j == 13 || j == 19 || j == 22 || j == 28) {
			continue
		}
		t := "x := [" + f[0] + ", {{V}}]"
		if j%3 == 1 {
			t = "x := " + f[0] + "\n x = {{V}}"
		}
		// one place per form (thorough: all)
		for k, x := range []string{t, "x := [A, {{V}}]", "x := A\n x = {{V}}", "x := b ? A : {{V}}", "x := [A]\n x[0] = {{V}}", "x := b ? {{V}} : A"} {
			if !r.Thorough && k != 3 && k != 0 {
				continue
			}
			ps = append(ps, choices(fmt.Sprintf("form-%d-%d", j, k), formPre+formArgs+strings.Replace(x, "A", f[0], 1)+opEnd, map[string][]string{"V": ft}, []string{"V"},
				func(ix []int) bool { return f[1] == forms[ix[0]][1] }, want))
		}
	}
	// types that differ deep inside
	deep := []string{"vi«int, bool»", "vj«int, bool»", "vi«bool, int»", "vi«int, int»", "vk«int, bool»", "vl«int, bool»", "vk«bool, bool»", "[]vo«int»", "[]vo«bool»", "vo«vo«int»»", "vo«[]int»", "vo«vo«bool»»",
		"fn(vo«int») int", "fn(vo«bool») int", "fn(fn(int) int) int", "fn(fn(bool) int) int", "fn() fn() int", "fn() fn() bool", "[]fn(int) int", "[]fn(bool) int", "[]ve", "[]vw", "[]vp", "[]vq", "[][]bool", "[][][]int",
		"fn([]int) int", "fn([]bool) int", "fn(vp, vq) ve", "fn(vq, vp) ve", "fn(vp, vp) ve", "vg«vp»", "vg«vq»", "vg«[]vp»", "fn(int, int, int)", "fn(int, int, bool)"}
	deepPre := "enum vi«A, B» { Vi(a: A) Vj(b: B) }\nenum vj«A, B» { Wk(a: A) Wl(b: B) }\nstruct vk«A, B» { a: A b: B }\nstruct vl«A, B» { a: A b: B }\n" + strings.SplitAfter(pre, "b: int }\nfn")[0]
	deepPre = strings.TrimSuffix(deepPre, "fn")
	var dm, dw []string
	for i, t := range deep {
		deepPre += fmt.Sprintf("fn m%d() %s = m%d()\nfn w%d(x: %s) int = 1\n", i, t, i, i, t)
		dm, dw = append(dm, fmt.Sprintf("m%d()", i)), append(dw, fmt.Sprintf("w%d", i))
	}
	for j := 0; j < len(deep); j += 6 {
		j := j
		k := min(j+6, len(deep))
		for _, x := range []struct {
			n, t string
			a    []string
		}{{"argument", "fn t() {\n {{A}}({{V}})\n}", dw}, {"assign", "fn t() {\n x := {{A}}\n x = {{V}}\n}", dm}, {"return", "fn t(b: bool) {{A}} {\n return {{V}}\n}", deep}, {"literal", "fn t() {\n x := [{{A}}, {{V}}]\n}", dm},
			{"field", "struct vs { a: int f: {{A}} }\nfn t() {\n x := Vs(1, {{V}})\n}", deep}, {"ternary", "fn t(b: bool) {\n x := b ? {{V}} : {{A}}\n}", dm}} {
			ps = append(ps, choices(fmt.Sprintf("deep-%s-%d", x.n, j/6), deepPre+x.t+end, map[string][]string{"A": x.a[j:k], "V": dm}, []string{"A", "V"}, func(ix []int) bool { return ix[0]+j == ix[1] }, want))
		}
	}

	is := func(name, text string, pred func(t string) bool, expect string) {
		ps = append(ps, choices(name, pre+text, holes("V", "V"), []string{"V"}, func(ix []int) bool { return pred(placeTypes[ix[0]]) }, expect))
	}
	isT := func(w string) func(string) bool { return func(t string) bool { return t == w } }
	for i, x := range []string{"if {{V}} { }", "while {{V}} { }", "if true { } elseif {{V}} { }", "if true { } elseif true { } elseif {{V}} { } else { }", "x := {{V}} ? 1 : 2", "x := true ? ({{V}} ? 1 : 2) : 3"} {
		is(fmt.Sprintf("condition-%d", i), "fn t() {\n "+x+"\n}"+end, isT("bool"), "a bool condition")
	}
	is("match", "fn t() {\n match {{V}} { case Va(): case Vb(x): }\n}"+end, isT("ve"), "a value of the enum whose cases are matched")
	is("return-nothing", "fn t() {\n return {{V}}\n}"+end, isT("nothing"), "nothing to return")
	is("field-read", "fn t() {\n x := {{V}}.a\n}"+end, func(t string) bool { return t == "vp" || t == "vq" || strings.HasPrefix(t, "vg") }, "a struct with that field")
	is("length-read", "fn t() {\n x := {{V}}.length\n}"+end, func(t string) bool { return t == "string" || strings.HasPrefix(t, "[]") }, "an array or string")
	is("call-value", "fn t() {\n x := {{V}}\n x(1)\n}"+end, func(t string) bool { return strings.HasPrefix(t, "fn(int) ") || t == "fn(int)" }, "a function of an int")
	is("call-result", "fn t() {\n x := {{V}}(1) + 1\n}"+end, isT("fn(int) int"), "a function of an int giving an int")

	// argument counts
	var params, args []string
	for i := 0; i <= 7; i++ {
		var p, a []string
		for k := 0; k < i; k++ {
			p = append(p, fmt.Sprintf("p%d: int", k))
			a = append(a, fmt.Sprint(k))
		}
		params = append(params, strings.Join(p, ", "))
		args = append(args, strings.Join(a, ", "))
	}
	count := func(name, text string, p []string, pred func(p, a int) bool) {
		ps = append(ps, choices("count-"+name, text, map[string][]string{"P": p, "A": args}, []string{"P", "A"}, func(ix []int) bool { return pred(ix[0], ix[1]) }, "as many arguments as parameters, and at most six"))
	}
	count("direct", "fn u({{P}}) int = 1\nfn t() {\n u({{A}})\n}"+end, params, func(p, a int) bool { return p == a && a <= 6 })
	count("dot", "fn u({{P}}) int = 1\nfn t() {\n 5.u({{A}})\n}"+end, params, func(p, a int) bool { return p == a+1 && p <= 6 })
	count("closure", "fn t() {\n u := fn({{P}}) int = 1\n u({{A}})\n}"+end, params[:6], func(p, a int) bool { return p == a && a <= 5 })
	count("struct", "struct vs { {{P}} }\nfn t() {\n x := Vs({{A}})\n}"+end, mapStr(params, func(s string) string { return strings.ReplaceAll(s, ",", " ") })[1:7], func(p, a int) bool { return p+1 == a })
	count("enum", "enum vx { Vx({{P}}) Vy() }\nfn t() {\n x := Vx({{A}})\n}"+end, params, func(p, a int) bool { return p == a && a <= 5 })
	ps = append(ps, choices("count-case", "enum vx { Vx({{P}}) Vy() }\nfn t(e: vx) {\n match e { case Vx({{A}}): case Vy(): }\n}"+end,
		map[string][]string{"P": params, "A": mapStr(params, func(s string) string { return strings.ReplaceAll(s, ": int", "") })}, []string{"P", "A"},
		func(ix []int) bool { return ix[0] == ix[1] && ix[0] <= 5 }, "as many variables as fields"))
	count("call-result", "fn u() fn({{P}}) int = u()\nfn t() {\n u()({{A}})\n}"+end, mapStr(params[:6], func(s string) string {
		return strings.NewReplacer("p0: ", "", "p1: ", "", "p2: ", "", "p3: ", "", "p4: ", "", "p5: ", "").Replace(s)
	}), func(p, a int) bool { return p == a && a <= 5 })

	// unknown names
	known := func(name, text string, alts []string, good int) {
		ps = append(ps, choices("unknown-"+name, opPrelude+text, map[string][]string{"N": alts}, []string{"N"}, func(ix []int) bool { return ix[0] < good }, "the name is declared"))
	}
	known("value", "x := {{N}}"+opEnd, []string{"i", "vf", "zz", "k", "x", "vp", "ve", "T", "int", "a", "main2"}, 2)
	known("call", "x := {{N}}(1)"+opEnd, []string{"vf", "Vb", "h.f", "zz", "x", "Vp", "vp", "h.zz", "i", "ai", "h.p", "int"}, 3)
	known("field", "x := h.{{N}}"+opEnd, []string{"p", "p.a", "p.b", "e", "a", "zz", "p.c", "p.a.a", "e.x", "f.x", "length", "y.length", "p.length"}, 4)
	known("assign", "{{N}} = 1"+opEnd, []string{"i", "h.p.a", "ai[0]", "zz", "h.zz", "zz.a", "zz[0]", "a"}, 3)
	known("dot-call", "1.{{N}}()"+opEnd, []string{"vf", "Vb", "zz", "vp", "i", "x"}, 2)
	known("type", "}\nfn u(x: {{N}}) { "+opEnd, []string{"int", "vp", "ve", "[]vp", "fn(vp) ve", "zz", "[]zz", "fn(zz)", "fn() zz", "vp«int»", "i", "T", "vf", "Vp", "zz«int»"}, 5)
	known("result", "}\nfn u(x: int) {{N}} { return u(1) "+opEnd, []string{"int", "vp", "[]vp", "fn(vp) ve", "zz", "[]zz", "fn() zz", "ve«int»", "T", "Va"}, 4)
	known("struct-type", "}\nstruct vs { q: {{N}} }\nfn u() { "+opEnd, []string{"int", "vs", "[]vs", "fn(vs) vs", "zz", "[]zz", "vs«int»", "T", "q"}, 4)
	known("enum-type", "}\nenum vx { Vx(q: {{N}}) }\nfn u() { "+opEnd, []string{"int", "vx", "[]vx", "zz", "[]zz", "vx«int»", "T", "Vx"}, 3)
	known("closure-type", "k := fn(x: {{N}}) { }"+opEnd, []string{"int", "vp", "zz", "i", "[]zz", "T"}, 2)
	known("case", "match h.e { case {{N}}(): case Vb(x): }"+opEnd, []string{"Va", "Vb", "zz", "vf", "ve", "i"}, 1)
	known("type-parameter", "}\nfn u«T»(x: {{N}}) { "+opEnd, []string{"T", "[]T", "fn(T) T", "R", "[]R", "T«int»"}, 3)

	// three type parameters
	orders := [][]int{{0, 1, 2}, {1, 2, 0}, {2, 0, 1}, {0, 0, 1}, {1, 0, 0}}
	var insts []string
	for _, o := range orders {
		var x []string
		for _, i := range o {
			x = append(x, []string{"int", "string", "bool"}[i])
		}
		insts = append(insts, strings.Join(x, ", "))
	}
	for _, w := range []struct {
		name, text string
		of         int
	}{
		{"case-a", "match e { case Wa(a): {{F}}(a)\n case Wb(b): case Wc(c): case Wd(x, y, z): }", 0},
		{"case-b", "match e { case Wa(a): case Wb(b): {{F}}(b)\n case Wc(c): case Wd(x, y, z): }", 1},
		{"case-c", "match e { case Wa(a): case Wb(b): case Wc(c): {{F}}(c)\n case Wd(x, y, z): }", 2},
		{"case-x", "match e { case Wa(a): case Wb(b): case Wc(c): case Wd(x, y, z): {{F}}(x)\n }", 2},
		{"case-y", "match e { case Wa(a): case Wb(b): case Wc(c): case Wd(x, y, z): {{F}}(y)\n }", 0},
		{"case-z", "match e { case Wa(a): case Wb(b): case Wc(c): case Wd(x, y, z): {{F}}(z)\n }", 1},
		{"field-a", "{{F}}(s.a)", 0}, {"field-b", "{{F}}(s.b)", 1}, {"field-c", "{{F}}(s.c)", 2},
		{"result-a", "{{F}}(ga(e))", 0}, {"result-b", "{{F}}(gb(e))", 1}, {"result-c", "{{F}}(s.gc())", 2},
		{"function", "{{F}}(gf(s)(s.a, s.b))", 2},
	} {
		w := w
		ps = append(ps, choices("three-"+w.name, `enum w3«A, B, C» { Wa(a: A) Wb(b: B) Wc(c: C) Wd(x: C, y: A, z: B) }
struct s3«A, B, C» { a: A b: B c: C }
fn ga«A, B, C»(e: w3«A, B, C») A = ga(e)
fn gb«A, B, C»(e: w3«A, B, C») B = gb(e)
fn gc«A, B, C»(s: s3«A, B, C») C = s.c
fn gf«A, B, C»(s: s3«A, B, C») fn(A, B) C = gf(s)
fn wi(x: int) { }
fn ws(x: string) { }
fn wb(x: bool) { }
fn t(e: w3«{{P}}», s: s3«{{P}}») {
`+w.text+"\n}\nfn main() { }\n", map[string][]string{"P": insts, "F": {"wi", "ws", "wb"}}, []string{"P", "F"}, func(ix []int) bool { return orders[ix[0]][w.of] == ix[1] },
			"the value has the type that its instance gives it"))
	}

	// repeated names
	rep := func(name, text string, alts []string, good int) {
		ps = append(ps, choices("repeated-"+name, opPrelude+text, map[string][]string{"N": alts}, []string{"N"}, func(ix []int) bool { return ix[0] < good }, "no name is declared twice in one scope"))
	}
	rep("parameter", "}\nfn u(a1: int, b1: int, {{N}}: int) { "+opEnd, []string{"c1", "a", "u", "a1", "b1"}, 3)
	rep("local", "x := 1\n y := 2\n {{N}} := 3"+opEnd, []string{"z", "vp", "i2", "x", "y"}, 3)
	rep("field", "}\nstruct vs { a1: int b1: int {{N}}: int }\nfn u() { "+opEnd, []string{"c1", "vs", "a1", "b1"}, 2)
	rep("case", "}\nenum vx { Vx() Vy(x: int) {{N}}() }\nfn u() { "+opEnd, []string{"Vz", "Vx2", "Vx", "Vy", "Va", "Vb"}, 2)
	rep("case-field", "}\nenum vx { Vx(a1: int, b1: int, {{N}}: int) }\nfn u() { "+opEnd, []string{"c1", "x", "a1", "b1"}, 2)
	rep("case-variable", "}\nenum vx { Vx(a: int, b: int) }\nfn u(e: vx) { match e { case Vx(q, {{N}}): } "+opEnd, []string{"r", "e", "q"}, 2)
	rep("closure-parameter", "k := fn(a1: int, {{N}}: int) { }"+opEnd, []string{"b1", "i", "a1"}, 2)
	rep("struct", "}\nstruct {{N}} { q: int }\nfn u() { "+opEnd, []string{"vs", "vt", "vp", "vh", "ve", "int", "string", "bool", "bytes", "pointer", "nothing"}, 2)
	rep("enum", "}\nenum {{N}} { Vx() }\nfn u() { "+opEnd, []string{"vs", "vt", "vp", "ve", "int", "string"}, 2)
	rep("function", "}\nfn {{N}} { "+opEnd, []string{"u()", "vf()", "vf(x: bool)", "vf(x: int, y: int)", "vf(y: int)", "vn()", "main()", "vf(x: int) int", "Vp(x: int)", "Vb(x: int)"}, 4)
	rep("type-parameter", "}\nfn u«A, {{N}}»(x: A) { "+opEnd, []string{"B", "A1", "A"}, 2)
	rep("struct-parameter", "}\nstruct vs«A, {{N}}» { x: A }\nfn u() { "+opEnd, []string{"B", "A1", "A"}, 2)

	// assignment targets
	targets := []string{"i", "h.p.a", "ai[0]", "ai[i + 1]", "mk().p.a", "ma()[0]", "l.length", "h.p.b", "k",
		"s.length", "ai.length", "\"a\".length", "sa[0].length", "5", "i + 1", "vf(1)", "-i", "vl", "(b ? i : 2)", "h.f(1)", "vf", "main", "Va()", "ma()", "[1][0] + 1", "i < 2", "true"}
	body := "}\nstruct vl { length: int }\nfn mk() vh = mk()\nfn ma() []int = [1]\nfn u(i: int, b: bool, s: string, h: vh, l: vl) {\n ai := [1]\n sa := [s]\n k := 1\n {{N}} = 1" + opEnd
	ps = append(ps, choices("target", opPrelude+body, map[string][]string{"N": targets}, []string{"N"}, func(ix []int) bool { return ix[0] < 9 }, "a variable, field or element on the left"))
	ps = append(ps, choices("target-function", opPrelude+"{{N}} = {{V}}"+opEnd, map[string][]string{"N": {"h.f", "g", "vf", "h"}, "V": {"vf", "fn(q: int) int = q"}}, []string{"N"}, func(ix []int) bool { return ix[0] < 1 }, "a variable, field or element on the left"))
	ps = append(ps, choices("define-target", opPrelude+"{{N}} := 1"+opEnd, map[string][]string{"N": {"x", "_x", "h.p.a", "ai[0]", "5", "i + 1", "vf(1)", "-x", "true", "\"a\"", "not b", "x.y"}}, []string{"N"}, func(ix []int) bool { return ix[0] < 2 }, "a name on the left"))
	return ps
}
