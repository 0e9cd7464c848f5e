package checks

import (
	"fmt"
	"strings"

	"verif/engine/clara"
)

// C11: overload resolution and generic calls. Engine G decides which programs are accepted (the result
// type wanted identifies the overload a call resolved to); engine X runs the chosen bodies.
func init() {
	register(&Check{
		ID: "C11",
		Bounds: []string{
			"every pair of overloads over 11 parameter types, called with a value of each of 12 types, for each result wanted; overload sets of 5 over arity and parameter order, in both orders of declaration; pairs among 25 types that differ inside function, array and generic types; 0 to 4 type arguments given to functions and constructors with 1 to 3 type parameters; direct and dot-selection calls, constructors overloaded by functions",
			"generic functions, structs and enums with one and two type parameters: 10 parameter shapes with every combination of 8 argument types and 8 result types; explicit type arguments of every count 0..3 and of each of 8 types; unbound type parameters; the operations allowed on a value of a type parameter",
			"which body runs: 12 overload sets and generic call chains, for all 63-bit argument values",
		},
		Assumptions: []string{"where a generic and a plain declaration both match a call, nothing is required of which is taken", "overloads that differ only in the result of a function-typed parameter may be rejected as redeclared", "the library is reduced to what the compiler needs by name; witnesses are replayed with the whole library"},
		Probes:      func(th bool) []*clara.Probe { return overloadRunProbes() },
		NoTwins:     true,
		Extra:       func(r *Runner) error { return r.runFront(overloadProbes()) },
	})
}

var ovTypes = []string{"int", "bool", "string", "bytes", "[]int", "[]string", "vp", "vq", "ve", "vo«int»", "vo«bool»", "fn(int) int"}

func ovPrelude() string {
	b := `struct vp { a: int b: int }
struct vq { a: int b: int }
enum ve { Va() Vb(x: int) }
enum vo«T» { Vn() Vt(x: T) }
struct vr«A, B» { l: A r: B }
struct ra { a: int }
struct rb { a: int }
fn mra() ra = Ra(1)
fn mrb() rb = Rb(1)
`
	for i, t := range ovTypes {
		n := string(rune('a' + i))
		b += fmt.Sprintf("fn m%s() %s = m%s()\n", n, t, n)
	}
	return b
}

func overloadProbes() []*gprobe {
	var ps []*gprobe
	pre := ovPrelude()
	const end = "\nfn main() { }\n"
	var vals []string
	for i := range ovTypes {
		vals = append(vals, fmt.Sprintf("m%c()", rune('a'+i)))
	}
	add := func(name, text string, h map[string][]string, names string, pred func(ix []int) bool, expect string) {
		ps = append(ps, choices(name, pre+text+end, h, strings.Fields(names), pred, expect))
	}
	// the same choice for a type and its value
	res := []string{"mra()", "mrb()"}
	for i, t := range ovTypes {
		i, t := i, t
		add(fmt.Sprintf("pair-%d", i), "fn f(x: "+t+") ra = mra()\nfn f(x: {{S}}) rb = mrb()\nfn t() {\n x := {{R}}\n x = f({{V}})\n}",
			map[string][]string{"S": ovTypes, "V": vals, "R": res}, "S V R", func(ix []int) bool {
				return ix[0] != i && (ix[1] == i && ix[2] == 0 || ix[1] == ix[0] && ix[2] == 1)
			}, "the call matches one of two distinct overloads, whose result is the one wanted")
	}
	// types that differ deep inside
	deep := []string{"fn() int", "fn(int) int", "fn(bool) int", "fn(int, int) int", "fn(int, string) int", "fn(string, int) int", "fn(int, int, string) int", "fn(int, string, int) int", "fn(int, int, int) int",
		"fn(fn(int) int) int", "fn(fn(bool) int) int", "[][]int", "[][]string", "[][][]int", "vr«int, bool»", "vr«bool, int»", "vr«int, int»", "vo«vo«int»»", "vo«vo«bool»»", "[]vo«int»", "[]vo«bool»", "vo«[]int»", "vo«[]bool»", "[]fn(int) int", "[]fn(int, bool) int"}
	dpre := ""
	var dvals []string
	for i, t := range deep {
		dvals = append(dvals, fmt.Sprintf("d%c()", rune('a'+i)))
		dpre += fmt.Sprintf("fn %s %s = %s\n", dvals[i], t, dvals[i])
	}
	for gi, g := range [][]int{{0, 1, 2, 3, 4, 5, 6, 7, 8}, {1, 9, 10}, {11, 12, 13}, {14, 15, 16}, {17, 18, 21, 22}, {19, 20}, {23, 24}} {
		var ts, vs []string
		for _, i := range g {
			ts, vs = append(ts, deep[i]), append(vs, dvals[i])
		}
		for n, res := range []string{"mra()", "mrb()"} {
			n := n
			hole := []string{"{{S.v}}", "{{T.v}}"}[n]
			add(fmt.Sprintf("pair-deep-%d-%d", gi, n), dpre+"fn f(k: int, x: {{S}}) ra = mra()\nfn f(k: int, x: {{T}}) rb = mrb()\nfn t() {\n x := "+res+"\n x = f(1, "+hole+")\n}",
				map[string][]string{"S": ts, "S.v": vs, "T": ts, "T.v": vs}, "S T", func(ix []int) bool { return ix[0] != ix[1] },
				"the call matches one of two distinct overloads, whose result is the one wanted")
		}
	}
	some := []int{0, 2, 4, 6, 8, 9}
	pick := func(xs []string) []string {
		var r []string
		for _, i := range some {
			r = append(r, xs[i])
		}
		return r
	}
	st, sv := pick(ovTypes), pick(vals)
	for _, d := range []struct{ name, call string }{{"dot", "{{V}}.f()"}, {"second", "g({{V}}, 1)"}, {"third", "h(1, true, {{V}})"}, {"nested", "k(f({{V}}))"}} {
		d := d
		add("pair-"+d.name, `fn f(x: {{S}}) ra = mra()
fn f(x: {{T}}) rb = mrb()
fn g(x: {{S}}, y: int) ra = mra()
fn g(x: {{T}}, y: int) rb = mrb()
fn h(a: int, b: bool, x: {{S}}) ra = mra()
fn h(a: int, b: bool, x: {{T}}) rb = mrb()
fn k(x: ra) ra = mra()
fn k(x: rb) rb = mrb()
fn t() {
 x := {{R}}
 x = `+d.call+"\n}", map[string][]string{"S": st, "T": st, "V": sv, "R": res}, "S T V R", func(ix []int) bool {
			return ix[0] != ix[1] && (ix[2] == ix[0] && ix[3] == 0 || ix[2] == ix[1] && ix[3] == 1)
		}, "the call matches one of two distinct overloads, whose result is the one wanted")
	}
	// arity and order
	decls := []string{"fn f() %s", "fn f(a: int) %s", "fn f(a: int, b: bool) %s", "fn f(a: bool, b: int) %s", "fn f(a: bool) %s", "fn f(a: int, b: bool, c: int) %s"}
	calls := []string{"f()", "f(1)", "f(1, true)", "f(true, 1)", "f(true)", "f(1, true, 2)", "f(\"a\")", "f(1, 1)", "f(true, true)", "f(1, true, true)", "f(1, true, 2, 3)", "1.f()", "1.f(true)", "true.f(1)", "true.f()", "f(f)"}
	means := []int{0, 1, 2, 3, 4, 5, -1, -1, -1, -1, -1, 1, 2, 3, 4, -1}
	for o := 0; o < 2; o++ {
		o := o
		text := ""
		for q := range decls {
			k := q
			if o == 1 {
				k = len(decls) - 1 - q
			}
			text += fmt.Sprintf(decls[k]+" = m%c()\n", ovTypes[k], 'a'+k)
		}
		add(fmt.Sprintf("arity-%d", o), text+"fn t() {\n x := {{R}}\n x = {{C}}\n}", map[string][]string{"R": vals[:6], "C": calls}, "R C",
			func(ix []int) bool { return means[ix[1]] == ix[0] }, "the call matches an overload, whose result is the one wanted")
	}
	// a function overloading an enum constructor, and overloads that do not fit
	add("constructor", "fn Vb(x: bool) ra = mra()\nfn Vb(x: string) rb = mrb()\nfn t() {\n x := {{R}}\n x = Vb({{V}})\n}",
		map[string][]string{"R": {"mi()", "mra()", "mrb()"}, "V": vals}, "R V", func(ix []int) bool {
			return ix[0] == 0 && ix[1] == 0 || ix[0] == 1 && ix[1] == 1 || ix[0] == 2 && ix[1] == 2
		}, "the call matches an overload, whose result is the one wanted")
	add("none", "fn f(x: int, y: {{T}}) int = 1\nfn f(x: bool, y: {{T}}) int = 2\nfn t() {\n x := f({{A}}, {{V}})\n}",
		map[string][]string{"T": st, "V": sv, "A": {"1", "true", "\"a\"", "[1]"}}, "T V A", func(ix []int) bool { return ix[0] == ix[1] && ix[2] < 2 }, "the call matches an overload")

	// generics: X is the type bound
	gt := ovTypes[:]
	_ = gt
	three := func(name, decl, call string, pred func(ix []int) bool) {
		for i, r := range sv {
			i := i
			add(fmt.Sprintf("generic-%s-%d", name, i), decl+"\nfn t() {\n x := "+r+"\n x = "+call+"\n}",
				map[string][]string{"V": sv, "W": sv}, "V W", func(ix []int) bool { return pred([]int{ix[0], ix[1], i}) }, "each type parameter stands for one type, and the result is of the type wanted")
		}
	}
	three("same", "fn g«T»(x: T, y: T) T = x", "g({{V}}, {{W}})", func(ix []int) bool { return ix[0] == ix[1] && ix[1] == ix[2] })
	three("first", "fn g«A, B»(x: A, y: B) A = x", "g({{V}}, {{W}})", func(ix []int) bool { return ix[0] == ix[2] })
	three("second", "fn g«A, B»(x: A, y: B) B = y", "g({{V}}, {{W}})", func(ix []int) bool { return ix[1] == ix[2] })
	three("dot", "fn g«A, B»(x: A, y: B) B = y", "{{V}}.g({{W}})", func(ix []int) bool { return ix[1] == ix[2] })
	three("chain", "fn g«A, B»(x: A, y: B) B = y\nfn h«A, B»(x: A, y: B) A = g(y, x)", "h({{V}}, {{W}})", func(ix []int) bool { return ix[0] == ix[2] })
	three("struct", "fn g«A, B»(x: vr«A, B») A = x.l", "g(Vr({{V}}, {{W}}))", func(ix []int) bool { return ix[0] == ix[2] })
	three("swap", "fn g«A, B»(x: vr«A, B») vr«B, A» = Vr(x.r, x.l)", "g(Vr({{V}}, {{W}})).l", func(ix []int) bool { return ix[1] == ix[2] })
	three("closure", "fn g«A, B»(x: A, y: B) B = y", "g({{V}}, fn() int { g({{V}}, {{W}})\n return 1 })()", func(ix []int) bool { return ix[2] == 0 })
	// as many type arguments as type parameters, or none
	targs := []string{"", "«int»", "«int, int»", "«int, int, int»", "«int, int, int, int»"}
	for n := 1; n <= 3; n++ {
		n := n
		names := []string{"A", "B", "C"}[:n]
		var ps, fs, es, as []string
		for i, t := range names {
			ps = append(ps, fmt.Sprintf("p%d: %s", i, t))
			fs = append(fs, fmt.Sprintf("f%d: %s", i, t))
			es = append(es, fmt.Sprintf("e%d: %s", i, t))
			as = append(as, fmt.Sprint(i+1))
		}
		ts := strings.Join(names, ", ")
		decl := fmt.Sprintf("fn tf«%s»(%s) int = 1\nstruct ts«%s» { %s }\nenum te«%s» { Tea(%s) Teb() }\n", ts, strings.Join(ps, ", "), ts, strings.Join(fs, " "), ts, strings.Join(es, ", "))
		args := strings.Join(as, ", ")
		add(fmt.Sprintf("type-arguments-%d", n), decl+"fn t() {\n x := {{F}}{{T}}("+args+")\n}", map[string][]string{"F": {"tf", "Ts", "Tea"}, "T": targs}, "F T",
			func(ix []int) bool { return ix[1] == 0 || ix[1] == n }, "a call gives every type argument or none")
		add(fmt.Sprintf("type-arguments-none-%d", n), decl+"fn t() {\n x := Teb{{T}}()\n}", map[string][]string{"T": targs[1:]}, "T",
			func(ix []int) bool { return ix[0] == n-1 }, "a call gives every type argument or none")
		// one argument of another type than its type argument
		for _, f := range []string{"tf", "Ts", "Tea"} {
			h := map[string][]string{}
			var vs, us, hn []string
			for i := 0; i < n; i++ {
				h[fmt.Sprintf("V%d", i)] = []string{"1", "\"a\""}
				h[fmt.Sprintf("U%d", i)] = []string{"int", "string"}
				vs, us = append(vs, fmt.Sprintf("{{V%d}}", i)), append(us, fmt.Sprintf("{{U%d}}", i))
				hn = append(hn, fmt.Sprintf("V%d", i), fmt.Sprintf("U%d", i))
			}
			add(fmt.Sprintf("type-arguments-%s-%d", f, n), decl+"fn t() {\n x := "+f+"«"+strings.Join(us, ", ")+"»("+strings.Join(vs, ", ")+")\n}", h, strings.Join(hn, " "), func(ix []int) bool {
				for i := 0; i < n; i++ {
					if ix[2*i] != ix[2*i+1] {
						return false
					}
				}
				return true
			}, "each argument has the type given for its type parameter")
		}
	}
	// arguments built from types
	shapes := []struct{ p, a string }{
		{"T", "%s"}, {"[]T", "[%s]"}, {"[][]T", "[[%s]]"}, {"vo«T»", "Vt(%s)"}, {"vr«T, int»", "Vr(%s, 1)"}, {"vr«int, T»", "Vr(1, %s)"}, {"vo«[]T»", "Vt([%s])"}, {"[]vo«T»", "[Vt(%s)]"}, {"fn() T", "u(%s)"},
	}
	var pss, ass, ars []string
	for _, s := range shapes {
		pss, ass = append(pss, s.p), append(ass, s.a)
	}
	_ = ars
	for i, v := range []string{"ma()", "mc()", "me()", "mg()", "mj()"} {
		i := i
		var as []string
		for _, a := range ass {
			as = append(as, fmt.Sprintf(a, v))
		}
		add(fmt.Sprintf("shape-%d", i), "fn u«T»(x: T) fn() T = u(x)\nfn g«T»(x: {{P}}, d: T) T = d\nfn t() {\n x := g({{A}}, {{D}})\n}",
			map[string][]string{"P": pss, "A": as, "D": {"ma()", "mc()", "me()", "mg()", "mj()", "me()[0]"}}, "P A D", func(ix []int) bool {
				p, a, d := shapes[ix[0]].p, shapes[ix[1]].p, ix[2]
				if d == 5 {
					d = 0
				}
				// the type of the argument with the value's type for T must be the parameter's with d's for T
				ts := []string{"int", "string", "[]int", "vp", "vo«int»"}
				return strings.ReplaceAll(a, "T", ts[i]) == strings.ReplaceAll(p, "T", ts[d])
			}, "the argument has the shape of the parameter for the type bound")
	}
	// results and parameters of every shape to two levels
	sh1 := []string{"[]%s", "vo«%s»", "vr«%s, int»", "vr«int, %s»", "fn() %s", "fn(%s) int"}
	sh := append([]string{"%s"}, sh1...)
	for _, a := range sh1 {
		for _, b := range sh1 {
			sh = append(sh, fmt.Sprintf(a, b))
		}
	}
	of := func(xs []string, t string) []string {
		return mapStr(xs, func(x string) string { return fmt.Sprintf(x, t) })
	}
	for k := 0; k < len(sh); k += 15 {
		k := k
		part := sh[k:min(k+15, len(sh))]
		h := map[string][]string{"S": of(part, "T"), "S.i": of(part, "int"), "S.s": of(part, "string"), "V": {"1", "\"a\""}, "D": {"1", "\"a\""}}
		add(fmt.Sprintf("result-shape-%d", k/15), "fn g«T»(x: T) {{S}} = g(x)\nfn w(o: {{S.i}}) int = 1\nfn t() {\n x := w(g({{V}}))\n}", h, "S V",
			func(ix []int) bool { return ix[1] == 0 }, "the result has the declared shape for the type bound")
		add(fmt.Sprintf("param-shape-%d", k/15), "fn g«T»(x: {{S}}, y: T) T = y\nfn t(o: {{S.i}}) {\n x := \"b\"\n x = g(o, {{D}})\n}\nfn t2(o: {{S.s}}) {\n x := \"b\"\n x = g(o, {{V}})\n}", h, "S D V",
			func(ix []int) bool { return false }, "an int is not a string, whatever type parameter stands for it")
		add(fmt.Sprintf("param-shape-ok-%d", k/15), "fn g«T»(x: {{S}}, y: T) T = y\nfn t2(o: {{S.s}}) {\n x := \"b\"\n x = g(o, {{V}})\n}", h, "S V",
			func(ix []int) bool { return ix[1] == 1 }, "the argument has the shape of the parameter for the type bound")
	}
	// generic and plain functions of one name, which do not take the same arguments
	ovs := []string{"fn h«T»(a: []T) ra = mra()\n", "fn h(a: int, b: int) rb = mrb()\n", "fn h«T»(a: T, b: T, c: T) T = a\n"}
	ocalls := []string{"h([1])", "h«int»([1])", "[1].h()", "h(1, 2)", "h(1, 2, 3)", "h«int»(1, 2, 3)", "h«string»(\"a\", \"b\", \"c\")", "h«string»([1])", "h«int»(1, 2)", "h«string»(1, 2, 3)", "h«int, int»([1])", "h(1, \"a\")"}
	ogives := []int{0, 0, 0, 1, 2, 2, 3, -1, -1, -1, -1, -1}
	for oi, o := range [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}} {
		add(fmt.Sprintf("mixed-%d", oi), ovs[o[0]]+ovs[o[1]]+ovs[o[2]]+"fn t() {\n x := {{R}}\n x = {{C}}\n}", map[string][]string{"R": {"mra()", "mrb()", "1", "\"a\""}, "C": ocalls}, "R C",
			func(ix []int) bool { return ogives[ix[1]] == ix[0] }, "the call matches one overload, whose result is the one wanted")
	}
	// functions as arguments
	fts := []string{"fn(int) int", "fn(int) bool", "fn(string) int", "fn([]int) string", "fn() int", "fn(int, int) int", "fn(int)"}
	fin := []string{"int", "int", "string", "[]int", "", "", "int"}
	fout := []string{"int", "bool", "int", "string", "", "", "nothing"}
	text := ""
	for i, f := range fts {
		text += fmt.Sprintf("fn f%d() %s = f%d()\n", i, f, i)
	}
	rt := []string{"int", "bool", "string", "[]int"}
	add("map", text+"fn g«A, B»(x: A, f: fn(A) B) B = f(x)\nfn t() {\n x := {{R}}\n x = g({{V}}, {{F}})\n}",
		map[string][]string{"R": {"ma()", "mb()", "mc()", "me()"}, "V": {"ma()", "mb()", "mc()", "me()"}, "F": numbered("f%d()", len(fts))}, "R V F",
		func(ix []int) bool {
			f := ix[2]
			return fin[f] != "" && fin[f] == rt[ix[1]] && fout[f] == rt[ix[0]]
		}, "the function takes the value and gives the result wanted")
	add("fold", text+"fn g«A, B»(x: []A, z: B, f: fn(B, A) B) B = z\nfn t() {\n x := {{R}}\n x = g([{{V}}], {{Z}}, fn(p: {{P}}, q: {{Q}}) {{S}} = k{{S.x}}())\n}\nfn ki() int = 1\nfn ks() string = \"a\"",
		map[string][]string{"R": {"1", "\"a\""}, "V": {"1", "\"a\""}, "Z": {"1", "\"a\""}, "P": {"int", "string"}, "Q": {"int", "string"}, "S": {"int", "string"}, "S.x": {"i", "s"}}, "R V Z P Q S",
		func(ix []int) bool {
			return ix[4] == ix[1] && ix[3] == ix[2] && ix[5] == ix[2] && ix[0] == ix[2]
		}, "each type parameter stands for one type")
	// explicit type arguments
	tas := []string{"", "«int»", "«string»", "«[]int»", "«vp»", "«int, int»", "«int, string»", "«zz»", "«int, int, int»"}
	add("explicit-none", "fn g«T»() []T = g«T»()\nfn t() {\n x := {{R}}\n x = g{{A}}()\n}", map[string][]string{"A": tas, "R": {"[1]", "[\"a\"]", "[[1]]", "[mg()]"}}, "A R",
		func(ix []int) bool { return ix[0] >= 1 && ix[0] <= 4 && ix[1] == ix[0]-1 }, "one known type for the type parameter, and the result of the type wanted")
	add("explicit-argument", "fn g«T»(x: T) []T = g«T»(x)\nfn t() {\n x := {{R}}\n x = g{{A}}({{V}})\n}", map[string][]string{"A": tas, "R": {"[1]", "[\"a\"]", "[[1]]", "[mg()]"}, "V": {"ma()", "mc()", "me()", "mg()"}}, "A R V",
		func(ix []int) bool { return ix[1] == ix[2] && ix[0] <= 4 && (ix[0] == 0 || ix[0]-1 == ix[1]) }, "the argument and the result are of the type given")
	add("explicit-two", "fn g«A, B»(x: A) vr«A, B» = g«A, B»(x)\nfn t() {\n x := {{R}}\n x = g{{A}}({{V}})\n}", map[string][]string{"A": tas, "R": {"Vr(1, 1)", "Vr(1, \"a\")", "Vr(\"a\", 1)"}, "V": {"ma()", "mc()"}}, "A R V",
		func(ix []int) bool { return ix[2] == 0 && (ix[0] == 5 && ix[1] == 0 || ix[0] == 6 && ix[1] == 1) }, "both type parameters given, and the result of the type wanted")
	add("explicit-plain", "fn g(x: int) int = x\nfn t() {\n x := g{{A}}(1)\n}", map[string][]string{"A": tas}, "A",
		func(ix []int) bool { return ix[0] == 0 }, "no type arguments for a plain function")
	add("explicit-constructor", "fn t() {\n x := {{R}}\n x = Vn{{A}}()\n}", map[string][]string{"A": tas, "R": {"Vt(1)", "Vt(\"a\")", "Vt([1])", "Vt(mg())"}}, "A R",
		func(ix []int) bool { return ix[0] >= 1 && ix[0] <= 4 && ix[1] == ix[0]-1 }, "one known type for the type parameter, and the result of the type wanted")
	add("explicit-struct", "struct vs«T» { a: T b: []T }\nfn t() {\n x := {{R}}\n x = Vs{{A}}({{V}}, [{{W}}])\n}", map[string][]string{"A": tas, "R": {"Vs(1, [1])", "Vs(\"a\", [\"a\"])"}, "V": {"ma()", "mc()"}, "W": {"ma()", "mc()"}}, "A R V W",
		func(ix []int) bool {
			return ix[1] == ix[2] && ix[2] == ix[3] && ix[0] <= 2 && (ix[0] == 0 || ix[0]-1 == ix[1])
		}, "the fields and the result are of the type given")
	// unbound
	outs := []string{"T", "[]T", "vo«T»", "vr«int, T»", "fn() T", "fn(T) int", "fn([]T) int", "int", "[]int", "vp"}
	ins := []string{"", "x: int", "x: []int", "x: T", "x: []T", "x: vo«T»", "x: fn(T) int", "x: fn() T"}
	args := []string{"", "1", "[1]", "1", "[1]", "Vt(1)", "fn(q: int) int = q", "fn() int = 1"}
	add("unbound", "fn g«T»({{P}}) {{O}} = g«T»({{P.2}})\nfn t() {\n g({{P.3}})\n}", map[string][]string{"P": ins, "P.2": {"", "x", "x", "x", "x", "x", "x", "x"}, "P.3": args, "O": outs}, "P O",
		func(ix []int) bool { return ix[0] >= 3 || ix[1] >= 7 }, "every type parameter of the result is bound by an argument")
	// a value of a type parameter
	ops := []string{"y := x", "y := [x, x]", "x = x", "g«T»(x)", "x.g()", "y := Vt(x)", "y := Vr(x, 1).l\n y = x", "k := fn() T = x", "y := true ? x : x", "z(Vt(x))",
		"y := x + 1", "y := x == x", "y := not x", "y := x.a", "y := x.length", "x()", "y := x[0]", "for k in x { }", "if x { }", "match x { case Va(): case Vb(q): }", "y := [x, 1]", "y := true ? x : 1", "x = 1", "wi(x)", "y := 1\n y = x", "z(Vt(1)) = x", "x.a = 1", "y := [1]\n y[0] = x", "y := [x]\n y[0] = 1", "y := [x]\n y[x] = x", "z(x)", "return x", "x = r", "y := [x, r]"}
	add("opaque", "fn wi(x: int) int = x\nfn z«T»(x: vo«T») T = z(x)\nfn g«T»(x: T) {\n g2(x, x)\n}\nfn g2«T, R»(x: T, r: R) {\n {{O}}\n}\nfn t() { }", map[string][]string{"O": ops}, "O",
		func(ix []int) bool { return ix[0] < 10 }, "only what is allowed for every type is done with a value of a type parameter")
	add("generic-return", "fn g«T, R»(x: T, r: R, a: []T, o: vo«T») {{O}} = {{E}}", map[string][]string{"O": {"T", "R", "[]T", "vo«T»", "vo«R»", "int"}, "E": {"x", "r", "a", "o", "a[0]", "[x]", "[r][0]", "Vt(x)", "Vt(r)", "1", "a.length"}}, "O E",
		func(ix []int) bool {
			ts := []string{"T", "R", "[]T", "vo«T»", "T", "[]T", "R", "vo«T»", "vo«R»", "int", "int"}
			return ts[ix[1]] == []string{"T", "R", "[]T", "vo«T»", "vo«R»", "int"}[ix[0]]
		}, "the result is of the type declared")
	// generic structs and enums
	add("fields", "struct vs«A, B» { a: A b: B c: []A d: vr«B, A» }\nfn t(s: vs«int, string») {\n x := {{R}}\n {{E}}\n}", map[string][]string{"R": {"1", "\"a\"", "true"}, "E": {"x = s.a", "x = s.b", "x = s.c[0]", "x = s.d.l", "x = s.d.r", "s.a = x", "s.b = x", "s.c[0] = x", "s.d.l = x", "s.d.r = x"}}, "R E",
		func(ix []int) bool { return ix[0] == []int{0, 1, 0, 1, 0, 0, 1, 0, 1, 0}[ix[1]] }, "a field has the type its struct's type arguments give it")
	add("case-fields", "enum vs«A, B» { Vx(a: A) Vy(b: B, c: []A) Vz(d: vr«B, A») }\nfn t(s: vs«int, string») {\n x := {{R}}\n match s {\n case Vx(a): {{E}}\n case Vy(b, c): {{F}}\n case Vz(d): {{G}}\n }\n}", map[string][]string{"R": {"1", "\"a\"", "true"}, "E": {"", "x = a"}, "F": {"", "x = b", "x = c[0]"}, "G": {"", "x = d.l", "x = d.r"}}, "R E F G",
		func(ix []int) bool {
			ok := func(k int, ts ...int) bool { return ts[k] < 0 || ts[k] == ix[0] }
			return ok(ix[1], -1, 0) && ok(ix[2], -1, 1, 0) && ok(ix[3], -1, 1, 0)
		}, "a case variable has the type its enum's type arguments give it")
	add("type-arguments", "fn t(x: {{T}}) { }", map[string][]string{"T": {"vo«int»", "vr«int, vo«bool»»", "vo«vo«vp»»", "[]vo«[]int»", "vo«int, int»", "vr«int»", "vp«int»", "int«int»", "vo«zz»", "vo«»", "string«int»", "vr«int, int, int»"}}, "T",
		func(ix []int) bool { return ix[0] < 4 }, "as many type arguments as type parameters")
	add("recursive", "struct vs«T» { v: T n: {{F}} }\nenum vl«T» { Vc(h: T, t: vl«T») Ve() }\nfn t(s: {{A}}) {\n x := {{R}}\n x = {{E}}\n}", map[string][]string{"F": {"[]vs«T»", "vl«vs«T»»", "vs«T»"}, "A": {"vs«int»", "vs«bool»"}, "R": {"1", "true"}, "E": {"s.v", "s.n[0].v", "s.n.v", "s.n.n.v", "s.n[0].n[0].v"}}, "F A R E",
		func(ix []int) bool {
			if ix[1] != ix[2] {
				return false
			}
			return ix[3] == 0 || ix[0] == 0 && (ix[3] == 1 || ix[3] == 4) || ix[0] == 2 && (ix[3] == 2 || ix[3] == 3)
		}, "a field of a recursive generic struct has the type its type arguments give it")
	// declaration order
	d := []string{"fn f(x: ka«int») int = x.a.a\n", "struct ka«T» { a: kb«T» }\n", "struct kb«T» { a: T }\n", "enum kc«T» { Kc1(x: ka«T») Kc2() }\n"}
	perms := [][]int{{0, 1, 2, 3}, {0, 2, 1, 3}, {1, 0, 2, 3}, {2, 1, 0, 3}, {3, 2, 1, 0}, {3, 1, 0, 2}, {1, 3, 2, 0}, {2, 3, 0, 1}}
	var orders []string
	for _, p := range perms {
		s := ""
		for _, k := range p {
			s += d[k]
		}
		orders = append(orders, s)
	}
	add("order", "{{O}}fn t() {\n x := {{R}}\n x = f(Ka({{V}}))\n y := Kc1(Ka(Kb(1)))\n}", map[string][]string{"O": orders, "R": {"1", "true"}, "V": {"Kb(1)", "Kb(true)", "1", "mra()"}}, "R V",
		func(ix []int) bool { return ix[0] == 0 && ix[1] == 0 }, "the order of declarations does not matter")
	return ps
}

func overloadRunProbes() []*clara.Probe {
	var ps []*clara.Probe
	add := func(name, src string, f func(r *Ref)) { ps = append(ps, pr(name, src, f)) }
	add("by-type", `struct vp { a: int }
struct vq { a: int }
enum ve { Va() Vb(x: int) }
fn f(x: int) int { vxObs(1, x)
 return x + 1 }
fn f(x: bool) bool { vxObsB(2, x)
 return not x }
fn f(x: string) int { vxObs(3, x.length)
 return 3 }
fn f(x: []int) int { vxObs(4, x[0])
 return x[1] }
fn f(x: []bool) bool { vxObsB(5, x[0])
 return x[1] }
fn f(x: vp) int { vxObs(6, x.a)
 return x.a + 6 }
fn f(x: vq) int { vxObs(7, x.a)
 return x.a + 7 }
fn f(x: ve) int {
 match x { case Va(): return 8 case Vb(y): return y + 8 }
}
fn f(x: fn(int) int) int { vxObs(9, x(1))
 return x(2) }
`+mainOf(1, 1, `vxObs(10, f(a0))
vxObsB(11, f(p0))
vxObs(12, f("abc"))
vxObs(13, f([a0, a0 + 5]))
vxObsB(14, f([p0, not p0]))
vxObs(15, f(Vp(a0)))
vxObs(16, f(Vq(a0)))
vxObs(17, f(Vb(a0)))
vxObs(18, f(fn(x: int) int = x + a0))
vxObs(19, a0.f().f())`), func(r *Ref) {
		c, a, b := r.C, r.Int(0), r.BoolIn(0)
		r.Obs(1, a)
		r.Obs(10, c.Add(a, r.K(1)))
		r.ObsB(2, b)
		r.ObsB(11, c.Not(b))
		r.Obs(3, r.K(3))
		r.Obs(12, r.K(3))
		r.Obs(4, a)
		r.Obs(13, c.Add(a, r.K(5)))
		r.ObsB(5, b)
		r.ObsB(14, c.Not(b))
		r.Obs(6, a)
		r.Obs(15, c.Add(a, r.K(6)))
		r.Obs(7, a)
		r.Obs(16, c.Add(a, r.K(7)))
		r.Obs(17, c.Add(a, r.K(8)))
		r.Obs(9, c.Add(a, r.K(1)))
		r.Obs(18, c.Add(a, r.K(2)))
		r.Obs(1, a)
		r.Obs(1, c.Add(a, r.K(1)))
		r.Obs(19, c.Add(a, r.K(2)))
	})
	add("by-count", `fn f() int = 100
fn f(a: int) int = a + 1
fn f(a: int, b: int) int = a - b
fn f(a: int, b: bool) int = b ? a : 0
fn f(b: bool, a: int) int = b ? 0 : a
fn f(a: int, b: int, c: int) int = a - b - c
`+mainOf(2, 1, `vxObs(1, f())
vxObs(2, f(a0))
vxObs(3, f(a0, a1))
vxObs(4, f(a0, p0))
vxObs(5, f(p0, a0))
vxObs(6, f(a0, a1, a0))
vxObs(7, a0.f(a1))
vxObs(8, p0.f(a1))
vxObs(9, f(f(f(), a0), f(a0, p0)))`), func(r *Ref) {
		c, a, b, p := r.C, r.Int(0), r.Int(1), r.BoolIn(0)
		r.Obs(1, r.K(100))
		r.Obs(2, c.Add(a, r.K(1)))
		r.Obs(3, c.Sub(a, b))
		r.Obs(4, c.Ite(p, a, r.K(0)))
		r.Obs(5, c.Ite(p, r.K(0), a))
		r.Obs(6, c.Neg(b))
		r.Obs(7, c.Sub(a, b))
		r.Obs(8, c.Ite(p, r.K(0), b))
		r.Obs(9, c.Sub(c.Sub(r.K(100), a), c.Ite(p, a, r.K(0))))
	})
	add("by-instance", `enum vo«T» { Vn() Vt(x: T) }
struct vg«T» { a: T b: int }
fn f(x: vo«int») int { match x { case Vn(): return 1 case Vt(y): return y } }
fn f(x: vo«bool») int { match x { case Vn(): return 2 case Vt(y): return y ? 20 : 21 } }
fn f(x: vg«int») int = x.a + x.b
fn f(x: vg«bool») int = x.a ? x.b : 5
fn f(x: [][]int) int = x[0][0]
fn f(x: []vo«int») int = f(x[0]) + 7
fn f(x: fn(int) int, y: int) int = x(y)
fn f(x: fn(bool) int, y: bool) int = x(y)
`+mainOf(1, 1, `vxObs(1, f(Vt(a0)))
vxObs(2, f(Vt(p0)))
vxObs(3, f(Vn«int»()))
vxObs(4, f(Vn«bool»()))
vxObs(5, f(Vg(a0, 3)))
vxObs(6, f(Vg(p0, a0)))
vxObs(7, f([[a0]]))
vxObs(8, f([Vt(a0)]))
vxObs(9, f(fn(x: int) int = x - 1, a0))
vxObs(10, f(fn(x: bool) int = x ? 1 : 2, p0))`), func(r *Ref) {
		c, a, b := r.C, r.Int(0), r.BoolIn(0)
		r.Obs(1, a)
		r.Obs(2, c.Ite(b, r.K(20), r.K(21)))
		r.Obs(3, r.K(1))
		r.Obs(4, r.K(2))
		r.Obs(5, c.Add(a, r.K(3)))
		r.Obs(6, c.Ite(b, a, r.K(5)))
		r.Obs(7, a)
		r.Obs(8, c.Add(a, r.K(7)))
		r.Obs(9, c.Sub(a, r.K(1)))
		r.Obs(10, c.Ite(b, r.K(1), r.K(2)))
	})
	add("generic", `struct vr«A, B» { l: A r: B }
enum vo«T» { Vn() Vt(x: T) }
fn fst«A, B»(x: A, y: B) A = x
fn snd«A, B»(x: A, y: B) B = y
fn swap«A, B»(p: vr«A, B») vr«B, A» = Vr(p.r, p.l)
fn apply«A, B»(x: A, f: fn(A) B) B = f(x)
fn orOther«T»(x: vo«T», d: T) T { match x { case Vn(): return d case Vt(y): return y } }
fn first«T»(x: []T) T = x[0]
fn twice«T»(x: T, f: fn(T) T) T = apply(apply(x, f), f)
fn wrap«T»(x: T) vo«T» = Vt(x)
`+mainOf(2, 1, `vxObs(1, fst(a0, p0))
vxObsB(2, snd(a0, p0))
vxObs(3, swap(Vr(p0, a0)).l)
vxObsB(4, swap(swap(Vr(p0, a0))).l)
vxObs(5, apply(a0, fn(x: int) int = x + a1))
vxObsB(6, apply(a0, fn(x: int) bool = x < a1))
vxObs(7, orOther(Vt(a0), a1))
vxObs(8, orOther(Vn«int»(), a1))
vxObsB(9, orOther(wrap(p0), true))
vxObs(10, first([a0, a1]))
vxObsB(11, first([p0]))
vxObs(12, twice(a0, fn(x: int) int = x + a1))
vxObs(13, first(first([[a1]])))
vxObs(14, orOther(orOther(wrap(wrap(a0)), wrap(a1)), 3))
vxObs(15, apply(Vr(a0, p0), fn(p: vr«int, bool») int = p.r ? p.l : 0))`), func(r *Ref) {
		c, a, b, p := r.C, r.Int(0), r.Int(1), r.BoolIn(0)
		r.Obs(1, a)
		r.ObsB(2, p)
		r.Obs(3, a)
		r.ObsB(4, p)
		r.Obs(5, c.Add(a, b))
		r.ObsB(6, c.Slt(a, b))
		r.Obs(7, a)
		r.Obs(8, b)
		r.ObsB(9, p)
		r.Obs(10, a)
		r.ObsB(11, p)
		r.Obs(12, c.Add(c.Add(a, b), b))
		r.Obs(13, b)
		r.Obs(14, a)
		r.Obs(15, c.Ite(p, a, r.K(0)))
	})
	return ps
}
