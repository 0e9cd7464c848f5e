package checks

import (
	"fmt"
	"strings"
)

// The rejection halves of C13 (incomplete matches) and C16 (names out of scope, repeated names),
// decided on engine G.

func matchProbes() []*gprobe {
	var ps []*gprobe
	const pre = `enum ve { Va() Vb(x: int) Vc(x: int, y: bool) }
enum vf { Vd() Ve(x: int) }
enum vo«T» { Vn() Vt(x: T) Vu(x: T, y: int) }
enum vh { Ha() }
fn f(e: ve) vf = f(e)
enum v5 { Fa() Fb() Fc(x: int) Fd() Fe(x: int, y: int) }
`
	// opts lists the ways to write a case; which says the constructor it names (-1: none, which is wrong)
	slots := func(name, val, typ string, n int, opts []string, which []int, cases int) {
		for first := range opts {
			if opts[first] == "" {
				continue
			}
			h := map[string][]string{}
			names := []string{}
			text := pre + "fn t(e: " + typ + ") {\n match " + val + " {\n" + opts[first] + "\n"
			for k := 1; k < n; k++ {
				c := fmt.Sprintf("S%d", k)
				h[c] = opts
				names = append(names, c)
				text += "{{" + c + "}}\n"
			}
			text += "}\n}\nfn main() { }\n"
			first := first
			ps = append(ps, choices(fmt.Sprintf("%s-%d", name, first), text, h, names, func(ix []int) bool {
				seen := map[int]bool{}
				for _, i := range append([]int{first}, ix...) {
					if opts[i] == "" {
						continue
					}
					if which[i] < 0 || seen[which[i]] {
						return false
					}
					seen[which[i]] = true
				}
				return len(seen) == cases
			}, "every case of the enum exactly once"))
		}
	}
	slots("cases", "e", "ve", 4, []string{"case Va():", "case Vb(q):", "case Vc(q, r):", "", "case Vd():", "case zz():", "case Vb():"}, []int{0, 1, 2, -1, -1, -1, -1}, 3)
	slots("generic-cases", "e", "vo«int»", 3, []string{"case Vn():", "case Vt(q):", "case Vu(q, r):", "", "case Va():", "case Vb(q):", "case Vt(q, r):"}, []int{0, 1, 2, -1, -1, -1, -1}, 3)
	slots("one-case", "e", "vh", 2, []string{"case Ha():", "", "case Va():", "case Ha(q):"}, []int{0, -1, -1, -1}, 1)
	slots("value-cases", "f(e)", "ve", 3, []string{"case Vd():", "case Ve(q):", "", "case Va():", "case Vb(q):"}, []int{0, 1, -1, -1, -1}, 2)
	// five cases: any subset
	five := []string{"case Fa():", "case Fb():", "case Fc(q):", "case Fd():", "case Fe(q, r):"}
	h := map[string][]string{}
	text := pre + "fn t(e: v5) int {\n match e {\n"
	var names []string
	for i, f := range five {
		c := fmt.Sprintf("S%d", i)
		h[c] = []string{"", f + " return 1", f + " return 1\n" + f + " return 2"}
		names = append(names, c)
		text += "{{" + c + "}}\n"
	}
	ps = append(ps, choices("five", text+"}\n}\nfn main() { }\n", h, names, func(ix []int) bool {
		for _, i := range ix {
			if i != 1 {
				return false
			}
		}
		return true
	}, "every case of the enum exactly once"))
	// nested matches, each complete or not
	inner := []string{"", "match f { case Vd(): case Ve(z): }", "match f { case Vd(): }", "match f { case Ve(z): case Vd(): }", "match f { case Vd(): case Ve(z): case Vd(): }", "match f { case Va(): case Vb(z): }", "match f { }"}
	good := []bool{true, true, false, true, false, false, false}
	places := []string{"match e { case Va(): X\n case Vb(q): Y\n case Vc(q, r): }", "if true { X } else { Y }", "while true { X }\n Y", "for k in 0 .. 2 { X\n Y }", "g := fn(f: vf) { X }\n Y", "X\n Y"}
	var a, b, c []string
	for _, p := range places {
		i, j := strings.Index(p, "X"), strings.Index(p, "Y")
		a, b, c = append(a, p[:i]), append(b, p[i+1:j]), append(c, p[j+1:])
	}
	ps = append(ps, choices("nested", pre+"fn t(e: ve, f: vf) {\n {{P}}{{X}}{{P.2}}{{Y}}{{P.3}}\n}\nfn main() { }\n", map[string][]string{"P": a, "P.2": b, "P.3": c, "X": inner, "Y": inner}, []string{"X", "Y"},
		func(ix []int) bool { return good[ix[0]] && good[ix[1]] }, "every match names every case exactly once"))
	// what a case binds
	ps = append(ps, choices("variables", pre+"fn t(e: ve, o: vo«string») {\n x := {{R}}\n match e {\n case Va(): {{A}}\n case Vb(q): {{B}}\n case Vc(q, r): {{C}}\n }\n}\nfn main() { }\n",
		map[string][]string{"R": {"1", "true"}, "A": {"", "x = q"}, "B": {"", "x = q", "x = r"}, "C": {"", "x = q", "x = r"}}, []string{"R", "A", "B", "C"},
		func(ix []int) bool {
			if ix[1] != 0 || ix[2] == 2 || ix[2] == 1 && ix[0] != 0 {
				return false
			}
			return ix[3] == 0 || ix[3] == 1 && ix[0] == 0 || ix[3] == 2 && ix[0] == 1
		}, "a case variable has the type of its field and is known in its case only"))
	return ps
}

func scopeProbes() []*gprobe {
	var ps []*gprobe
	const pre = "enum ve { Va() Vb(x: int) }\nfn t(i: int, b: bool, e: ve, ar: []int) {\n"
	const end = "\n}\nfn main() { }\n"
	kinds := []struct{ name, open, close string }{
		{"if", "if b {\n", "\n}"},
		{"else", "if b { } else {\n", "\n}"},
		{"elseif", "if b { } elseif i > 2 {\n", "\n} else { }"},
		{"while", "while b {\n", "\n}"},
		{"range", "for k# in 0 .. i {\n", "\n}"},
		{"for", "for k# in ar {\n", "\n}"},
		{"case", "match e {\n case Va():\n", "\n case Vb(q#):\n}"},
		{"second-case", "match e {\n case Va():\n case Vb(q#):\n", "\n}"},
		{"closure", "g# := fn() {\n", "\n}"},
	}
	var o0, c0, o1, c1 []string
	for _, k := range kinds {
		o0, c0 = append(o0, strings.ReplaceAll(k.open, "#", "0")), append(c0, strings.ReplaceAll(k.close, "#", "0"))
		o1, c1 = append(o1, strings.ReplaceAll(k.open, "#", "1")), append(c1, strings.ReplaceAll(k.close, "#", "1"))
	}
	// five points: before, in the outer block, in the inner, in the outer again, after
	level := []int{0, 1, 2, 1, 0}
	sees := func(d, u int) bool { // a declaration at point d is known at point u
		if d > u || level[d] > level[u] {
			return false
		}
		// still in the block of d
		return level[d] == 0 || level[d] == 1 && u <= 3 || d == u
	}
	type scen struct {
		at [5]string
		ok bool
	}
	var scens []scen
	for d := 0; d < 5; d++ {
		for u := 0; u < 5; u++ {
			for e := -1; e < 5; e++ {
				if e == d || e >= 0 && e < d {
					continue
				}
				var s scen
				s.ok = sees(d, u) || e >= 0 && sees(e, u)
				if e >= 0 && level[e] == level[d] {
					s.ok = false // declared twice in one block
				}
				s.at[d] += "v := 1\n"
				if e >= 0 {
					s.at[e] += "v := 2\n"
				}
				s.at[u] += "i = v\n"
				scens = append(scens, s)
			}
		}
	}
	sh := map[string][]string{}
	for _, s := range scens {
		sh["S"] = append(sh["S"], s.at[0])
		for k := 1; k < 5; k++ {
			c := fmt.Sprintf("S.%d", k)
			sh[c] = append(sh[c], s.at[k])
		}
	}
	for o := range kinds {
		for q, group := range [][]int{{0, 4}, {6, 8}, {1, 2, 3}, {5, 7}} {
			th := true
			switch kinds[o].name {
			case "if", "range", "closure", "second-case":
				th = false
			default:
				if q == 0 {
					group = []int{4}
					th = false
				}
			}
			h := map[string][]string{"K": nil, "K.2": nil}
			for _, in := range group {
				h["K"], h["K.2"] = append(h["K"], o1[in]), append(h["K.2"], c1[in])
			}
			for k, v := range sh {
				h[k] = v
			}
			ps = append(ps, choices(fmt.Sprintf("scope-%s-%d", kinds[o].name, q), pre+"{{S}}"+o0[o]+"{{S.1}}{{K}}{{S.2}}{{K.2}}\n{{S.3}}"+c0[o]+"\n{{S.4}}"+end, h, []string{"S"},
				func(ix []int) bool { return scens[ix[0]].ok }, "a name is used only in the block it is declared in, after its declaration, and declared once there"))
			ps[len(ps)-1].thorough = th
		}
		// one block: what is before it, in it and after it, each of up to two statements
		alts := []string{"", "v := 1\n", "i = v\n", "v := 1\n i = v\n", "i = v\n v := 1\n", "v := 1\n v := 2\n"}
		o := o
		ps = append(ps, choices("block-"+kinds[o].name, pre+"{{A}}"+o0[o]+"{{B}}"+c0[o]+"\n{{C}}"+end, map[string][]string{"A": alts[:2], "B": alts, "C": alts[:3]}, []string{"A", "B", "C"}, func(ix []int) bool {
			// run walks one piece of text; known: v is known, here: declared in this very block
			run := func(k int, known, here *bool) bool {
				for _, st := range strings.Fields(strings.NewReplacer("v := 1", "d", "v := 2", "d", "i = v", "u").Replace(alts[k])) {
					if st == "u" && !*known || st == "d" && *here {
						return false
					}
					if st == "d" {
						*known, *here = true, true
					}
				}
				return true
			}
			known, here := false, false
			if !run(ix[0], &known, &here) {
				return false
			}
			k2, h2 := known, false
			return run(ix[1], &k2, &h2) && run(ix[2], &known, &here)
		}, "a name is used only in the block it is declared in, after its declaration, and declared once there"))
	}
	// names that belong to one block
	once := func(name, text string, alts []string, good int) {
		ps = append(ps, choices("once-"+name, text, map[string][]string{"N": alts}, []string{"N"}, func(ix []int) bool { return ix[0] < good }, "no name is declared twice in one block"))
	}
	ps = append(ps, choices("once-parameter", "fn t(a: int, b: bool, {{N}}: {{T}}) { }\nfn main() { }\n", map[string][]string{"N": {"c", "t", "a", "b"}, "T": {"int", "bool", "string"}}, []string{"N", "T"}, func(ix []int) bool { return ix[0] < 2 }, "no name is declared twice in one block"))
	tkinds := []string{"int", "string", "[]int", "fn(int) int", "fn()", "vs"}
	kvals := []string{"1", "\"a\"", "[1]", "fn(q: int) int = q", "fn() { }", "Vs(1)"}
	for _, w := range []struct{ name, text string }{
		{"fn", "fn t(a: {{S}}, {{N}}: {{T}}) { }"},
		{"generic", "fn t«Q»(q: Q, a: {{S}}, {{N}}: {{T}}) { }"},
		{"closure", "fn t(i: int) {\n g := fn(a: {{S}}, {{N}}: {{T}}) { }\n}"},
		{"local", "fn t(a: {{S}}) {\n {{N}} := {{T.v}}\n}"},
		{"locals", "fn t() {\n a := {{S.v}}\n {{N}} := {{T.v}}\n}"},
		{"block", "fn t(p: bool) {\n while p {\n  a := {{S.v}}\n  {{N}} := {{T.v}}\n }\n}"},
	} {
		names := []string{"b", "a"}
		if w.name != "fn" && w.name != "locals" {
			names = names[1:]
		}
		ps = append(ps, choices("once-kinds-"+w.name, "struct vs { u: int }\n"+w.text+"\nfn main() { }\n", map[string][]string{"N": names, "S": tkinds, "S.v": kvals, "T": tkinds, "T.v": kvals}, []string{"N", "S", "T"},
			func(ix []int) bool { return names[ix[0]] == "b" }, "no name is declared twice in one block"))
	}
	once("case", "enum ve { Va() Vb(x: int, y: int, z: bool) }\nfn t(e: ve) {\n match e { case Va(): case Vb({{N}}): }\n}\nfn main() { }\n", []string{"a, b, c", "e, b, c", "x, y, z", "t, b, c", "a, a, c", "a, b, a", "a, b, b", "a, a, a"}, 4)
	once("case-local", "enum ve { Va() Vb(x: int, y: bool) }\nfn t(e: ve) {\n match e { case Va():\n case Vb(a, b):\n {{N}}\n }\n}\nfn main() { }\n", []string{"c := 1", "e := 1", "if b { a := 1 }", "a := 1\n a = 2", "b := 1", "a := true"}, 3)
	once("closure", "fn t(i: int) {\n g := fn({{N}}) { }\n}\nfn main() { }\n", []string{"a: int, b: int", "i: int, b: bool", "g: int, b: bool", "a: int, a: int", "a: int, a: bool", "a: int, b: int, a: string"}, 3)
	once("closure-local", "fn t(i: int) {\n g := fn(a: int) {\n {{N}}\n }\n}\nfn main() { }\n", []string{"b := 1", "i := 1", "if true { a := 2 }", "b := 1\n b := 2", "a := 1", "a := true"}, 3)
	once("function", "fn t(i: int) {\n {{N}}\n}\nfn main() { }\n", []string{"b := 1", "t := 1", "if true { i := 2 }", "b := 1\n b := true", "i := 1", "i := true"}, 3)
	once("for", "fn t(i: int, ar: []int) {\n for {{N}}\n}\nfn main() { }\n", []string{"k in 0 .. 3 { v := k }", "i in 0 .. 3 { v := i }", "k in ar { if k > 1 { k := true } }", "k in ar { for k in ar { } }", "k in ar { v := 1\n v := 2 }", "k in 0 .. 3 { v := 1\n v := k }"}, 4)
	once("between", "fn t(i: int, b: bool) {\n v := 1\n {{N}}\n v := 2\n}\nfn main() { }\n", []string{"", "if b { }", "while b { v := 3 }", "g := fn() { }", "i = v"}, 0)
	// variables which belong to a construct
	uses := func(name, text string, good ...int) {
		// X<k> marks the k-th point
		h := map[string][]string{}
		m := strings.Count(text, "X")
		var alts [][]string
		for u := 0; u < m; u++ {
			var at []string
			for k := 0; k < m; k++ {
				if k == u {
					at = append(at, "i = v")
				} else {
					at = append(at, "")
				}
			}
			alts = append(alts, at)
		}
		for k := 0; k < m; k++ {
			c := "U"
			if k > 0 {
				c = fmt.Sprintf("U.%d", k)
			}
			for u := 0; u < m; u++ {
				h[c] = append(h[c], alts[u][k])
			}
			text = strings.Replace(text, "X", "{{"+c+"}}", 1)
		}
		ps = append(ps, choices("variable-"+name, pre+text+end, h, []string{"U"}, func(ix []int) bool {
			for _, g := range good {
				if ix[0] == g {
					return true
				}
			}
			return false
		}, "a variable of a construct is known inside it only"))
	}
	uses("range", "X\nfor v in 0 .. 3 {\n X\n if b { X }\n g := fn() { X }\n}\nX", 1, 2, 3)
	uses("for", "X\nfor v in ar {\n X\n while b { X }\n}\nX", 1, 2)
	uses("case", "X\nmatch e {\n case Va(): X\n case Vb(v):\n X\n if b { X }\n}\nX", 2, 3)
	uses("closure", "X\ng := fn(v: int) {\n X\n h := fn() { X }\n}\nX\nk := fn(w: int) { X }", 1, 2)
	uses("closure-local", "g := fn() {\n X\n v := 1\n X\n h := fn() { X }\n X\n}\nX", 1, 2, 3)
	uses("branches", "if b {\n v := 1\n X\n} elseif i > 2 {\n X\n} else {\n X\n}\nX", 0)
	uses("cases", "match e {\n case Va():\n v := 1\n X\n case Vb(q):\n X\n}\nX", 0)
	uses("sequence", "X\nv := 1\nX\nif b { X } else { X }\nwhile b { X }\nmatch e { case Va(): X\n case Vb(q): X\n}\nfor k in 0 .. 2 { X }\ng := fn() { X }\nX", 1, 2, 3, 4, 5, 6, 7, 8, 9)
	conds := func(name, text string, alts []string, good int) {
		ps = append(ps, choices("condition-"+name, pre+text+end, map[string][]string{"N": alts}, []string{"N"}, func(ix []int) bool { return ix[0] < good }, "a name is known where it is used"))
	}
	conds("while", "w := 1\nwhile {{N}} > 1 {\n v := 2\n}", []string{"w", "i", "v"}, 2)
	conds("elseif", "w := 1\nif b {\n v := 2\n} elseif {{N}} > 1 {\n x := 3\n}", []string{"w", "i", "v", "x"}, 2)
	conds("bound", "w := 1\nfor k in 0 .. {{N}} {\n v := 2\n}", []string{"w", "i", "v"}, 2)
	conds("start", "w := 1\nfor k in {{N}} .. 9 {\n v := 2\n}", []string{"w", "i", "k", "v"}, 2)
	conds("self", "w := 1\nv := {{N}}", []string{"w", "i", "v"}, 2)
	conds("matched", "w := e\nmatch {{N}} {\n case Va():\n v := e\n case Vb(q):\n}", []string{"w", "e", "v", "q"}, 2)
	ps = append(ps, choices("other-function", "fn u(p: int) int {\n w := p\n return w\n}\nfn t(i: int) {\n i = {{N}}\n}\nfn main() {\n z := 1\n}\n", map[string][]string{"N": {"i", "u(1)", "p", "w", "z"}}, []string{"N"},
		func(ix []int) bool { return ix[0] < 2 }, "the variables of a function are known inside it only"))
	return ps
}
