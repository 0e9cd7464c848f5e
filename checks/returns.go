package checks

import (
	"fmt"
	"strings"

	"verif/engine/clara"
)

// C28: functions with a result return one. Engine G decides which bodies are accepted; engine X runs
// accepted functions for all inputs.
func init() {
	register(&Check{
		ID: "C28",
		Bounds: []string{
			"every body made of one of 14 statement forms (if chains of 1 to 4 branches with and without else, match of 1 to 3 cases, while, for over ranges and arrays, sequences, closures with and without a result) over each pair of inner bodies, these being every such form over bodies that return, do not return or are empty (thorough: three levels for the branching forms)",
			"22 loop and single-branch headers with constant and variable conditions and ranges over 6 bodies that return, with and without a return after, and in branches, cases and closures",
			"in top-level functions, generic functions, closures and closures in closures; functions without a result are accepted with the same bodies",
			"the results of accepted functions with nested branches, matches and loops, for all 63-bit inputs",
		},
		Assumptions: []string{"the library is reduced to what the compiler needs by name; witnesses are replayed with the whole library"},
		Probes:      func(th bool) []*clara.Probe { return returnRunProbes() },
		NoTwins:     true,
		Extra:       func(r *Runner) error { return r.runFront(returnProbes()) },
	})
}

// body is a statement list and whether it ends in a return on every path.
type body struct {
	text string
	ends bool
}

// form is a statement with places for bodies A, B, C.
type form struct {
	name, text string
	n          int
	ends       func(x []body) bool
}

func allEnd(x []body) bool {
	for _, b := range x {
		if !b.ends {
			return false
		}
	}
	return true
}

func never([]body) bool { return false }

var forms = []form{
	{"if", "if i > 3 {\n A\n }", 1, never},
	{"if-else", "if i > 3 {\n A\n } else {\n B\n }", 2, allEnd},
	{"elseif", "if i > 3 {\n A\n } elseif b {\n B\n }", 2, never},
	{"elseif-else", "if i > 3 {\n return 4\n } elseif b {\n A\n } else {\n B\n }", 2, allEnd},
	{"elseif-middle", "if b {\n A\n } elseif i > 3 {\n B\n } elseif i > 2 {\n return 4\n } else {\n return 5\n }", 2, allEnd},
	{"match", "match e { case Va(): A\n case Vb(q): B\n }", 2, allEnd},
	{"match-three", "match u { case Ua(): return 2\n case Ub(q): A\n case Uc(): B\n }", 2, allEnd},
	{"match-one", "match w { case Wa(): A\n }", 1, allEnd},
	{"while", "while b {\n A\n }", 1, never},
	{"for", "for k in 0 .. i {\n A\n }", 1, never},
	{"for-in", "for k in [1, 2] {\n A\n }", 1, never},
	{"after-if", "if b { return 1 }\n A", 1, allEnd},
	{"after-loop", "while b { return 1 }\n for k in 0 .. 2 { i = 3 }\n A", 1, allEnd},
	{"closure", "g := fn() int {\n A\n }\n B", 2, allEnd},
}

var leaves = []body{{"return 1", true}, {"i = 1", false}, {"", false}, {"i = 2\n return i + 1", true}}

// apply fills the places of a form.
func (f form) apply(x ...body) body {
	r := strings.NewReplacer("A", "\x01", "B", "\x02")
	t := ""
	// only the places are single letters standing alone
	for _, l := range strings.Split(f.text, "\n") {
		for _, w := range strings.SplitAfter(l, " ") {
			if s := strings.TrimSpace(w); s == "A" || s == "B" {
				w = r.Replace(w)
			}
			t += w
		}
		t += "\n"
	}
	t = strings.TrimSuffix(t, "\n")
	t = strings.ReplaceAll(t, "\x01", x[0].text)
	if f.n > 1 {
		t = strings.ReplaceAll(t, "\x02", x[1].text)
	}
	return body{t, f.ends(x[:f.n])}
}

func level1() []body {
	r := append([]body{}, leaves[:3]...)
	two := leaves[:2]
	for _, f := range forms {
		f.text = strings.Replace(f.text, "g := ", "g1 := ", 1)
		if f.n == 1 {
			for _, a := range two {
				r = append(r, f.apply(a))
			}
			continue
		}
		for _, a := range two {
			for _, b := range two {
				r = append(r, f.apply(a, b))
			}
		}
	}
	return r
}

const retPrelude = `enum ve { Va() Vb(x: int) }
enum vu { Ua() Ub(x: int) Uc() }
enum vw { Wa() }
`
const retSig = "(i: int, b: bool, e: ve, u: vu, w: vw) "

func returnProbes() []*gprobe {
	var ps []*gprobe
	texts := func(bs []body) []string {
		var r []string
		for _, b := range bs {
			r = append(r, b.text)
		}
		return r
	}
	const want = "every path through a function with a result ends in a return"
	l1 := level1()
	// loops and single branches never end a function, whatever their ranges and conditions
	heads := []string{"while true", "while not false", "while 1 < 2", "while i == i", "while b or not b", "if true", "if not false", "if 1 < 2", "if i == i", "if b or true",
		"for k in 0 .. 1", "for k in 0 .. 2", "for k in 5 .. 2", "for k in 2 .. 0", "for k in 1 .. 1", "for k in 0 .. 0", "for k in i .. i + 1", "for k in -1 .. 1", "for k in 0x1 .. 0x2", "for k in [1]", "for k in [i, i]", "for k in array(1, 1)"}
	ins := []string{"return 1", "i = 2\n return i", "if b { return 1 } else { return 2 }", "while true { return 1 }", "for k2 in 0 .. 1 { return 1 }", "match e { case Va(): return 1\n case Vb(q): return q }"}
	tails := []body{{"", false}, {"\n return 3", true}}
	for _, where := range []struct{ name, pre, post string }{
		{"top", "fn f" + retSig + "int {\n", "\n}"},
		{"branch", "fn f" + retSig + "int {\n if b { return 2 } else {\n", "\n }\n}"},
		{"case", "fn f" + retSig + "int {\n match e {\n case Va(): ", "\n case Vb(q): return 1\n }\n}"},
		{"closure", "fn f" + retSig + "int {\n g := fn() int {\n", "\n }\n return g()\n}"},
	} {
		ins := ins
		if where.name != "top" {
			ins = ins[:1]
		}
		ps = append(ps, choices("loop-"+where.name, retPrelude+where.pre+"{{H}} {\n {{B}}\n }{{T}}"+where.post+"\nfn main() { }\n",
			map[string][]string{"H": heads, "B": ins, "T": texts(tails)}, []string{"H", "B", "T"}, func(ix []int) bool { return tails[ix[2]].ends }, want))
	}
	// one form over two inner bodies
	two := func(name string, f form, as, bs []body, th bool) {
		h := map[string][]string{"A": texts(as)}
		names := []string{"A"}
		x := []body{{"{{A}}", true}}
		if f.n > 1 {
			h["B"] = texts(bs)
			names = append(names, "B")
			x = append(x, body{"{{B}}", true})
		}
		// closures in a rejected place are still checked: a closure with a result has to return too
		pred := func(ix []int) bool {
			ok := func(b body) bool { return !badClosure(b) }
			if !ok(as[ix[0]]) || f.n > 1 && !ok(bs[ix[1]]) {
				return false
			}
			if f.n == 1 {
				return f.ends([]body{as[ix[0]]})
			}
			return f.ends([]body{as[ix[0]], bs[ix[1]]})
		}
		p := choices(name, retPrelude+"fn t"+retSig+"int {\n"+f.apply(x...).text+"\n}\nfn main() { }\n", h, names, pred, want)
		p.thorough = th
		ps = append(ps, p)
	}
	for _, f := range forms {
		// split the outer choice to spread the work
		const k = 12
		if f.n == 1 {
			two("form-"+f.name, f, l1, nil, false)
			continue
		}
		for j := 0; j < len(l1); j += k {
			two(fmt.Sprintf("form-%s-%d", f.name, j/k), f, l1[j:min(j+k, len(l1))], l1, false)
		}
	}
	// three levels, for the forms which branch
	var inner []body
	for _, f := range forms {
		if f.n == 2 {
			for _, a := range l1 {
				inner = append(inner, f.apply(a, leaves[0]), f.apply(leaves[0], a))
			}
		}
	}
	for _, f := range forms {
		for j := 0; j < len(inner); j += 60 {
			two(fmt.Sprintf("deep-%s-%d", f.name, j/60), f, inner[j:min(j+60, len(inner))], leaves, true)
		}
	}
	// longer chains, each body returning or not
	for n := 3; n <= 6; n++ {
		for e := 0; e < 2; e++ {
			n, e := n, e
			t := retPrelude + "fn t" + retSig + "int {\n"
			h := map[string][]string{}
			var names []string
			for i := 0; i < n+e; i++ {
				kw := "} elseif i == %d {"
				if i == 0 {
					kw = "if i == %d {"
				}
				if i == n {
					kw = "} else {"
				} else {
					kw = fmt.Sprintf(kw, i)
				}
				nm := fmt.Sprintf("H%d", i)
				t += " " + kw + "\n  {{" + nm + "}}\n"
				h[nm] = []string{"return 1", "i = 1"}
				names = append(names, nm)
			}
			ps = append(ps, choices(fmt.Sprintf("chain-%d-%d", n, e), t+" }\n}\nfn main() { }\n", h, names, func(ix []int) bool {
				for _, k := range ix {
					if k != 0 {
						return false
					}
				}
				return e == 1
			}, want))
		}
	}
	for n := 4; n <= 6; n++ {
		n := n
		dec, t := "enum vz {", "fn t(z: vz, i: int) int {\n match z {\n"
		h := map[string][]string{}
		var names []string
		for i := 0; i < n; i++ {
			nm := fmt.Sprintf("H%d", i)
			dec += fmt.Sprintf(" Z%d()", i)
			t += fmt.Sprintf("  case Z%d(): {{%s}}\n", i, nm)
			h[nm] = []string{"return 1", "i = 1"}
			names = append(names, nm)
		}
		ps = append(ps, choices(fmt.Sprintf("cases-%d", n), dec+" }\n"+t+" }\n}\nfn main() { }\n", h, names, func(ix []int) bool {
			for _, k := range ix {
				if k != 0 {
					return false
				}
			}
			return true
		}, want))
	}
	// other kinds of function
	wraps := []struct{ name, pre, post string }{
		{"plain", "fn t" + retSig + "int {\n", "\n}\n"},
		{"generic", "fn t«T»(i: int, b: bool, e: ve, u: vu, w: vw, z: T) int {\n", "\n}\n"},
		{"closure", "fn t" + retSig + "int {\n h := fn(i: int) int {\n", "\n }\n return 1\n}\n"},
		{"closure-in-closure", "fn t" + retSig + "int {\n h := fn(i: int) int {\n h2 := fn(i: int) int {\n", "\n }\n return 2\n }\n return 1\n}\n"},
		{"argument", "fn ap(f: fn(int) int) int = f(1)\nfn t" + retSig + "int = ap(fn(i: int) int {\n", "\n })\n"},
		{"returned", "fn t" + retSig + "fn(int) int {\n return fn(i: int) int {\n", "\n }\n}\n"},
		{"in-block", "fn t" + retSig + "int {\n if b {\n h := fn(i: int) int {\n", "\n }\n }\n return 1\n}\n"},
		{"in-case", "fn t" + retSig + "int {\n match e {\n case Va():\n h := fn(i: int) int {\n", "\n }\n case Vb(q):\n }\n return 1\n}\n"},
	}
	for _, w := range wraps {
		if w.pre == wraps[1].pre {
			w.pre = strings.Replace(w.pre, ", w: vw, z: T", ", z: T", 1)
		}
		var bs []body
		for _, b := range l1 {
			if w.name == "generic" && strings.Contains(b.text, "match w") {
				continue
			}
			bs = append(bs, b)
		}
		ps = append(ps, choices("in-"+w.name, retPrelude+w.pre+"{{A}}"+w.post+"fn main() { }\n", map[string][]string{"A": texts(bs)}, []string{"A"},
			func(ix []int) bool { return bs[ix[0]].ends && !badClosure(bs[ix[0]]) }, want))
	}
	// functions without a result
	var bs []body
	for _, b := range l1 {
		b.text = strings.NewReplacer("return 1", "return", "return 2", "return", "return 4", "return", "return 5", "return").Replace(b.text)
		if !strings.Contains(b.text, "g1 := ") {
			bs = append(bs, b)
		}
	}
	for _, w := range []struct{ name, pre, post string }{{"nothing", "fn t" + retSig + "{\n", "\n}\n"}, {"nothing-closure", "fn t" + retSig + "int {\n h := fn(i: int) {\n", "\n }\n return 1\n}\n"}} {
		ps = append(ps, choices("in-"+w.name, retPrelude+w.pre+"{{A}}"+w.post+"fn main() { }\n", map[string][]string{"A": texts(bs)}, []string{"A"},
			func(ix []int) bool { return true }, "a function without a result need not return"))
	}
	// return with and without a value
	ps = append(ps, choices("value", retPrelude+"fn t"+retSig+"{{T}} {\n if b { {{A}} }\n {{B}}\n}\nfn main() { }\n",
		map[string][]string{"T": {"int", "nothing", ""}, "A": {"return 1", "return", "return vn()"}, "B": {"return 1", "return", "", "i = 2"}}, []string{"T", "A", "B"},
		func(ix []int) bool {
			if ix[0] == 0 {
				return ix[1] == 0 && ix[2] == 0
			}
			return ix[1] == 1 && ix[2] != 0
		}, "a value is returned exactly by functions with a result"))
	return ps
}

// badClosure: the body holds a closure with a result that does not return on every path.
func badClosure(b body) bool { return strings.Contains(b.text, "g1 := fn() int {\n i = 1\n }") }

func returnRunProbes() []*clara.Probe {
	var ps []*clara.Probe
	ps = append(ps, pr("run", `enum ve { Va() Vb(x: int) Vc(b: bool, y: int) }
fn f(i: int, b: bool, e: ve) int {
 if i > 100 {
  if b { return 1 } else {
   match e { case Va(): return 2
    case Vb(x): return x + 3
    case Vc(p, y): if p { return y } elseif y > 7 { return 4 } else { return 5 }
   }
  }
 } elseif i > 0 {
  while b { return i }
  for k in 0 .. 3 { if k == i { return k * 10 } }
  return 6
 } else {
  match e { case Va(): for k in [i, 2] { if k == -5 { return 7 } }
    return 8
   case Vb(x): g := fn(z: int) int { if z > x { return z } else { return x } }
    return g(i)
   case Vc(p, y): return p ? y : 9
  }
 }
}
`+mainOf(2, 2, `vxObs(1, f(a0, p0, Va()))
vxObs(2, f(a0, p0, Vb(a1)))
vxObs(3, f(a0, p0, Vc(p1, a1)))`), func(r *Ref) {
		c, i, y, b, p := r.C, r.Int(0), r.Int(1), r.BoolIn(0), r.BoolIn(1)
		k := r.K
		for n := 1; n <= 3; n++ {
			switch {
			case r.If(c.Slt(k(100), i)):
				switch {
				case r.If(b):
					r.ObsN(n, 1)
				case n == 1:
					r.ObsN(n, 2)
				case n == 2:
					r.Obs(n, c.Add(y, k(3)))
				case r.If(p):
					r.Obs(n, y)
				case r.If(c.Slt(k(7), y)):
					r.ObsN(n, 4)
				default:
					r.ObsN(n, 5)
				}
			case r.If(c.Slt(k(0), i)):
				switch {
				case r.If(b):
					r.Obs(n, i)
				case r.If(c.Slt(i, k(3))):
					r.Obs(n, c.Mul(i, k(10)))
				default:
					r.ObsN(n, 6)
				}
			case n == 1:
				if r.If(c.Eq(i, k(-5))) {
					r.ObsN(n, 7)
				} else {
					r.ObsN(n, 8)
				}
			case n == 2:
				r.Obs(n, c.Ite(c.Slt(y, i), i, y))
			default:
				r.Obs(n, c.Ite(p, y, k(9)))
			}
		}
	}))
	return ps
}
