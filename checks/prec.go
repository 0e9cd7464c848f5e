package checks

import (
	"fmt"

	"verif/engine/clara"
	"verif/engine/term"
)

// The documented precedence, written independently of the compiler's table.
var precOf = map[string]int{
	"*": 10, "/": 10, "+": 9, "-": 9, "<<": 8, ">>": 8, "<": 7, "<=": 7, ">": 7, ">=": 7, "==": 6,
	"&": 5, "^": 4, "|": 3, "and": 2, "or": 1, "?": 1,
}

func (x *X) prec() int {
	switch {
	case x.Op == "":
		return 100
	case x.Op == "mod":
		return 100
	case len(x.A) == 1:
		if x.Op == "-" {
			return 9
		}
		return 11
	}
	return precOf[x.Op]
}

// Min renders with the fewest parentheses the precedence order allows.
func (x *X) Min() string { return x.min(" ") }

// Tight renders likewise without spaces around symbolic operators.
func (x *X) Tight() string { return x.min("") }

func (x *X) min(sp string) string {
	par := func(y *X, p int) string {
		s := y.min(sp)
		if y.prec() < p {
			return "(" + s + ")"
		}
		return s
	}
	switch {
	case x.Op == "":
		return x.Src
	case x.Op == "?":
		// the condition is a binary operand on the left (equal precedence groups left), the
		// else branch extends to the right
		c := par(x.A[0], 1)
		if x.A[0].Op == "?" {
			c = "(" + x.A[0].min(sp) + ")"
		}
		return c + " ? " + x.A[1].min(sp) + " : " + x.A[2].min(sp)
	case len(x.A) == 1:
		p := 11
		if x.Op == "-" {
			p = 10
		}
		a := x.A[0]
		s := par(a, p)
		if len(a.A) == 1 && a.prec() >= p && a.Op == "-" {
			s = "(" + a.min(sp) + ")"
		}
		if x.Op == "not" {
			return "not " + s
		}
		return x.Op + s
	}
	p := x.prec()
	l, r := par(x.A[0], p), par(x.A[1], p+1)
	// a prefix minus extends over multiplication, and a conditional to the right: keep them apart
	if x.A[0].hasLoose() && x.A[0].prec() >= p && x.A[0].Op != "" {
		l = "(" + x.A[0].min(sp) + ")"
	}
	if len(x.A[1].A) == 1 && x.A[1].Op == "-" {
		r = "(" + x.A[1].min(sp) + ")"
	}
	if x.Op == "and" || x.Op == "or" {
		return l + " " + x.Op + " " + r
	}
	switch x.Op {
	case "&", "|", "^", "==":
		sp = " " // an identifier may not touch these
	}
	return l + sp + x.Op + sp + r
}

// hasLoose: the rightmost operand is a prefix minus (only ambiguous before * and /) or a conditional.
func (x *X) hasLoose() bool {
	if x.Op == "?" {
		return true
	}
	return false
}

func init() {
	register(&Check{ID: "C05", NoTwins: true,
		Bounds: []string{"all well-typed pairs of binary operators in both groupings, prefix ~, not and - before and after every operator, ?: against every operator, selections and calls against every operator; all operand values",
			"thorough: all well-typed triples of int operators in all five groupings"},
		Assumptions: stdAssume,
		Probes: func(th bool) []*clara.Probe {
			var out []*clara.Probe
			ints := []string{"*", "/", "+", "-", "<<", ">>", "&", "^", "|"}
			rels := []string{"<", "<=", ">", ">=", "=="}
			bools := []string{"and", "or"}
			a, b, c, d := V("a0", 0), V("a1", 1), V("a2", 2), V("a3", 3)
			add := func(name string, n int, es []*X) {
				for i := 0; i*chunk < len(es); i++ {
					part := es[i*chunk : min(i*chunk+chunk, len(es))]
					out = append(out, exprProbe(fmt.Sprintf("%s-%d", name, i), shapeDecls, shapeBody(n), vars(n), part, (*X).Min))
					out = append(out, exprProbe(fmt.Sprintf("%s-%d-tight", name, i), shapeDecls, shapeBody(n), vars(n), part, (*X).Tight))
				}
			}
			for _, p := range ints {
				var es []*X
				for _, q := range ints {
					es = append(es, B(q, B(p, a, b), c), B(p, a, B(q, b, c)))
				}
				add("int-"+opName(p), 3, es)
			}
			for _, p := range rels {
				var es []*X
				for _, q := range ints {
					es = append(es, B(p, B(q, a, b), c), B(p, a, B(q, b, c)))
				}
				for _, q := range bools {
					for _, r := range rels {
						es = append(es, B(q, B(p, a, b), B(r, b, c)))
					}
				}
				add("rel-"+opName(p), 3, es)
			}
			// prefix operators against everything
			var es []*X
			for _, q := range ints {
				es = append(es, B(q, U("~", a), b), B(q, a, U("~", b)), U("~", B(q, a, b)), B(q, a, U("-", b)))
				if q != "/" && q != "*" {
					es = append(es, B(q, U("-", a), b), U("-", B(q, a, b)))
				}
			}
			for _, q := range rels {
				es = append(es, B(q, U("~", a), b), B(q, U("-", a), b), B(q, a, U("~", b)), U("not", B(q, a, b)))
			}
			es = append(es, U("~", U("~", a)), U("~", U("-", a)), U("-", U("~", a)))
			add("prefix", 2, es)
			// selection, indexing and calls bind tighter than any operator
			sel := []*X{V("s0.x", 0), V("r1[1]", 1), V("same(a2)", 2), V("a3.same()", 3)}
			es = nil
			for i, q := range append(append([]string{}, ints...), rels...) {
				x, y := sel[i%4], sel[(i+1)%4]
				es = append(es, B(q, x, y), B(q, y, x))
			}
			for _, x := range sel {
				es = append(es, U("~", x), U("-", x))
			}
			es = append(es, V("s0.x.same()", 0), U("-", V("s0.x.same()", 0)), V("[a0, a1][1].same()", 1), V("second(a0, a1).same()", 1))
			add("select", 4, es)
			// booleans
			body := "    p0 := vxBool(0)\n    p1 := vxBool(1)\n    p2 := vxBool(2)\n    p3 := vxBool(3)\n" + shapeBody(4)
			pv := []*X{P("p0", 0), P("p1", 1), P("p2", 2), P("p3", 3)}
			p, q, r, s := pv[0], pv[1], pv[2], pv[3]
			es = nil
			for _, o1 := range bools {
				for _, o2 := range bools {
					es = append(es, B(o1, B(o2, p, q), r), B(o1, p, B(o2, q, r)))
					for _, o3 := range bools {
						es = append(es, B(o1, B(o2, p, q), B(o3, r, s)), B(o1, B(o2, B(o3, p, q), r), s), B(o1, p, B(o2, B(o3, q, r), s)))
					}
				}
				es = append(es, B(o1, U("not", p), q), B(o1, p, U("not", q)), U("not", B(o1, p, q)), B(o1, U("not", P("sameB(p0)", 0)), P("p1.sameB()", 1)))
			}
			for i := 0; i*16 < len(es); i++ {
				out = append(out, exprProbe(fmt.Sprintf("bool-%d", i), shapeDecls, body, pv, es[i*16:min(len(es), i*16+16)], (*X).Min))
			}
			// conditionals against every operator: only the chosen branch runs, so paths fork
			es = nil
			for _, o1 := range append(append([]string{}, ints...), rels...) {
				var x []*X
				if boolOps[o1] {
					x = []*X{Q(B(o1, a, b), c, d), Q(p, B(o1, a, b), q), Q(p, q, B(o1, a, b))}
				} else {
					x = []*X{Q(p, B(o1, a, b), c), Q(p, c, B(o1, a, b)), B(o1, Q(p, a, b), c), B(o1, c, Q(p, a, b))}
				}
				out = append(out, ternProbe("tern-"+opName(o1), body, x))
			}
			for i, x := range [][]*X{
				{Q(p, a, Q(q, b, c))}, {Q(p, Q(q, a, b), c)}, {Q(Q(p, q, r), a, b)},
				{Q(B("or", p, q), a, b)}, {Q(B("and", p, q), a, b)}, {Q(U("not", p), a, b)},
				{Q(p, q, B("or", r, s))}, {Q(p, B("or", q, r), s)}, {B("or", Q(p, q, r), s)}, {B("or", p, Q(q, r, s))}, {Q(B("or", p, q), r, B("and", s, p))},
				{Q(p, a, Q(q, b, Q(r, c, d)))},
			} {
				out = append(out, ternProbe(fmt.Sprintf("tern-chain-%d", i), body, x))
			}
			if th {
				for _, p := range ints {
					var es []*X
					for _, q := range ints {
						for _, r := range ints {
							es = append(es, B(p, B(q, B(r, a, b), c), d), B(p, B(q, a, B(r, b, c)), d), B(p, B(q, a, b), B(r, c, d)), B(p, a, B(q, B(r, b, c), d)), B(p, a, B(q, b, B(r, c, d))))
						}
					}
					n := len(out)
					add("triple-"+opName(p), 4, es)
					for _, x := range out[n:] {
						x.Thorough = true
					}
				}
			}
			return out
		}})
}

// ternProbe checks expressions containing ?:, one value each.
func ternProbe(name, body string, es []*X) *clara.Probe {
	src := shapeDecls + "fn main() {\n" + body
	for i, e := range es {
		src += obsOf(i, e.Min(), e.Bool)
	}
	src += "}\n"
	return &clara.Probe{Name: name, Src: src, MaxPaths: 3000, Oracle: func(o *clara.Out) *term.T {
		c := o.C
		if !o.Returned() {
			r := c.False
			for _, e := range es {
				for _, d := range e.divisors(o) {
					r = c.Or(r, c.Eq(d, c.BV(0, 63)))
				}
			}
			return r
		}
		if len(o.Evs) != len(es) {
			return c.False
		}
		r := c.True
		for i, e := range es {
			w := o.I(i, c.BV(0, 63))
			if e.Bool {
				w = o.B(i, e.Eval(o))
			} else {
				w = o.I(i, e.Eval(o))
			}
			r = c.And(r, c.Implies(e.defined(o), c.Eq(o.Evs[i].V[0], w.V)))
		}
		return r
	}}
}

const chunk = 14
