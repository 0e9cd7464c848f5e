package checks

import (
	"fmt"
	"strings"

	"verif/engine/clara"
	"verif/engine/term"
)

// ctxProbes evaluates op(a0, a1) in every syntactic position an expression can take, with other values
// held live around it (earlier and later arguments, fields, elements, pending operands).
func ctxProbes(prefix string, ops []string) []*clara.Probe {
	var out []*clara.Probe
	for _, op := range ops {
		op := op
		var e *X
		switch op {
		case "-u", "~", "not":
			e = U(strings.TrimSuffix(op, "u"), V("a0", 0))
			if op == "not" {
				e = U("not", B("<", V("a0", 0), V("a1", 1)))
			}
		case "and", "or":
			e = B(op, B("<", V("a0", 0), V("a1", 1)), B("==", V("a1", 1), V("a2", 2)))
		case "?":
			e = Q(B("<", V("a0", 0), V("a1", 1)), V("a1", 1), V("a2", 2))
		default:
			e = B(op, V("a0", 0), V("a1", 1))
		}
		es := e.Full()
		T := "int"
		obs := "vxObs"
		if e.Bool {
			T, obs = "bool", "vxObsB"
		}
		// ---- as argument number j of an n-argument function
		for j := 0; j < 6; j++ {
			j := j
			var ps, as, body []string
			for i := 0; i < 6; i++ {
				t, o := "int", "vxObs"
				a := fmt.Sprintf("a%d", i+2)
				if i == j {
					t, o, a = T, obs, es
				}
				ps = append(ps, fmt.Sprintf("q%d: %s", i, t))
				as = append(as, a)
				body = append(body, fmt.Sprintf("    %s(%d, q%d)", o, 10+i, i))
			}
			src := fmt.Sprintf("fn f(%s) {\n%s\n}\n", strings.Join(ps, ", "), strings.Join(body, "\n"))
			src += fmt.Sprintf("struct s {\n    %s\n}\n", strings.Join(ps, "\n    "))
			m := fmt.Sprintf("f(%s)\n", strings.Join(as, ", "))
			m += fmt.Sprintf("v := S(%s)\n", strings.Join(as, ", "))
			for i := 0; i < 6; i++ {
				o := "vxObs"
				if i == j {
					o = obs
				}
				m += fmt.Sprintf("%s(%d, v.q%d)\n", o, 20+i, i)
			}
			n := 2
			if j < 5 {
				// enum case of five fields, and a function value of five arguments
				src += fmt.Sprintf("enum en {\n    C(%s)\n    D()\n}\n", strings.Join(ps[:5], ", "))
				src += fmt.Sprintf("fn g(%s) {\n%s\n}\n", strings.Join(ps[:5], ", "), strings.Join(body[:5], "\n"))
				m += fmt.Sprintf("h := g\nh(%s)\n", strings.Join(as[:5], ", "))
				m += fmt.Sprintf("match C(%s) {\n case C(w0, w1, w2, w3, w4):\n", strings.Join(as[:5], ", "))
				for i := 0; i < 5; i++ {
					o := "vxObs"
					if i == j {
						o = obs
					}
					m += fmt.Sprintf("  %s(%d, w%d)\n", o, 20+i, i)
				}
				m += " case D():\n  vxObs(99, 0)\n}\n"
				n = 4
			}
			out = append(out, &clara.Probe{Name: fmt.Sprintf("%s-%s-arg%d", prefix, opName(op), j), Src: src + mainOf(8, 0, m), Oracle: clara.Oracle(func(r *Ref) {
				guard(r, e)
				for k := 0; k < n; k++ {
					lim := 6
					if k >= 2 {
						lim = 5
					}
					for i := 0; i < lim; i++ {
						key := 10 + i
						if k == 1 || k == 3 {
							key = 20 + i
						}
						if i == j {
							obsX(r, key, e)
						} else {
							r.Obs(key, r.Int(i+2))
						}
					}
				}
			})})
		}
		// ---- every other position
		src := fmt.Sprintf(`
fn er(a0: int, a1: int, a2: int) %s = %s
fn br(a0: int, a1: int, a2: int) %s {
    return %s
}
fn id(x: %s) %s = x
struct bx {
    p: int
    v: %s
    q: int
}
struct ty {
    v: %s
}
fn dn(x: %s, k: int) %s = x
`, T, es, T, es, T, T, T, T, T, T)
		type row struct {
			code string
			n    int // number of observations of the value
		}
		rows := []row{
			{fmt.Sprintf("x := %s\n%s(100, x)", es, obs), 1},
			{fmt.Sprintf("x = id(%s)\n%s(100, x)", es, obs), 1},
			{fmt.Sprintf("%s(100, er(a0, a1, a2))\n%s(100, br(a0, a1, a2))", obs, obs), 2},
			{fmt.Sprintf("b := Bx(1, x, 2)\nb.v = %s\n%s(100, b.v)", es, obs), 1},
			{fmt.Sprintf("c := Ty(%s)\n%s(100, c.v)\n%s(100, Ty(%s).v)", es, obs, obs, es), 2},
			{fmt.Sprintf("xs := [x, %s, x, %s]\n%s(100, xs[1])\n%s(100, xs[3])", es, es, obs, obs), 2},
			{fmt.Sprintf("xs[2] = %s\n%s(100, xs[2])", es, obs), 1},
			{fmt.Sprintf("%s(100, a0 == a0 ? %s : x)", obs, es), 1},
			{fmt.Sprintf("%s(100, a0 < a0 ? x : %s)", obs, es), 1},
			{fmt.Sprintf("k := fn() %s {\n return %s\n}\n%s(100, k())", T, es, obs), 1},
			{fmt.Sprintf("k2 := fn(a0: int) %s = %s\n%s(100, k2(a0))", T, es, obs), 1},
			{fmt.Sprintf("%s(100, %s.dn(3))", obs, paren(es)), 1},
			{fmt.Sprintf("z := %s\nif true {\n z = %s\n}\n%s(100, z)", es, es, obs), 1},
			{fmt.Sprintf("for i in 0 .. 2 {\n z = %s\n %s(100, z)\n}", es, obs), 2},
		}
		if !e.Bool {
			rows = append(rows,
				row{fmt.Sprintf("vxObs(101, a3 + %s * a4 - a5)", es), -1},
				row{fmt.Sprintf("vxObs(102, (a3 - (a4 + %s)))", es), -2},
				row{fmt.Sprintf("vxObsB(103, %s < a3)\nvxObsB(104, a3 == %s)", es, es), -3})
		} else {
			rows = append(rows,
				row{fmt.Sprintf("vxObsB(103, %s and a3 < a4)\nvxObsB(104, not %s or a3 < a4)", es, es), -4},
				row{fmt.Sprintf("if %s {\n vxObs(105, 1)\n}\nelse {\n vxObs(105, 2)\n}\nvxObs(105, %s ? 1 : 2)", es, es), -5})
		}
		m := ""
		for _, r := range rows {
			m += r.code + "\n"
		}
		m += "vxObs(120, a0)\nvxObs(121, a1)"
		pb := &clara.Probe{Name: fmt.Sprintf("%s-%s-places", prefix, opName(op)), Src: src + mainOf(6, 0, m), Oracle: clara.Oracle(func(r *Ref) {
			c := r.C
			guard(r, e)
			v := func() *term.T { return e.Eval(r.Out) }
			for _, w := range rows {
				switch w.n {
				case -1:
					r.Obs(101, c.Sub(c.Add(r.Int(3), c.Mul(v(), r.Int(4))), r.Int(5)))
				case -2:
					r.Obs(102, c.Sub(r.Int(3), c.Add(r.Int(4), v())))
				case -3:
					r.ObsB(103, c.Slt(v(), r.Int(3)))
					r.ObsB(104, c.Eq(v(), r.Int(3)))
				case -4:
					r.ObsB(103, c.And(v(), c.Slt(r.Int(3), r.Int(4))))
					r.ObsB(104, c.Or(c.Not(v()), c.Slt(r.Int(3), r.Int(4))))
				case -5:
					t := c.Ite(v(), r.K(1), r.K(2))
					r.Obs(105, t)
					r.Obs(105, t)
				default:
					for i := 0; i < w.n; i++ {
						obsX(r, 100, e)
					}
				}
			}
			r.Obs(120, r.Int(0))
			r.Obs(121, r.Int(1))
		})}
		out = append(out, pb)
	}
	return out
}

func paren(s string) string {
	if strings.HasPrefix(s, "(") {
		return s
	}
	return "(" + s + ")"
}

func obsX(r *Ref, k int, e *X) {
	if e.Bool {
		r.ObsB(k, e.Eval(r.Out))
	} else {
		r.Obs(k, e.Eval(r.Out))
	}
}

// guard leaves out the inputs for which the expression is unspecified.
func guard(r *Ref, e *X) {
	d := e.defined(r.Out)
	if !r.If(d) {
		r.Skip()
	}
}
