package checks

import (
	"fmt"

	"verif/engine/clara"
)

const shapeDecls = `
struct box {
    w: int
    x: int
}
fn same(v: int) int = v
fn second(u: int, v: int) int { return v }
fn sameB(v: bool) bool = v
`

// shapes of an int operand holding input k; vars a0,a1,.. and the aggregates are set up in body.
func shapeBody(n int) string {
	s := ""
	for k := 0; k < n; k++ {
		s += fmt.Sprintf("    a%d := vxInt(%d)\n    s%d := Box(7, a%d)\n    r%d := [3, a%d, 5]\n", k, k, k, k, k, k)
	}
	return s
}

func shapes(k int) []*X {
	return []*X{
		V(fmt.Sprintf("a%d", k), k),
		V(fmt.Sprintf("same(a%d)", k), k),
		V(fmt.Sprintf("second(9, a%d)", k), k),
		V(fmt.Sprintf("s%d.x", k), k),
		V(fmt.Sprintf("r%d[1]", k), k),
	}
}

func vars(n int) []*X {
	var r []*X
	for k := 0; k < n; k++ {
		r = append(r, V(fmt.Sprintf("a%d", k), k))
	}
	return r
}

// pairProbes applies one operator to every pair of operand shapes, and to literals.
func pairProbes(prefix string, op string, lits []int64) []*clara.Probe {
	var out []*clara.Probe
	for i, l := range shapes(0) {
		var es []*X
		for _, r := range shapes(1) {
			es = append(es, B(op, l, r))
		}
		out = append(out, exprProbe(fmt.Sprintf("%s-shape%d", prefix, i), shapeDecls, shapeBody(2), vars(2), es, (*X).Full))
	}
	var es []*X
	for _, n := range lits {
		if op != "/" && op != "mod" && op != "<<" && op != ">>" || n > 0 {
			es = append(es, B(op, V("a0", 0), L(n)))
		}
		es = append(es, B(op, L(n), V("a1", 1)))
	}
	out = append(out, exprProbe(prefix+"-literals", shapeDecls, shapeBody(2), vars(2), es, (*X).Full))
	return out
}

func nested(prefix string, ops, with []string) []*clara.Probe {
	var out []*clara.Probe
	a, b, c, d := V("a0", 0), V("a1", 1), V("same(a2)", 2), V("a3", 3)
	for _, p := range ops {
		var es []*X
		for _, q := range with {
			es = append(es, B(p, B(q, a, b), c), B(p, a, B(q, b, c)))
			if q == "+" || q == "-" || q == "|" || q == "^" {
				es = append(es, B(p, B(q, a, c), B(q, b, d)))
			}
		}
		out = append(out, exprProbe(prefix+"-"+opName(p), shapeDecls, shapeBody(4), vars(4), es, (*X).Full))
	}
	return out
}

func opName(op string) string {
	m := map[string]string{"+": "add", "-": "sub", "*": "mul", "/": "div", "&": "band", "|": "bor", "^": "xor", "<<": "shl", ">>": "shr", "<": "lt", "<=": "le", ">": "gt", ">=": "ge", "==": "eq", "~": "bnot", "?": "tern"}
	if n, ok := m[op]; ok {
		return n
	}
	return op
}

func rawTwins(ps []*clara.Probe) []*clara.Probe {
	var out []*clara.Probe
	for _, p := range ps {
		q := *p
		q.Name += "-raw"
		q.Raw = true
		out = append(out, &q)
	}
	return out
}

func init() {
	engineAssumptions := stdAssume
	register(&Check{ID: "C01", NoTwins: true,
		Bounds:      []string{"operands: all 63-bit values", "expression depth up to 4, 5 operand shapes (variable, call result, 2-argument call result, field, array element), literal operands", "division by zero excluded"},
		Assumptions: engineAssumptions,
		Probes: func(th bool) []*clara.Probe {
			var out []*clara.Probe
			lits := []int64{0, 1, 2, 3, 7, 10, 127, 128, 255, 1000, 65536, 2147483647, 2147483648, 4294967295, 4294967296, 1<<61 + 12345, 1<<62 - 1}
			for _, op := range []string{"+", "-", "*", "/", "mod"} {
				out = append(out, pairProbes(opName(op), op, lits)...)
			}
			// unary minus on every shape, doubled, and mixed with binary operators
			var es []*X
			for _, s := range shapes(0) {
				es = append(es, U("-", s), U("-", U("-", s)), B("-", s, U("-", V("a1", 1))), B("*", U("-", s), V("a1", 1)))
			}
			out = append(out, exprProbe("neg", shapeDecls, shapeBody(2), vars(2), es, (*X).Full))
			ops := []string{"+", "-", "*", "/", "mod"}
			out = append(out, nested("nest", ops, ops)...)
			out = append(out, deep("deep", []string{"+", "-", "*"}, th)...)
			raw := []*clara.Probe{out[0], out[6], out[12]}
			if th {
				raw = out[:len(out)-3]
			}
			out = append(out, rawTwins(raw)...)
			out = append(out, ctxProbes("in", []string{"+", "-", "*", "/", "mod", "-u"})...)
			out = append(out, algebra("alg", ops, ops, []int64{1, 2, 8, 10, -1, 0, -4})...)
			return out
		}})
	register(&Check{ID: "C02", NoTwins: true,
		Bounds:      []string{"operands: all 63-bit values", "shift counts 0..62 (all of them)", "expression depth up to 4, 5 operand shapes, literal operands"},
		Assumptions: engineAssumptions,
		Probes: func(th bool) []*clara.Probe {
			var out []*clara.Probe
			lits := []int64{0, 1, 2, 5, 8, 31, 32, 47, 62, 255, 0xffff, 0xffffffff, 1<<62 - 1}
			for _, op := range []string{"&", "|", "^", "<<", ">>"} {
				out = append(out, pairProbes(opName(op), op, lits)...)
			}
			var es []*X
			for _, s := range shapes(0) {
				es = append(es, U("~", s), U("~", U("~", s)), B("&", s, U("~", V("a1", 1))), U("-", U("~", s)), U("~", U("-", s)))
			}
			out = append(out, exprProbe("bnot", shapeDecls, shapeBody(2), vars(2), es, (*X).Full))
			ops := []string{"&", "|", "^", "<<", ">>"}
			out = append(out, nested("nest", ops, append([]string{"+", "-", "*"}, ops...))...)
			out = append(out, nested("nest-arith", []string{"+", "-"}, ops)...)
			// a product of shifted values is beyond the solver; products of masked ones are not
			out = append(out, nested("nest-arith", []string{"*"}, []string{"&", "|", "^"})...)
			out = append(out, deep("deep", []string{"&", "|", "^"}, th)...)
			raw := []*clara.Probe{out[0], out[6], out[12]}
			if th {
				raw = out[:31]
			}
			out = append(out, rawTwins(raw)...)
			out = append(out, ctxProbes("in", []string{"&", "|", "^", "<<", ">>", "~"})...)
			out = append(out, algebra("alg", ops, append([]string{"+", "-"}, ops...), []int64{1, 2, 3, 8, 31, 32, 0, 62, 255, -1})...)
			return out
		}})
	register(&Check{ID: "C03", NoTwins: true,
		Bounds:      []string{"operands: all 63-bit values and both bools", "expression depth up to 4, 5 operand shapes, literal operands", "conditions of if, elseif, while and ?:"},
		Assumptions: engineAssumptions,
		Probes: func(th bool) []*clara.Probe {
			var out []*clara.Probe
			lits := []int64{0, 1, 2, 1024, 2147483647, 2147483648, 1<<62 - 1}
			cmps := []string{"<", "<=", ">", ">=", "=="}
			for _, op := range cmps {
				out = append(out, pairProbes(opName(op), op, lits)...)
			}
			out = append(out, boolProbes()...)
			a, b, c := V("a0", 0), V("a1", 1), V("same(a2)", 2)
			for _, op := range cmps {
				var es []*X
				for _, q := range []string{"+", "-", "*", "&", "|", "^"} {
					es = append(es, B(op, B(q, a, b), c), B(op, a, B(q, b, c)))
				}
				es = append(es, U("not", B(op, a, b)), B("and", B(op, a, b), B(op, b, c)), B("or", B(op, a, b), U("not", B(op, b, c))))
				out = append(out, exprProbe("nest-"+opName(op), shapeDecls, shapeBody(3), vars(3), es, (*X).Full))
			}
			out = append(out, condProbes(cmps)...)
			raw := []*clara.Probe{out[0], out[6], out[12], out[18], out[24]}
			if th {
				raw = out[:31]
			}
			out = append(out, rawTwins(raw)...)
			out = append(out, algebra("alg", cmps, []string{"+", "-", "&", "*"}, []int64{0, 1, 2, -1, 1024, 1<<62 - 1})...)
			out = append(out, ctxProbes("in", []string{"<", "<=", ">", ">=", "==", "and", "or", "not", "?"})...)
			return out
		}})
}

var stdAssume = []string{
	"the emitted assembly is executed with this framework's x86-64 semantics (integer subset of the ISA, validated by replaying path witnesses on the native binary)",
	"gcc assembles the emitted text as written; the C runtime is executed from gcc -O0 assembly",
	"calloc succeeds below 4 MB and returns fresh zeroed 16-byte-aligned memory; libc functions meet their documented contracts",
	"the runtime's debug() logging is off (a no-op)",
}

// deep builds larger expression trees mixing shapes.
func deep(prefix string, ops []string, th bool) []*clara.Probe {
	var es []*X
	sh0, sh1, sh2, sh3 := shapes(0), shapes(1), shapes(2), shapes(3)
	n := 6
	if th {
		n = 25
	}
	for i := 0; i < n; i++ {
		p, q, r := ops[i%len(ops)], ops[(i/2)%len(ops)], ops[(i/3+1)%len(ops)]
		w, x, y, z := sh0[i%5], sh1[(i+1)%5], sh2[(i+2)%5], sh3[(i+3)%5]
		es = append(es,
			B(p, B(q, B(r, w, x), y), z),
			B(p, w, B(q, x, B(r, y, z))),
			B(p, B(q, w, B(r, x, y)), z),
			B(p, w, B(q, B(r, x, y), z)),
			B(p, B(q, w, x), B(r, y, z)))
	}
	var out []*clara.Probe
	for i := 0; i < len(es); i += 10 {
		out = append(out, exprProbe(fmt.Sprintf("%s-%d", prefix, i/10), shapeDecls, shapeBody(4), vars(4), es[i:min(i+10, len(es))], (*X).Full))
	}
	return out
}

func boolProbes() []*clara.Probe {
	body := "    p0 := vxBool(0)\n    p1 := vxBool(1)\n    p2 := vxBool(2)\n    p3 := vxBool(3)\n"
	pv := []*X{P("p0", 0), P("p1", 1), P("p2", 2), P("p3", 3)}
	p, q, r, s := pv[0], P("sameB(p1)", 1), pv[2], pv[3]
	tr := batom("true", nil)
	tr.Mean = ttrue
	fa := batom("false", nil)
	fa.Mean = tfalse
	var es []*X
	es = append(es, U("not", p), U("not", U("not", p)), U("not", tr), U("not", fa))
	for _, o1 := range []string{"and", "or"} {
		es = append(es, B(o1, p, q), B(o1, p, tr), B(o1, fa, p), B(o1, U("not", p), q), B(o1, p, U("not", q)), U("not", B(o1, p, q)))
	}
	pr := exprProbe("bool-pairs", shapeDecls, body, pv, es, (*X).Full)
	var es2 []*X
	for _, o1 := range []string{"and", "or"} {
		for _, o2 := range []string{"and", "or"} {
			es2 = append(es2, B(o1, B(o2, p, q), r), B(o1, p, B(o2, q, r)))
			for _, o3 := range []string{"and", "or"} {
				es2 = append(es2, B(o1, B(o2, p, q), B(o3, r, s)), B(o1, U("not", B(o2, p, q)), B(o3, r, U("not", s))))
			}
		}
	}
	pr2 := exprProbe("bool-nest", shapeDecls, body, pv, es2, (*X).Full)
	return []*clara.Probe{pr, pr2}
}
