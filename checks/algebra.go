package checks

import (
	"fmt"

	"verif/engine/clara"
)

// algebra covers the expression shapes an algebraic simplification or instruction selection could single out: literals on
// either side at both levels (equal and different), repeated variables, and a literal next to a nested operator.
func algebra(prefix string, outer, inner []string, lits []int64) []*clara.Probe {
	var out []*clara.Probe
	a, b := V("a0", 0), V("a1", 1)
	zero := func(op string, x *X, n int64) bool { return (op == "/" || op == "mod") && n == 0 }
	shift := func(op string, n int64) bool { return (op == "<<" || op == ">>") && (n < 0 || n > 62) }
	for _, p := range outer {
		var es []*X
		es = append(es, B(p, a, a), B(p, b, U("-", b)), B(p, U("-", a), a), B(p, a, U("-", b)), B(p, U("-", a), U("-", b)), B(p, U("~", a), a))
		for _, q := range inner {
			es = append(es, B(p, B(q, a, b), b), B(p, B(q, a, b), a), B(p, a, B(q, a, b)), B(p, b, B(q, a, b)), B(p, B(q, a, b), B(q, a, b)), B(p, B(q, a, b), B(q, b, a)))
			for i, k := range lits {
				l := lits[(i*3+1)%len(lits)]
				for _, m := range []int64{k, l} {
					if !zero(p, nil, m) && !shift(p, m) && !zero(q, nil, k) && !shift(q, k) {
						es = append(es, B(p, B(q, a, L(k)), L(m)))
					}
					if !zero(p, nil, m) && !shift(p, m) && !shift(q, 0) {
						es = append(es, B(p, B(q, L(k), b), L(m)))
					}
					if !zero(q, nil, m) && !shift(q, m) {
						es = append(es, B(p, L(k), B(q, a, L(m))))
					}
				}
			}
		}
		for i := 0; i < len(es); i += 16 {
			out = append(out, exprProbe(fmt.Sprintf("%s-%s-%d", prefix, opName(p), i/16), shapeDecls, shapeBody(2), vars(2), es[i:min(i+16, len(es))], (*X).Full))
		}
	}
	return out
}
