package checks

import (
	"fmt"

	"verif/engine/clara"
	"verif/engine/term"
)

func ttrue(o *clara.Out) *term.T  { return o.C.True }
func tfalse(o *clara.Out) *term.T { return o.C.False }

// condProbes uses comparison and boolean results as conditions.
func condProbes(cmps []string) []*clara.Probe {
	var out []*clara.Probe
	a, b, c := V("a0", 0), V("a1", 1), V("a2", 2)
	conds := map[string]*X{}
	var names []string
	add := func(n string, x *X) { conds[n] = x; names = append(names, n) }
	for _, op := range cmps {
		add(opName(op), B(op, a, b))
	}
	add("not", U("not", B("<", a, b)))
	add("and", B("and", B("<", a, b), B("<", b, c)))
	add("or", B("or", B("==", a, b), B(">", a, c)))
	add("bool", P("p0", 0))
	add("notbool", U("not", P("p0", 0)))
	add("mix", B("or", B("and", P("p0", 0), B("<=", a, b)), U("not", P("p1", 1))))
	for _, n := range names {
		x := conds[n]
		src := "fn main() {\n    a0 := vxInt(0)\n    a1 := vxInt(1)\n    a2 := vxInt(2)\n    p0 := vxBool(0)\n    p1 := vxBool(1)\n" +
			fmt.Sprintf("    if %s {\n        vxObs(1, 10)\n    } else {\n        vxObs(1, 20)\n    }\n", x.Full()) +
			fmt.Sprintf("    if p1 {\n        vxObs(2, 10)\n    } elseif %s {\n        vxObs(2, 20)\n    } else {\n        vxObs(2, 30)\n    }\n", x.Full()) +
			fmt.Sprintf("    vxObs(3, %s ? 10 : 20)\n", x.Full()) +
			fmt.Sprintf("    n := 0\n    while %s and n < 2 {\n        n = n + 1\n    }\n    vxObs(4, n)\n", x.Full()) +
			fmt.Sprintf("    b := %s\n    if b {\n        vxObs(5, 10)\n    }\n    vxObsB(6, b)\n}\n", x.Full())
		out = append(out, &clara.Probe{Name: "cond-" + n, Src: src, MinPaths: 2, Oracle: func(o *clara.Out) *term.T {
			t := x.Eval(o)
			k := o.C
			ite := func(g *term.T, y, z int64) *term.T { return k.Ite(g, k.BV(uint64(y), 63), k.BV(uint64(z), 63)) }
			want := []clara.KV{o.I(1, ite(t, 10, 20)), o.I(2, k.Ite(o.BoolIn(1), k.BV(10, 63), ite(t, 20, 30))), o.I(3, ite(t, 10, 20)), o.I(4, ite(t, 2, 0))}
			w2 := append(append([]clara.KV{}, want...), o.B(6, t))
			w1 := append(append([]clara.KV{}, want...), o.N(5, 10), o.B(6, t))
			return k.Or(k.And(t, o.Ret(w1...)), k.And(k.Not(t), o.Ret(w2...)))
		}})
	}
	return out
}
