package checks

import (
	"fmt"
	"strings"

	"verif/engine/clara"
	"verif/engine/term"
)

// gcKind is a kind of heap object: its type, an expression making one that holds the int variable v, and
// statements observing that variable o still holds it.
type gcKind struct {
	name, typ, mk, obs string
	n                  int // observations of v
}

var gcKinds = []gcKind{
	{"struct", "pt", "Pt($v)", "vxObs(10, $o.x)", 1},
	{"nested", "nest", "Nest(1, Pt($v), Pt($v))", "vxObs(10, $o.q.x)\nvxObs(10, $o.p.x)", 2},
	{"ints", "[]int", "[$v, $v]", "vxObs(10, $o[1])\nvxObs(10, $o[0])", 2},
	{"objs", "[]pt", "[Pt($v), Pt($v)]", "vxObs(10, $o[0].x)\nvxObs(10, $o[1].x)", 2},
	{"enum", "en", "Two(3, Pt($v))", "match $o {\ncase One(e1):\nvxObs(99, 0)\ncase Two(e2, e3):\nvxObs(10, e3.x)\ncase Three(e4):\nvxObs(99, 0)\n}", 1},
	{"enum3", "en", "Three([Pt($v)])", "match $o {\ncase One(e1):\nvxObs(99, 0)\ncase Two(e2, e3):\nvxObs(99, 0)\ncase Three(e4):\nvxObs(10, e4[0].x)\n}", 1},
	{"closure", "fn() int", "clo($v)", "vxObs(10, $o())", 1},
	{"closurep", "fn() int", "clop(Pt($v))", "vxObs(10, $o())", 1},
	{"bytes", "bytes", "mkb($v)", "vxObs(10, $v - ($v & 0x7f) + $o.get(1))", 1},
	{"option", "option«pt»", "Some(Pt($v))", "vxObs(10, $o.orElse(Pt(0)).x)", 1},
	{"arrays", "[][]int", "[[$v], [$v, $v]]", "vxObs(10, $o[1][1])", 1},
	{"string", "string", "\"ab\".append(\"cd\")", "vxObs(10, $v + $o.length - 4)\nvxObsStr(10, $o)", -1},
}

const gcDecls = `
struct pt {
    x: int
}
struct nest {
    k: int
    p: pt
    q: pt
}
enum en {
    One(n: int)
    Two(n: int, p: pt)
    Three(ps: []pt)
}
fn clo(v: int) fn() int = fn() int = v
fn clop(p: pt) fn() int = fn() int = p.x
fn mkb(v: int) bytes {
    b := Bytes(3)
    b.set(1, v & 0x7f)
    return b
}
// g allocates and drops objects of several sizes, collecting each time
fn g(k: int) int {
    t := Nest(7, Pt(8), Pt(9))
    u := [t.p.x, 2, 3]
    Pt(u[0])
    return k
}
struct hold {
    a: int
    v: TYPE
    w: TYPE
}
fn pass(o: TYPE) TYPE {
    g(0)
    return o
}
fn first(o: TYPE, k: int) TYPE = o
fn mkr(v: int) TYPE {
    o := MKv
    g(0)
    return o
}
fn mke(v: int) TYPE = MKv
fn mks(v: int) []TYPE = [MKv, MKv]
enum box {
    Nope()
    Full(n: int, o: TYPE)
}
enum crate {
    Void()
    Wide(o: TYPE, n: int, p: TYPE, k: int, q: TYPE)
}
struct holds {
    a: TYPE
    b: TYPE
    c: int
    d: TYPE
    e: bool
    f: TYPE
}
fn five(a: TYPE, k: int, b: TYPE, c: TYPE, d: TYPE) TYPE {
    g(k)
    x := [a, b, c, d]
    g(k)
    return x[k]
}
fn six(a: TYPE, b: TYPE, c: TYPE, d: TYPE, e: TYPE, k: int) TYPE {
    g(k)
    x := [a, b, c, d, e]
    g(k)
    return x[k]
}
fn show(o: TYPE, v: int) {
    OBS
}
fn upTo(c: []int, n: int) bool {
    c[0] = c[0] + 1
    return c[0] <= n
}
fn down(o: TYPE, n: int, v: int) {
    if n == 0 {
        g(0)
    } else {
        t := MKv
        down(t, n - 1, v)
        show(t, v)
    }
    g(0)
    show(o, v)
}
`

func (k gcKind) expand(s string) string {
	mk := func(v string) string { return strings.ReplaceAll(k.mk, "$v", v) }
	for i := 9; i >= 0; i-- {
		s = strings.ReplaceAll(s, fmt.Sprintf("MK%d", i), mk(fmt.Sprintf("a%d", i)))
	}
	s = strings.ReplaceAll(s, "MKv", mk("v"))
	s = strings.ReplaceAll(s, "TYPE", k.typ)
	static := "s0"
	if k.name == "string" {
		static = "\"abcd\""
	}
	s = strings.ReplaceAll(s, "STATIC", static)
	return strings.ReplaceAll(s, "OBS", strings.ReplaceAll(strings.ReplaceAll(k.obs, "$o", "o"), "$v", "v"))
}

// seen says the object built from input k is intact.
func (k gcKind) seen(r *Ref, i int) {
	n := k.n
	if n < 0 {
		r.Obs(10, r.Int(i))
		r.ObsS(10, r.Str("abcd"))
		return
	}
	for j := 0; j < n; j++ {
		r.Obs(10, r.Int(i))
	}
}

type gcCtx struct {
	name  string
	body  string
	ints  int
	bools int
	ref   func(r *Ref, s func(i int))
}

var gcCtxs = []gcCtx{
	{name: "local", ints: 2, body: "o := MK0\ng(0)\nshow(o, a0)\no = MK1\ng(1)\nshow(o, a1)",
		ref: func(r *Ref, s func(int)) { s(0); s(1) }},
	{name: "many", ints: 4, body: "o := MK0\np := MK1\ng(0)\nq := MK2\nt := MK3\ng(0)\nshow(o, a0)\nshow(p, a1)\nshow(q, a2)\nshow(t, a3)",
		ref: func(r *Ref, s func(int)) { s(0); s(1); s(2); s(3) }},
	{name: "param", ints: 2, body: "show(pass(MK0), a0)\no := pass(pass(MK1))\ng(0)\nshow(o, a1)",
		ref: func(r *Ref, s func(int)) { s(0); s(1) }},
	{name: "return", ints: 2, body: "show(mkr(a0), a0)\no := mke(a1)\ng(0)\nshow(o, a1)\nfirst(mkr(a0), g(1)).show(a0)",
		ref: func(r *Ref, s func(int)) { s(0); s(1); s(0) }},
	{name: "argument", ints: 2, body: "show(MK0, g(a0))\nshow(first(MK1, g(2)), g(a1))\nshow(first(first(mkr(a0), g(2)), g(3)), a0)",
		ref: func(r *Ref, s func(int)) { s(0); s(1); s(0) }},
	{name: "funcval", ints: 2, body: "f := show\nf(MK0, g(a0))\nh := first\nf(h(MK1, g(2)), g(a1))\nk := fn(o: TYPE, x: int) {\n g(0)\n show(o, x)\n}\nk(MK0, g(a0))",
		ref: func(r *Ref, s func(int)) { s(0); s(1); s(0) }},
	{name: "field", ints: 3, body: "h := Hold(1, MK0, MK1)\ng(0)\nshow(h.v, a0)\nshow(h.w, a1)\nh.v = MK2\ng(0)\nshow(h.v, a2)\nshow(h.w, a1)\nshow(Hold(2, MK0, MK1).w, g(a1))",
		ref: func(r *Ref, s func(int)) { s(0); s(1); s(2); s(1); s(1) }},
	{name: "element", ints: 3, body: "h := [MK0, MK1, MK0]\ng(0)\nshow(h[0], a0)\nshow(h[1], a1)\nh[2] = MK2\ng(0)\nshow(h[2], a2)\nshow(h[1], a1)",
		ref: func(r *Ref, s func(int)) { s(0); s(1); s(2); s(1) }},
	{name: "array-temp", ints: 2, body: "show(mks(a0)[g(1)], a0)\nshow([MK0, MK1][g(1)], a1)\nh := Hold(1, MK0, MK1)\nshow([h, h][g(0)].w, g(a1))",
		ref: func(r *Ref, s func(int)) { s(0); s(1); s(1) }},
	{name: "assign-temp", ints: 2, body: "h := [MK0, MK0]\nh[g(1)] = MK1\ng(0)\nshow(h[0], a0)\nshow(h[1], a1)\nk := [Hold(1, MK0, MK0)]\nk[g(0)].w = mkr(a1)\ng(0)\nshow(k[0].w, a1)\nshow(k[0].v, a0)",
		ref: func(r *Ref, s func(int)) { s(0); s(1); s(1); s(0) }},
	{name: "foreach2", ints: 2, body: "for o in [MK0, MK0] {\n g(0)\n show(o, a0)\n}\nfor o in mks(a1) {\n g(0)\n show(o, a1)\n g(1)\n show(o, a1)\n}\nhs := [MK0, MK0]\nfor o in hs {\n hs[0] = MK1\n hs[1] = MK1\n g(0)\n vxObs(11, 1)\n}\nshow(hs[0], a1)",
		ref: func(r *Ref, s func(int)) {
			s(0)
			s(0)
			s(1)
			s(1)
			s(1)
			s(1)
			r.ObsN(11, 1)
			r.ObsN(11, 1)
			s(1)
		}},
	{name: "foreach-drop", ints: 2, body: "hs := [MK0, MK0]\ni := 0\nfor o in hs {\n hs[i] = MK1\n i = i + 1\n g(0)\n show(o, a0)\n}\nshow(hs[1], a1)",
		ref: func(r *Ref, s func(int)) { s(0); s(0); s(1) }},
	{name: "index-forms", ints: 2, bools: 1, body: "show(mks(a0)[g(0) + 1], a0)\nshow(mks(a0)[2 - g(1)], a0)\nshow(mks(a0)[g(1) * 1], a0)\nshow(mks(a0)[g(3) / 2], a0)\nshow(mks(a0)[g(3) & 1], a0)\nshow(mks(a0)[g(0) | 1], a0)\nshow(mks(a0)[g(0) ^ 1], a0)\nshow(mks(a0)[g(1) << 0], a0)\nshow(mks(a0)[g(2) >> 1], a0)\nshow(mks(a0)[~g(-2)], a0)\nshow(mks(a0)[-g(-1)], a0)\nshow(mks(a0)[p0 ? g(1) : 1], a0)\nshow(mks(a0)[[0, 1][g(1)]], a0)\nshow(mks(a0)[[g(1)][0]], a0)\nshow(mks(a0)[Hold(g(1), MK0, MK1).a], a0)\nshow(mks(a0)[1 + g(g(0))], a0)",
		ref: func(r *Ref, s func(int)) {
			for i := 0; i < 16; i++ {
				s(0)
			}
		}},
	{name: "index-lit-forms", ints: 2, bools: 1, body: "show([MK0, MK1][g(0) + 1], g(a1))\nshow([MK0, MK1][2 - g(1)], g(a1))\nshow([MK0, MK1][g(1) * 1], g(a1))\nshow([MK0, MK1][g(3) / 2], g(a1))\nshow([MK0, MK1][g(3) & 1], g(a1))\nshow([MK0, MK1][g(0) | 1], g(a1))\nshow([MK0, MK1][g(0) ^ 1], g(a1))\nshow([MK0, MK1][g(1) << 0], g(a1))\nshow([MK0, MK1][g(2) >> 1], g(a1))\nshow([MK0, MK1][~g(-2)], g(a1))\nshow([MK0, MK1][-g(-1)], g(a1))\nshow([MK0, MK1][p0 ? g(1) : 1], g(a1))\nshow([MK0, MK1][[0, 1][g(1)]], g(a1))\nshow([MK0, MK1][[g(1)][0]], g(a1))\nshow([MK0, MK1][Hold(g(1), MK0, MK1).a], g(a1))\nshow([MK0, MK1][1 + g(g(0))], g(a1))",
		ref: func(r *Ref, s func(int)) {
			for i := 0; i < 16; i++ {
				s(1)
			}
		}},
	{name: "index-store-forms", ints: 2, bools: 1, body: "h := [MK0, MK0]\nh[g(0) + 1] = MK1\ng(0)\nshow(h[1], a1)\nshow(h[0], a0)\nh[2 - g(1)] = MK0\ng(0)\nshow(h[1], a0)\nshow(h[0], a0)\nh[g(1) * 1] = MK1\ng(0)\nshow(h[1], a1)\nshow(h[0], a0)\nh[g(3) / 2] = MK0\ng(0)\nshow(h[1], a0)\nshow(h[0], a0)\nh[g(3) & 1] = MK1\ng(0)\nshow(h[1], a1)\nshow(h[0], a0)\nh[g(0) | 1] = MK0\ng(0)\nshow(h[1], a0)\nshow(h[0], a0)\nh[g(0) ^ 1] = MK1\ng(0)\nshow(h[1], a1)\nshow(h[0], a0)\nh[g(1) << 0] = MK0\ng(0)\nshow(h[1], a0)\nshow(h[0], a0)\nh[g(2) >> 1] = MK1\ng(0)\nshow(h[1], a1)\nshow(h[0], a0)\nh[~g(-2)] = MK0\ng(0)\nshow(h[1], a0)\nshow(h[0], a0)\nh[-g(-1)] = MK1\ng(0)\nshow(h[1], a1)\nshow(h[0], a0)\nh[p0 ? g(1) : 1] = MK0\ng(0)\nshow(h[1], a0)\nshow(h[0], a0)\nh[[0, 1][g(1)]] = MK1\ng(0)\nshow(h[1], a1)\nshow(h[0], a0)\nh[[g(1)][0]] = MK0\ng(0)\nshow(h[1], a0)\nshow(h[0], a0)\nh[Hold(g(1), MK0, MK1).a] = MK1\ng(0)\nshow(h[1], a1)\nshow(h[0], a0)\nh[1 + g(g(0))] = MK0\ng(0)\nshow(h[1], a0)\nshow(h[0], a0)",
		ref: func(r *Ref, s func(int)) {
			for i := 0; i < 16; i++ {
				s((i + 1) % 2)
				s(0)
			}
		}},
	{name: "arg-forms", ints: 2, bools: 1, body: "show(first(MK1, g(0) + 1), 0 + g(a1))\nshow(first(MK1, 2 - g(1)), 0 + g(a1))\nshow(first(MK1, g(1) * 1), 0 + g(a1))\nshow(first(MK1, g(3) / 2), 0 + g(a1))\nshow(first(MK1, g(3) & 1), 0 + g(a1))\nshow(first(MK1, g(0) | 1), 0 + g(a1))\nshow(first(MK1, g(0) ^ 1), 0 + g(a1))\nshow(first(MK1, g(1) << 0), 0 + g(a1))\nshow(first(MK1, g(2) >> 1), 0 + g(a1))\nshow(first(MK1, ~g(-2)), 0 + g(a1))\nshow(first(MK1, -g(-1)), 0 + g(a1))\nshow(first(MK1, p0 ? g(1) : 1), 0 + g(a1))\nshow(first(MK1, [0, 1][g(1)]), 0 + g(a1))\nshow(first(MK1, [g(1)][0]), 0 + g(a1))\nshow(first(MK1, Hold(g(1), MK0, MK1).a), 0 + g(a1))\nshow(first(MK1, 1 + g(g(0))), 0 + g(a1))",
		ref: func(r *Ref, s func(int)) {
			for i := 0; i < 16; i++ {
				s(1)
			}
		}},
	{name: "branches", ints: 3, bools: 2, body: "o := MK0\nif p0 {\n o := MK1\n g(0)\n show(o, a1)\n if p1 {\n  q := MK2\n  o = q\n  g(0)\n  show(q, a2)\n }\n g(0)\n vxObs(11, 1)\n} else {\n t := MK2\n if p1 {\n  u := MK1\n  g(0)\n  show(u, a1)\n }\n o = t\n g(0)\n}\ng(0)\nz := MK1\ng(0)\nshow(z, a1)\nshow(o, p0 ? a0 : a2)",
		ref: func(r *Ref, s func(int)) {
			p0 := r.If(r.BoolIn(0))
			p1 := r.If(r.BoolIn(1))
			if p0 {
				s(1)
				if p1 {
					s(2)
				}
				r.ObsN(11, 1)
			} else if p1 {
				s(1)
			}
			s(1)
			if p0 {
				s(0)
			} else {
				s(2)
			}
		}},
	{name: "loop", ints: 2, bools: 2, body: "keep := MK0\ni := 0\nwhile i < 3 {\n o := MK1\n if i == 1 and p0 {\n  keep = o\n  t := MK0\n  g(0)\n  show(t, a0)\n }\n elseif p1 {\n  w := MK0\n  g(1)\n  show(w, a0)\n }\n g(0)\n show(o, a1)\n i = i + 1\n}\ng(0)\nshow(keep, p0 ? a1 : a0)",
		ref: func(r *Ref, s func(int)) {
			p0 := r.If(r.BoolIn(0))
			p1 := r.If(r.BoolIn(1))
			for i := 0; i < 3; i++ {
				if i == 1 && p0 || i != 1 && p1 || i == 1 && p1 {
					s(0)
				}
				s(1)
			}
			if p0 {
				s(1)
			} else {
				s(0)
			}
		}},
	{name: "ternary", ints: 2, bools: 1, body: "o := p0 ? MK0 : MK1\ng(0)\nshow(o, p0 ? a0 : a1)\nshow(p0 ? mkr(a0) : mkr(a1), g(p0 ? a0 : a1))",
		ref: func(r *Ref, s func(int)) {
			i := 1
			if r.If(r.BoolIn(0)) {
				i = 0
			}
			s(i)
			s(i)
		}},
	{name: "match", ints: 2, bools: 1, body: "b := Full(4, MK0)\nif p0 {\n b = Full(5, MK1)\n}\ng(0)\nmatch b {\n case Nope():\n  vxObs(99, 0)\n case Full(n, o):\n  g(0)\n  b = Nope()\n  g(0)\n  show(o, p0 ? a1 : a0)\n}\nmatch Full(6, mkr(a0)) {\n case Full(n, o):\n  g(0)\n  show(o, a0)\n case Nope():\n  vxObs(99, 0)\n}",
		ref: func(r *Ref, s func(int)) {
			if r.If(r.BoolIn(0)) {
				s(1)
			} else {
				s(0)
			}
			s(0)
		}},
	{name: "capture", ints: 2, body: "o := MK0\nf := fn(x: int) {\n g(0)\n show(o, x)\n}\no = MK1\ng(0)\nf(a0)\nk := fn() fn(int) {\n t := MK1\n g(0)\n return fn(x: int) {\n  g(0)\n  show(t, x)\n }\n}\nh := k()\ng(0)\nh(a1)\nshow(o, a1)",
		ref: func(r *Ref, s func(int)) { s(0); s(1); s(1) }},
	{name: "recursion", ints: 1, body: "n := vxRange(5, 0, 2)\ndown(MK0, n, a0)\ng(0)",
		ref: func(r *Ref, s func(int)) {
			n := r.Pick(r.Int(5), 0, 2)
			for i := int64(0); i < 2*n+1; i++ {
				s(0)
			}
		}},
	{name: "constructor", ints: 3, body: "h := Hold(g(1), mkr(a0), mkr(a1))\nshow(h.v, a0)\nshow(h.w, a1)\nxs := [mkr(a0), mkr(a1), mkr(a2)]\ng(0)\nshow(xs[0], a0)\nshow(xs[1], a1)\nshow(xs[2], a2)",
		ref: func(r *Ref, s func(int)) { s(0); s(1); s(0); s(1); s(2) }},
	{name: "crowd", ints: 4, body: "o0 := MK0\no1 := MK1\no2 := MK2\no3 := MK3\no4 := MK0\no5 := MK1\no6 := MK2\no7 := MK3\no8 := MK0\no9 := MK1\no10 := MK2\no11 := MK3\no12 := MK0\no13 := MK1\no14 := MK2\no15 := MK3\no16 := MK0\no17 := MK1\ng(0)\nshow(o0, a0)\nshow(o1, a1)\nshow(o2, a2)\nshow(o3, a3)\nshow(o4, a0)\nshow(o5, a1)\nshow(o6, a2)\nshow(o7, a3)\nshow(o8, a0)\nshow(o9, a1)\nshow(o10, a2)\nshow(o11, a3)\nshow(o12, a0)\nshow(o13, a1)\nshow(o14, a2)\nshow(o15, a3)\nshow(o16, a0)\nshow(o17, a1)\n",
		ref: func(r *Ref, s func(int)) {
			for i := 0; i < 18; i++ {
				s(i % 4)
			}
		}},
	{name: "wide", ints: 3, body: "b := Wide(MK0, 4, MK1, 5, MK2)\ng(0)\nmatch b {\ncase Wide(o, n, p, k, q):\ng(0)\nshow(o, a0)\nshow(p, a1)\nshow(q, a2)\nvxObs(11, n + k)\ncase Void():\nvxObs(99, 0)\n}\nh := Holds(MK0, MK1, 3, MK2, true, MK0)\ng(0)\nshow(h.f, a0)\nshow(h.d, a2)\nshow(h.b, a1)\nshow(h.a, a0)",
		ref: func(r *Ref, s func(int)) {
			s(0)
			s(1)
			s(2)
			r.ObsN(11, 9)
			s(0)
			s(2)
			s(1)
			s(0)
		}},
	{name: "params", ints: 4, body: "show(five(MK0, 3, MK1, MK2, MK3), a3)\nshow(five(mkr(a0), g(1), mkr(a1), mkr(a2), mkr(a3)), a1)\nf := five\no := f(MK0, 0, MK1, MK2, MK3)\ng(0)\nshow(o, a0)\nshow(six(MK0, MK1, MK2, MK3, mkr(a0), 3), a3)\nshow(six(mkr(a0), mkr(a1), mkr(a2), mkr(a3), MK1, 4), a1)",
		ref: func(r *Ref, s func(int)) { s(3); s(1); s(0); s(3); s(1) }},
	{name: "captures", ints: 4, body: "o := MK0\np := MK1\nq := MK2\nt := MK3\nk := 7\nf := fn(x: TYPE, n: int, y: TYPE) int {\n g(0)\n show(o, a0)\n show(p, a1)\n show(x, a0)\n g(0)\n show(y, a1)\n return n\n}\no = MK1\np = MK1\nvxObs(11, f(MK0, k, MK1))\nh := fn() {\n g(0)\n show(q, a2)\n show(t, a3)\n vxObs(11, k)\n}\nq = MK0\nt = MK0\ng(0)\nh()\ng(0)\nh()",
		ref: func(r *Ref, s func(int)) {
			s(0)
			s(1)
			s(0)
			s(1)
			r.ObsN(11, 7)
			for i := 0; i < 2; i++ {
				s(2)
				s(3)
				r.ObsN(11, 7)
			}
		}},
	{name: "long", ints: 4, body: "xs := array(37, MK0)\nxs[36] = MK1\nxs[35] = MK2\nxs[17] = MK3\ng(0)\nshow(xs[36], a1)\nshow(xs[35], a2)\nshow(xs[34], a0)\nshow(xs[17], a3)\nys := array(70, MK1)\nys[0] = MK0\nys[69] = MK2\nys[64] = MK3\ng(0)\nshow(ys[0], a0)\nshow(ys[69], a2)\nshow(ys[64], a3)\nshow(ys[68], a1)",
		ref: func(r *Ref, s func(int)) {
			s(1)
			s(2)
			s(0)
			s(3)
			s(0)
			s(2)
			s(3)
			s(1)
		}},
	{name: "pending-choice", ints: 2, bools: 1, body: "s0 := MK0\nshow(p0 ? STATIC : MK0, g(a0))\nshow(p0 ? MK0 : STATIC, g(a0))\nshow(first(p0 ? STATIC : mkr(a0), g(1)), g(a0))\nh := Hold(g(1), p0 ? STATIC : MK0, mkr(a0))\ng(0)\nshow(h.v, a0)\nshow(h.w, a0)\nshow(five(p0 ? STATIC : MK0, g(0), mkr(a1), p0 ? mkr(a1) : MK1, MK1), a0)\nx := [p0 ? STATIC : MK0, mkr(a0)]\ng(0)\nshow(x[0], a0)\nf := show\nf(p0 ? STATIC : MK0, g(a0))\nshow(pass(p0 ? s0 : mkr(a0)), g(a0))",
		ref: func(r *Ref, s func(int)) {
			for i := 0; i < 8; i++ {
				s(0)
			}
			s(0)
		}},
	{name: "single", ints: 2, bools: 1, body: "o := MK0\np := MK1\nk := 1\nc := [0]\nwhile upTo(c, 2) {\n k = g(k)\n}\nshow(o, a0)\nshow(p, a1)\nfor i in 0 .. 2 {\n k = g(k)\n}\nfor q in [1, 2] {\n k = g(k)\n}\nif p0 {\n k = g(k)\n} else {\n k = g(k)\n}\nshow(o, a0)\nshow(p, a1)\nc[0] = 0\nwhile upTo(c, 2) {\n g(k)\n}\nc[0] = 0\nwhile upTo(c, 2) {\n q := MK1\n}\nc[0] = 0\nwhile upTo(c, 2) {\n p = MK1\n}\nc[0] = 0\nwhile upTo(c, 2) {\n c[0] = g(c[0])\n}\nshow(p, a1)\nshow(o, a0)\nmatch Full(3, MK1) {\n case Nope():\n case Full(n, q):\n  k = g(n)\n}\nshow(o, a0)\nshow(p, a1)",
		ref: func(r *Ref, s func(int)) {
			s(0)
			s(1)
			s(0)
			s(1)
			s(1)
			s(0)
			s(0)
			s(1)
		}},
	{name: "discard", ints: 2, body: "o := MK0\nfirst(MK1, 0)\nmkr(a1)\npass(o)\nif true {\n mke(a1)\n}\ng(0)\nshow(o, a0)",
		ref: func(r *Ref, s func(int)) { s(0) }},
}

func gcProbes() []*clara.Probe {
	var out []*clara.Probe
	for _, k := range gcKinds {
		for _, c := range gcCtxs {
			k, c := k, c
			src := k.expand(gcDecls + runOf(c.ints, c.bools, c.body))
			out = append(out, pr(c.name+"-"+k.name, src, func(r *Ref) {
				c.ref(r, func(i int) { k.seen(r, i) })
			}))
		}
	}
	out = append(out, pr("external-raw", gcDeclsOf("struct")+`
#[RawValues]
fn vxExtMem(k: int, s: string, n: int) nothing
#[RawValues]
fn vxExtArr(k: int, s: []int, n: int) nothing
fn str() string = "ab".append("cd")
`+runOf(2, 0, `
vxExtMem(1, str(), g(4))
vxExtArr(2, [a0, a1], g(2))
s := str()
vxExtMem(3, s.append("ef"), g(6))
printf("%s%d\n", str(), g(7))
vxExtMem(4, s, g(4))
vxExtArr(5, [a0, a1, a0], g(vxLen(3, [g(1), g(2)])))
vxObs(10, a0)`)+`
fn vxLen(n: int, xs: []int) int = n
`, func(r *Ref) {
		c := r.C
		w := func(i int) *term.T { return c.BOr(c.Shl(c.SExt(r.Int(i), 64), c.BV(1, 64)), c.BV(1, 64)) }
		r.ObsEv("mem", 1, nil, r.Str("abcd"))
		r.ObsEv("arr", 2, []*term.T{w(0), w(1)}, nil)
		r.ObsEv("mem", 3, nil, r.Str("abcdef"))
		r.ObsEv("mem", 4, nil, r.Str("abcd"))
		r.ObsEv("arr", 5, []*term.T{w(0), w(1), w(0)}, nil)
		r.Obs(10, r.Int(0))
	}))
	return out
}

func gcDeclsOf(kind string) string {
	for _, k := range gcKinds {
		if k.name == kind {
			return k.expand(gcDecls)
		}
	}
	panic(kind)
}

func init() {
	register(&Check{ID: "C20",
		Bounds:      []string{"12 kinds of heap object x 29 ways of holding one across collections; every allocation collects", "object contents: all 63-bit values; branch conditions: all", "recursion depth 0..2, loops of 3 iterations"},
		Assumptions: stdAssume,
		Probes:      func(th bool) []*clara.Probe { return gcProbes() }})
}

// runOf is mainOf with the statements in a function of their own, whose frame is laid over used stack.
func runOf(n, m int, body string) string {
	var ps, as []string
	for i := 0; i < n; i++ {
		ps = append(ps, fmt.Sprintf("a%d: int", i))
		as = append(as, fmt.Sprintf("vxInt(%d)", i))
	}
	for i := 0; i < m; i++ {
		ps = append(ps, fmt.Sprintf("p%d: bool", i))
		as = append(as, fmt.Sprintf("vxBool(%d)", i))
	}
	s := fmt.Sprintf("fn run(%s) {\n", strings.Join(ps, ", "))
	for _, l := range strings.Split(strings.Trim(body, "\n"), "\n") {
		s += "    " + l + "\n"
	}
	return s + fmt.Sprintf("}\nfn main() {\n    run(%s)\n}\n", strings.Join(as, ", "))
}

const liveDecls = `
fn settle() int {
    Pt(1)
    return vxLive()
}
fn use(o: TYPE) int = 1
fn dropArg(o: TYPE) int = 2
fn dropLocal(v: int) int {
    o := MKv
    q := MKv
    return use(o) + use(q)
}
fn dropDeep(n: int, v: int) int {
    o := MKv
    if n == 0 {
        return 0
    }
    t := [MKv, MKv]
    return use(t[1]) + dropDeep(n - 1, v) + use(o)
}
`

// liveProbes: the number of live objects returns to what it was once objects become unreachable.
func liveProbes() []*clara.Probe {
	var out []*clara.Probe
	type lc struct {
		name, body string
		bools      int
		n          int // number of zero differences expected
	}
	cs := []lc{
		{"call", "k0 := settle()\ndropLocal(a0)\nvxObs(1, settle() - k0)\ndropArg(MK0)\nvxObs(1, settle() - k0)\nMKe\nvxObs(1, settle() - k0)", 0, 3},
		{"depth", "n := vxRange(5, 0, 3)\nk0 := settle()\ndropDeep(n, a0)\nvxObs(1, settle() - k0)", 0, 1},
		{"scope", "k0 := settle()\nif p0 {\n o := MK0\n if p1 {\n  q := MK1\n  use(q)\n }\n t := MK0\n use(t)\n} else {\n w := MK1\n use(w)\n}\nvxObs(1, settle() - k0)\nfor i in 0 .. 2 {\n z := MK0\n use(z)\n}\nvxObs(1, settle() - k0)\nmatch Full(1, MK0) {\n case Nope():\n  vxObs(99, 9)\n case Full(n, m):\n  use(m)\n}\nvxObs(1, settle() - k0)", 2, 3},
		{"overwrite", "o := MK0\nh := Hold(1, MK0, MK1)\nxs := [MK0, MK1]\nf := fn() TYPE = o\nk0 := settle()\no = MK1\nh.v = MK1\nh.w = MK0\nxs[1] = MK0\nk1 := settle()\no = MK0\nvxObs(1, settle() - k1)\nh.v = o\nh.w = o\nxs[0] = o\nxs[1] = o\nh = Hold(2, o, o)\nk2 := settle()\nvxObsB(2, k2 < k1)\nf = fn() TYPE = o\nvxObsB(3, settle() < k2 or use(f()) == 1)", 0, -1},
		{"loop", "k := 0\ni := 0\nwhile i < 4 {\n o := MK0\n if p0 {\n  q := MK1\n  use(q)\n }\n for z in [MK0, MK1] {\n  use(z)\n }\n c := settle()\n if i > 0 {\n  vxObs(1, c - k)\n }\n k = c\n i = i + 1\n}", 1, 3},
		{"churn", "keep := MK0\nk0 := settle()\ni := 0\nwhile i < 6 {\n keep = MK0\n t := [keep, keep]\n use(t[0])\n i = i + 1\n}\nvxObs(1, settle() - k0)\nshow(keep, a0)", 0, -2},
	}
	for _, k := range gcKinds {
		for _, c := range cs {
			k, c := k, c
			body := strings.ReplaceAll(c.body, "MKe", "mke(a0)")
			src := k.expand(gcDecls + liveDecls + runOf(2, c.bools, body))
			out = append(out, pr(c.name+"-"+k.name, src, func(r *Ref) {
				switch c.n {
				case -1:
					r.ObsN(1, 0)
					r.ObsB(2, r.C.True)
					r.ObsB(3, r.C.True)
				case -2:
					r.ObsN(1, 0)
					k.seen(r, 0)
				default:
					for i := 0; i < c.n; i++ {
						r.ObsN(1, 0)
					}
				}
			}))
		}
	}
	// cycles and chains
	out = append(out, pr("cycle", gcDeclsOf("struct")+strings.Replace(gcExpand("struct", liveDecls), "MKv", "Pt(v)", -1)+`
struct node {
    v: int
    next: []node
}
fn ring(n: int) int {
    first := Node(0, array(1, noNode()))
    cur := first
    for i in 0 .. n {
        nx := Node(i, array(1, first))
        cur.next[0] = nx
        cur = nx
    }
    cur.next[0] = first
    g(0)
    s := 0
    c := first
    for i in 0 .. n + 2 {
        s = s + c.v
        c = c.next[0]
    }
    return s
}
fn noNode() node = unsafe(0, 0, type(node))
fn chain(n: int) list«pt» {
    l := Empty«pt»()
    for i in 0 .. n {
        l = l.append(Pt(i))
    }
    return l
}
`+runOf(1, 0, `
n := vxRange(5, 0, 3)
k0 := settle()
vxObs(1, ring(n))
vxObs(2, settle() - k0)
chain(n)
vxObs(2, settle() - k0)`), func(r *Ref) {
		n := r.Pick(r.Int(5), 0, 3)
		// nodes 0, 0, 1, .., n-1 then first again
		s := int64(0)
		vals := []int64{0}
		for i := int64(0); i < n; i++ {
			vals = append(vals, i)
		}
		for i := int64(0); i < n+2; i++ {
			s += vals[i%int64(len(vals))]
		}
		r.ObsN(1, s)
		r.ObsN(2, 0)
		r.ObsN(2, 0)
	}))
	return out
}

func gcExpand(kind, s string) string {
	for _, k := range gcKinds {
		if k.name == kind {
			return k.expand(s)
		}
	}
	panic(kind)
}

func init() {
	register(&Check{ID: "C21",
		Bounds:      []string{"12 kinds of object dropped by return, scope exit, overwriting, loop iteration; cycles and chains of 1..4 nodes", "branch conditions: all; recursion depth 0..3"},
		Assumptions: stdAssume,
		Probes:      func(th bool) []*clara.Probe { return liveProbes() }})
}
