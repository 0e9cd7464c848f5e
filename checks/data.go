package checks

import (
	"fmt"
	"strings"

	"verif/engine/clara"
	"verif/engine/term"
)

func c15() []*clara.Probe {
	var out []*clara.Probe
	add := func(p *clara.Probe) { out = append(out, p) }
	// n captured variables, m parameters
	for n := 1; n <= 6; n++ {
		for _, m := range []int{0, 1, 3, 5} {
			if m > 0 && n%2 == 0 && n < 6 {
				continue
			}
			var ps, as, ts []string
			for i := 0; i < n; i++ {
				ts = append(ts, fmt.Sprintf("v%d * %d", i, i+1))
			}
			for i := 0; i < m; i++ {
				ps = append(ps, fmt.Sprintf("q%d: int", i))
				as = append(as, fmt.Sprintf("a%d - %d", i%3, i))
				ts = append(ts, fmt.Sprintf("q%d * %d", i, 11*(i+1)))
			}
			body := ""
			for i := 0; i < n; i++ {
				body += fmt.Sprintf("v%d := a%d + %d\n", i, i%3, i)
			}
			body += fmt.Sprintf("f := fn(%s) int = %s\n", strings.Join(ps, ", "), strings.Join(ts, " + "))
			for i := 0; i < n; i++ {
				body += fmt.Sprintf("v%d = 0\n", i)
			}
			body += fmt.Sprintf("vxObs(1, f(%s))\nvxObs(2, f(%s))\n", strings.Join(as, ", "), strings.Join(as, ", "))
			n, m := n, m
			add(pr(fmt.Sprintf("capture-%d-%d", n, m), mainOf(3, 0, body), func(r *Ref) {
				c, k := r.C, r.K
				s := k(0)
				for i := 0; i < n; i++ {
					s = c.Add(s, c.Mul(c.Add(r.Int(i%3), k(int64(i))), k(int64(i+1))))
				}
				for i := 0; i < m; i++ {
					s = c.Add(s, c.Mul(c.Sub(r.Int(i%3), k(int64(i))), k(int64(11*(i+1)))))
				}
				r.Obs(1, s)
				r.Obs(2, s)
			}))
		}
	}
	// where in the body the variable occurs
	type pos struct {
		name, params, ret, body string
		want                    func(r *Ref, x, y *term.T, p *term.T) *term.T
	}
	// x, y: captured ints (x in 0..2); p captured bool; xs = [10, 20, y]; s = Pt(x, y); g = dbl
	positions := []pos{
		{"operand", "", "int", "return x + y", func(r *Ref, x, y, p *term.T) *term.T { return r.C.Add(x, y) }},
		{"index", "", "int", "return xs[x]", func(r *Ref, x, y, p *term.T) *term.T { return sel(r, x, r.K(10), r.K(20), y) }},
		{"index-local", "", "int", "ys := [1, 2, 3]\nreturn ys[x]", func(r *Ref, x, y, p *term.T) *term.T { return r.C.Add(x, r.K(1)) }},
		{"index-param", "ys: []int", "int", "return ys[x]", func(r *Ref, x, y, p *term.T) *term.T { return sel(r, x, r.K(5), y, r.K(7)) }},
		{"index-expr", "", "int", "return xs[2 - x] + xs[x]", func(r *Ref, x, y, p *term.T) *term.T {
			return r.C.Add(sel(r, x, y, r.K(20), r.K(10)), sel(r, x, r.K(10), r.K(20), y))
		}},
		{"index-store", "", "int", "ys := [1, 2, 3]\nys[x] = y\nreturn ys[0] + ys[1] * 2 + ys[2] * 3", func(r *Ref, x, y, p *term.T) *term.T {
			c, k := r.C, r.K
			return sel(r, x, c.Add(y, k(13)), c.Add(c.Mul(y, k(2)), k(10)), c.Add(c.Mul(y, k(3)), k(5)))
		}},
		{"call-arg", "", "int", "return dbl(y) + add(x, y)", func(r *Ref, x, y, p *term.T) *term.T {
			return r.C.Add(r.C.Mul(y, r.K(2)), r.C.Add(x, y))
		}},
		{"receiver", "", "int", "return y.dbl().add(x)", func(r *Ref, x, y, p *term.T) *term.T { return r.C.Add(r.C.Mul(y, r.K(2)), x) }},
		{"callee", "", "int", "return g(y) - g(x)", func(r *Ref, x, y, p *term.T) *term.T {
			return r.C.Sub(r.C.Mul(y, r.K(2)), r.C.Mul(x, r.K(2)))
		}},
		{"field", "", "int", "return s.x * 3 + s.y", func(r *Ref, x, y, p *term.T) *term.T { return r.C.Add(r.C.Mul(x, r.K(3)), y) }},
		{"field-nested", "", "int", "return h.p.y + h.p.x", func(r *Ref, x, y, p *term.T) *term.T { return r.C.Add(x, y) }},
		{"field-and-var", "", "int", "return x + s.y + h.p.x", func(r *Ref, x, y, p *term.T) *term.T { return r.C.Add(x, r.C.Add(y, x)) }},
		{"field-same-name", "q: pt", "int", "return y + q.x", func(r *Ref, x, y, p *term.T) *term.T { return r.C.Add(y, r.K(100)) }},
		{"field-same-name2", "q: hold", "int", "return q.p.x + q.p.y + y", func(r *Ref, x, y, p *term.T) *term.T { return r.C.Add(y, r.K(300)) }},
		{"field-store", "", "int", "q := Pt(1, 2)\nq.x = y\nq.y = x\nreturn q.x * 2 + q.y", func(r *Ref, x, y, p *term.T) *term.T { return r.C.Add(r.C.Mul(y, r.K(2)), x) }},
		{"array-of-field", "", "int", "return h.xs[x] + h.xs[0]", func(r *Ref, x, y, p *term.T) *term.T {
			return r.C.Add(sel(r, x, r.K(10), r.K(20), y), r.K(10))
		}},
		{"length", "", "int", "return xs.length + y", func(r *Ref, x, y, p *term.T) *term.T { return r.C.Add(y, r.K(3)) }},
		{"if", "", "int", "if p {\n    return x\n} elseif x == 1 {\n    return y\n}\nreturn 7", func(r *Ref, x, y, p *term.T) *term.T {
			return r.C.Ite(p, x, r.C.Ite(r.C.Eq(x, r.K(1)), y, r.K(7)))
		}},
		{"ternary", "", "int", "return p ? y : not p ? x : 5", func(r *Ref, x, y, p *term.T) *term.T { return r.C.Ite(p, y, x) }},
		{"while", "", "int", "i := 0\nt := 0\nwhile i < x {\n    t = t + y\n    i = i + 1\n}\nreturn t", func(r *Ref, x, y, p *term.T) *term.T { return r.C.Mul(x, y) }},
		{"for-range", "", "int", "t := 0\nfor i in 0 .. x {\n    t = t + i + y\n}\nreturn t", func(r *Ref, x, y, p *term.T) *term.T {
			return sel(r, x, r.K(0), y, r.C.Add(r.C.Add(y, y), r.K(1)))
		}},
		{"for-start", "", "int", "t := 0\nfor i in x .. 3 {\n    t = t * 10 + i\n}\nreturn t + y", func(r *Ref, x, y, p *term.T) *term.T {
			return r.C.Add(sel(r, x, r.K(12), r.K(12), r.K(2)), y)
		}},
		{"for-array", "", "int", "t := 0\nfor v in xs {\n    t = t + v * x\n}\nreturn t", func(r *Ref, x, y, p *term.T) *term.T { return r.C.Mul(x, r.C.Add(y, r.K(30))) }},
		{"for-nested", "", "int", "t := 0\nfor i in 0 .. 2 {\n    for v in [x, y] {\n        if p {\n            t = t + v\n        }\n    }\n}\nreturn t", func(r *Ref, x, y, p *term.T) *term.T {
			s := r.C.Add(x, y)
			return r.C.Ite(p, r.C.Add(s, s), r.K(0))
		}},
		{"match", "", "int", "match o {\n    case Some(v): return v + x\n    case None(): return y\n}", func(r *Ref, x, y, p *term.T) *term.T { return r.C.Add(r.C.Add(y, r.K(1)), x) }},
		{"match-shadow", "", "int", "match o {\n    case Some(x): return x\n    case None(): return y\n}", func(r *Ref, x, y, p *term.T) *term.T { return r.C.Add(y, r.K(1)) }},
		{"array-lit", "", "int", "ys := [x, y, 3]\nreturn ys[0] + ys[1]", func(r *Ref, x, y, p *term.T) *term.T { return r.C.Add(x, y) }},
		{"cons", "", "int", "return Pt(y, x).y + Some(y).orElse(x)", func(r *Ref, x, y, p *term.T) *term.T { return r.C.Add(x, y) }},
		{"neg-not", "", "int", "return not p ? -y : ~x", func(r *Ref, x, y, p *term.T) *term.T {
			return r.C.Ite(p, r.C.BNot(x), r.C.Neg(y))
		}},
		{"cmp", "", "int", "return (x < 1) or (p and 0 < x) ? 1 : 0", func(r *Ref, x, y, p *term.T) *term.T {
			return r.C.Ite(r.C.Or(r.C.Eq(x, r.K(0)), p), r.K(1), r.K(0))
		}},
		{"nested-closure", "", "int", "k := x + 1\nin1 := fn(z: int) int {\n    w := z + k\n    return fn() int = w * 2 + y + x + z\n    ()\n}\nreturn in1(y)", nil},
		{"closure-arg", "", "int", "return ap(fn(z: int) int = z * 2 + x, y)", func(r *Ref, x, y, p *term.T) *term.T { return r.C.Add(r.C.Mul(y, r.K(2)), x) }},
		{"closure-deep", "", "int", "return ap(fn(z: int) int = ap(fn(w: int) int = w + z + x + y, 3), y)", func(r *Ref, x, y, p *term.T) *term.T {
			return r.C.Add(r.C.Add(r.K(3), y), r.C.Add(x, y))
		}},
		{"closure-var", "", "int", "f2 := fn(z: int) int = z - x\ng2 := fn() int = f2(y)\nreturn g2() + f2(1)", func(r *Ref, x, y, p *term.T) *term.T {
			return r.C.Add(r.C.Sub(y, x), r.C.Sub(r.K(1), x))
		}},
		{"string", "", "int", "return t.length + t.byte(x)", func(r *Ref, x, y, p *term.T) *term.T { return r.C.Add(x, r.K(3+97)) }},
		{"decl", "", "int", "z := x\nx2 := y\nreturn z - x2", func(r *Ref, x, y, p *term.T) *term.T { return r.C.Sub(x, y) }},
	}
	for _, q := range positions {
		if q.want == nil {
			continue
		}
		arg := ""
		if q.params == "ys: []int" {
			arg = "[5, y0, 7]"
		} else if q.params == "q: pt" {
			arg = "Pt(100, 200)"
		} else if q.params == "q: hold" {
			arg = "Hold(Pt(100, 200), [1])"
		}
		src := `
struct pt {
    x: int
    y: int
}
struct hold {
    p: pt
    xs: []int
}
fn dbl(v: int) int = v * 2
fn add(v: int, w: int) int = v + w
fn ap(f: fn(int) int, v: int) int = f(v)
fn mk(x: int, y: int, p: bool) fn(` + strings.TrimSpace(typesOf(q.params)) + `) ` + q.ret + ` {
    xs := [10, 20, y]
    s := Pt(x, y)
    h := Hold(Pt(x, y), xs)
    g := dbl
    o := Some(y + 1)
    t := "abc"
    return fn(` + q.params + `) ` + q.ret + ` {
        ` + strings.ReplaceAll(q.body, "\n", "\n        ") + `
    }
}
` + mainOf(0, 1, `
x0 := vxRange(0, 0, 2)
y0 := vxInt(1)
f := mk(x0, y0, p0)
f2 := mk(1, 2, true)
vxObs(1, f(`+arg+`))
vxObs(2, f(`+arg+`))`)
		q := q
		add(pr("pos-"+q.name, src, func(r *Ref) {
			w := q.want(r, r.Int(0), r.Int(1), r.BoolIn(0))
			r.Obs(1, w)
			r.Obs(2, w)
		}))
	}
	add(pr("nested-return", `
fn mk(x: int) fn(int) fn(int) int {
    return fn(y: int) fn(int) int {
        w := x + y
        return fn(z: int) int = w * 2 + x - y * z
    }
}
`+mainOf(4, 0, `
f := mk(a0)
g := f(a1)
h := f(a2)
vxObs(1, g(a3))
vxObs(2, h(a3))
vxObs(3, mk(a3)(a0)(a1))`), func(r *Ref) {
		c, k := r.C, r.K
		f := func(x, y, z *term.T) *term.T {
			return c.Sub(c.Add(c.Mul(c.Add(x, y), k(2)), x), c.Mul(y, z))
		}
		a := r.Int
		r.Obs(1, f(a(0), a(1), a(3)))
		r.Obs(2, f(a(0), a(2), a(3)))
		r.Obs(3, f(a(3), a(0), a(1)))
	}))
	add(pr("state", `
fn counter(x: int, step: int) fn() int {
    return fn() int {
        x = x + step
        return x
    }
}
fn toggler(p: bool) fn() bool {
    return fn() bool {
        p = not p
        return p
    }
}
`+mainOf(3, 1, `
c := counter(a0, a1)
d := counter(a0, 1)
vxObs(1, c())
vxObs(2, c())
vxObs(3, d())
vxObs(4, c())
vxObs(5, d())
e := c
vxObs(6, e())
vxObs(7, c())
t := toggler(p0)
u := toggler(p0)
vxObsB(8, t())
vxObsB(9, t())
vxObsB(10, u())
n := a2
inc := fn() int {
    n = n + 1
    return n
}
n = n + 100
vxObs(11, inc())
vxObs(12, n)
vxObs(13, inc())`), func(r *Ref) {
		c, k, a := r.C, r.K, r.Int
		t := func(n int64) *term.T { return c.Add(a(0), c.Mul(a(1), k(n))) }
		r.Obs(1, t(1))
		r.Obs(2, t(2))
		r.Obs(3, c.Add(a(0), k(1)))
		r.Obs(4, t(3))
		r.Obs(5, c.Add(a(0), k(2)))
		r.Obs(6, t(4))
		r.Obs(7, t(5))
		r.ObsB(8, c.Not(r.BoolIn(0)))
		r.ObsB(9, r.BoolIn(0))
		r.ObsB(10, c.Not(r.BoolIn(0)))
		r.Obs(11, c.Add(a(2), k(1)))
		r.Obs(12, c.Add(a(2), k(100)))
		r.Obs(13, c.Add(a(2), k(2)))
	}))
	add(pr("in-data", `
struct btn {
    id: int
    act: fn(int) int
}
fn adder(n: int) fn(int) int = fn(x: int) int = x + n
fn mul(x: int) int = x * 3
fn compose(fs: []fn(int) int) fn(int) int {
    return fn(v: int) int {
        for f in fs {
            v = v.f()
        }
        return v
    }
}
`+mainOf(3, 0, `
fs := [adder(a0), mul, adder(a1), fn(z: int) int = z - a2]
vxObs(1, compose(fs)(7))
b := Btn(1, adder(a1))
vxObs(2, b.act(a0))
b.act = fn(q: int) int = q - a0
vxObs(3, b.act(a1))
for i in 0 .. 3 {
    fs[i] = fn(x: int) int = x * 10 + i
}
vxObs(4, fs[0](1))
vxObs(5, fs[1](1))
vxObs(6, fs[2](1))
vxObs(7, fs[3](a0))
gs := [adder(1), adder(2)]
vxObs(8, gs[0](a0) + gs[1](a0))`), func(r *Ref) {
		c, k, a := r.C, r.K, r.Int
		r.Obs(1, c.Sub(c.Add(c.Mul(c.Add(k(7), a(0)), k(3)), a(1)), a(2)))
		r.Obs(2, c.Add(a(0), a(1)))
		r.Obs(3, c.Sub(a(1), a(0)))
		r.ObsN(4, 10)
		r.ObsN(5, 11)
		r.ObsN(6, 12)
		r.Obs(7, c.Sub(a(0), a(2)))
		r.Obs(8, c.Add(c.Add(a(0), a(0)), k(3)))
	}))
	add(pr("many-closures", `
fn twice(f: fn(int) int, x: int) int = f(f(x))
`+mainOf(4, 1, `
f := fn(x: int) int = x + a0
g := fn(x: int) int = f(x) - a1
h := fn(x: int) int {
    if p0 {
        k := a2
        m := fn() int = k + x + a3
        return m() + g(x)
    }
    return twice(fn(y: int) int = y * a3 + x, f(x))
}
vxObs(1, f(1))
vxObs(2, g(a2))
vxObs(3, h(a1))
vxObs(4, twice(g, a0))`), func(r *Ref) {
		c, k, a := r.C, r.K, r.Int
		f := func(x *term.T) *term.T { return c.Add(x, a(0)) }
		g := func(x *term.T) *term.T { return c.Sub(f(x), a(1)) }
		r.Obs(1, f(k(1)))
		r.Obs(2, g(a(2)))
		x := a(1)
		if r.If(r.BoolIn(0)) {
			r.Obs(3, c.Add(c.Add(c.Add(a(2), x), a(3)), g(x)))
		} else {
			y := f(x)
			y = c.Add(c.Mul(y, a(3)), x)
			y = c.Add(c.Mul(y, a(3)), x)
			r.Obs(3, y)
		}
		r.Obs(4, g(g(a(0))))
	}))
	return out
}

// sel is ys[x] for x in 0..len-1.
func sel(r *Ref, x *term.T, ys ...*term.T) *term.T {
	t := ys[len(ys)-1]
	for i := len(ys) - 2; i >= 0; i-- {
		t = r.C.Ite(r.C.Eq(x, r.K(int64(i))), ys[i], t)
	}
	return t
}

func typesOf(ps string) string {
	if ps == "" {
		return ""
	}
	var ts []string
	for _, p := range strings.Split(ps, ", ") {
		ts = append(ts, strings.TrimSpace(strings.SplitN(p, ":", 2)[1]))
	}
	return strings.Join(ts, ", ")
}

func c17() []*clara.Probe {
	var out []*clara.Probe
	add := func(p *clara.Probe) { out = append(out, p) }
	for n := 1; n <= 6; n++ {
		decl := "struct rec {\n"
		var as []string
		body, rd, rd2 := "", "", ""
		for i := 0; i < n; i++ {
			decl += fmt.Sprintf("    f%d: int\n", i)
			as = append(as, fmt.Sprintf("a%d", i))
			rd += fmt.Sprintf("vxObs(%d, s.f%d)\n", i, i)
			rd2 += fmt.Sprintf("vxObs(%d, t.f%d)\n", 20+i, i)
		}
		decl += "}\n"
		body += fmt.Sprintf("s := Rec(%s)\n", strings.Join(as, ", "))
		for i, j := 0, len(as)-1; i < j; i, j = i+1, j-1 {
			as[i], as[j] = as[j], as[i]
		}
		body += fmt.Sprintf("t := Rec(%s)\nu := s\n", strings.Join(as, ", "))
		body += rd + rd2
		n := n
		var steps []func(r *Ref, s, t []*term.T)
		for i := 0; i < n; i++ {
			i := i
			body += fmt.Sprintf("s.f%d = b0 + %d\n", i, i) + rd + rd2 + fmt.Sprintf("vxObs(40, u.f%d)\n", i)
			steps = append(steps, func(r *Ref, s, t []*term.T) {
				s[i] = r.C.Add(r.Int(7), r.K(int64(i)))
			})
			body += fmt.Sprintf("t.f%d = s.f%d - t.f%d\n", i, (i+1)%n, i)
			steps = append(steps, func(r *Ref, s, t []*term.T) {
				t[i] = r.C.Sub(s[(i+1)%n], t[i])
			})
		}
		body += rd2
		add(pr(fmt.Sprintf("fields-%d", n), decl+mainOf(n, 0, "b0 := vxInt(7)\n"+body), func(r *Ref) {
			s, t := make([]*term.T, n), make([]*term.T, n)
			for i := range s {
				s[i], t[i] = r.Int(i), r.Int(n-1-i)
			}
			o1 := func() {
				for i := range s {
					r.Obs(i, s[i])
				}
			}
			o2 := func() {
				for i := range t {
					r.Obs(20+i, t[i])
				}
			}
			o1()
			o2()
			for i := 0; i < n; i++ {
				steps[2*i](r, s, t)
				o1()
				o2()
				r.Obs(40, s[i])
				steps[2*i+1](r, s, t)
			}
			o2()
		}))
	}
	add(pr("types-nested", `
struct pt {
    x: int
    y: int
}
struct line {
    a: pt
    b: pt
    name: string
    on: bool
    ws: []int
    f: fn(int) int
}
fn inc(v: int) int = v + 1
fn move(l: line, d: int) line {
    l.a.x = l.a.x + d
    return l
}
fn swap(l: line) {
    t := l.a
    l.a = l.b
    l.b = t
}
`+mainOf(4, 2, `
p := Pt(a0, a1)
l := Line(p, Pt(a2, a3), "nm", p0, [a0, 5], inc)
m := Line(p, p, "mm", p1, [7], inc)
vxObs(1, l.a.x)
vxObs(2, l.b.y)
vxObsStr(3, l.name)
vxObsB(4, l.on)
vxObs(5, l.ws[1])
vxObs(6, l.f(a3))
l.a.y = 9
vxObs(7, p.y)
vxObs(8, m.b.y)
m.name = "other"
m.on = not m.on
m.ws[0] = a2
m.ws = [1, 2, 3]
vxObsStr(9, l.name)
vxObsStr(10, m.name)
vxObsB(11, l.on)
vxObsB(12, m.on)
vxObs(13, l.ws[0])
vxObs(14, m.ws.length)
vxObs(15, l.move(4).move(5).a.x)
vxObs(16, p.x)
swap(l)
vxObs(17, l.a.x)
vxObs(18, l.b.x)
vxObs(19, m.a.x)
l.b.x = 1
vxObs(20, p.x)
vxObs(21, l.a.y)
m.a = Pt(3, 4)
vxObs(22, m.b.x)
vxObs(23, m.a.x)`), func(r *Ref) {
		c, k, a := r.C, r.K, r.Int
		r.Obs(1, a(0))
		r.Obs(2, a(3))
		r.ObsS(3, r.Str("nm"))
		r.ObsB(4, r.BoolIn(0))
		r.ObsN(5, 5)
		r.Obs(6, c.Add(a(3), k(1)))
		r.ObsN(7, 9)
		r.ObsN(8, 9)
		r.ObsS(9, r.Str("nm"))
		r.ObsS(10, r.Str("other"))
		r.ObsB(11, r.BoolIn(0))
		r.ObsB(12, c.Not(r.BoolIn(1)))
		r.Obs(13, a(0))
		r.ObsN(14, 3)
		x := c.Add(a(0), k(9))
		r.Obs(15, x)
		r.Obs(16, x)
		r.Obs(17, a(2))
		r.Obs(18, x)
		r.Obs(19, x)
		r.ObsN(20, 1)
		r.Obs(21, a(3))
		r.ObsN(22, 1)
		r.ObsN(23, 3)
	}))
	add(pr("generic-alias", `
struct cell«T» {
    v: T
    n: int
}
struct two«A, B» {
    a: A
    b: B
}
fn put«T»(c: cell«T», v: T) cell«T» {
    c.v = v
    c.n = c.n + 1
    return c
}
`+mainOf(3, 1, `
c := Cell(a0, 0)
d := Cell("s", 5)
e := Cell(p0, 6)
f := c.put(a1).put(a2)
d.put("text")
e.put(not p0)
vxObs(1, c.v)
vxObs(2, f.n)
vxObsStr(3, d.v)
vxObs(4, d.n)
vxObsB(5, e.v)
t := Two(c, Two(d, a1))
t.a.v = a0 - 1
t.b.a.n = a2
t.b.b = 77
vxObs(6, c.v)
vxObs(7, d.n)
vxObs(8, t.b.b)
vxObsStr(9, t.b.a.v)
q := Pair(a0, Pair(a1, "z"))
q.second.first = a2
vxObs(10, q.first)
vxObs(11, q.second.first)
vxObsStr(12, q.second.second)`), func(r *Ref) {
		c, k, a := r.C, r.K, r.Int
		r.Obs(1, a(2))
		r.ObsN(2, 2)
		r.ObsS(3, r.Str("text"))
		r.ObsN(4, 6)
		r.ObsB(5, c.Not(r.BoolIn(0)))
		r.Obs(6, c.Sub(a(0), k(1)))
		r.Obs(7, a(2))
		r.ObsN(8, 77)
		r.ObsS(9, r.Str("text"))
		r.Obs(10, a(0))
		r.Obs(11, a(2))
		r.ObsS(12, r.Str("z"))
	}))
	return out
}

func c18() []*clara.Probe {
	var out []*clara.Probe
	add := func(p *clara.Probe) { out = append(out, p) }
	inb := func(r *Ref, i *term.T, n int) bool {
		return r.If(r.C.And(r.C.Sle(r.K(0), i), r.C.Slt(i, r.K(int64(n)))))
	}
	// any index on literals of every length, read and written, ints and others
	for n := 0; n <= 5; n++ {
		var es []string
		for i := 0; i < n; i++ {
			es = append(es, fmt.Sprintf("a%d", i))
		}
		lit := "xs := [" + strings.Join(es, ", ") + "]\n"
		if n == 0 {
			lit = "xs := array(0, 0)\n"
		}
		n := n
		add(pr(fmt.Sprintf("read-%d", n), mainOf(n, 0, lit+"i := vxInt(9)\nvxObs(1, xs.length)\nvxObs(2, xs[i])\nvxObs(3, i)"), func(r *Ref) {
			i := r.Int(9)
			r.ObsN(1, int64(n))
			if !inb(r, i, n) {
				r.Exit()
			}
			var ys []*term.T
			for j := 0; j < n; j++ {
				ys = append(ys, r.Int(j))
			}
			r.Obs(2, sel(r, i, ys...))
			r.Obs(3, i)
		}))
		add(pr(fmt.Sprintf("write-%d", n), mainOf(n, 0, lit+"i := vxInt(9)\nv := vxInt(8)\nys := [1, 2]\nxs[i] = v\nfor x in xs {\n    vxObs(1, x)\n}\nvxObs(2, ys[0] + ys[1])\nvxObs(3, xs.length)"), func(r *Ref) {
			i := r.Int(9)
			if !inb(r, i, n) {
				r.Exit()
			}
			for j := 0; j < n; j++ {
				r.Obs(1, r.C.Ite(r.C.Eq(i, r.K(int64(j))), r.Int(8), r.Int(j)))
			}
			r.ObsN(2, 3)
			r.ObsN(3, int64(n))
		}))
	}
	// where the index and the array come from
	forms := []struct{ name, expr string }{
		{"call", "mk(a0, a1, a2)[idx(i)]"},
		{"field", "h.xs[h.n]"},
		{"nested", "xss[1][i]"},
		{"computed", "xs[i + 1 - 1]"},
		{"literal", "[a0, a1, a2][i]"},
		{"param", "at(xs, i)"},
		{"element", "xs[is[0]]"},
		{"chain", "xs[xs.same()[0] - a0 + i]"},
	}
	for _, f := range forms {
		add(pr("form-"+f.name, `
struct hold {
    xs: []int
    n: int
}
fn mk(a: int, b: int, c: int) []int = [a, b, c]
fn idx(i: int) int = i
fn at(xs: []int, i: int) int = xs[i]
fn same(xs: []int) []int = xs
`+mainOf(3, 0, `
i := vxInt(9)
xs := [a0, a1, a2]
is := [i, 1]
h := Hold(xs, i)
xss := [[1], xs, [2, 3]]
vxObs(1, `+f.expr+`)
vxObs(2, i)`), func(r *Ref) {
			i := r.Int(9)
			if !inb(r, i, 3) {
				r.Exit()
			}
			r.Obs(1, sel(r, i, r.Int(0), r.Int(1), r.Int(2)))
			r.Obs(2, i)
		}))
	}
	wforms := []struct{ name, stmt string }{
		{"field", "h.xs[h.n] = v"},
		{"nested", "xss[1][i] = v"},
		{"param", "put(xs, i, v)"},
		{"generic", "setElement(xs, i, v)"},
		{"alias", "ys := xs\nys[i] = v"},
		{"call", "same(xs)[idx(i)] = idx(v)"},
		{"loop", "for j in 0 .. 2 {\n    xs[i] = v - 1 + j\n}"},
	}
	for _, f := range wforms {
		add(pr("store-"+f.name, `
struct hold {
    xs: []int
    n: int
}
fn put(xs: []int, i: int, v: int) {
    xs[i] = v
}
fn idx(i: int) int = i
fn same(xs: []int) []int = xs
`+mainOf(3, 0, `
i := vxInt(9)
v := vxInt(8)
xs := [a0, a1, a2]
h := Hold(xs, i)
xss := [[1], xs, [2, 3]]
`+f.stmt+`
vxObs(1, xs[0])
vxObs(2, xs[1])
vxObs(3, xs[2])
vxObs(4, h.n)
vxObs(5, xss[2][0] + xss[0][0])`), func(r *Ref) {
			i := r.Int(9)
			if !inb(r, i, 3) {
				r.Exit()
			}
			for j := 0; j < 3; j++ {
				r.Obs(j+1, r.C.Ite(r.C.Eq(i, r.K(int64(j))), r.Int(8), r.Int(j)))
			}
			r.Obs(4, i)
			r.ObsN(5, 3)
		}))
	}
	// element types
	add(pr("types", `
struct pt {
    x: int
}
`+mainOf(2, 2, `
i := vxInt(9)
bs := [p0, p1, true]
ss := ["a", "bb", "ccc"]
ps := [Pt(a0), Pt(a1), Pt(5)]
vxObsB(1, bs[i])
vxObsStr(2, ss[i])
vxObs(3, ps[i].x)
ps[i].x = 77
ss[i] = "new"
bs[i] = not p0
for p in ps {
    vxObs(4, p.x)
}
for s in ss {
    vxObsStr(5, s)
}
for b in bs {
    vxObsB(6, b)
}`), func(r *Ref) {
		c := r.C
		if !inb(r, r.Int(9), 3) {
			r.Exit()
		}
		i := r.Pick(r.Int(9), 0, 2)
		bs := []*term.T{r.BoolIn(0), r.BoolIn(1), c.True}
		ss := []string{"a", "bb", "ccc"}
		ps := []*term.T{r.Int(0), r.Int(1), r.K(5)}
		r.ObsB(1, bs[i])
		r.ObsS(2, r.Str(ss[i]))
		r.Obs(3, ps[i])
		ps[i], ss[i], bs[i] = r.K(77), "new", c.Not(r.BoolIn(0))
		for _, p := range ps {
			r.Obs(4, p)
		}
		for _, s := range ss {
			r.ObsS(5, r.Str(s))
		}
		for _, b := range bs {
			r.ObsB(6, b)
		}
	}))
	// constructors: length and defaults, for every small length
	add(pr("new", mainOf(1, 1, `
n := vxRange(9, 0, 4)
xs := array(n, a0)
vxObs(1, xs.length)
for x in xs {
    vxObs(2, x)
}
ss := stringArray(n, "dflt")
vxObs(3, ss.length)
for s in ss {
    vxObsStr(4, s)
}
bs := array(n, p0)
vxObs(5, bs.length)
for b in bs {
    vxObsB(6, b)
}
os := array«int»(n)
vxObs(7, os.length)
for o in os {
    vxObsB(8, o.isNone())
}
is := intArray(n)
vxObs(9, is.length)
vxObs(10, xs.length)`), func(r *Ref) {
		n := r.Pick(r.Int(9), 0, 4)
		for k, f := range []func(){
			func() { r.Obs(2, r.Int(0)) },
			func() { r.ObsS(4, r.Str("dflt")) },
			func() { r.ObsB(6, r.BoolIn(0)) },
			func() { r.ObsB(8, r.C.True) },
		} {
			r.ObsN(2*k+1, n)
			for i := int64(0); i < n; i++ {
				f()
			}
		}
		r.ObsN(9, n)
		r.ObsN(10, n)
	}))
	add(pr("new-long", mainOf(2, 1, `
n := vxRange(9, 5, 40)
xs := array(n, a0)
bs := array(n, p0)
ss := stringArray(n, "d")
i := 0
while i < n {
    vxObs(1, xs[i])
    vxObsB(2, bs[i])
    vxObsStr(3, ss[i])
    xs[i] = a1 + i
    i = i + 1
}
vxObs(4, xs.length + bs.length + ss.length)
for x in xs {
    vxObs(5, x)
}
vxObs(6, xs[n])`), func(r *Ref) {
		n := r.Pick(r.Int(9), 5, 40)
		for i := int64(0); i < n; i++ {
			r.Obs(1, r.Int(0))
			r.ObsB(2, r.BoolIn(0))
			r.ObsS(3, r.Str("d"))
		}
		r.ObsN(4, 3*n)
		for i := int64(0); i < n; i++ {
			r.Obs(5, r.C.Add(r.Int(1), r.K(i)))
		}
		r.Exit()
	}))
	// literal and computed constant indices around both ends
	for _, ix := range []struct {
		src string
		v   int
	}{{"0", 0}, {"2", 2}, {"3", 3}, {"4", 4}, {"-1", -1}, {"1000000", 1000000}, {"1 + 2", 3}, {"1 - 2", -1}, {"4611686018427387903", 9}, {"-4611686018427387904", -9}, {"xs.length", 3}, {"xs.length - 1", 2}, {"-xs.length", -3}, {"~0", -1}, {"0x3", 3}, {"1 << 61", 9}, {"1 << 62", -9}, {"one", 1}, {"one + 2", 3}, {"one - 2", -1}} {
		for k, f := range []string{"vxObs(1, xs[%s])", "xs[%s] = a1\nvxObs(1, a1)", "vxObs(1, h.xs[%s])", "vxObs(1, [a1, a1, a1][%s])", "vxObs(1, xss[0][%s])", "ps[%s].x = a1\nvxObs(1, a1)", "vxObs(1, ps[%s].x)"} {
			ix, k := ix, k
			add(pr(fmt.Sprintf("const-%d-%s", k, ix.src), `
struct hold {
    xs: []int
}
struct pt {
    x: int
}
`+mainOf(2, 0, `
one := 1
xs := [a0, a0, a0]
h := Hold(xs)
xss := [xs]
ps := [Pt(a0), Pt(a0), Pt(a0)]
`+fmt.Sprintf(f, ix.src)+`
vxObs(2, a0)`), func(r *Ref) {
				if ix.v < 0 || ix.v > 2 {
					r.Exit()
				}
				r.Obs(1, r.Int(map[int]int{0: 0, 1: 1, 2: 0, 3: 1, 4: 0, 5: 1, 6: 0}[k]))
				r.Obs(2, r.Int(0))
			}))
		}
	}
	// array literals of every length up to 20
	for _, n := range []int{1, 5, 8, 9, 17, 20} {
		n := n
		var es []string
		for i := 0; i < n; i++ {
			es = append(es, []string{"a0", "a1", "a0 + 1", "7"}[i%4])
		}
		add(pr(fmt.Sprintf("literal-%d", n), mainOf(2, 0, `
i := vxInt(9)
xs := [`+strings.Join(es, ", ")+`]
vxObs(1, xs.length)
for x in xs {
    vxObs(2, x)
}
`+map[bool]string{true: "xs[i] = 5\n", false: ""}[n < 10]+`
for x in xs {
    vxObs(3, x)
}`), func(r *Ref) {
			el := func(i int) *term.T {
				return []*term.T{r.Int(0), r.Int(1), r.C.Add(r.Int(0), r.K(1)), r.K(7)}[i%4]
			}
			r.ObsN(1, int64(n))
			for i := 0; i < n; i++ {
				r.Obs(2, el(i))
			}
			if n < 10 && !inb(r, r.Int(9), n) {
				r.Exit()
			}
			for i := 0; i < n; i++ {
				if n >= 10 {
					r.Obs(3, el(i))
					continue
				}
				r.Obs(3, r.C.Ite(r.C.Eq(r.Int(9), r.K(int64(i))), r.K(5), el(i)))
			}
		}))
	}
	// an access out of bounds stops the program before later effects
	add(pr("stop", `
fn f(xs: []int, i: int) int {
    vxObs(1, 1)
    x := xs[i]
    vxObs(2, x)
    return x
}
`+mainOf(2, 0, `
i := vxInt(9)
n := vxRange(8, 1, 3)
xs := array(n, a0)
y := f(xs, i) + f(xs, i - 1)
vxObs(3, y)`), func(r *Ref) {
		n := r.Pick(r.Int(8), 1, 3)
		i := r.Int(9)
		r.ObsN(1, 1)
		if !inb(r, i, int(n)) {
			r.Exit()
		}
		r.Obs(2, r.Int(0))
		r.ObsN(1, 1)
		if !inb(r, r.C.Sub(i, r.K(1)), int(n)) {
			r.Exit()
		}
		r.Obs(2, r.Int(0))
		r.Obs(3, r.C.Add(r.Int(0), r.Int(0)))
	}))
	return out
}

func c19() []*clara.Probe {
	var out []*clara.Probe
	add := func(p *clara.Probe) { out = append(out, p) }
	inb := func(r *Ref, i *term.T, n int64) bool {
		return r.If(r.C.And(r.C.Sle(r.K(0), i), r.C.Slt(i, r.K(n))))
	}
	sx := func(r *Ref, b *term.T) *term.T { return r.C.SExt(b, 63) }
	low := func(r *Ref, v *term.T) *term.T { return r.C.SExt(r.C.Extract(7, 0, v), 63) }
	// long ones: the bytes around both ends, and every index outside
	for _, n := range []int64{0, 17, 64, 127, 128, 255, 256, 1000, 4095, 4096, 4097, 5000, 65536, 70001} {
		n := n
		add(pr(fmt.Sprintf("bytes-long-%d", n), mainOf(1, 2, fmt.Sprintf(`
c := Bytes(%d)
b := Bytes(%d)
d := Bytes(5)
i := vxInt(9)
vxObs(1, b.length())
if i >= 0 and i < %d {
    if p1 {
        e := %d + vxRange(8, 0, 2) * (%d - 2)
        if e >= 0 and e < %d {
            b.set(e, a0)
            vxObs(2, b.get(e))
            vxObs(3, b.get(%d - 1 - e))
        }
        vxObs(4, c.length() + d.get(4) + d.get(0))
    }
} else {
    if p0 {
        b.set(i, a0)
    } else {
        vxObs(5, b.get(i))
    }
}
vxObs(6, 1)`, n, n, n, 0, n, n, n)), func(r *Ref) {
			r.ObsN(1, n)
			if !inb(r, r.Int(9), n) {
				r.Exit()
			}
			if r.If(r.BoolIn(1)) {
				e := r.Pick(r.Int(8), 0, 2) * (n - 2)
				if e >= 0 && e < n {
					r.Obs(2, low(r, r.Int(0)))
					if e == n-1-e {
						r.Obs(3, low(r, r.Int(0)))
					} else {
						r.ObsN(3, 0)
					}
				}
				r.ObsN(4, n)
			}
			r.ObsN(6, 1)
		}))
	}
	for _, n := range []int{17, 64, 255, 256, 300, 5000} {
		n := n
		add(pr(fmt.Sprintf("string-long-%d", n), mainOf(0, 0, fmt.Sprintf(`
s := "%s"
i := vxInt(9)
vxObs(1, s.length)
vxObs(2, s.byte(0) * 1000 + s.byte(%d))
if i < 0 or i >= s.length {
    vxObs(3, s.byte(i))
}
vxObs(4, s.append("ab").byte(%d))`, "b"+strings.Repeat("a", n-2)+"c", n-1, n+1)), func(r *Ref) {
			r.ObsN(1, int64(n))
			r.ObsN(2, 'b'*1000+'c')
			if !inb(r, r.Int(9), int64(n)) {
				r.Exit()
			}
			r.ObsN(4, 'b')
		}))
	}
	for _, n := range []int64{1, 3, 4, 8} {
		n := n
		add(pr(fmt.Sprintf("bytes-get-%d", n), mainOf(1, 0, fmt.Sprintf(`
b := Bytes(%d)
vxObs(1, b.length())
for j in 0 .. b.length() {
    vxObs(2, b.get(j))
}
b.set(%d, a0)
i := vxInt(9)
vxObs(3, b.get(i))
vxObs(4, i)`, n, n-1)), func(r *Ref) {
			r.ObsN(1, n)
			for j := int64(0); j < n; j++ {
				r.ObsN(2, 0)
			}
			i := r.Int(9)
			if !inb(r, i, n) {
				r.Exit()
			}
			r.Obs(3, r.C.Ite(r.C.Eq(i, r.K(n-1)), low(r, r.Int(0)), r.K(0)))
			r.Obs(4, i)
		}))
		add(pr(fmt.Sprintf("bytes-set-%d", n), mainOf(1, 0, fmt.Sprintf(`
c := Bytes(%d)
b := Bytes(%d)
d := Bytes(2)
for j in 0 .. %d {
    b.set(j, a0 + j)
}
i := vxInt(9)
v := vxInt(8)
b.set(i, v)
for j in 0 .. %d {
    vxObs(1, b.get(j))
    vxObs(2, c.get(j))
}
vxObs(3, d.get(0) + d.get(1))
vxObs(4, b.length())
vxObs(5, v)`, n, n, n, n)), func(r *Ref) {
			c := r.C
			i := r.Int(9)
			if !inb(r, i, n) {
				r.Exit()
			}
			for j := int64(0); j < n; j++ {
				r.Obs(1, c.Ite(c.Eq(i, r.K(j)), low(r, r.Int(8)), low(r, c.Add(r.Int(0), r.K(j)))))
				r.ObsN(2, 0)
			}
			r.ObsN(3, 0)
			r.ObsN(4, n)
			r.Obs(5, r.Int(8))
		}))
	}
	add(pr("string-byte", mainOf(0, 0, `
s := "abcde".append("")
vxFill(s, 0, 5)
i := vxInt(9)
vxObs(1, s.length)
vxObs(2, s.byte(i))
vxObs(3, i)`), func(r *Ref) {
		i := r.Int(9)
		r.ObsN(1, 5)
		if !inb(r, i, 5) {
			r.Exit()
		}
		var ys []*term.T
		for j := 0; j < 5; j++ {
			ys = append(ys, sx(r, r.Byte(0, j)))
		}
		r.Obs(2, sel(r, i, ys...))
		r.Obs(3, i)
	}))
	add(pr("string-literal-byte", mainOf(0, 0, `
s := "hey\n"
i := vxInt(9)
vxObs(1, s.byte(i))
vxObs(2, "".length)`), func(r *Ref) {
		i := r.Int(9)
		if !inb(r, i, 4) {
			r.Exit()
		}
		r.Obs(1, sel(r, i, r.K('h'), r.K('e'), r.K('y'), r.K('\n')))
		r.ObsN(2, 0)
	}))
	add(pr("empty", mainOf(0, 1, `
i := vxInt(9)
s := ""
if p0 {
    vxObs(1, s.byte(i))
} else {
    b := "x".append("")
    vxObs(2, b.byte(i))
}`), func(r *Ref) {
		i := r.Int(9)
		if r.If(r.BoolIn(0)) {
			r.Exit()
		}
		if !inb(r, i, 1) {
			r.Exit()
		}
		r.ObsN(2, 'x')
	}))
	add(pr("copy", `
`+mainOf(0, 0, `
s := "wxyz".append("")
vxFill(s, 0, 4)
b := Bytes(7)
at := vxRange(1, 0, 7)
from := vxRange(2, 0, 4)
copyString(s, from, b, at)
vxObsBytes(1, b)
vxObsStr(2, s)
t := b.toString()
vxObsStr(3, t)
c := Bytes(3)
copyArray(b, 2, c, 0)
vxObsBytes(4, c)`), func(r *Ref) {
		at, from := r.Pick(r.Int(1), 0, 7), r.Pick(r.Int(2), 0, 4)
		b := make([]*term.T, 7)
		for i := range b {
			b[i] = r.C.BV(0, 8)
		}
		s := r.Bytes(0, 4)
		for i, j := int(from), int(at); i < 4 && j < 7; i, j = i+1, j+1 {
			b[j] = s[i]
		}
		r.ObsS(1, b)
		r.ObsS(2, s)
		r.ObsS(3, b)
		r.ObsS(4, b[2:5])
	}))
	return out
}

func init() {
	register(&Check{ID: "C15",
		Bounds:      []string{"1..6 captured variables, 0..5 parameters, all values", "captured ints, bools, strings, arrays, structs, functions and options in 35 syntactic positions; closures nested up to 3 deep"},
		Assumptions: stdAssume,
		Probes:      func(bool) []*clara.Probe { return c15() }})
	register(&Check{ID: "C17",
		Bounds:      []string{"structs of 1..6 fields, every field assigned, all values; aliases, nesting depth 3, generic structs", "18 chains of up to 5 selections and indexings from 11 kinds of root, each read and written; field names that differ in case or by a suffix"},
		Assumptions: stdAssume,
		Probes:      func(bool) []*clara.Probe { return append(c17(), chainProbes()...) }})
	register(&Check{ID: "C18",
		Bounds:      []string{"array lengths 0..5, every 63-bit index, all values; 8 read forms and 7 write forms; int, bool, string, struct elements"},
		Assumptions: stdAssume,
		Probes:      func(bool) []*clara.Probe { return c18() }})
	register(&Check{ID: "C19",
		Bounds:      []string{"bytes of length 1..8 and strings of length 0..5, every 63-bit index and value", "bytes of 14 lengths up to 70001 and strings of 6 up to 5000: every index outside, and the bytes at both ends"},
		Assumptions: stdAssume,
		Probes:      func(bool) []*clara.Probe { return c19() }})
}
