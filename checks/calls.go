package checks

import (
	"fmt"
	"strings"

	"verif/engine/clara"
	"verif/engine/term"
)

func c14() []*clara.Probe {
	var out []*clara.Probe
	add := func(p *clara.Probe) { out = append(out, p) }
	// direct, dot and function-value calls with n arguments
	for n := 0; n <= 6; n++ {
		var ps, as, ds []string
		body := ""
		sum := "0"
		for i := 0; i < n; i++ {
			ps = append(ps, fmt.Sprintf("q%d: int", i))
			as = append(as, fmt.Sprintf("e(%d, a%d)", i, i))
			if i > 0 {
				ds = append(ds, fmt.Sprintf("e(%d, a%d)", i, i))
			}
			body += fmt.Sprintf("    vxObs(%d, q%d)\n", 10+i, i)
			sum += fmt.Sprintf(" + q%d * %d", i, i+1)
		}
		src := fmt.Sprintf("fn e(k: int, v: int) int {\n    vxObs(50, k)\n    return v\n}\nfn f(%s) int {\n%s    return %s\n}\n", strings.Join(ps, ", "), body, sum)
		// the callee may reuse its parameters freely
		g := ""
		for i := 0; i < n; i++ {
			g += fmt.Sprintf("    q%d = q%d + 100\n", i, i)
		}
		src += fmt.Sprintf("fn g(%s) int {\n    t := 7\n%s    return t\n}\n", strings.Join(ps, ", "), g)
		var va []string
		for i := 0; i < n; i++ {
			va = append(va, fmt.Sprintf("a%d", i))
		}
		m := fmt.Sprintf("vxObs(1, f(%s))\nvxObs(6, g(%s))\n", strings.Join(as, ", "), strings.Join(va, ", "))
		if n > 0 {
			m += fmt.Sprintf("vxObs(2, e(0, a0).f(%s))\n", strings.Join(ds, ", "))
		}
		fv := n <= 5
		if fv {
			m += fmt.Sprintf("h := f\nvxObs(3, h(%s))\nvxObs(4, fn(%s) int { return %s }(%s))\n", strings.Join(as, ", "), strings.Join(ps, ", "), sum, strings.Join(va, ", "))
		}
		for i := 0; i < n; i++ {
			m += fmt.Sprintf("vxObs(%d, a%d)\n", 30+i, i)
		}
		m += "vxObs(5, 5)"
		n := n
		add(pr(fmt.Sprintf("args-%d", n), src+mainOf(n, 0, m), func(r *Ref) {
			c := r.C
			s := r.K(0)
			for i := 0; i < n; i++ {
				s = c.Add(s, c.Mul(r.Int(i), r.K(int64(i+1))))
			}
			once := func(k int) {
				for i := 0; i < n; i++ {
					r.ObsN(50, int64(i))
				}
				for i := 0; i < n; i++ {
					r.Obs(10+i, r.Int(i))
				}
				r.Obs(k, s)
			}
			once(1)
			r.ObsN(6, 7)
			if n > 0 {
				once(2)
			}
			if fv {
				once(3)
				r.Obs(4, s)
			}
			for i := 0; i < n; i++ {
				r.Obs(30+i, r.Int(i))
			}
			r.ObsN(5, 5)
		}))
	}
	// every parameter type
	add(pr("types", `
struct pt {
    x: int
}
fn f(i: int, b: bool, s: string, p: pt, xs: []int, g: fn(int) int) int {
    vxObs(1, i)
    vxObsB(2, b)
    vxObsStr(3, s)
    vxObs(4, p.x)
    vxObs(5, xs[1])
    return g(i)
}
fn rb(b: bool) bool = not b
fn rs(s: string) string = s
fn rp(p: pt) pt = p
fn rx(xs: []int) []int = xs
fn rf(g: fn(int) int) fn(int) int = g
fn dbl(x: int) int = x * 2
`+mainOf(3, 1, `
vxObs(6, f(a0, rb(p0), rs("str"), rp(Pt(a1)), rx([1, a2]), rf(dbl)))
vxObs(7, rf(dbl)(a1))
vxObs(8, rp(Pt(a2)).x)
vxObs(9, rx([a0, a1])[1])
vxObsB(10, rb(rb(p0)))`), func(r *Ref) {
		c := r.C
		d := func(t *term.T) *term.T { return c.Mul(t, r.K(2)) }
		r.Obs(1, r.Int(0))
		r.ObsB(2, c.Not(r.BoolIn(0)))
		r.ObsS(3, r.Str("str"))
		r.Obs(4, r.Int(1))
		r.Obs(5, r.Int(2))
		r.Obs(6, d(r.Int(0)))
		r.Obs(7, d(r.Int(1)))
		r.Obs(8, r.Int(2))
		r.Obs(9, r.Int(1))
		r.ObsB(10, r.BoolIn(0))
	}))
	// nested calls and pending operands
	add(pr("nested", `
fn e(k: int, v: int) int {
    vxObs(50, k)
    return v
}
fn f(a: int, b: int, c: int) int {
    x := a - b
    return x * c
}
fn six(a: int, b: int, c: int, d: int, x: int, y: int) int = a - b + c - d + x - y
struct box {
    v: int
}
`+mainOf(4, 0, `
x := a0 + f(a1, f(a2, a3, 1), 2) * (a3 - f(a0, a1, 3))
vxObs(1, x)
y := f(f(a0, a1, 1), f(a2, a3, 1), f(1, a0, f(a1, a2, 1)))
vxObs(2, y)
vxObs(3, six(f(a0, a1, 1), a2, f(a3, a0, 2), six(1, 2, 3, a0, a1, a2), a3, f(a2, a1, a0)))
xs := [a0, a1, a2]
xs[e(1, 1)] = e(2, a3) + xs[e(3, 2)]
vxObs(4, xs[0])
vxObs(4, xs[1])
vxObs(4, xs[2])
b := Box(a0)
b.v = b.v + f(a1, b.v, 1)
vxObs(5, b.v)
vxObs(6, f(a0, 1, 2) < f(a1, 2, 3) ? f(1, a0, 1) : f(a0, 1, 1))
vxObs(7, a0)
vxObs(7, a1)
vxObs(7, a2)
vxObs(7, a3)`), func(r *Ref) {
		c := r.C
		f := func(a, b, k *term.T) *term.T { return c.Mul(c.Sub(a, b), k) }
		six := func(a, b, cc, d, x, y *term.T) *term.T {
			return c.Sub(c.Add(c.Sub(c.Add(c.Sub(a, b), cc), d), x), y)
		}
		a0, a1, a2, a3 := r.Int(0), r.Int(1), r.Int(2), r.Int(3)
		k := r.K
		r.Obs(1, c.Add(a0, c.Mul(f(a1, f(a2, a3, k(1)), k(2)), c.Sub(a3, f(a0, a1, k(3))))))
		r.Obs(2, f(f(a0, a1, k(1)), f(a2, a3, k(1)), f(k(1), a0, f(a1, a2, k(1)))))
		r.Obs(3, six(f(a0, a1, k(1)), a2, f(a3, a0, k(2)), six(k(1), k(2), k(3), a0, a1, a2), a3, f(a2, a1, a0)))
		// the effects of index and value expressions happen once each, in an order the language leaves open
		n := 0
		seen := map[int64]int{}
		for _, e := range r.Evs {
			if e.Kind == "obs" && e.K == 50 && e.V[0].IsConst() {
				seen[int64(e.V[0].C)]++
				r.ObsN(50, int64(e.V[0].C))
				n++
			}
		}
		if n != 3 || seen[1] != 1 || seen[2] != 1 || seen[3] != 1 {
			r.Must(c.False)
		}
		r.Obs(4, a0)
		r.Obs(4, c.Add(a3, a2))
		r.Obs(4, a2)
		r.Obs(5, c.Add(a0, f(a1, a0, k(1))))
		if r.If(c.Slt(f(a0, k(1), k(2)), f(a1, k(2), k(3)))) {
			r.Obs(6, f(k(1), a0, k(1)))
		} else {
			r.Obs(6, f(a0, k(1), k(1)))
		}
		for _, t := range []*term.T{a0, a1, a2, a3} {
			r.Obs(7, t)
		}
	}))
	add(pr("pending-operands", `
fn e(k: int, v: int) int {
    vxObs(50, k)
    return v
}
fn g(a: int, b: int, c: int, d: int) int = ((a + b) * (c + d)) - ((a - b) * (c - d))
fn eb(k: int, v: bool) bool {
    vxObs(51, k)
    return v
}
`+mainOf(4, 2, `
vxObs(1, (a0 - e(1, a1)) * (a2 - e(2, a3)) - (e(3, a0) - a1) * (e(4, a2) - a3))
vxObs(2, a0 - (a1 - (a2 - (a3 - e(5, 1)))))
vxObs(3, g(a0 + g(a1, 2, 3, 4), a2, a3 - g(1, 2, a0, 4), g(a1, a1, a1, 1)))
vxObs(4, (a0 << 2) + (e(6, a1) >> 1) + (a2 & e(7, a3)) + (a0 / 7) + ~e(8, a1) + -e(9, a2))
vxObsB(5, (eb(1, p0) or p1) and not eb(2, p1))
vxObsB(6, a0 < e(10, a1))
vxObsB(7, e(11, a0) == a0)
vxObs(8, [e(12, a0), e(13, a1)][e(14, 1)])`), func(r *Ref) {
		c := r.C
		a0, a1, a2, a3 := r.Int(0), r.Int(1), r.Int(2), r.Int(3)
		k := r.K
		g := func(a, b, cc, d *term.T) *term.T {
			return c.Sub(c.Mul(c.Add(a, b), c.Add(cc, d)), c.Mul(c.Sub(a, b), c.Sub(cc, d)))
		}
		// operands with effects may run in either order, but once each and before the result
		want := [][]int64{{1, 2, 3, 4}, {5}, {}, {6, 7, 8, 9}, {-1, -2}, {10}, {11}, {12, 13, 14}}
		vals := []*term.T{
			c.Sub(c.Mul(c.Sub(a0, a1), c.Sub(a2, a3)), c.Mul(c.Sub(a0, a1), c.Sub(a2, a3))),
			c.Sub(a0, c.Sub(a1, c.Sub(a2, c.Sub(a3, k(1))))),
			g(c.Add(a0, g(a1, k(2), k(3), k(4))), a2, c.Sub(a3, g(k(1), k(2), a0, k(4))), g(a1, a1, a1, k(1))),
			c.Add(c.Add(c.Add(c.Add(c.Add(c.Shl(a0, k(2)), c.AShr(a1, k(1))), c.BAnd(a2, a3)), c.SDiv(a0, k(7))), c.BNot(a1)), c.Neg(a2)),
			nil, nil, nil, a1}
		bs := map[int]*term.T{4: c.And(c.Or(r.BoolIn(0), r.BoolIn(1)), c.Not(r.BoolIn(1))), 5: c.Slt(a0, a1), 6: c.True}
		i := 0
		for st := 0; st < 8; st++ {
			left := map[int64]bool{}
			for _, w := range want[st] {
				left[w] = true
			}
			for len(left) > 0 {
				if i >= len(r.Evs) || !(r.Evs[i].K == 50 || r.Evs[i].K == 51) || !r.Evs[i].V[0].IsConst() {
					r.Must(c.False)
					return
				}
				w := int64(r.Evs[i].V[0].C)
				r.ObsN(r.Evs[i].K, w)
				if r.Evs[i].K == 51 {
					w = -w
				}
				if !left[w] {
					r.Must(c.False)
					return
				}
				delete(left, w)
				i++
			}
			if b, ok := bs[st]; ok {
				r.ObsB(st+1, b)
			} else {
				r.Obs(st+1, vals[st])
			}
			i++
		}
	}))
	add(pr("recursion", `
fn fact(n: int) int = n < 2 ? 1 : n * fact(n - 1)
fn fib(n: int) int {
    if n < 2 {
        return n
    }
    return fib(n - 1) + fib(n - 2)
}
fn even(n: int) bool = n == 0 ? true : odd(n - 1)
fn odd(n: int) bool = n == 0 ? false : even(n - 1)
fn acc(n: int, a: int, b: int) int {
    x := a + n
    y := b - n
    if n == 0 {
        return x * y
    }
    z := acc(n - 1, y, x)
    return z + x - y
}
`+mainOf(2, 0, `
n := vxRange(5, 0, 5)
vxObs(1, fact(n))
vxObs(2, fib(n))
vxObsB(3, even(n))
vxObs(4, acc(n, a0, a1))
vxObs(5, n)`), func(r *Ref) {
		c := r.C
		n := r.Pick(r.Int(5), 0, 5)
		f, a, b := int64(1), int64(0), int64(1)
		for i := int64(1); i <= n; i++ {
			f *= i
			a, b = b, a+b
		}
		r.ObsN(1, f)
		r.ObsN(2, a)
		ev := c.False
		if n%2 == 0 {
			ev = c.True
		}
		r.ObsB(3, ev)
		var acc func(n int64, a, b *term.T) *term.T
		acc = func(n int64, a, b *term.T) *term.T {
			x, y := c.Add(a, r.K(n)), c.Sub(b, r.K(n))
			if n == 0 {
				return c.Mul(x, y)
			}
			return c.Sub(c.Add(acc(n-1, y, x), x), y)
		}
		r.Obs(4, acc(n, r.Int(0), r.Int(1)))
		r.ObsN(5, n)
	}))
	add(pr("function-values", `
struct ops {
    add: fn(int, int) int
    sub: fn(int, int) int
}
fn plus(a: int, b: int) int = a + b
fn minus(a: int, b: int) int = a - b
fn apply(f: fn(int, int) int, a: int, b: int) int = f(a, b)
fn apply2(f: fn(int, int) int, g: fn(int, int) int, a: int, b: int) int {
    x := f(a, b)
    y := g(a, b)
    return f(x, g(y, x))
}
fn pick(p: bool) fn(int, int) int = p ? plus : minus
fn nop() {}
fn call(f: fn(), n: int) int {
    f()
    return n
}
fn five(a: int, b: int, c: int, d: int, e: int) int = a - b * c + d - e
fn apply5(f: fn(int, int, int, int, int) int, v: int) int = f(v, 1, 2, 3, v) + f(1, v, v, v, 2)
`+mainOf(2, 1, `
f := plus
vxObs(1, f(a0, a1))
f = minus
vxObs(2, f(a0, a1))
vxObs(3, apply(plus, a0, a1) - apply(minus, a1, a0))
vxObs(4, apply2(plus, minus, a0, a1))
o := Ops(minus, plus)
vxObs(5, o.add(a0, a1))
vxObs(6, o.sub(a0, a1))
fs := [plus, minus]
vxObs(7, fs[1](a0, fs[0](a1, 3)))
vxObs(8, pick(p0)(a0, a1))
vxObs(9, a0.f(a1))
vxObs(10, call(nop, a0))
vxObs(11, apply5(five, a0))
g := pick(p0)
vxObs(12, g(g(a0, a1), g(a1, a0)))`), func(r *Ref) {
		c := r.C
		a, b := r.Int(0), r.Int(1)
		pl, mi := c.Add, c.Sub
		r.Obs(1, pl(a, b))
		r.Obs(2, mi(a, b))
		r.Obs(3, mi(pl(a, b), mi(b, a)))
		x, y := pl(a, b), mi(a, b)
		r.Obs(4, pl(x, mi(y, x)))
		r.Obs(5, mi(a, b))
		r.Obs(6, pl(a, b))
		r.Obs(7, mi(a, pl(b, r.K(3))))
		g := mi
		p := r.If(r.BoolIn(0))
		if p {
			g = pl
		}
		r.Obs(8, g(a, b))
		r.Obs(9, mi(a, b))
		r.Obs(10, a)
		five := func(a, b, cc, d, e *term.T) *term.T { return mi(pl(mi(a, c.Mul(b, cc)), d), e) }
		k := r.K
		r.Obs(11, pl(five(a, k(1), k(2), k(3), a), five(k(1), a, a, a, k(2))))
		r.Obs(12, g(g(a, b), g(b, a)))
	}))
	add(pr("dot-chains", `
fn add(x: int, y: int) int = x + y
fn neg(x: int) int = -x
fn scale(x: int, y: int, z: int) int = x * y - z
struct pt {
    x: int
    y: int
}
fn move(p: pt, d: int) pt = Pt(p.x + d, p.y - d)
fn norm(p: pt) int = p.x * 3 + p.y
`+mainOf(2, 0, `
vxObs(1, a0.add(a1).neg().add(1))
vxObs(2, 2.add(a0.neg()).scale(a1, a0.add(3)))
p := Pt(a0, a1)
vxObs(3, p.move(1).move(a0).norm())
vxObs(4, p.x.add(p.y))
vxObs(5, [a0, a1][1].neg().scale(2, 1))
vxObs(6, p.move(p.x).x.add(p.norm()))`), func(r *Ref) {
		c, k := r.C, r.K
		a, b := r.Int(0), r.Int(1)
		r.Obs(1, c.Add(c.Neg(c.Add(a, b)), k(1)))
		r.Obs(2, c.Sub(c.Mul(c.Add(k(2), c.Neg(a)), b), c.Add(a, k(3))))
		norm := func(x, y *term.T) *term.T { return c.Add(c.Mul(x, k(3)), y) }
		r.Obs(3, norm(c.Add(c.Add(a, k(1)), a), c.Sub(c.Sub(b, k(1)), a)))
		r.Obs(4, c.Add(a, b))
		r.Obs(5, c.Sub(c.Mul(c.Neg(b), k(2)), k(1)))
		r.Obs(6, c.Add(c.Add(a, a), norm(a, b)))
	}))
	return out
}

func c16() []*clara.Probe {
	var out []*clara.Probe
	add := func(p *clara.Probe) { out = append(out, p) }
	add(pr("shadow-blocks", mainOf(3, 2, `
x := a0
if p0 {
    x := a1
    vxObs(1, x)
    x = x + 1
    if p1 {
        x := a2
        x = x + 5
        vxObs(2, x)
    }
    vxObs(3, x)
} else {
    y := a2
    vxObs(4, x + y)
    x = y
}
vxObs(5, x)
y := 3
while y > 2 {
    x := y
    y = y - 1
    vxObs(6, x)
}
vxObs(7, x)
vxObs(8, y)`), func(r *Ref) {
		c, k := r.C, r.K
		x := r.Int(0)
		if r.If(r.BoolIn(0)) {
			r.Obs(1, r.Int(1))
			if r.If(r.BoolIn(1)) {
				r.Obs(2, c.Add(r.Int(2), k(5)))
			}
			r.Obs(3, c.Add(r.Int(1), k(1)))
		} else {
			r.Obs(4, c.Add(x, r.Int(2)))
			x = r.Int(2)
		}
		r.Obs(5, x)
		r.ObsN(6, 3)
		r.Obs(7, x)
		r.ObsN(8, 2)
	}))
	add(pr("siblings", mainOf(2, 1, `
n := 0
if p0 {
    t := a0
    n = n + t
}
if not p0 {
    t := a1
    u := 4
    n = n + t + u
}
for i in 0 .. 2 {
    t := i * 2
    n = n + t
}
for i in 5 .. 7 {
    u := i
    t := u + 1
    n = n - t
}
for t in [a0, a1] {
    n = n + t
}
vxObs(1, n)
t := a1
vxObs(2, t)`), func(r *Ref) {
		c, k := r.C, r.K
		n := c.Add(r.Int(1), k(4))
		if r.If(r.BoolIn(0)) {
			n = r.Int(0)
		}
		n = c.Add(n, k(2-13))
		n = c.Add(n, c.Add(r.Int(0), r.Int(1)))
		r.Obs(1, n)
		r.Obs(2, r.Int(1))
	}))
	add(pr("params-and-loops", `
fn f(x: int, y: int) int {
    if x > y {
        x := y
        y = x + 1
        return x * 2 + y
    }
    for x in 0 .. 2 {
        y = y + x
    }
    for y in [x, x] {
        x = x + y
    }
    return x - y
}
fn x() int = 11
`+mainOf(2, 0, `
vxObs(1, f(a0, a1))
x := a0
vxObs(2, x)
vxObs(3, f(x, x))`), func(r *Ref) {
		c, k := r.C, r.K
		f := func(x, y *term.T) *term.T {
			if r.If(c.Slt(y, x)) {
				return c.Add(c.Mul(y, k(2)), c.Add(y, k(1)))
			}
			y = c.Add(y, k(1))
			return c.Sub(c.Mul(x, k(3)), y)
		}
		r.Obs(1, f(r.Int(0), r.Int(1)))
		r.Obs(2, r.Int(0))
		r.Obs(3, f(r.Int(0), r.Int(0)))
	}))
	add(pr("for-shadow", mainOf(3, 0, `
i := a0
x := a1
for i in 0 .. 2 {
    for i in 7 .. 9 {
        vxObs(1, i)
    }
    vxObs(2, i)
    x := i + 50
    vxObs(3, x)
}
for x in [a2, 4] {
    vxObs(4, x)
    for x in [x + 1] {
        vxObs(5, x)
    }
    vxObs(6, x)
}
vxObs(7, i)
vxObs(8, x)`), func(r *Ref) {
		for i := int64(0); i < 2; i++ {
			r.ObsN(1, 7)
			r.ObsN(1, 8)
			r.ObsN(2, i)
			r.ObsN(3, i+50)
		}
		for _, x := range []*term.T{r.Int(2), r.K(4)} {
			r.Obs(4, x)
			r.Obs(5, r.C.Add(x, r.K(1)))
			r.Obs(6, x)
		}
		r.Obs(7, r.Int(0))
		r.Obs(8, r.Int(1))
	}))
	add(pr("match-shadow", `
fn f(o: option«int», v: int) int {
    t := 1
    match o {
        case Some(v):
            t := v * 2
            v = v + 1
            vxObs(1, v)
            vxObs(2, t)
        case None():
            t = v
            v = 9
    }
    return t + v
}
`+mainOf(2, 1, `
v := a1
vxObs(3, f(p0 ? Some(a0) : None«int»(), v))
match Some(a0) {
    case Some(v):
        vxObs(4, v)
    case None():
}
vxObs(5, v)`), func(r *Ref) {
		c, k := r.C, r.K
		if r.If(r.BoolIn(0)) {
			r.Obs(1, c.Add(r.Int(0), k(1)))
			r.Obs(2, c.Mul(r.Int(0), k(2)))
			r.Obs(3, c.Add(r.Int(1), k(1)))
		} else {
			r.Obs(3, c.Add(r.Int(1), k(9)))
		}
		r.Obs(4, r.Int(0))
		r.Obs(5, r.Int(1))
	}))
	add(pr("closure-shadow", mainOf(3, 0, `
x := a0
y := a1
f := fn(x: int) int {
    y := x + 1
    x = 5
    return y * 2
}
g := fn() int {
    x := 3
    return x + y
}
vxObs(1, f(a2))
vxObs(2, g())
vxObs(3, x)
vxObs(4, y)`), func(r *Ref) {
		c, k := r.C, r.K
		r.Obs(1, c.Mul(c.Add(r.Int(2), k(1)), k(2)))
		r.Obs(2, c.Add(r.Int(1), k(3)))
		r.Obs(3, r.Int(0))
		r.Obs(4, r.Int(1))
	}))
	// many variables: distinct slots, whatever is declared between them
	var decl, obs string
	for i := 0; i < 20; i++ {
		decl += fmt.Sprintf("v%d := a%d + %d\n", i, i%3, i)
		if i%4 == 3 {
			decl += fmt.Sprintf("if p0 {\n    w%d := %d\n    vxObs(99, w%d)\n    v%d = v%d + w%d\n}\n", i, 1000+i, i, i-2, i-1, i)
		}
		obs += fmt.Sprintf("vxObs(%d, v%d)\n", i, i)
	}
	add(pr("many-slots", mainOf(3, 1, decl+obs), func(r *Ref) {
		c, k := r.C, r.K
		v := make([]*term.T, 20)
		for i := range v {
			v[i] = c.Add(r.Int(i%3), k(int64(i)))
			if i%4 == 3 && r.If(r.BoolIn(0)) {
				r.ObsN(99, int64(1000+i))
				v[i-2] = c.Add(v[i-1], k(int64(1000+i)))
			}
		}
		for i := range v {
			r.Obs(i, v[i])
		}
	}))
	return out
}

func init() {
	register(&Check{ID: "C14",
		Bounds:      []string{"0..6 arguments (0..5 through function values), all int and bool values; call nesting depth up to 4; recursion depth up to 6"},
		Assumptions: stdAssume,
		Probes:      func(bool) []*clara.Probe { return c14() }})
	register(&Check{ID: "C16",
		Bounds:      []string{"block nesting up to 4 (if, while, for, match, closure), up to 20 variables per function; all values", "which programs are accepted: one or two declarations and a use of a name at every choice of five points around two nested blocks, for 9 kinds of outer and 4 (thorough: 9) kinds of inner block; variables of loops, cases and closures used in and around them"},
		Assumptions: stdAssume,
		Extra:       func(r *Runner) error { return r.runFront(scopeProbes()) },
		Probes:      func(bool) []*clara.Probe { return c16() }})
}
