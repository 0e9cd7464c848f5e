package checks

import (
	"fmt"
	"strings"

	"verif/engine/clara"
	"verif/engine/term"
)

type Ref = clara.Ref

func pr(name, src string, f func(r *Ref)) *clara.Probe {
	return &clara.Probe{Name: name, Src: src, Oracle: clara.Oracle(f), MaxPaths: 4000}
}

// mainOf wraps statements in main, after n int inputs a<k> and m bool inputs p<k>.
func mainOf(n, m int, body string) string {
	s := "fn main() {\n"
	for i := 0; i < n; i++ {
		s += fmt.Sprintf("    a%d := vxInt(%d)\n", i, i)
	}
	for i := 0; i < m; i++ {
		s += fmt.Sprintf("    p%d := vxBool(%d)\n", i, i)
	}
	for _, l := range strings.Split(strings.Trim(body, "\n"), "\n") {
		s += "    " + l + "\n"
	}
	return s + "}\n"
}

func c12() []*clara.Probe {
	var out []*clara.Probe
	add := func(p *clara.Probe) { out = append(out, p) }
	// if chains of every length, with and without else
	for n := 1; n <= 4; n++ {
		for _, els := range []bool{false, true} {
			b := ""
			for i := 0; i < n; i++ {
				kw := "if"
				if i > 0 {
					kw = "} elseif"
				}
				b += fmt.Sprintf("%s p%d {\n    vxObs(1, %d)\n    vxObs(2, a0)\n", kw, i, i)
			}
			if els {
				b += "} else {\n    vxObs(1, 77)\n"
			}
			b += "}\nvxObs(3, a0)\n"
			n, els := n, els
			add(pr(fmt.Sprintf("if-%d-%v", n, els), mainOf(1, n, b), func(r *Ref) {
				hit := false
				for i := 0; i < n && !hit; i++ {
					if r.If(r.BoolIn(i)) {
						r.ObsN(1, int64(i))
						r.Obs(2, r.Int(0))
						hit = true
					}
				}
				if !hit && els {
					r.ObsN(1, 77)
				}
				r.Obs(3, r.Int(0))
			}))
		}
	}
	add(pr("if-nested", mainOf(2, 4, `
x := a0
if p0 {
    if p1 {
        x = a1
    } else {
        if p2 {
            x = a0 + a1
        } elseif p3 {
            x = a0 - a1
        }
    }
    vxObs(1, x)
} elseif p1 {
    if not p2 {
        x = 5
    }
    vxObs(2, x)
} else {
    if p2 and p3 {
    } else {
        x = 9
    }
}
vxObs(3, x)`), func(r *Ref) {
		x := r.Int(0)
		y := r.Int(1)
		if r.If(r.BoolIn(0)) {
			if r.If(r.BoolIn(1)) {
				x = y
			} else if r.If(r.BoolIn(2)) {
				x = r.C.Add(x, y)
			} else if r.If(r.BoolIn(3)) {
				x = r.C.Sub(x, y)
			}
			r.Obs(1, x)
		} else if r.If(r.BoolIn(1)) {
			if r.If(r.C.Not(r.BoolIn(2))) {
				x = r.K(5)
			}
			r.Obs(2, x)
		} else if !r.If(r.C.And(r.BoolIn(2), r.BoolIn(3))) {
			x = r.K(9)
		}
		r.Obs(3, x)
	}))
	// conditions with effects are evaluated in order, up to the first true one
	add(pr("if-effects", `
fn c(k: int, b: bool) bool {
    vxObs(50, k)
    return b
}
`+mainOf(0, 3, `
if c(1, p0) {
    vxObs(1, 1)
} elseif c(2, p1) {
    vxObs(1, 2)
} elseif c(3, p2) {
    vxObs(1, 3)
} else {
    vxObs(1, 4)
}
vxObs(2, 0)`), func(r *Ref) {
		done := false
		for i := 0; i < 3; i++ {
			r.ObsN(50, int64(i+1))
			if r.If(r.BoolIn(i)) {
				r.ObsN(1, int64(i+1))
				done = true
				break
			}
		}
		if !done {
			r.ObsN(1, 4)
		}
		r.ObsN(2, 0)
	}))
	// while
	add(pr("while", mainOf(1, 0, `
n := vxRange(5, 0, 5)
i := 0
s := a0
while i < n {
    vxObs(1, i)
    s = s + i
    i = i + 1
}
vxObs(2, i)
vxObs(3, s)
while n > 0 {
    n = n - 2
}
vxObs(4, n)`), func(r *Ref) {
		n := r.Pick(r.Int(5), 0, 5)
		s := r.Int(0)
		for i := int64(0); i < n; i++ {
			r.ObsN(1, i)
			s = r.C.Add(s, r.K(i))
		}
		r.ObsN(2, max(n, 0))
		r.Obs(3, s)
		for n > 0 {
			n -= 2
		}
		r.ObsN(4, n)
	}))
	add(pr("while-nested-return", `
fn f(n: int, m: int, k: int) int {
    i := 0
    while true {
        j := 0
        while j < m {
            vxObs(1, i)
            vxObs(2, j)
            if i == k and j == 1 {
                return i + j
            }
            j = j + 1
        }
        if i == n {
            return 100
        }
        i = i + 1
    }
    return 7
}
`+mainOf(0, 0, `
vxObs(3, f(vxRange(0, 0, 2), vxRange(1, 0, 3), vxRange(2, 0, 3)))
vxObs(4, 1)`), func(r *Ref) {
		n, m, k := r.Pick(r.Int(0), 0, 2), r.Pick(r.Int(1), 0, 3), r.Pick(r.Int(2), 0, 3)
		res := func() int64 {
			for i := int64(0); ; i++ {
				for j := int64(0); j < m; j++ {
					r.ObsN(1, i)
					r.ObsN(2, j)
					if i == k && j == 1 {
						return i + j
					}
				}
				if i == n {
					return 100
				}
			}
		}()
		r.ObsN(3, res)
		r.ObsN(4, 1)
	}))
	// for over a range: literal, variable and computed bounds
	add(pr("for-range", mainOf(0, 0, `
lo := vxRange(0, -3, 3)
hi := vxRange(1, -3, 3)
for i in lo .. hi {
    vxObs(1, i)
}
for i in lo + 1 .. hi + 1 {
    vxObs(2, i)
}
vxObs(3, lo)
vxObs(4, hi)`), func(r *Ref) {
		lo, hi := r.Pick(r.Int(0), -3, 3), r.Pick(r.Int(1), -3, 3)
		if lo > hi {
			r.Skip() // decreasing, not towards a literal 0
		}
		for i := lo; i < hi; i++ {
			r.ObsN(1, i)
		}
		for i := lo + 1; i < hi+1; i++ {
			r.ObsN(2, i)
		}
		r.ObsN(3, lo)
		r.ObsN(4, hi)
	}))
	add(pr("for-range-any-start", mainOf(1, 0, `
vxAssume(a0 < 4611686018427387000)
for i in a0 .. a0 + 3 {
    vxObs(1, i)
}
vxObs(2, a0)`), func(r *Ref) {
		for i := int64(0); i < 3; i++ {
			r.Obs(1, r.C.Add(r.Int(0), r.K(i)))
		}
		r.Obs(2, r.Int(0))
	}))
	add(pr("for-range-literals", mainOf(0, 0, `
for i in 2 .. 5 {
    vxObs(1, i)
}
for i in -2 .. 1 {
    vxObs(2, i)
}
for i in 3 .. 3 {
    vxObs(3, i)
}
for i in 0 .. 2 {
    for j in i .. 3 {
        vxObs(4, i)
        vxObs(5, j)
    }
}
for i in 0x1 .. 0x4 {
    vxObs(6, i)
}`), func(r *Ref) {
		for _, i := range []int64{2, 3, 4} {
			r.ObsN(1, i)
		}
		for _, i := range []int64{-2, -1, 0} {
			r.ObsN(2, i)
		}
		for i := int64(0); i < 2; i++ {
			for j := i; j < 3; j++ {
				r.ObsN(4, i)
				r.ObsN(5, j)
			}
		}
		for _, i := range []int64{1, 2, 3} {
			r.ObsN(6, i)
		}
	}))
	add(pr("for-range-down", mainOf(0, 0, `
n := vxRange(0, 1, 5)
for i in n .. 0 {
    vxObs(1, i)
}
for i in 4 .. 0 {
    vxObs(2, i)
    for j in i .. 0 {
        vxObs(3, j)
    }
}
for i in n + 1 .. 0 {
    vxObs(4, i)
}
vxObs(5, n)`), func(r *Ref) {
		n := r.Pick(r.Int(0), 1, 5)
		for i := n - 1; i >= 0; i-- {
			r.ObsN(1, i)
		}
		for i := int64(3); i >= 0; i-- {
			r.ObsN(2, i)
			for j := i - 1; j >= 0; j-- {
				r.ObsN(3, j)
			}
		}
		for i := n; i >= 0; i-- {
			r.ObsN(4, i)
		}
		r.ObsN(5, n)
	}))
	// for over arrays
	add(pr("for-array", mainOf(4, 2, `
xs := [a0, a1, a2, a3]
for x in xs {
    vxObs(1, x)
}
for x in [a3, a2 + 1] {
    vxObs(2, x)
}
for b in [p0, true, p1] {
    vxObsB(3, b)
}
for s in ["one", "", "three"] {
    vxObsStr(4, s)
}
vxObs(5, xs.length)
for x in array(3, a1) {
    vxObs(6, x)
}`), func(r *Ref) {
		for i := 0; i < 4; i++ {
			r.Obs(1, r.Int(i))
		}
		r.Obs(2, r.Int(3))
		r.Obs(2, r.C.Add(r.Int(2), r.K(1)))
		r.ObsB(3, r.BoolIn(0))
		r.ObsB(3, r.C.True)
		r.ObsB(3, r.BoolIn(1))
		for _, s := range []string{"one", "", "three"} {
			r.ObsS(4, r.Str(s))
		}
		r.ObsN(5, 4)
		for i := 0; i < 3; i++ {
			r.Obs(6, r.Int(1))
		}
	}))
	add(pr("for-array-len", `
struct holder {
    xs: []int
}
fn sum(xs: []int) int {
    t := 0
    for x in xs {
        t = t + x
    }
    return t
}
`+mainOf(1, 0, `
n := vxRange(1, 0, 4)
xs := intArray(n)
for i in 0 .. n {
    xs[i] = a0 + i
}
for x in xs {
    vxObs(1, x)
}
h := Holder(xs)
for x in h.xs {
    for y in xs {
        vxObs(2, x - y)
    }
}
vxObs(3, sum(xs))
vxObs(4, sum(h.xs))`), func(r *Ref) {
		n := r.Pick(r.Int(1), 0, 4)
		t := r.K(0)
		for i := int64(0); i < n; i++ {
			v := r.C.Add(r.Int(0), r.K(i))
			r.Obs(1, v)
			t = r.C.Add(t, v)
		}
		for i := int64(0); i < n; i++ {
			for j := int64(0); j < n; j++ {
				r.ObsN(2, i-j)
			}
		}
		r.Obs(3, t)
		r.Obs(4, t)
	}))
	add(pr("for-array-calls", `
fn mk(k: int, v: int) []int {
    vxObs(50, k)
    return [v, v + 1, v + 2]
}
`+mainOf(1, 0, `
for x in mk(1, a0) {
    vxObs(1, x)
}
for x in mk(2, a0) {
    for y in mk(3, x) {
        vxObs(2, y)
    }
}`), func(r *Ref) {
		at := func(b *term.T, i int) *term.T { return r.C.Add(b, r.K(int64(i))) }
		r.ObsN(50, 1)
		for i := 0; i < 3; i++ {
			r.Obs(1, at(r.Int(0), i))
		}
		r.ObsN(50, 2)
		for i := 0; i < 3; i++ {
			r.ObsN(50, 3)
			for j := 0; j < 3; j++ {
				r.Obs(2, at(r.Int(0), i+j))
			}
		}
	}))
	// the array and its length are those the loop started with
	add(pr("for-array-assigned", `
struct hold {
    xs: []int
}
fn over(xs: []int, ys: []int) {
    for x in xs {
        xs = ys
        vxObs(1, x)
    }
    vxObs(2, xs.length)
}
fn again(h: hold, ys: []int) {
    for x in h.xs {
        h.xs = ys
        vxObs(3, x)
    }
}
`+mainOf(3, 1, `
zs := [a0, a1, a2]
over(zs, [a2])
over([a0], [a1, a1, a1])
over([a1, a0], intArray(0))
ls := [a1, a0, a1]
for x in ls {
    vxObs(4, x)
    ls = p0 ? [a2] : [a2, a2, a2, a2]
}
vxObs(5, ls.length)
h := Hold([a0, a1])
again(h, intArray(0))
again(Hold([a0]), [a1, a1])
hs := [[a0, a1], [a2]]
for x in hs[0] {
    hs[0] = hs[1]
    vxObs(6, x)
}
f := fn() {
    for x in zs {
        vxObs(7, x)
    }
}
f()
for x in zs {
    vxObs(8, x)
    for y in zs {
        zs[2] = a0
        vxObs(9, y)
    }
}`), func(r *Ref) {
		a := r.Int
		for _, i := range []int{0, 1, 2} {
			r.Obs(1, a(i))
		}
		r.ObsN(2, 1)
		r.Obs(1, a(0))
		r.ObsN(2, 3)
		r.Obs(1, a(1))
		r.Obs(1, a(0))
		r.ObsN(2, 0)
		for _, i := range []int{1, 0, 1} {
			r.Obs(4, a(i))
		}
		if r.If(r.BoolIn(0)) {
			r.ObsN(5, 1)
		} else {
			r.ObsN(5, 4)
		}
		r.Obs(3, a(0))
		r.Obs(3, a(1))
		r.Obs(3, a(0))
		r.Obs(6, a(0))
		r.Obs(6, a(1))
		zs := []*term.T{a(0), a(1), a(2)}
		for _, x := range zs {
			r.Obs(7, x)
		}
		for i := range zs {
			r.Obs(8, zs[i])
			for j := range zs {
				zs[2] = a(0)
				r.Obs(9, zs[j])
			}
		}
	}))
	// the same variable at both ends, and ends related to each other
	add(pr("for-range-same", `
struct rg {
    lo: int
    hi: int
}
fn same(n: int) int {
    t := 0
    for i in n .. n {
        t = t + 1
        vxObs(1, i)
        if t > 6 {
            return -1
        }
    }
    return t
}
fn near(n: int) int {
    t := 0
    for i in n .. n + 2 {
        vxObs(2, i)
        t = t + 1
    }
    for i in n - 1 .. n {
        vxObs(3, i)
    }
    for i in n + 1 .. n {
        vxObs(4, i)
    }
    for i in n - 2 .. n + 1 {
        vxObs(5, i)
    }
    return t
}
`+mainOf(2, 0, `
n := vxRange(0, -3, 4)
m := vxRange(1, -2, 3)
vxObs(6, same(n))
vxObs(6, near(n))
r := Rg(n, m)
for i in r.lo .. r.lo {
    vxObs(7, i)
}
for i in r.lo .. r.hi {
    vxObs(8, i)
}
for i in n .. m {
    for j in i .. i {
        vxObs(9, j)
    }
    for j in i .. i + 1 {
        vxObs(9, j)
    }
}
for i in n .. n {
    vxObs(10, i)
}
for i in m .. n {
    vxObs(11, i)
}`), func(r *Ref) {
		n := r.Pick(r.Int(0), -3, 4)
		m := r.Pick(r.Int(1), -2, 3)
		each := func(k int, lo, hi int64) {
			for i := lo; i < hi; i++ {
				r.ObsN(k, i)
			}
		}
		r.ObsN(6, 0)
		each(2, n, n+2)
		each(3, n-1, n)
		each(5, n-2, n+1)
		r.ObsN(6, 2)
		each(8, n, m)
		each(9, n, m)
		each(11, m, n)
	}))
	add(pr("for-array-return", `
fn first(xs: []int, v: int) int {
    for x in xs {
        for i in 0 .. 2 {
            if x == v + i {
                return i
            }
        }
    }
    return -1
}
`+mainOf(4, 0, `
vxObs(1, first([a0, a1, a2], a3))
vxObs(2, a3)`), func(r *Ref) {
		res := int64(-1)
		for i := 0; i < 3 && res < 0; i++ {
			for k := int64(0); k < 2; k++ {
				if r.If(r.C.Eq(r.Int(i), r.C.Add(r.Int(3), r.K(k)))) {
					res = k
					break
				}
			}
		}
		r.ObsN(1, res)
		r.Obs(2, r.Int(3))
	}))
	// chains and nests of ?: over every result type
	add(pr("ternary-bools", `
fn b(k: int, v: bool) bool {
    vxObs(50, k)
    return v
}
fn left(p: bool, q: bool, x: bool, y: bool, z: bool) bool = (p ? x : y) ? (q ? y : z) : (q ? x : z)
fn chain(p: bool, q: bool, x: bool, y: bool, z: bool) bool = p ? x : q ? y : z
fn chainE(p: bool, q: bool, x: bool, y: bool, z: bool) bool = b(1, p) ? b(2, x) : b(3, q) ? b(4, y) : b(5, z)
fn thenE(p: bool, q: bool, x: bool, y: bool, z: bool) bool = b(1, p) ? (b(2, q) ? b(3, x) : b(4, y)) : b(5, z)
fn condE(p: bool, q: bool, x: bool, y: bool, z: bool) bool = (b(1, p) ? b(2, q) : b(3, x)) ? b(4, y) : b(5, z)
`+mainOf(3, 5, `
vxObsB(1, left(p0, p1, p2, p3, p4))
vxObsB(2, chain(p0, p1, p2, p3, p4))
vxObsB(3, chainE(p0, p1, p2, p3, p4))
vxObsB(4, thenE(p0, p1, p2, p3, p4))
vxObsB(5, condE(p0, p1, p2, p3, p4))
vxObs(6, p0 ? a0 : p1 ? a1 : p2 ? a2 : 0)
vxObs(7, (p0 ? p1 ? a0 : a1 : a2) + (p2 ? 1 : p3 ? 2 : 3))
if p0 ? p1 : p2 ? p3 : p4 {
    vxObs(8, 1)
} elseif p0 ? not p1 : p3 {
    vxObs(8, 2)
} else {
    vxObs(8, 3)
}
if not (p0 ? false : p1 ? false : p2 ? p3 : true) {
    vxObs(9, 1)
}
vxObsB(10, p0 ? false : p1 ? true : false)
vxObsB(11, (p0 ? p1 : p2) and (p3 ? p4 : p0) or (p1 ? false : p4))
vxObsB(12, p0 ? 1 < 2 : p1 ? a0 < a1 : a1 == a2)`), func(r *Ref) {
		v := make([]bool, 5)
		for i := range v {
			v[i] = r.If(r.BoolIn(i))
		}
		p, q, x, y, z := v[0], v[1], v[2], v[3], v[4]
		b := func(k int64, v bool) bool { r.ObsN(50, k); return v }
		t := func(c bool, a, b func() bool) bool {
			if c {
				return a()
			}
			return b()
		}
		k := func(v bool) func() bool { return func() bool { return v } }
		o := func(n int, v bool) { r.ObsB(n, r.C.Bool(v)) }
		o(1, t(t(p, k(x), k(y)), func() bool { return t(q, k(y), k(z)) }, func() bool { return t(q, k(x), k(z)) }))
		o(2, t(p, k(x), func() bool { return t(q, k(y), k(z)) }))
		o(3, t(b(1, p), func() bool { return b(2, x) }, func() bool {
			return t(b(3, q), func() bool { return b(4, y) }, func() bool { return b(5, z) })
		}))
		o(4, t(b(1, p), func() bool {
			return t(b(2, q), func() bool { return b(3, x) }, func() bool { return b(4, y) })
		}, func() bool { return b(5, z) }))
		o(5, t(t(b(1, p), func() bool { return b(2, q) }, func() bool { return b(3, x) }), func() bool { return b(4, y) }, func() bool { return b(5, z) }))
		switch {
		case p:
			r.Obs(6, r.Int(0))
		case q:
			r.Obs(6, r.Int(1))
		case x:
			r.Obs(6, r.Int(2))
		default:
			r.ObsN(6, 0)
		}
		w := r.Int(2)
		if p && q {
			w = r.Int(0)
		} else if p {
			w = r.Int(1)
		}
		n := int64(3)
		if x {
			n = 1
		} else if y {
			n = 2
		}
		r.Obs(7, r.C.Add(w, r.K(n)))
		switch {
		case t(p, k(q), func() bool { return t(x, k(y), k(z)) }):
			r.ObsN(8, 1)
		case t(p, k(!q), k(y)):
			r.ObsN(8, 2)
		default:
			r.ObsN(8, 3)
		}
		if p || q || x && !y {
			r.ObsN(9, 1)
		}
		o(10, !p && q)
		o(11, t(p, k(q), k(x)) && t(y, k(z), k(p)) || t(q, k(false), k(z)))
		switch {
		case p:
			o(12, true)
		case q:
			r.ObsB(12, r.C.Slt(r.Int(0), r.Int(1)))
		default:
			r.ObsB(12, r.C.Eq(r.Int(1), r.Int(2)))
		}
	}))
	// ?: evaluates one branch only
	add(pr("ternary", `
fn e(k: int) int {
    vxObs(50, k)
    return k
}
fn t(p: bool, q: bool) int = p ? e(1) : q ? e(2) : e(3)
`+mainOf(2, 2, `
vxObs(1, p0 ? e(10) : e(20))
vxObs(2, t(p0, p1))
x := p0 and p1 ? (p0 ? e(30) : e(40)) : e(50)
vxObs(3, x + (p1 ? a0 : a1))
vxObsStr(4, p0 ? "yes" : "no")
vxObsB(5, p0 ? p1 : not p1)`), func(r *Ref) {
		p, q := r.If(r.BoolIn(0)), r.If(r.BoolIn(1))
		ch := func(c bool, a, b int64) int64 {
			if c {
				return a
			}
			return b
		}
		v := ch(p, 10, 20)
		r.ObsN(50, v)
		r.ObsN(1, v)
		v = ch(p, 1, ch(q, 2, 3))
		r.ObsN(50, v)
		r.ObsN(2, v)
		v = ch(p && q, 30, 50)
		r.ObsN(50, v)
		y := r.Int(1)
		if q {
			y = r.Int(0)
		}
		r.Obs(3, r.C.Add(r.K(v), y))
		if p {
			r.ObsS(4, r.Str("yes"))
		} else {
			r.ObsS(4, r.Str("no"))
		}
		b := r.C.False
		if p == q {
			b = r.C.True
		}
		r.ObsB(5, b)
	}))
	// return leaves at once
	add(pr("return", `
fn f(p: bool, q: bool, n: int) int {
    vxObs(1, 0)
    if p {
        vxObs(2, 0)
        for i in 0 .. 3 {
            while i < 2 {
                if q {
                    return n
                }
                vxObs(3, i)
                return n + 1
            }
        }
        vxObs(4, 0)
    }
    if q {
        return n + 2
    }
    vxObs(5, 0)
    return n + 3
}
fn g(p: bool) {
    vxObs(6, 1)
    if p {
        return
    }
    vxObs(6, 2)
}
fn h(xs: []int, p: bool) {
    for x in xs {
        if p {
            return
        }
        vxObs(7, x)
    }
}
`+mainOf(1, 2, `
vxObs(10, f(p0, p1, a0))
g(p0)
h([1, 2], p1)
vxObs(11, a0)
if p0 {
    return
}
vxObs(12, 0)`), func(r *Ref) {
		p, q := r.If(r.BoolIn(0)), r.If(r.BoolIn(1))
		r.ObsN(1, 0)
		n := int64(3)
		if p {
			r.ObsN(2, 0)
			if q {
				n = 0
			} else {
				r.ObsN(3, 0)
				n = 1
			}
		} else if q {
			n = 2
		} else {
			r.ObsN(5, 0)
		}
		r.Obs(10, r.C.Add(r.Int(0), r.K(n)))
		r.ObsN(6, 1)
		if !p {
			r.ObsN(6, 2)
		}
		if !q {
			r.ObsN(7, 1)
			r.ObsN(7, 2)
		}
		r.Obs(11, r.Int(0))
		if !p {
			r.ObsN(12, 0)
		}
	}))
	add(pr("loops-mixed", mainOf(0, 3, `
n := 0
for i in 0 .. 3 {
    for s in ["a", "b"] {
        j := 2
        while j > 0 {
            if p0 {
                n = n + 1
            } elseif p1 and i == 1 {
                n = n + 10
            } else {
                if p2 {
                    n = n + 100
                }
            }
            j = j - 1
        }
        vxObsStr(1, s)
        vxObs(2, n)
    }
}
vxObs(3, n)`), func(r *Ref) {
		n := int64(0)
		for i := 0; i < 3; i++ {
			for _, s := range []string{"a", "b"} {
				for j := 2; j > 0; j-- {
					if r.If(r.BoolIn(0)) {
						n++
					} else if i == 1 && r.If(r.BoolIn(1)) {
						n += 10
					} else if r.If(r.BoolIn(2)) {
						n += 100
					}
				}
				r.ObsS(1, r.Str(s))
				r.ObsN(2, n)
			}
		}
		r.ObsN(3, n)
	}))
	return out
}

func c13(th bool) []*clara.Probe {
	var out []*clara.Probe
	add := func(p *clara.Probe) { out = append(out, p) }
	// every enum shape: n cases with f fields each (shifted so that shapes vary), cases matched in a
	// different order than declared
	for n := 1; n <= 5; n++ {
		for f := 0; f <= 5; f++ {
			if !th && (n+f)%2 == 1 && n < 4 {
				continue
			}
			var decl, mk, cases string
			fields := func(i int) int { return (f + i) % 6 }
			decl = "enum e {\n"
			mk = "fn mk(k: int, a: int, b: int, c: int, d: int, x: int) e {\n"
			order := []int{}
			for i := 0; i < n; i++ {
				order = append(order, (i*2+1)%n)
			}
			if n == 2 || n == 4 {
				order = order[:0]
				for i := n - 1; i >= 0; i-- {
					order = append(order, i)
				}
			}
			vars := []string{"a", "b", "c", "d", "x"}
			for i := 0; i < n; i++ {
				var fs, as []string
				for j := 0; j < fields(i); j++ {
					fs = append(fs, fmt.Sprintf("f%d: int", j))
					as = append(as, vars[(j+i)%5])
				}
				decl += fmt.Sprintf("    C%d(%s)\n", i, strings.Join(fs, ", "))
				if i < n-1 {
					mk += fmt.Sprintf("    if k == %d {\n        return C%d(%s)\n    }\n", i, i, strings.Join(as, ", "))
				} else {
					mk += fmt.Sprintf("    return C%d(%s)\n", i, strings.Join(as, ", "))
				}
			}
			decl += "}\n"
			mk += "}\n"
			for _, i := range order {
				var bs []string
				body := fmt.Sprintf("            vxObs(1, %d)\n", i)
				for j := 0; j < fields(i); j++ {
					bs = append(bs, fmt.Sprintf("v%d", j))
					body += fmt.Sprintf("            vxObs(%d, v%d)\n", 10+j, j)
				}
				cases += fmt.Sprintf("        case C%d(%s):\n%s", i, strings.Join(bs, ", "), body)
			}
			src := decl + mk + mainOf(5, 0, "k := vxRange(9, 0, "+fmt.Sprint(n-1)+")\nmatch mk(k, a0, a1, a2, a3, a4) {\n"+cases+"}\nvxObs(2, a0)")
			n := n
			add(pr(fmt.Sprintf("shape-%d-%d", n, f), src, func(r *Ref) {
				k := int(r.Pick(r.Int(9), 0, int64(n-1)))
				r.ObsN(1, int64(k))
				for j := 0; j < fields(k); j++ {
					r.Obs(10+j, r.Int((j+k)%5))
				}
				r.Obs(2, r.Int(0))
			}))
		}
	}
	// fields of every type, matched value returned from cases, matched expression evaluated once
	add(pr("types", `
struct pt {
    x: int
    y: int
}
enum shape {
    Num(n: int)
    Txt(s: string, b: bool)
    Pnt(p: pt, xs: []int)
    Fun(f: fn(int) int)
    Non()
}
fn inc(x: int) int = x + 1
fn mk(k: int, a: int, p: bool) shape {
    vxObs(50, k)
    if k == 0 {
        return Num(a)
    } elseif k == 1 {
        return Txt("text", p)
    } elseif k == 2 {
        return Pnt(Pt(a, 7), [a, 8])
    } elseif k == 3 {
        return Fun(inc)
    }
    return Non()
}
fn val(s: shape) int {
    match s {
        case Non(): return -1
        case Fun(f): return f(10)
        case Num(n): return n
        case Txt(s, b): return b ? s.length : 0
        case Pnt(p, xs): return p.x + p.y + xs[0] + xs[1]
    }
}
`+mainOf(1, 1, `
k := vxRange(9, 0, 4)
match mk(k, a0, p0) {
    case Num(n):
        vxObs(1, n)
    case Txt(s, b):
        vxObsStr(2, s)
        vxObsB(3, b)
    case Pnt(p, xs):
        vxObs(4, p.x)
        vxObs(4, p.y)
        vxObs(5, xs[0])
        vxObs(5, xs.length)
    case Fun(f):
        vxObs(6, f(a0))
    case Non():
}
vxObs(7, mk(k, a0, p0).val())`), func(r *Ref) {
		k := r.Pick(r.Int(9), 0, 4)
		a := r.Int(0)
		c := r.C
		r.ObsN(50, k)
		var v *term.T
		switch k {
		case 0:
			r.Obs(1, a)
			v = a
		case 1:
			r.ObsS(2, r.Str("text"))
			r.ObsB(3, r.BoolIn(0))
			v = c.Ite(r.BoolIn(0), r.K(4), r.K(0))
		case 2:
			r.Obs(4, a)
			r.ObsN(4, 7)
			r.Obs(5, a)
			r.ObsN(5, 2)
			v = c.Add(c.Add(a, a), r.K(15))
		case 3:
			r.Obs(6, c.Add(a, r.K(1)))
			v = r.K(11)
		case 4:
			v = r.K(-1)
		}
		r.ObsN(50, k)
		r.Obs(7, v)
	}))
	add(pr("nested-generic", `
enum tree«T» {
    Leaf(v: T)
    Node(l: tree«T», m: T, r: tree«T»)
}
fn sum(t: tree«int») int {
    match t {
        case Leaf(v): return v
        case Node(l, m, r):
            x := l.sum()
            return x + m + r.sum()
    }
}
fn deep(a: option«option«int»») int {
    match a {
        case Some(b):
            match b {
                case Some(c): return c
                case None(): return -1
            }
        case None(): return -2
    }
}
fn both(x: option«int», y: option«string») int {
    n := 0
    match x {
        case None():
            match y {
                case None():
                    n = 1
                case Some(v):
                    n = 2 + v.length
            }
            n = n * 2
        case Some(v):
            match y {
                case Some(w):
                    n = v + w.length
                case None():
                    n = v
            }
            n = n + v
    }
    return n
}
`+mainOf(3, 2, `
t := Node(Leaf(a0), a1, Node(Leaf(a2), 5, Leaf(6)))
vxObs(1, t.sum())
o := p0 ? (p1 ? Some(Some(a0)) : Some(None«int»())) : None«option«int»»()
vxObs(2, o.deep())
vxObs(3, both(p0 ? Some(a1) : None«int»(), p1 ? Some("abc") : None«string»()))`), func(r *Ref) {
		c := r.C
		p, q := r.If(r.BoolIn(0)), r.If(r.BoolIn(1))
		r.Obs(1, c.Add(c.Add(r.Int(0), r.Int(1)), c.Add(r.Int(2), r.K(11))))
		switch {
		case p && q:
			r.Obs(2, r.Int(0))
			r.Obs(3, c.Add(c.Add(r.Int(1), r.Int(1)), r.K(3)))
		case p:
			r.ObsN(2, -1)
			r.Obs(3, c.Add(r.Int(1), r.Int(1)))
		case q:
			r.ObsN(2, -2)
			r.ObsN(3, 10)
		default:
			r.ObsN(2, -2)
			r.ObsN(3, 2)
		}
	}))
	add(pr("in-loop-shadow", `
enum tok {
    A(n: int)
    B(n: int, m: int)
    Z()
}
fn run(ts: []tok, n: int) int {
    acc := n
    for t in ts {
        match t {
            case A(n):
                acc = acc + n
            case B(m, n):
                acc = acc - m * n
            case Z():
                return acc
        }
        vxObs(1, acc)
        vxObs(2, n)
    }
    return acc + 1000
}
`+mainOf(3, 1, `
vxObs(3, run([A(a0), B(a1, a2), p0 ? Z() : A(3), A(4)], a2))`), func(r *Ref) {
		c := r.C
		acc := c.Add(r.Int(2), r.Int(0))
		r.Obs(1, acc)
		r.Obs(2, r.Int(2))
		acc = c.Sub(acc, c.Mul(r.Int(1), r.Int(2)))
		r.Obs(1, acc)
		r.Obs(2, r.Int(2))
		if r.If(r.BoolIn(0)) {
			r.Obs(3, acc)
			return
		}
		for _, k := range []int64{3, 4} {
			acc = c.Add(acc, r.K(k))
			r.Obs(1, acc)
			r.Obs(2, r.Int(2))
		}
		r.Obs(3, c.Add(acc, r.K(1000)))
	}))
	add(pr("result-pair", `
fn f(p: bool, a: int) result«int, string» = p ? Ok«int, string»(a) : Err«int, string»("bad")
`+mainOf(2, 2, `
match f(p0, a0) {
    case Err(e):
        vxObsStr(1, e)
    case Ok(v):
        vxObs(2, v)
}
e := p1 ? Left«int, bool»(a1) : Right«int, bool»(p0)
match e {
    case Left(l):
        vxObs(3, l)
    case Right(b):
        vxObsB(4, b)
}`), func(r *Ref) {
		if r.If(r.BoolIn(0)) {
			r.Obs(2, r.Int(0))
		} else {
			r.ObsS(1, r.Str("bad"))
		}
		if r.If(r.BoolIn(1)) {
			r.Obs(3, r.Int(1))
		} else {
			r.ObsB(4, r.BoolIn(0))
		}
	}))
	return out
}

func init() {
	register(&Check{ID: "C12",
		Bounds:      []string{"all bool conditions; loop counts 0..5 with symbolic bounds, any 63-bit range start", "every chain of 1..3 conditions with or without else, each branch empty or not; empty bodies of every statement", "nesting depth up to 4 of if/while/for/match/return"},
		Assumptions: stdAssume,
		Probes:      func(th bool) []*clara.Probe { return append(c12(), branchShapes()...) }})
	register(&Check{ID: "C13",
		Bounds:      []string{"enums of 1..5 cases with 0..5 fields, all field values; nested and generic enums; 18 forms of matched expression, each with its effects; matches in loops and as function bodies", "which matches are accepted: every list of up to 4 cases (right, repeated, of another enum, unknown, wrong number of variables) for enums of 1 to 3 cases, every multiset for an enum of 5, nested matches in 6 kinds of place"},
		Assumptions: stdAssume,
		Extra:       func(r *Runner) error { return r.runFront(matchProbes()) },
		Probes:      func(th bool) []*clara.Probe { return append(c13(th), scrutinees()...) }})
}

// branchShapes: chains of up to four branches, each empty or not, with and without else, in every context.
func branchShapes() []*clara.Probe {
	var out []*clara.Probe
	for n := 1; n <= 3; n++ {
		for e := 0; e < 2; e++ {
			n, e := n, e
			var fns, calls strings.Builder
			var masks []int
			for m := 0; m < 1<<(n+e); m++ {
				masks = append(masks, m)
				body := func(i int) string {
					if m>>i&1 == 1 {
						return ""
					}
					return fmt.Sprintf("        vxObs(%d, %d)\n", 10+m, i)
				}
				fmt.Fprintf(&fns, "fn f%d(p0: bool, p1: bool, p2: bool) {\n", m)
				for i := 0; i < n; i++ {
					kw := "elseif"
					if i == 0 {
						kw = "    if"
					}
					fmt.Fprintf(&fns, "%s p%d {\n%s    } ", kw, i, body(i))
				}
				if e == 1 {
					fmt.Fprintf(&fns, "else {\n%s    }", body(n))
				}
				fmt.Fprintf(&fns, "\n    vxObs(%d, 99)\n}\n", 10+m)
				fmt.Fprintf(&calls, "f%d(p0, p1, p2)\n", m)
			}
			out = append(out, pr(fmt.Sprintf("branches-%d-%d", n, e), fns.String()+mainOf(0, 3, calls.String()), func(r *Ref) {
				v := -1
				for i := 0; i < n && v < 0; i++ {
					if r.If(r.BoolIn(i)) {
						v = i
					}
				}
				if v < 0 && e == 1 {
					v = n
				}
				for _, m := range masks {
					if v >= 0 && m>>v&1 == 0 {
						r.ObsN(10+m, int64(v))
					}
					r.ObsN(10+m, 99)
				}
			}))
		}
	}
	// the same with conditions that have effects
	for n := 1; n <= 3; n++ {
		for e := 0; e < 2; e++ {
			n, e := n, e
			var fns, calls strings.Builder
			fns.WriteString("fn say(k: int, p: bool) bool {\n    vxObs(5, k)\n    return p\n}\n")
			var masks []int
			for m := 0; m < 1<<(n+e); m++ {
				masks = append(masks, m)
				body := func(i int) string {
					if m>>i&1 == 1 {
						return ""
					}
					return fmt.Sprintf("        vxObs(%d, %d)\n", 10+m, i)
				}
				fmt.Fprintf(&fns, "fn f%d(p0: bool, p1: bool, p2: bool) {\n", m)
				for i := 0; i < n; i++ {
					kw := "elseif"
					if i == 0 {
						kw = "    if"
					}
					fmt.Fprintf(&fns, "%s say(%d, p%d) {\n%s    } ", kw, i, i, body(i))
				}
				if e == 1 {
					fmt.Fprintf(&fns, "else {\n%s    }", body(n))
				}
				fmt.Fprintf(&fns, "\n    vxObs(%d, 99)\n}\n", 10+m)
				fmt.Fprintf(&calls, "f%d(p0, p1, p2)\n", m)
			}
			out = append(out, pr(fmt.Sprintf("branches-effects-%d-%d", n, e), fns.String()+mainOf(0, 3, calls.String()), func(r *Ref) {
				v := -1
				asked := 0
				for i := 0; i < n && v < 0; i++ {
					asked++
					if r.If(r.BoolIn(i)) {
						v = i
					}
				}
				if v < 0 && e == 1 {
					v = n
				}
				for _, m := range masks {
					for i := 0; i < asked; i++ {
						r.ObsN(5, int64(i))
					}
					if v >= 0 && m>>v&1 == 0 {
						r.ObsN(10+m, int64(v))
					}
					r.ObsN(10+m, 99)
				}
			}))
		}
	}
	// empty and single-statement bodies of every statement, followed by more
	out = append(out, pr("empty-bodies", `
enum e {
    Aa()
    Bb(x: int)
    Cc(x: int, y: int)
}
fn tick(c: []int) bool {
    c[0] = c[0] + 1
    return c[0] < 4
}
fn m(v: e) int {
    match v {
        case Aa():
        case Bb(x):
            vxObs(20, x)
        case Cc(x, y):
    }
    vxObs(21, 1)
    match v {
        case Aa(): return 1
        case Bb(x):
        case Cc(x, y): return y
    }
    return 9
}
fn nop() {
}
fn only(p: bool) int {
    if p {
    }
    return 3
}
fn nest(p: bool, q: bool) int {
    if p {
        if q {
        } else {
            return 1
        }
    } else {
        if q {
            return 2
        }
    }
    return 3
}
`+mainOf(2, 2, `
c := [0]
while tick(c) {
}
vxObs(1, c[0])
for i in 0 .. a0 & 3 {
}
vxObs(2, a0)
for x in [a0, a1] {
}
vxObs(3, a1)
nop()
f := fn() {
}
f()
vxObs(4, m(Aa()))
vxObs(5, m(Bb(a0)))
vxObs(6, m(Cc(a0, a1)))
vxObs(7, only(p0))
vxObs(8, nest(p0, p1))
if p0 {
    while false {
    }
} elseif p1 {
    for i in 0 .. 2 {
    }
    vxObs(9, 1)
} else {
    nop()
}
vxObs(10, 2)`), func(r *Ref) {
		r.ObsN(1, 4)
		r.Obs(2, r.Int(0))
		r.Obs(3, r.Int(1))
		r.ObsN(21, 1)
		r.ObsN(4, 1)
		r.Obs(20, r.Int(0))
		r.ObsN(21, 1)
		r.ObsN(5, 9)
		r.ObsN(21, 1)
		r.Obs(6, r.Int(1))
		r.ObsN(7, 3)
		p, q := r.If(r.BoolIn(0)), r.If(r.BoolIn(1))
		switch {
		case p && !q:
			r.ObsN(8, 1)
		case !p && q:
			r.ObsN(8, 2)
		default:
			r.ObsN(8, 3)
		}
		if !p && q {
			r.ObsN(9, 1)
		}
		r.ObsN(10, 2)
	}))
	return out
}

// scrutinees: the matched expression is evaluated once, whatever its form.
func scrutinees() []*clara.Probe {
	const decls = `
enum e {
    Aa(n: int)
    Bb(n: int, m: int)
    Cc()
}
struct hold {
    k: int
    v: e
    vs: []e
}
fn mk(k: int, a: int, b: int) e {
    vxObs(40, k)
    if k == 0 {
        return Aa(a)
    } elseif k == 1 {
        return Bb(a, b)
    }
    return Cc()
}
fn ix(i: int) int {
    vxObs(41, i)
    return i
}
fn get(h: hold) hold {
    vxObs(42, h.k)
    h.k = h.k + 1
    return h
}
fn arr(h: hold) []e {
    vxObs(43, 1)
    return h.vs
}
fn id(v: e) e {
    vxObs(44, 1)
    return v
}
fn pick(v: e, w: e) e {
    vxObs(45, 1)
    return v
}
`
	type eff struct{ ch, v int64 }
	forms := []struct {
		name, text string
		eff        []eff
	}{
		{"var", "v", nil}, {"call", "mk(k, a0, a1)", nil}, {"field", "h.v", nil}, {"element", "h.vs[1]", nil}, {"call-field", "get(h).v", []eff{{42, 7}}}, {"call-element", "arr(h)[1]", []eff{{43, 1}}},
		{"element-call", "h.vs[ix(1)]", []eff{{41, 1}}}, {"call-element-call", "arr(get(h))[ix(1)]", []eff{{42, 7}, {43, 1}, {41, 1}}}, {"dot", "v.id()", []eff{{44, 1}}}, {"nested", "id(id(v))", []eff{{44, 1}, {44, 1}}},
		{"two", "pick(id(v), Cc())", []eff{{44, 1}, {45, 1}}}, {"funcval", "f(v)", []eff{{44, 1}}}, {"closure", "g()", []eff{{44, 1}}}, {"ternary", "p0 ? v.id() : id(v)", []eff{{44, 1}}}, {"field-funcval", "get(h).vs[ix(1)].id()", []eff{{42, 7}, {41, 1}, {44, 1}}},
		{"literal", "[Cc(), v][ix(1)]", []eff{{41, 1}}}, {"constructed", "Hold(1, id(v), [v]).v", []eff{{44, 1}}}, {"paren", "(id(v))", []eff{{44, 1}}},
	}
	var out []*clara.Probe
	for _, f := range forms {
		f := f
		out = append(out, pr("scrutinee-"+f.name, decls+mainOf(2, 1, `
k := vxRange(9, 0, 2)
v := mk(k, a0, a1)
h := Hold(7, v, [Cc(), v])
f := id
g := fn() e = id(v)
match `+f.text+` {
    case Cc():
        vxObs(1, 3)
    case Bb(n, m):
        vxObs(1, n - m)
    case Aa(n):
        vxObs(1, n)
        h.k = 100
        h.v = Cc()
        h.vs[1] = Cc()
        v = Cc()
        vxObs(2, n)
}
vxObs(3, h.k)`), func(r *Ref) {
			k := r.Pick(r.Int(9), 0, 2)
			r.ObsN(40, k)
			if f.name == "call" {
				r.ObsN(40, k)
			}
			hk := int64(7)
			for _, x := range f.eff {
				r.ObsN(int(x.ch), x.v)
				if x.ch == 42 {
					hk++
				}
			}
			switch k {
			case 0:
				r.Obs(1, r.Int(0))
				r.Obs(2, r.Int(0))
				hk = 100
			case 1:
				r.Obs(1, r.C.Sub(r.Int(0), r.Int(1)))
			case 2:
				r.ObsN(1, 3)
			}
			r.ObsN(3, hk)
		}))
	}
	return out
}
