package checks

import (
	"fmt"

	"verif/engine/clara"
	"verif/engine/term"
)

// orderProbes: arguments that read what later or earlier arguments change.
func orderProbes() []*clara.Probe {
	const decls = `struct inn {
    w: int
}
struct box {
    v: int
    q: inn
    xs: []int
}
fn bump(b: box) int {
    b.v = b.v + 10
    b.q.w = b.q.w + 100
    b.xs[0] = b.xs[0] + 1000
    return b.v
}
fn get(b: box) int = b.v
fn id(n: int) int = n
fn two(x: int, y: int) {
    vxObs(1, x)
    vxObs(2, y)
}
fn three(x: int, y: int, z: int) {
    vxObs(1, x)
    vxObs(2, y)
    vxObs(3, z)
}
struct pr2 {
    x: int
    y: int
}
enum en2 {
    Ab(x: int, y: int)
    Ac()
}
fn see(e: en2) {
    match e {
        case Ac():
            vxObs(9, 9)
        case Ab(x, y):
            two(x, y)
    }
}
fn seep(p: pr2) {
    two(p.x, p.y)
}
`
	type state struct{ v, w, x *term.T }
	type fm struct {
		src string
		ev  func(r *Ref, s *state) *term.T
	}
	bump := func(r *Ref, s *state) *term.T {
		s.v = r.C.Add(s.v, r.K(10))
		s.w = r.C.Add(s.w, r.K(100))
		s.x = r.C.Add(s.x, r.K(1000))
		return s.v
	}
	v := func(r *Ref, s *state) *term.T { return s.v }
	reads := []fm{
		{"b.v", v},
		{"b.q.w", func(r *Ref, s *state) *term.T { return s.w }},
		{"b.xs[0]", func(r *Ref, s *state) *term.T { return s.x }},
		{"b.v + 1", func(r *Ref, s *state) *term.T { return r.C.Add(s.v, r.K(1)) }},
		{"p0 ? b.v : b.q.w", func(r *Ref, s *state) *term.T { return r.C.Ite(r.BoolIn(0), s.v, s.w) }},
		{"get(b)", v},
		{"b.get()", v},
		{"rd()", v},
		{"id(b.v)", v},
		{"[b.v][0]", v},
		{"[b, b][1].v", v},
		{"7", func(r *Ref, s *state) *term.T { return r.K(7) }},
		{"a1", func(r *Ref, s *state) *term.T { return r.Int(1) }},
	}
	effects := []fm{
		{"bump(b)", bump},
		{"b.bump()", bump},
		{"bump(b) + 1", func(r *Ref, s *state) *term.T { return r.C.Add(bump(r, s), r.K(1)) }},
		{"id(bump(b))", bump},
		{"ef()", bump},
		{"p0 ? bump(b) : b.bump()", bump},
		{"p0 ? bump(b) : 5", func(r *Ref, s *state) *term.T {
			if r.If(r.BoolIn(0)) {
				return bump(r, s)
			}
			return r.K(5)
		}},
		{"[bump(b)][0]", bump},
		{"[3, bump(b)][1]", bump},
		{"Pr2(bump(b), 1).x", bump},
	}
	all := append(append([]fm{}, reads...), effects...)
	calls := []struct{ name, two, three string }{
		{"call", "two(%s, %s)", "three(%s, %s, %s)"},
		{"value", "tw(%s, %s)", "th(%s, %s, %s)"},
		{"struct", "seep(Pr2(%s, %s))", ""},
		{"enum", "see(Ab(%s, %s))", ""},
		{"closure", "cl(%s, %s)", ""},
	}
	var out []*clara.Probe
	mk := func(name string, combos [][]fm, text func(c []fm) string) {
		body := "b := Box(a0, Inn(a0), [a0])\nrd := fn() int = b.v\nef := fn() int = bump(b)\ntw := two\nth := three\ncl := fn(x: int, y: int) {\n    two(x, y)\n}\n"
		for _, c := range combos {
			body += text(c) + "\n"
		}
		out = append(out, pr(name, decls+mainOf(2, 1, body), func(r *Ref) {
			s := &state{r.Int(0), r.Int(0), r.Int(0)}
			for _, c := range combos {
				var vs []*term.T
				for _, f := range c {
					vs = append(vs, f.ev(r, s))
				}
				for i, v := range vs {
					r.Obs(1+i, v)
				}
			}
		}))
	}
	for _, c := range calls {
		c := c
		for i, a := range all {
			var cs [][]fm
			for j, b := range all {
				if i < len(reads) && j < len(reads) {
					continue
				}
				cs = append(cs, []fm{a, b})
			}
			mk(fmt.Sprintf("order-%s-%d", c.name, i), cs, func(x []fm) string { return fmt.Sprintf(c.two, x[0].src, x[1].src) })
		}
		if c.three == "" {
			continue
		}
		for i, a := range reads[:9] {
			var cs [][]fm
			for j, e := range effects {
				b := reads[(i+j)%len(reads)]
				cs = append(cs, []fm{a, e, b}, []fm{e, a, b}, []fm{a, b, e})
			}
			mk(fmt.Sprintf("order3-%s-%d", c.name, i), cs, func(x []fm) string { return fmt.Sprintf(c.three, x[0].src, x[1].src, x[2].src) })
		}
	}
	// operands of every operator
	wrap := func(f func(c *term.Ctx, a, b *term.T) *term.T) func(r *Ref, a, b *term.T) {
		return func(r *Ref, a, b *term.T) { r.Obs(1, f(r.C, a, b)) }
	}
	wrapB := func(f func(c *term.Ctx, a, b *term.T) *term.T) func(r *Ref, a, b *term.T) {
		return func(r *Ref, a, b *term.T) { r.ObsB(1, f(r.C, a, b)) }
	}
	swap := func(f func(c *term.Ctx, a, b *term.T) *term.T) func(c *term.Ctx, a, b *term.T) *term.T {
		return func(c *term.Ctx, a, b *term.T) *term.T { return f(c, b, a) }
	}
	for k, op := range []struct {
		op, see string
		obs     func(r *Ref, a, b *term.T)
	}{
		{"+", "vxObs", wrap((*term.Ctx).Add)}, {"-", "vxObs", wrap((*term.Ctx).Sub)}, {"*", "vxObs", wrap((*term.Ctx).Mul)},
		{"&", "vxObs", wrap((*term.Ctx).BAnd)}, {"|", "vxObs", wrap((*term.Ctx).BOr)}, {"^", "vxObs", wrap((*term.Ctx).BXor)},
		{"==", "vxObsB", wrapB((*term.Ctx).Eq)}, {"<", "vxObsB", wrapB((*term.Ctx).Slt)}, {"<=", "vxObsB", wrapB((*term.Ctx).Sle)},
		{">", "vxObsB", wrapB(swap((*term.Ctx).Slt))}, {">=", "vxObsB", wrapB(swap((*term.Ctx).Sle))},
	} {
		for i, a := range reads[:11] {
			op := op
			var cs [][]fm
			for j, e := range effects {
				if (i+j+k)%2 == 0 || j == 0 {
					cs = append(cs, []fm{a, e})
				}
				if (i+j+k)%2 == 1 || j == 0 {
					cs = append(cs, []fm{e, a})
				}
			}
			body := "b := Box(a0, Inn(a0), [a0])\nrd := fn() int = b.v\nef := fn() int = bump(b)\n"
			for _, c := range cs {
				body += fmt.Sprintf("%s(1, (%s) %s (%s))\n", op.see, c[0].src, op.op, c[1].src)
			}
			out = append(out, pr(fmt.Sprintf("order-op-%s-%d", []string{"add", "sub", "mul", "and", "or", "xor", "eq", "lt", "le", "gt", "ge"}[k], i), decls+mainOf(2, 1, body), func(r *Ref) {
				s := &state{r.Int(0), r.Int(0), r.Int(0)}
				for _, c := range cs {
					x := c[0].ev(r, s)
					op.obs(r, x, c[1].ev(r, s))
				}
			}))
		}
	}
	// shifts and divisions by a constant the effect returns; and/or; stores and indices
	out = append(out, pr("order-op-rest", decls+`fn b2(b: box) int {
    bump(b)
    return 2
}
struct fl {
    p: bool
    q: bool
}
fn flip(f: fl) bool {
    f.p = not f.p
    f.q = not f.q
    return f.q
}
`+mainOf(2, 2, `
b := Box(a0, Inn(a0), [a0])
f := Fl(p0, p1)
vxObs(1, b.v << b2(b))
vxObs(1, b.q.w >> b2(b))
vxObs(1, b.xs[0] / b2(b))
vxObs(1, b.v / b2(b))
vxObs(1, b.q.w / b2(b))
vxObs(1, b.xs[0] << b2(b))
vxObs(1, b.v >> b2(b))
vxObsB(2, f.p and flip(f))
vxObsB(2, f.p or flip(f))
vxObsB(2, flip(f) and f.q)
vxObsB(2, flip(f) or f.p)
vxObs(3, -b.v + bump(b))
vxObs(3, ~b.v + bump(b))
vxObs(3, b.v + b.v * bump(b))
vxObs(3, b.v * (b.v + bump(b)))
vxObs(3, (b.v + bump(b)) * (b.v - bump(b)))
vxObs(3, [bump(b), b.v, bump(b)][1])
vxObs(3, [b.v, bump(b)][0])`), func(r *Ref) {
		c := r.C
		s := &state{r.Int(0), r.Int(0), r.Int(0)}
		two := r.K(2)
		op := func(k func(c *term.Ctx, a, b *term.T) *term.T, a *term.T) {
			bump(r, s)
			r.Obs(1, k(c, a, two))
		}
		op((*term.Ctx).Shl, s.v)
		op((*term.Ctx).AShr, s.w)
		op((*term.Ctx).SDiv, s.x)
		op((*term.Ctx).SDiv, s.v)
		op((*term.Ctx).SDiv, s.w)
		op((*term.Ctx).Shl, s.x)
		op((*term.Ctx).AShr, s.v)
		p, q := r.BoolIn(0), r.BoolIn(1)
		flip := func() *term.T { p, q = c.Not(p), c.Not(q); return q }
		o := p
		r.ObsB(2, c.And(o, flip()))
		o = p
		r.ObsB(2, c.Or(o, flip()))
		o = flip()
		r.ObsB(2, c.And(o, q))
		o = flip()
		r.ObsB(2, c.Or(o, p))
		o = c.Neg(s.v)
		r.Obs(3, c.Add(o, bump(r, s)))
		o = c.BNot(s.v)
		r.Obs(3, c.Add(o, bump(r, s)))
		o = s.v
		r.Obs(3, c.Add(o, c.Mul(o, bump(r, s))))
		o = s.v
		r.Obs(3, c.Mul(o, c.Add(o, bump(r, s))))
		o = s.v
		o = c.Add(o, bump(r, s))
		o2 := s.v
		r.Obs(3, c.Mul(o, c.Sub(o2, bump(r, s))))
		r.Obs(3, bump(r, s))
		bump(r, s)
		r.Obs(3, s.v)
		bump(r, s)
	}))
	return out
}
