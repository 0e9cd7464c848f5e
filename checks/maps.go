package checks

import (
	"fmt"
	"strings"

	"verif/engine/clara"
	"verif/engine/term"
)

func c24() []*clara.Probe {
	var out []*clara.Probe
	add := func(p *clara.Probe) { out = append(out, p) }
	const dec = `
fn same(a: int, b: int) bool = a == b
fn showO(k: int, o: option«int») {
    match o {
        case Some(v): vxObs(k, v)
        case None(): vxObsB(k, false)
    }
}
fn total(k: int, m: map«int, int») {
    acc := [0, 0, 0]
    m.foreach(fn(a: int, b: int) {
        acc[0] = acc[0] + 1
        acc[1] = acc[1] + a
        acc[2] = acc[2] + b
    })
    vxObs(k, acc[0])
    vxObs(k, acc[1])
    vxObs(k, acc[2])
    vxObs(k, m.size)
}
`
	type ent struct{ k, v *term.T }
	type ref struct {
		r *Ref
		e []ent
	}
	find := func(m *ref, k *term.T) int {
		for i := range m.e {
			if m.r.If(m.r.C.Eq(m.e[i].k, k)) {
				return i
			}
		}
		return -1
	}
	showO := func(r *Ref, k int, v *term.T) {
		if v == nil {
			r.ObsB(k, r.C.False)
		} else {
			r.Obs(k, v)
		}
	}
	put := func(m *ref, k, v *term.T) (old *term.T) {
		if i := find(m, k); i >= 0 {
			old = m.e[i].v
			m.e[i].v = v
			return
		}
		m.e = append(m.e, ent{k, v})
		return nil
	}
	get := func(m *ref, k *term.T) *term.T {
		if i := find(m, k); i >= 0 {
			return m.e[i].v
		}
		return nil
	}
	rem := func(m *ref, k *term.T) (old *term.T) {
		if i := find(m, k); i >= 0 {
			old = m.e[i].v
			m.e = append(append([]ent{}, m.e[:i]...), m.e[i+1:]...)
		}
		return
	}
	total := func(m *ref, k int) {
		r := m.r
		ks, vs := r.K(0), r.K(0)
		for _, e := range m.e {
			ks, vs = r.C.Add(ks, e.k), r.C.Add(vs, e.v)
		}
		r.ObsN(k, int64(len(m.e)))
		r.Obs(k, ks)
		r.Obs(k, vs)
		r.ObsN(k, int64(len(m.e)))
	}
	// symbolic keys in every equality pattern
	for _, h := range []struct{ name, fn string }{
		{"const", "fn(k: int) int = 5"},
		{"parity", "fn(k: int) int = k & 1"},
		{"neg", "fn(k: int) int = (k & 1) - 3"},
		{"min", "fn(k: int) int = 1 << 62"},
	} {
		h := h
		add(pr("keys-"+h.name, dec+mainOf(6, 0, `
m := NewHashMap«int, int»(`+h.fn+`, same)
total(1, m)
showO(2, m.get(a0))
showO(3, m.put(a0, a3))
showO(4, m.put(a1, a4))
showO(5, m.get(a2))
showO(6, m.put(a2, a5))
total(7, m)
showO(8, m.get(a0))
vxObsB(9, m.contains(a1))
showO(10, m.remove(a1))
showO(11, m.get(a2))
vxObsB(12, m.contains(a1))
vxObs(13, m.orElse(a0, 99))
showO(14, m.remove(a1))
total(15, m)
showO(16, m.put(a1, 5))
showO(17, m.get(a1))
total(18, m)`), func(r *Ref) {
			m := &ref{r: r}
			k := func(i int) *term.T { return r.Int(i) }
			total(m, 1)
			showO(r, 2, nil)
			showO(r, 3, put(m, k(0), k(3)))
			showO(r, 4, put(m, k(1), k(4)))
			showO(r, 5, get(m, k(2)))
			showO(r, 6, put(m, k(2), k(5)))
			total(m, 7)
			showO(r, 8, get(m, k(0)))
			r.ObsB(9, r.C.True)
			showO(r, 10, rem(m, k(1)))
			showO(r, 11, get(m, k(2)))
			r.ObsB(12, r.C.False)
			v := get(m, k(0))
			if v == nil {
				v = r.K(99)
			}
			r.Obs(13, v)
			showO(r, 14, nil)
			total(m, 15)
			showO(r, 16, put(m, k(1), r.K(5)))
			showO(r, 17, r.K(5))
			total(m, 18)
		}))
	}
	// any hash value at all
	add(pr("any-hash", dec+mainOf(3, 0, `
m := NewHashMap«int, int»(fn(k: int) int = a0 + k, same)
showO(1, m.put(3, a1))
showO(2, m.put(19, a2))
showO(3, m.put(4, 7))
showO(4, m.get(3))
showO(5, m.get(19))
showO(6, m.get(5))
showO(7, m.remove(3))
showO(8, m.get(19))
total(9, m)`), func(r *Ref) {
		m := &ref{r: r}
		K := r.K
		showO(r, 1, put(m, K(3), r.Int(1)))
		showO(r, 2, put(m, K(19), r.Int(2)))
		showO(r, 3, put(m, K(4), K(7)))
		showO(r, 4, r.Int(1))
		showO(r, 5, r.Int(2))
		showO(r, 6, nil)
		showO(r, 7, rem(m, K(3)))
		showO(r, 8, r.Int(2))
		total(m, 9)
	}))
	// every history of a few operations over two colliding keys and one other
	for steps := 2; steps <= 4; steps++ {
		steps := steps
		b := "m := NewHashMap«int, int»(fn(k: int) int = k, same)\n"
		for i := 0; i < steps; i++ {
			b += fmt.Sprintf(`
op%d := vxRange(%d, 0, 3)
k%d := vxBool(%d) ? 1 : 17
if op%d == 0 {
    showO(1, m.put(k%d, a%d))
} elseif op%d == 1 {
    showO(2, m.get(k%d))
} elseif op%d == 2 {
    showO(3, m.remove(k%d))
} else {
    showO(4, m.put(2, a%d))
}
`, i, 20+i, i, i, i, i, i, i, i, i, i, i)
		}
		b += "showO(5, m.get(1))\nshowO(5, m.get(17))\nshowO(5, m.get(2))\ntotal(6, m)\n"
		p := pr(fmt.Sprintf("history-%d", steps), dec+mainOf(steps, 0, b), func(r *Ref) {
			m := &ref{r: r}
			for i := 0; i < steps; i++ {
				op := r.Pick(r.Int(20+i), 0, 3)
				k := r.K(17)
				if r.If(r.BoolIn(i)) {
					k = r.K(1)
				}
				switch op {
				case 0:
					showO(r, 1, put(m, k, r.Int(i)))
				case 1:
					showO(r, 2, get(m, k))
				case 2:
					showO(r, 3, rem(m, k))
				case 3:
					showO(r, 4, put(m, r.K(2), r.Int(i)))
				}
			}
			for _, k := range []int64{1, 17, 2} {
				showO(r, 5, get(m, r.K(k)))
			}
			total(m, 6)
		})
		p.Thorough = steps > 3
		p.MaxPaths = 20000
		add(p)
	}
	// growth: more entries than the initial and the doubled table hold
	for _, n := range []int{12, 13, 14, 26} {
		for _, h := range []struct{ name, fn string }{{"id", "k"}, {"wide", "k * 16"}, {"neg", "0 - k * 5"}, {"coll", "k & 3"}} {
			n, h := n, h
			p := pr(fmt.Sprintf("grow-%d-%s", n, h.name), dec+mainOf(2, 0, fmt.Sprintf(`
m := NewHashMap«int, int»(fn(k: int) int = %s, same)
for i in 0 .. %d {
    vxObsB(1, m.put(i, a0 + i).isNone())
}
for i in 0 .. %d {
    showO(2, m.get(i))
}
vxObsB(3, m.contains(%d))
showO(4, m.put(5, a1))
showO(5, m.remove(3))
showO(6, m.get(3))
total(7, m)
for i in 0 .. %d {
    vxObs(8, m.orElse(i, 0 - 1))
}`, h.fn, n, n, n, n)), func(r *Ref) {
				c := r.C
				m := &ref{r: r}
				for i := 0; i < n; i++ {
					r.ObsB(1, c.True)
					m.e = append(m.e, ent{r.K(int64(i)), c.Add(r.Int(0), r.K(int64(i)))})
				}
				for i := 0; i < n; i++ {
					r.Obs(2, m.e[i].v)
				}
				r.ObsB(3, c.False)
				showO(r, 4, put(m, r.K(5), r.Int(1)))
				showO(r, 5, rem(m, r.K(3)))
				showO(r, 6, nil)
				total(m, 7)
				for i := 0; i < n; i++ {
					v := get(m, r.K(int64(i)))
					if v == nil {
						v = r.K(-1)
					}
					r.Obs(8, v)
				}
			})
			p.MaxSteps = 400_000_000
			p.Thorough = n > 14 && h.name != "id"
			add(p)
		}
	}
	// growth under any hash at all: the same for every key, or all different
	for _, h := range []struct{ name, fn string }{{"diff", "a0 + k"}, {"down", "a0 - k * 3"}, {"same", "a0"}} {
		h := h
		const n = 14
		p := pr("grow-any-"+h.name, dec+mainOf(2, 0, fmt.Sprintf(`
m := NewHashMap«int, int»(fn(k: int) int = %s, same)
for i in 0 .. %d {
    m.put(i, a1 + i)
}
total(1, m)
for i in 0 .. %d {
    showO(2, m.get(i))
}
vxObsB(3, m.contains(%d))
showO(4, m.remove(6))
vxObs(5, m.size)`, h.fn, n, n, n)), func(r *Ref) {
			c := r.C
			m := &ref{r: r}
			for i := 0; i < n; i++ {
				m.e = append(m.e, ent{r.K(int64(i)), c.Add(r.Int(1), r.K(int64(i)))})
			}
			total(m, 1)
			for i := 0; i < n; i++ {
				r.Obs(2, m.e[i].v)
			}
			r.ObsB(3, c.False)
			r.Obs(4, m.e[6].v)
			r.ObsN(5, n-1)
		})
		p.MaxSteps = 400_000_000
		add(p)
	}
	// string keys with the library's hash
	add(pr("strings", mainOf(2, 0, strIn("s", 0, 1)+`
m := NewHashMap«string, int»(fnv1a, Equals)
m.put("k".append(s), a0)
m.put("kb", a1)
vxObs(1, m.orElse("ka", 7))
vxObs(2, m.orElse("kb", 7))
vxObs(3, m.size)
vxObsB(4, m.remove("ka").isSome())
vxObs(5, m.orElse("k".append(s), 9))`), func(r *Ref) {
		b := r.Byte(0, 0)
		is := func(ch byte) bool { return r.If(r.C.Eq(b, r.C.BV(uint64(ch), 8))) }
		switch {
		case is('a'):
			r.Obs(1, r.Int(0))
			r.Obs(2, r.Int(1))
			r.ObsN(3, 2)
			r.ObsB(4, r.C.True)
			r.ObsN(5, 9)
		case is('b'):
			r.ObsN(1, 7)
			r.Obs(2, r.Int(1))
			r.ObsN(3, 1)
			r.ObsB(4, r.C.False)
			r.Obs(5, r.Int(1))
		default:
			r.ObsN(1, 7)
			r.Obs(2, r.Int(1))
			r.ObsN(3, 2)
			r.ObsB(4, r.C.False)
			r.Obs(5, r.Int(0))
		}
	}))
	// equality is the supplied matcher's, values may be objects
	add(pr("matcher", `
struct pt {
    x: int
}
`+mainOf(3, 0, `
m := NewHashMap«int, pt»(fn(k: int) int = 0, fn(a: int, b: int) bool = (a & 7) == (b & 7))
m.put(1, Pt(a0))
m.put(9, Pt(a1))
m.put(2, Pt(a2))
vxObs(1, m.size)
m.get(17).peek(fn(p: pt) { p.x = p.x + 1 })
m.get(1).peek(fn(p: pt) { vxObs(2, p.x) })
n := [0, 0]
m.foreach(fn(k: int, p: pt) {
    n[0] = n[0] + 1
    n[1] = n[1] + p.x
})
vxObs(3, n[0])
vxObs(4, n[1])
vxObs(5, m.orElse(3, Pt(8)).x)`), func(r *Ref) {
		c := r.C
		r.ObsN(1, 2)
		v := c.Add(r.Int(1), r.K(1))
		r.Obs(2, v)
		r.ObsN(3, 2)
		r.Obs(4, c.Add(v, r.Int(2)))
		r.ObsN(5, 8)
	}))
	return out
}

func c31() []*clara.Probe {
	var out []*clara.Probe
	add := func(p *clara.Probe) {
		inner := p.Oracle
		p.Oracle = func(o *clara.Out) *term.T {
			if len(o.Misaligned) > 0 {
				return o.C.False
			}
			return inner(o)
		}
		out = append(out, p)
	}
	sx := func(r *Ref, t *term.T) *term.T { return r.C.SExt(t, 64) }
	k64 := func(r *Ref, v int64) *term.T { return r.C.BV(uint64(v), 64) }
	x63 := func(r *Ref, n int) *term.T { return r.C.Extract(62, 0, r.In(fmt.Sprintf("x%d", n), 64)) }
	decl := func(n int, ret string) string {
		var ps []string
		for i := 0; i < n; i++ {
			ps = append(ps, fmt.Sprintf("p%d: int", i))
		}
		return fmt.Sprintf("#[RawValues]\nfn vxExt%d(%s) %s\n", n, strings.Join(ps, ", "), ret)
	}
	// every arity, at stack depths of either parity, as statement, operand, argument
	for n := 0; n <= 6; n++ {
		n := n
		for _, loc := range []int{0, 1, 2, 3} {
			var as, rs []string
			for i := 0; i < n; i++ {
				as = append(as, fmt.Sprintf("a%d + %d", i, i))
				rs = append(rs, fmt.Sprintf("a%d", n-1-i))
			}
			b := ""
			for i := 0; i < loc; i++ {
				b += fmt.Sprintf("l%d := %d\n", i, i)
			}
			b += fmt.Sprintf("vxExt%d(%s)\n", n, strings.Join(as, ", "))
			b += fmt.Sprintf("x := vxExt%d(%s)\nvxObs(1, x)\n", n, strings.Join(rs, ", "))
			b += fmt.Sprintf("vxObs(2, 3 * (1 + vxExt%d(%s)))\n", n, strings.Join(as, ", "))
			b += fmt.Sprintf("vxObs(3, id(id(5) + vxExt%d(%s)))\n", n, strings.Join(rs, ", "))
			b += fmt.Sprintf("vxObs(4, pick(7, vxExt%d(%s), 9))\n", n, strings.Join(as, ", "))
			b += fmt.Sprintf("if vxExt%d(%s) > 0 {\n    vxObs(5, 1)\n}\n", n, strings.Join(as, ", "))
			for i := 0; i < n; i++ {
				b += fmt.Sprintf("vxObs(6, a%d)\n", i)
			}
			for i := 0; i < loc; i++ {
				b += fmt.Sprintf("vxObs(7, l%d)\n", i)
			}
			loc := loc
			add(pr(fmt.Sprintf("arity-%d-%d", n, loc), decl(n, "int")+"fn id(x: int) int = x\nfn pick(a: int, b: int, c: int) int = a * 100 + b - c\n"+mainOf(n, 0, b), func(r *Ref) {
				c := r.C
				kind := fmt.Sprintf("ext%d", n)
				as := []*term.T{}
				rs := []*term.T{}
				for i := 0; i < n; i++ {
					as = append(as, sx(r, c.Add(r.Int(i), r.K(int64(i)))))
					rs = append(rs, sx(r, r.Int(n-1-i)))
				}
				x := x63(r, n)
				r.ObsEv(kind, 0, as, nil)
				r.ObsEv(kind, 0, rs, nil)
				r.Obs(1, x)
				r.ObsEv(kind, 0, as, nil)
				r.Obs(2, c.Mul(r.K(3), c.Add(x, r.K(1))))
				r.ObsEv(kind, 0, rs, nil)
				r.Obs(3, c.Add(x, r.K(5)))
				r.ObsEv(kind, 0, as, nil)
				r.Obs(4, c.Sub(c.Add(r.K(700), x), r.K(9)))
				r.ObsEv(kind, 0, as, nil)
				if r.If(c.Slt(r.K(0), x)) {
					r.ObsN(5, 1)
				}
				for i := 0; i < n; i++ {
					r.Obs(6, r.Int(i))
				}
				for i := 0; i < loc; i++ {
					r.ObsN(7, int64(i))
				}
			}))
		}
	}
	// arguments that are themselves calls, in every position
	for n := 1; n <= 6; n++ {
		for pos := 0; pos < n; pos++ {
			n, pos := n, pos
			var as []string
			for i := 0; i < n; i++ {
				if i == pos {
					as = append(as, fmt.Sprintf("vxExt%d2(a0, dbl(a1)) + dbl(a%d)", 0, i%3))
				} else {
					as = append(as, fmt.Sprintf("a%d * %d", i%3, i+1))
				}
			}
			src := strings.ReplaceAll(strings.Join(as, ", "), "vxExt02", "vxExt2")
			if n == 2 {
				src = strings.ReplaceAll(src, "vxExt2(a0, dbl(a1))", "vxExt1(a0)")
			}
			ds := decl(n, "int")
			if n == 2 {
				ds += decl(1, "int")
			} else {
				ds += decl(2, "int")
			}
			add(pr(fmt.Sprintf("nested-%d-%d", n, pos), ds+"fn dbl(x: int) int = x + x\n"+mainOf(3, 0, fmt.Sprintf("vxObs(1, vxExt%d(%s) - a0)\n", n, src)), func(r *Ref) {
				c := r.C
				in := x63(r, 2)
				if n == 2 {
					in = x63(r, 1)
					r.ObsEv("ext1", 0, []*term.T{sx(r, r.Int(0))}, nil)
				} else {
					r.ObsEv("ext2", 0, []*term.T{sx(r, r.Int(0)), sx(r, c.Add(r.Int(1), r.Int(1)))}, nil)
				}
				var vs []*term.T
				for i := 0; i < n; i++ {
					v := c.Mul(r.Int(i%3), r.K(int64(i+1)))
					if i == pos {
						v = c.Add(in, c.Add(r.Int(i%3), r.Int(i%3)))
					}
					vs = append(vs, sx(r, v))
				}
				r.ObsEv(fmt.Sprintf("ext%d", n), 0, vs, nil)
				r.Obs(1, c.Sub(x63(r, n), r.Int(0)))
			}))
		}
	}
	// allocation while earlier arguments are pending
	add(pr("alloc-args", decl(4, "int")+`
struct pt {
    x: int
}
fn mk(x: int) int = [x, x + 1][1]
`+mainOf(3, 0, `
vxObs(1, vxExt4(a0, Pt(a1).x, mk(a2), [a0, a1][1]))`), func(r *Ref) {
		c := r.C
		r.ObsEv("ext4", 0, []*term.T{sx(r, r.Int(0)), sx(r, r.Int(1)), sx(r, c.Add(r.Int(2), r.K(1))), sx(r, r.Int(1))}, nil)
		r.Obs(1, x63(r, 4))
	}))
	// strings, arrays and bytes arrive as pointers to their contents
	const ext = `
#[RawValues]
fn vxExtMem(k: int, s: TYPE, n: int) nothing
#[RawValues]
fn vxExtArr(k: int, xs: []int, n: int) nothing
`
	add(pr("string", strings.ReplaceAll(ext, "TYPE", "string")+mainOf(1, 0, strIn("s", 0, 4)+`
vxExtMem(1, s, 5)
vxExtMem(2, "lit\n", 5)
vxExtMem(3, s.append("z"), 6)
t := s
u := "abc"
vxExtMem(4, a0 < 0 ? t : u, 3)
vxExtMem(5, [u, t][1], 4)
vxExtMem(6, "", 1)
vxObsStr(7, s)`), func(r *Ref) {
		s := r.Bytes(0, 4)
		z := r.Str("\x00")
		r.ObsEv("mem", 1, nil, cat(s, z))
		r.ObsEv("mem", 2, nil, r.Str("lit\n\x00"))
		r.ObsEv("mem", 3, nil, cat(s, r.Str("z\x00")))
		if r.If(r.C.Slt(r.Int(0), r.K(0))) {
			r.ObsEv("mem", 4, nil, s[:3])
		} else {
			r.ObsEv("mem", 4, nil, r.Str("abc"))
		}
		r.ObsEv("mem", 5, nil, s)
		r.ObsEv("mem", 6, nil, z)
		r.ObsS(7, s)
	}))
	add(pr("bytes", strings.ReplaceAll(ext, "TYPE", "bytes")+`
struct h {
    b: bytes
}
`+mainOf(2, 0, `
b := Bytes(3)
b.set(0, a0)
b.set(2, a1)
vxExtMem(1, b, 3)
vxExtMem(2, H(b).b, 2)
vxExtMem(3, "xy".asBytes(), 2)
vxObs(4, b.get(2))`), func(r *Ref) {
		c := r.C
		lo := func(i int) *term.T { return c.Extract(7, 0, r.Int(i)) }
		b := []*term.T{lo(0), c.BV(0, 8), lo(1)}
		r.ObsEv("mem", 1, nil, b)
		r.ObsEv("mem", 2, nil, b[:2])
		r.ObsEv("mem", 3, nil, r.Str("xy"))
		r.Obs(4, c.SExt(lo(1), 63))
	}))
	add(pr("array", strings.ReplaceAll(ext, "TYPE", "string")+`
fn mk(a: int, b: int) []int = [b, a]
`+mainOf(3, 0, `
xs := [a0, a1, a2]
vxExtArr(1, xs, 3)
vxExtArr(2, mk(a0, a1), 2)
vxExtArr(3, [[a1], [a2, a0]][1], 2)
vxObs(4, xs[1])`), func(r *Ref) {
		c := r.C
		tg := func(i int) *term.T { return c.Concat(r.Int(i), c.BV(1, 1)) } // elements keep their tagged form
		r.ObsEv("arr", 1, []*term.T{tg(0), tg(1), tg(2)}, nil)
		r.ObsEv("arr", 2, []*term.T{tg(1), tg(0)}, nil)
		r.ObsEv("arr", 3, []*term.T{tg(2), tg(0)}, nil)
		r.Obs(4, r.Int(1))
	}))
	// constants and extremes in every position
	add(pr("consts", decl(6, "int")+mainOf(0, 0, `
vxExt6(0, 1, -1, 4611686018427387903, 0 - 4611686018427387903 - 1, 255)
vxExt6(1 << 61, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 2)`), func(r *Ref) {
		m := int64(1)<<62 - 1
		ev := func(vs ...int64) {
			var t []*term.T
			for _, v := range vs {
				t = append(t, k64(r, v))
			}
			r.ObsEv("ext6", 0, t, nil)
		}
		ev(0, 1, -1, m, -m-1, 255)
		ev(1<<61, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 2)
	}))
	// a closure, a match arm, a loop and a recursive function calling out
	add(pr("places", decl(2, "int")+`
fn rec(n: int, x: int) int {
    if n == 0 {
        return 0
    }
    l := vxExt2(n, x)
    return rec(n - 1, x + 1) + l
}
`+mainOf(2, 0, `
f := fn(x: int) int = vxExt2(x, a1)
vxObs(1, f(a0))
for i in 0 .. 2 {
    vxExt2(i, a0)
}
match Some(a0) {
    case Some(v): vxObs(2, vxExt2(v, v))
    case None(): vxObs(2, 0)
}
vxObs(3, rec(3, a0))
y := a0 < 0 ? vxExt2(1, 1) : vxExt2(2, 2)
vxObs(4, y)`), func(r *Ref) {
		c := r.C
		x := x63(r, 2)
		e := func(a, b *term.T) { r.ObsEv("ext2", 0, []*term.T{sx(r, a), sx(r, b)}, nil) }
		e(r.Int(0), r.Int(1))
		r.Obs(1, x)
		e(r.K(0), r.Int(0))
		e(r.K(1), r.Int(0))
		e(r.Int(0), r.Int(0))
		r.Obs(2, x)
		for i := int64(0); i < 3; i++ {
			e(r.K(3-i), c.Add(r.Int(0), r.K(i)))
		}
		r.Obs(3, c.Mul(x, r.K(3)))
		if r.If(c.Slt(r.Int(0), r.K(0))) {
			e(r.K(1), r.K(1))
		} else {
			e(r.K(2), r.K(2))
		}
		r.Obs(4, x)
	}))
	// without RawValues ints travel in their tagged form, and come back so
	add(pr("tagged", `
fn vxExt3(a: int, b: int, c: int) nothing
`+mainOf(3, 0, `
vxExt3(a2, a0, a1)
vxExt3(a0 + 1, 5, a1)
vxObs(1, a0)`), func(r *Ref) {
		c := r.C
		tg := func(t *term.T) *term.T { return c.Concat(t, c.BV(1, 1)) }
		r.ObsEv("ext3", 0, []*term.T{tg(r.Int(2)), tg(r.Int(0)), tg(r.Int(1))}, nil)
		r.ObsEv("ext3", 0, []*term.T{tg(c.Add(r.Int(0), r.K(1))), tg(r.K(5)), tg(r.Int(1))}, nil)
		r.Obs(1, r.Int(0))
	}))
	return out
}

func c33() []*clara.Probe {
	var out []*clara.Probe
	add := func(p *clara.Probe) { out = append(out, p) }
	add(pr("now", mainOf(0, 0, `
t := Now()
vxObs(1, t.sec)
vxObs(2, t.usec)
u := Now()
vxObs(3, u.sec)
vxObs(4, u.usec)
vxObs(5, t.sec)
vxObs(6, t.usec)
vxObs(7, t.toMicros())`), func(r *Ref) {
		c := r.C
		v := func(n string) *term.T { return r.In(n, 63) }
		gt := func() { r.ObsEv("gettimeofday", 0, nil, nil) }
		gt()
		r.Obs(1, v("tsec0"))
		r.Obs(2, v("tusec0"))
		gt()
		r.Obs(3, v("tsec1"))
		r.Obs(4, v("tusec1"))
		r.Obs(5, v("tsec0"))
		r.Obs(6, v("tusec0"))
		r.Obs(7, c.Add(c.Mul(v("tsec0"), r.K(1000000)), v("tusec0")))
	}))
	// 0 <= sec < 2^31 (thorough 2^40), 0 <= usec < 1000000: exact unit conversions
	conv := func(name string, bits int, thorough bool, f string, div int64) {
		p := pr(name, mainOf(2, 0, fmt.Sprintf(`
s := a0 & %d
u := a1 & 0xfffff
vxAssume(u < 1000000)
t := Time(s, u)
vxObs(1, t.%s())
vxObs(2, t.sec)`, int64(1)<<bits-1, f)), func(r *Ref) {
			c := r.C
			s := c.ZExt(c.Extract(bits-1, 0, r.Int(0)), 63)
			u := c.ZExt(c.Extract(19, 0, r.Int(1)), 63)
			if div == 1 {
				r.Obs(1, c.Add(c.Mul(s, r.K(1000000)), u))
			} else if div == 1000000 {
				r.Obs(1, s)
			} else {
				// sec*1000 + floor(usec/1000): the floor q is the number with 0 <= usec - 1000 q < 1000
				o := r.Of(1)
				if len(o) != 1 {
					r.Obs(1, r.K(0))
					return
				}
				q := c.Sub(o[0].V[0], c.SExt(c.Mul(s, r.K(1000)), 64))
				rem := c.Sub(c.SExt(u, 64), c.Mul(q, c.BV(1000, 64)))
				r.Must(c.And(c.Ule(q, c.BV(999, 64)), c.Ult(rem, c.BV(1000, 64))))
				r.Obs(1, c.Extract(62, 0, o[0].V[0]))
			}
			r.Obs(2, s)
		})
		p.Thorough = thorough
		out = append(out, p)
	}
	conv("micros", 40, false, "toMicros", 1)
	conv("millis", 12, false, "toMillis", 1000)
	conv("secs", 12, false, "toSecs", 1000000)
	conv("millis-31", 31, true, "toMillis", 1000)
	conv("secs-31", 31, true, "toSecs", 1000000)
	return out
}

func init() {
	reg := func(id string, f func() []*clara.Probe, bounds ...string) {
		register(&Check{ID: id, Bounds: bounds, Assumptions: stdAssume, Probes: func(bool) []*clara.Probe { return f() }})
	}
	reg("C24", c24, "three symbolic int keys in every equality pattern, all values, four hash functions (constant, parity, negative, extreme)", "every 63-bit hash offset with colliding keys", "every history of 2..3 (thorough 4) operations over put/get/remove and 3 keys", "12..14 and 26 entries across two resizes with 4 hash functions; string keys with one unknown byte")
	reg("C31", c31, "0..6 int arguments of every value in statement, operand, argument and condition position with 0..3 extra locals; a call as each argument; strings, bytes and int arrays", "the stack is checked to be 16-byte aligned at every external entry of every path")
	reg("C33", c33, "every pair of clock readings (63-bit seconds and microseconds) for Now", "toMicros: seconds below 2^40; toMillis/toSecs: seconds below 2^12 (thorough 2^31), every microsecond count below a million")
}
