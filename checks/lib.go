package checks

import (
	"fmt"
	"strings"

	"verif/engine/clara"
	"verif/engine/term"
)

// strIn declares a Clara string of n unconstrained bytes b<k>_0..n-1.
func strIn(name string, k, n int) string {
	return fmt.Sprintf("%s := \"%s\".append(\"\")\nvxFill(%s, %d, %d)\n", name, strings.Repeat("x", n), name, k, n)
}

func eqBytes(r *Ref, a, b []*term.T) *term.T {
	if len(a) != len(b) {
		return r.C.False
	}
	t := r.C.True
	for i := range a {
		t = r.C.And(t, r.C.Eq(a[i], b[i]))
	}
	return t
}

func cat(as ...[]*term.T) []*term.T {
	r := []*term.T{}
	for _, a := range as {
		r = append(r, a...)
	}
	return r
}

func c22() []*clara.Probe {
	var out []*clara.Probe
	add := func(p *clara.Probe) { out = append(out, p) }
	for n := 0; n <= 4; n++ {
		for m := 0; m <= 4; m++ {
			n, m := n, m
			add(pr(fmt.Sprintf("equals-%d-%d", n, m), mainOf(0, 0, strIn("s", 0, n)+strIn("t", 1, m)+`
vxObsB(1, s.Equals(t))
vxObsB(2, Equals(t, s))
vxObsB(3, s.Equals(s))
vxObsStr(4, s)
vxObsStr(5, t)`), func(r *Ref) {
				s, t := r.Bytes(0, n), r.Bytes(1, m)
				eq := eqBytes(r, s, t)
				r.ObsB(1, eq)
				r.ObsB(2, eq)
				r.ObsB(3, r.C.True)
				r.ObsS(4, s)
				r.ObsS(5, t)
			}))
		}
	}
	add(pr("equals-long", mainOf(0, 0, strIn("s", 0, 17)+`
t := "0123456789abcdefX"
vxObsB(1, s.Equals(t))
vxObsB(2, t.Equals(s))
vxObsB(3, s.Equals("0123456789abcdef"))`), func(r *Ref) {
		eq := eqBytes(r, r.Bytes(0, 17), r.Str("0123456789abcdefX"))
		r.ObsB(1, eq)
		r.ObsB(2, eq)
		r.ObsB(3, r.C.False)
	}))
	for _, nm := range [][2]int{{0, 0}, {0, 3}, {3, 0}, {1, 1}, {2, 5}, {7, 1}, {8, 8}, {5, 20}} {
		n, m := nm[0], nm[1]
		add(pr(fmt.Sprintf("append-%d-%d", n, m), mainOf(0, 0, strIn("s", 0, n)+strIn("t", 1, m)+fmt.Sprintf(`
u := s.append(t)
vxObsStr(1, u)
vxObs(2, u.length)
vxObsStr(3, s)
vxObsStr(4, t)
vxFill(u, 2, %d)
vxObsStr(5, s)
vxObsStr(6, t)
vxObsStr(7, s.append(t).append(s))
vxObsStr(8, "lit".append(s).append("eral"))`, n+m)), func(r *Ref) {
			s, t := r.Bytes(0, n), r.Bytes(1, m)
			r.ObsS(1, cat(s, t))
			r.ObsN(2, int64(n+m))
			r.ObsS(3, s)
			r.ObsS(4, t)
			r.ObsS(5, s)
			r.ObsS(6, t)
			r.ObsS(7, cat(s, t, s))
			r.ObsS(8, cat(r.Str("lit"), s, r.Str("eral")))
		}))
	}
	for n := 0; n <= 6; n++ {
		n := n
		add(pr(fmt.Sprintf("substring-%d", n), mainOf(0, 0, strIn("s", 0, n)+fmt.Sprintf(`
a := vxRange(0, 0, %d)
b := vxRange(1, 0, %d)
vxAssume(a <= b)
u := s.Substring(a, b)
vxObsStr(1, u)
vxObs(2, u.length)
vxObsStr(3, s)
vxObsStr(4, u.append(s.Substring(b, %d)))
vxObsB(5, u.Equals(s.Substring(a, b)))`, n, n, n)), func(r *Ref) {
			s := r.Bytes(0, n)
			a, b := r.Pick(r.Int(0), 0, int64(n)), r.Pick(r.Int(1), 0, int64(n))
			if a > b {
				r.Skip()
			}
			r.ObsS(1, cat(s[a:b]))
			r.ObsN(2, b-a)
			r.ObsS(3, s)
			r.ObsS(4, cat(s[a:]))
			r.ObsB(5, r.C.True)
		}))
	}
	idx := func(r *Ref, s, sub []*term.T, from int) int64 {
		if len(sub) == 0 {
			return 0
		}
		for i := from; i+len(sub) <= len(s); i++ {
			if r.If(eqBytes(r, s[i:i+len(sub)], sub)) {
				return int64(i)
			}
		}
		return -1
	}
	for n := 0; n <= 4; n++ {
		for m := 0; m <= 3; m++ {
			n, m := n, m
			p := pr(fmt.Sprintf("indexof-%d-%d", n, m), mainOf(0, 0, strIn("s", 0, n)+strIn("t", 1, m)+`
from := vxInt(0)
vxAssume(from >= 0)
vxObs(1, s.IndexOf(t, from))`), func(r *Ref) {
				s, t := r.Bytes(0, n), r.Bytes(1, m)
				f := n + 1
				for i := 0; i <= n && f > n; i++ {
					if r.If(r.C.Eq(r.Int(0), r.K(int64(i)))) {
						f = i
					}
				}
				r.ObsN(1, idx(r, s, t, f))
			})
			add(p)
			if n > 3 {
				p.Thorough = true
			}
			add(pr(fmt.Sprintf("indexof0-%d-%d", n, m), mainOf(0, 0, strIn("s", 0, n)+strIn("t", 1, m)+`
vxObs(1, s.IndexOf(t))
vxObsStr(2, s)
vxObsStr(3, t)`), func(r *Ref) {
				s, t := r.Bytes(0, n), r.Bytes(1, m)
				r.ObsN(1, idx(r, s, t, 0))
				r.ObsS(2, s)
				r.ObsS(3, t)
			}))
		}
	}
	// one symbolic byte against a fixed text with repeated prefixes
	add(pr("indexof-overlap", mainOf(0, 0, strIn("s", 0, 2)+`
u := "aab".append(s).append("ab")
vxObs(1, u.IndexOf("aabab"))
vxObs(2, u.IndexOf("ab"))
vxObs(3, u.IndexOf("ab", 2))
vxObs(4, u.IndexOf("b", 6))
vxObs(5, u.IndexOf("bab"))`), func(r *Ref) {
		u := cat(r.Str("aab"), r.Bytes(0, 2), r.Str("ab"))
		r.ObsN(1, idx(r, u, r.Str("aabab"), 0))
		r.ObsN(2, 1)
		r.ObsN(3, idx(r, u, r.Str("ab"), 2))
		r.ObsN(4, 6)
		r.ObsN(5, idx(r, u, r.Str("bab"), 0))
	}))
	for n := 0; n <= 4; n++ {
		n := n
		add(pr(fmt.Sprintf("bytes-tostring-%d", n), mainOf(0, 0, fmt.Sprintf(`
b := Bytes(%d)
for j in 0 .. %d {
    b.set(j, vxInt(20 + j))
}
pos := vxRange(0, 0, %d)
n := vxRange(1, 0, %d)
vxAssume(pos + n <= %d)
vxObsStr(1, b.toString())
vxObsStr(2, b.toString(n))
vxObsStr(3, b.toString(pos, n))
vxObsBytes(4, b)
vxObs(5, b.toString(n).length)
vxObsStr(6, b.toString(pos, n).append("!"))`, n, n, n, n, n)), func(r *Ref) {
			b := []*term.T{}
			for j := 0; j < n; j++ {
				b = append(b, r.C.Extract(7, 0, r.Int(20+j)))
			}
			p, k := r.Pick(r.Int(0), 0, int64(n)), r.Pick(r.Int(1), 0, int64(n))
			if p+k > int64(n) {
				r.Skip()
			}
			r.ObsS(1, b)
			r.ObsS(2, b[:k])
			r.ObsS(3, b[p:p+k])
			r.ObsS(4, b)
			r.ObsN(5, k)
			r.ObsS(6, cat(b[p:p+k], r.Str("!")))
		}))
	}
	return out
}

// decimal gives the digits of a 63-bit term under the current branch.
func decimal(r *Ref, v *term.T) []*term.T {
	c := r.C
	if r.If(c.Eq(v, r.K(0))) {
		return r.Str("0")
	}
	neg := r.If(c.Slt(v, r.K(0)))
	var d []*term.T
	for n := v; !r.If(c.Eq(n, r.K(0))); {
		q := c.SDiv(n, r.K(10))
		rem := c.Sub(n, c.Mul(q, r.K(10)))
		if neg {
			rem = c.Neg(rem)
		}
		d = append([]*term.T{c.Add(c.Extract(7, 0, rem), c.BV('0', 8))}, d...)
		n = q
		if len(d) > 20 {
			r.Skip()
		}
	}
	if neg {
		d = append(r.Str("-"), d...)
	}
	return d
}

func c23() []*clara.Probe {
	var out []*clara.Probe
	add := func(p *clara.Probe) { out = append(out, p) }
	type rng struct {
		name string
		lo   int64
	}
	const max, min = int64(1)<<62 - 1, -int64(1) << 62
	rs := []rng{{"small", -7}, {"ten", 5}, {"nten", -20}, {"two", 92}, {"ntwo", -107}, {"max", max - 15}, {"min", min}}
	for p, e := int64(1000), 3; e <= 18; e++ {
		rs = append(rs, rng{fmt.Sprintf("p%d", e), p - 8}, rng{fmt.Sprintf("n%d", e), -p - 7}, rng{fmt.Sprintf("m%d", e), p/7*5 + 3})
		p *= 10
	}
	for _, g := range rs {
		g := g
		add(pr("tostring-"+g.name, mainOf(1, 0, fmt.Sprintf(`
v := %s + (a0 & 15)
s := v.toString()
vxObsStr(1, s)
vxObs(2, s.length)
vxObs(3, v)`, lit(g.lo))), func(r *Ref) {
			v := g.lo + r.Pick(r.C.ZExt(r.C.Extract(3, 0, r.Int(0)), 63), 0, 15)
			s := fmt.Sprint(v)
			r.ObsS(1, r.Str(s))
			r.ObsN(2, int64(len(s)))
			r.ObsN(3, v)
		}))
	}
	// every value with up to this many digits, symbolically
	for _, d := range []int{3, 4, 5, 6, 7} {
		n := strings.Repeat("9", d)
		p := pr(fmt.Sprintf("tostring-%ddigits", d), mainOf(0, 0, fmt.Sprintf(`
v := vxRange(0, -%s, %s)
vxObsStr(1, v.toString())`, n, n)), func(r *Ref) {
			r.ObsS(1, decimal(r, r.Int(0)))
		})
		p.Thorough = d > 3
		add(p)
	}
	add(pr("tostring-bool", mainOf(0, 2, `
vxObsStr(1, p0.toString())
vxObsStr(2, (p0 and p1).toString())
vxObsStr(3, true.toString())
vxObsStr(4, toString(false))`), func(r *Ref) {
		b := func(t *term.T) []*term.T {
			if r.If(t) {
				return r.Str("true")
			}
			return r.Str("false")
		}
		r.ObsS(1, b(r.BoolIn(0)))
		r.ObsS(2, b(r.C.And(r.BoolIn(0), r.BoolIn(1))))
		r.ObsS(3, r.Str("true"))
		r.ObsS(4, r.Str("false"))
	}))
	// a few bits unknown at a time, everywhere in the word
	for sh := 0; sh < 63; sh += 5 {
		sh := sh
		w := 4
		if sh+w > 63 {
			w = 63 - sh
		}
		for _, base := range []string{"0", "-1"} {
			base := base
			add(pr(fmt.Sprintf("tobinary-%d%s", sh, map[string]string{"0": "z", "-1": "o"}[base]), mainOf(0, 0, fmt.Sprintf(`
v := vxRange(0, 0, %d)
m := %s ^ (v << %d)
vxObsStr(1, m.toBinary())`, 1<<w-1, base, sh)), func(r *Ref) {
				v := r.Pick(r.Int(0), 0, int64(1<<w-1))
				x := uint64(v) << sh
				if base == "-1" {
					x = ^x
				}
				s := ""
				for j := 62; j >= 0; j-- {
					s += fmt.Sprint(x >> j & 1)
					if j > 0 && j%8 == 0 {
						s += "·"
					}
				}
				r.ObsS(1, r.Str(s))
			}))
		}
	}
	// printing
	pp := pr("print", mainOf(1, 1, strIn("s", 3, 3)+`
vxAssume(not (s.byte(0) == 0))
vxAssume(not (s.byte(1) == 0))
vxAssume(not (s.byte(2) == 0))
print("a%d%sb")
println(s)
print(s)
print(a0)
println(a0)
println(p0)
printHex(a0)
printHexPadded(a0)
println("")
vxObs(1, a0)`), func(r *Ref) {
		c := r.C
		r.Obs(1, r.Int(0))
		var b []*term.T
		var v []*term.T
		shape := ""
		for _, e := range r.Printed() {
			b = append(b, e.B...)
			v = append(v, e.V...)
			shape += e.Name
		}
		tf := "false"
		if r.If(r.BoolIn(0)) {
			tf = "true"
		}
		s := r.Bytes(3, 3)
		wb := cat(r.Str("a%d%sb"), s, r.Str("\n"), s, r.Str("\n"), r.Str(tf+"\n"), r.Str("0x\n0x\n"), r.Str("\n"))
		cs := func(n int) string { return strings.Repeat("c", n) }
		ws := cs(6) + cs(4) + cs(3) + "%lli;" + "%lli;c" + cs(len(tf)+1) + "cc%llx;c" + "cc%016llx;c" + "c"
		norm := strings.NewReplacer("%lld;", "%lli;", "%ld;", "%lli;", "%li;", "%lli;", "%lx;", "%llx;", "%016lx;", "%016llx;")
		r.Must(c.Bool(norm.Replace(shape) == ws && len(wb) == len(b) && len(v) == 4))
		if len(wb) == len(b) {
			r.Must(eqBytes(r, b, wb))
		}
		for _, x := range v {
			r.Must(c.Eq(x, c.SExt(r.Int(0), 64)))
		}
	})
	add(pp)
	for _, p := range append([]*clara.Probe{}, out...) {
		switch p.Name {
		case "tostring-two", "tostring-p4", "tostring-small", "tobinary-0z", "tobinary-50o", "print":
			out = append(out, rawTwins([]*clara.Probe{p})...)
		}
	}
	return out
}

// lit writes an int constant that may not have a literal of its own.
func lit(v int64) string {
	if v < 0 {
		return fmt.Sprintf("(0 - %d)", -(v+1)) + " - 1"
	}
	return fmt.Sprint(v)
}

func c25() []*clara.Probe {
	var out []*clara.Probe
	add := func(p *clara.Probe) { out = append(out, p) }
	const dec = `
fn show(k: int, l: list«int») {
    n := 0
    loop := true
    while loop {
        match l {
            case Empty():
                loop = false
            case Element(v, rest):
                vxObs(k, v)
                n = n + 1
                l = rest
        }
    }
    vxObs(k, n)
}
fn showO(k: int, o: option«int») {
    match o {
        case Some(v): vxObs(k, v)
        case None(): vxObsB(k, false)
    }
}
`
	mk := func(n int) string {
		s := "l := Empty«int»()\n"
		for i := n - 1; i >= 0; i-- {
			s += fmt.Sprintf("l = l.append(a%d)\n", i)
		}
		return s
	}
	ints := func(r *Ref, n int) []*term.T {
		var v []*term.T
		for i := 0; i < n; i++ {
			v = append(v, r.Int(i))
		}
		return v
	}
	show := func(r *Ref, k int, v []*term.T) {
		for _, t := range v {
			r.Obs(k, t)
		}
		r.ObsN(k, int64(len(v)))
	}
	rev := func(v []*term.T) []*term.T {
		var o []*term.T
		for i := len(v) - 1; i >= 0; i-- {
			o = append(o, v[i])
		}
		return o
	}
	for n := 0; n <= 4; n++ {
		n := n
		add(pr(fmt.Sprintf("build-%d", n), dec+mainOf(n, 0, mk(n)+`
show(1, l)
m := l.append(77)
show(2, m)
show(3, l)
show(4, l.reverse())
show(5, l)
show(6, l.reverse().reverse())`), func(r *Ref) {
			v := ints(r, n)
			show(r, 1, v)
			show(r, 2, cat([]*term.T{r.K(77)}, v))
			show(r, 3, v)
			show(r, 4, rev(v))
			show(r, 5, v)
			show(r, 6, v)
		}))
		var es []string
		for i := 0; i < n; i++ {
			es = append(es, fmt.Sprintf("a%d", i))
		}
		arr := "xs := [" + strings.Join(es, ", ") + "]\n"
		if n == 0 {
			arr = "xs := intArray(0)\n"
		}
		add(pr(fmt.Sprintf("tolist-%d", n), dec+mainOf(n, 0, arr+`
l := xs.toList()
show(1, l)
for x in xs {
    vxObs(2, x)
}`), func(r *Ref) {
			v := ints(r, n)
			show(r, 1, v)
			for _, t := range v {
				r.Obs(2, t)
			}
		}))
		add(pr(fmt.Sprintf("foreach-%d", n), dec+mainOf(n, 0, mk(n)+`
k := 5
l.foreach(fn(x: int) { vxObs(1, x + k) })
l.foreach(fn(x: int) = vxObs(2, x))
show(3, l)`), func(r *Ref) {
			v := ints(r, n)
			for _, t := range v {
				r.Obs(1, r.C.Add(t, r.K(5)))
			}
			for _, t := range v {
				r.Obs(2, t)
			}
			show(r, 3, v)
		}))
		add(pr(fmt.Sprintf("map-%d", n), dec+mainOf(n, 0, mk(n)+`
k := vxInt(9)
m := l.map(fn(x: int) int {
    vxObs(1, x)
    return x * 3 + k
})
show(2, m)
show(3, l)
l.map(fn(x: int) bool = x < k).foreach(fn(b: bool) = vxObsB(4, b))`), func(r *Ref) {
			c := r.C
			v := ints(r, n)
			var m []*term.T
			for _, t := range v {
				m = append(m, c.Add(c.Mul(t, r.K(3)), r.Int(9)))
			}
			for _, t := range v {
				r.Obs(1, t)
			}
			show(r, 2, m)
			show(r, 3, v)
			for _, t := range v {
				r.ObsB(4, c.Slt(t, r.Int(9)))
			}
		}))
		add(pr(fmt.Sprintf("reduce-%d", n), dec+mainOf(n, 0, mk(n)+`
k := vxInt(9)
vxObs(1, l.reduce(k, fn(x: int, y: int) int {
    vxObs(2, x)
    vxObs(3, y)
    return x * 3 - y
}))
show(4, l)`), func(r *Ref) {
			c := r.C
			acc := r.Int(9)
			for _, t := range ints(r, n) {
				r.Obs(2, acc)
				r.Obs(3, t)
				acc = c.Sub(c.Mul(acc, r.K(3)), t)
			}
			r.Obs(1, acc)
			show(r, 4, ints(r, n))
		}))
		add(pr(fmt.Sprintf("find-%d", n), dec+mainOf(n, 0, mk(n)+`
k := vxInt(9)
showO(1, l.find(fn(x: int) bool {
    vxObs(2, x)
    return x >= k
}))
show(3, l)`), func(r *Ref) {
			c := r.C
			v := ints(r, n)
			var hit *term.T
			for _, t := range v {
				r.Obs(2, t)
				if r.If(c.Sle(r.Int(9), t)) {
					hit = t
					break
				}
			}
			if hit != nil {
				r.Obs(1, hit)
			} else {
				r.ObsB(1, c.False)
			}
			show(r, 3, v)
		}))
		add(pr(fmt.Sprintf("remove-%d", n), dec+mainOf(n, 0, mk(n)+`
k := vxInt(9)
p := l.remove(fn(x: int) bool = x >= k)
showO(1, p.second)
show(2, p.first)
show(3, l)`), func(r *Ref) {
			c := r.C
			v := ints(r, n)
			var hit *term.T
			var rest []*term.T
			for _, t := range v {
				if hit == nil && r.If(c.Sle(r.Int(9), t)) {
					hit = t
					continue
				}
				rest = append(rest, t)
			}
			if hit != nil {
				r.Obs(1, hit)
			} else {
				r.ObsB(1, c.False)
			}
			show(r, 2, rest)
			show(r, 3, v)
		}))
	}
	// lists of references
	add(pr("objects", dec+`
struct pt {
    x: int
}
`+mainOf(3, 0, `
l := [Pt(a0), Pt(a1), Pt(a2)].toList()
q := l.find(fn(p: pt) bool = p.x == a1).orElse(Pt(5))
q.x = 9
l.foreach(fn(p: pt) = vxObs(1, p.x))
s := ["a", "bc", "def"].toList().reverse()
s.foreach(fn(t: string) = vxObsStr(2, t))
vxObsStr(3, s.reduce("", fn(x: string, y: string) string = x.append(y)))
n := l.map(fn(p: pt) list«int» = [p.x, p.x].toList())
n.foreach(fn(l: list«int») = show(4, l))`), func(r *Ref) {
		c := r.C
		v := []*term.T{r.Int(0), r.Int(1), r.Int(2)}
		for i := range v {
			if r.If(c.Eq(v[i], r.Int(1))) {
				v[i] = r.K(9)
				break
			}
		}
		for _, t := range v {
			r.Obs(1, t)
		}
		for _, s := range []string{"def", "bc", "a"} {
			r.ObsS(2, r.Str(s))
		}
		r.ObsS(3, r.Str("defbca"))
		for _, t := range v {
			show(r, 4, []*term.T{t, t})
		}
	}))
	return out
}

func c26() []*clara.Probe {
	var out []*clara.Probe
	add := func(p *clara.Probe) { out = append(out, p) }
	add(pr("option-int", `
fn mk(p: bool, v: int) option«int» = p ? Some(v) : None«int»()
fn show(k: int, o: option«int») {
    match o {
        case Some(v): vxObs(k, v)
        case None(): vxObsB(k, false)
    }
}
`+mainOf(2, 1, `
o := mk(p0, a0)
vxObsB(1, o.isSome())
vxObsB(2, o.isNone())
vxObs(3, o.orElse(a1))
show(4, o.filter(fn(x: int) bool {
    vxObs(5, x)
    return x < a1
}))
show(6, o.map(fn(x: int) int {
    vxObs(7, x)
    return x * 2 + a1
}))
show(8, o.peek(fn(x: int) { vxObs(9, x + a1) }))
o.map(fn(x: int) bool = x == a1).peek(fn(b: bool) { vxObsB(10, b) })
show(11, o)
vxObsStr(12, o.map(fn(x: int) string = "some").orElse("none"))`), func(r *Ref) {
		c := r.C
		p := r.If(r.BoolIn(0))
		a, b := r.Int(0), r.Int(1)
		none := func(k int) { r.ObsB(k, c.False) }
		r.ObsB(1, c.Bool(p))
		r.ObsB(2, c.Bool(!p))
		if !p {
			r.Obs(3, b)
			none(4)
			none(6)
			none(8)
			none(11)
			r.ObsS(12, r.Str("none"))
			return
		}
		r.Obs(3, a)
		r.Obs(5, a)
		if r.If(c.Slt(a, b)) {
			r.Obs(4, a)
		} else {
			none(4)
		}
		r.Obs(7, a)
		r.Obs(6, c.Add(c.Mul(a, r.K(2)), b))
		r.Obs(9, c.Add(a, b))
		r.Obs(8, a)
		r.ObsB(10, c.Eq(a, b))
		r.Obs(11, a)
		r.ObsS(12, r.Str("some"))
	}))
	// contained values of other types
	for _, ty := range []struct{ name, typ, mk, alt, obs string }{
		{"string", "string", "\"v\".append(a0 < 0 ? \"neg\" : \"pos\")", "\"alt\"", "vxObsStr(1, $)"},
		{"bool", "bool", "a0 < 0", "p1", "vxObsB(1, $)"},
		{"struct", "pt", "Pt(a0, \"q\")", "Pt(a1, \"alt\")", "vxObs(1, $.x)"},
		{"array", "[]int", "[a0, a1]", "[a1]", "vxObs(1, $.length * 100 + $[0])"},
		{"option", "option«int»", "Some(a0)", "None«int»()", "vxObs(1, $.orElse(7))"},
		{"fn", "fn(int) int", "fn(x: int) int = x + a0", "fn(x: int) int = x - a1", "vxObs(1, $(5))"},
	} {
		ty := ty
		obs := func(e string) string { return strings.ReplaceAll(ty.obs, "$", e) }
		add(pr("option-"+ty.name, `
struct pt {
    x: int
    s: string
}
`+mainOf(2, 2, fmt.Sprintf(`
v := %s
alt := %s
o := p0 ? Some(v) : None«%s»()
w := o.orElse(alt)
%s
o.peek(fn(t: %s) { %s })
u := o.filter(fn(t: %s) bool = p1).orElse(alt)
%s
m := o.map(fn(t: %s) pair«%s, int» = Pair(t, 3))
match m {
    case Some(q):
        z := q.first
        %s
        vxObs(2, q.second)
    case None():
        vxObs(2, 0)
}`, ty.mk, ty.alt, ty.typ, obs("w"), ty.typ, obs("t"), ty.typ, obs("u"), ty.typ, ty.typ, obs("z"))), func(r *Ref) {
			c := r.C
			show := func(alt bool) {
				a, b := r.Int(0), r.Int(1)
				switch ty.name {
				case "string":
					if alt {
						r.ObsS(1, r.Str("alt"))
					} else if r.If(c.Slt(a, r.K(0))) {
						r.ObsS(1, r.Str("vneg"))
					} else {
						r.ObsS(1, r.Str("vpos"))
					}
				case "bool":
					if alt {
						r.ObsB(1, r.BoolIn(1))
					} else {
						r.ObsB(1, c.Slt(a, r.K(0)))
					}
				case "struct":
					if alt {
						r.Obs(1, b)
					} else {
						r.Obs(1, a)
					}
				case "array":
					if alt {
						r.Obs(1, c.Add(r.K(100), b))
					} else {
						r.Obs(1, c.Add(r.K(200), a))
					}
				case "option":
					if alt {
						r.ObsN(1, 7)
					} else {
						r.Obs(1, a)
					}
				case "fn":
					if alt {
						r.Obs(1, c.Sub(r.K(5), b))
					} else {
						r.Obs(1, c.Add(r.K(5), a))
					}
				}
			}
			p := r.If(r.BoolIn(0))
			show(!p)
			if p {
				show(false)
			}
			show(!(p && r.If(r.BoolIn(1))))
			if p {
				show(false)
				r.ObsN(2, 3)
			} else {
				r.ObsN(2, 0)
			}
		}))
	}
	add(pr("result", `
fn mk(p: bool, v: int, e: int) result«int, string» = p ? Ok«int, string»(v) : Err«int, string»("E".append(e < 0 ? "-" : "+"))
fn show(k: int, o: result«int, string») {
    match o {
        case Ok(v): vxObs(k, v)
        case Err(e): vxObsStr(k, e)
    }
}
`+mainOf(2, 3, `
o := mk(p0, a0, a1)
show(1, o)
show(2, o.map(fn(x: int) int {
    vxObs(3, x)
    return x + a1
}))
show(4, o.then(fn(x: int) result«int, string» {
    vxObs(5, x)
    return p1 ? Ok«int, string»(x * 2) : Err«int, string»("then")
}))
show(6, o.peek(fn(x: int) option«string» {
    vxObs(7, x)
    return p2 ? Some("peek") : None«string»()
}))
show(8, o)
match o.map(fn(x: int) bool = x < a1) {
    case Ok(b): vxObsB(9, b)
    case Err(e): vxObsStr(9, e)
}
match o.then(fn(x: int) result«bool, string» = Ok«bool, string»(p1)) {
    case Ok(b): vxObsB(10, b)
    case Err(e): vxObsStr(10, e)
}
q := Pair(a0, "s")
vxObs(11, q.first)
vxObsStr(12, q.second)
q.first = a1
vxObs(13, q.first)
vxObsStr(14, q.second)`), func(r *Ref) {
		c := r.C
		a, b := r.Int(0), r.Int(1)
		ok := r.If(r.BoolIn(0))
		es := "E+"
		if !ok && r.If(c.Slt(b, r.K(0))) {
			es = "E-"
		}
		e := func(k int, s string) { r.ObsS(k, r.Str(s)) }
		if ok {
			r.Obs(1, a)
			r.Obs(3, a)
			r.Obs(2, c.Add(a, b))
			r.Obs(5, a)
			if r.If(r.BoolIn(1)) {
				r.Obs(4, c.Mul(a, r.K(2)))
			} else {
				e(4, "then")
			}
			r.Obs(7, a)
			if r.If(r.BoolIn(2)) {
				e(6, "peek")
			} else {
				r.Obs(6, a)
			}
			r.Obs(8, a)
			r.ObsB(9, c.Slt(a, b))
			r.ObsB(10, r.BoolIn(1))
		} else {
			for _, k := range []int{1, 2, 4, 6, 8, 9, 10} {
				e(k, es)
			}
		}
		r.Obs(11, a)
		e(12, "s")
		r.Obs(13, b)
		e(14, "s")
	}))
	add(pr("chain", `
fn half(x: int) result«int, int» = (x & 1) == 0 ? Ok«int, int»(x >> 1) : Err«int, int»(x)
`+mainOf(1, 0, `
match half(a0).then(half).then(half).map(fn(x: int) int = x + 1) {
    case Ok(v): vxObs(1, v)
    case Err(e): vxObs(2, e)
}
match p(a0) {
    case Left(l): vxObs(3, l)
    case Right(s): vxObsStr(3, s)
}`)+`
fn p(x: int) either«int, string» = x < 0 ? Left«int, string»(x) : Right«int, string»("r")
`, func(r *Ref) {
		c := r.C
		x := r.Int(0)
		done := false
		for i := 0; i < 3; i++ {
			if r.If(c.Eq(c.BAnd(x, r.K(1)), r.K(1))) {
				r.Obs(2, x)
				done = true
				break
			}
			x = c.AShr(x, r.K(1))
		}
		if !done {
			r.Obs(1, c.Add(x, r.K(1)))
		}
		if r.If(c.Slt(r.Int(0), r.K(0))) {
			r.Obs(3, r.Int(0))
		} else {
			r.ObsS(3, r.Str("r"))
		}
	}))
	return out
}

func fnv(r *Ref, s []*term.T) *term.T {
	c := r.C
	h := c.BV(0x811c9dc5, 32)
	for _, b := range s {
		h = c.Mul(c.BXor(h, c.ZExt(b, 32)), c.BV(0x01000193, 32))
	}
	return c.ZExt(h, 63)
}

func c27() []*clara.Probe {
	var out []*clara.Probe
	add := func(p *clara.Probe) { out = append(out, p) }
	for _, n := range []int{0, 1, 2, 3, 4, 8} {
		n := n
		add(pr(fmt.Sprintf("fnv-%d", n), mainOf(0, 0, strIn("s", 0, n)+`
h := fnv1a(s)
vxObs(1, h)
vxObs(2, s.append("").fnv1a())
vxObsB(3, h >= 0 and h <= 4294967295)
vxObsStr(4, s)`), func(r *Ref) {
			s := r.Bytes(0, n)
			h := fnv(r, s)
			r.Obs(1, h)
			r.Obs(2, h)
			r.ObsB(3, r.C.True)
			r.ObsS(4, s)
		}))
	}
	add(pr("fnv-mixed", mainOf(0, 0, strIn("s", 0, 1)+`
vxObs(1, "foo".append(s).append("bar").fnv1a())
vxObs(2, "".fnv1a())
vxObs(3, "hello".fnv1a())
vxObs(4, s.append("aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa").fnv1a())`), func(r *Ref) {
		b := r.Bytes(0, 1)
		r.Obs(1, fnv(r, cat(r.Str("foo"), b, r.Str("bar"))))
		r.Obs(2, fnv(r, nil))
		r.Obs(3, fnv(r, r.Str("hello")))
		r.Obs(4, fnv(r, cat(b, r.Str(strings.Repeat("a", 40)))))
	}))
	return out
}

func c32() []*clara.Probe {
	var out []*clara.Probe
	add := func(p *clara.Probe) { out = append(out, p) }
	for _, cp := range []int{0, 1, 2, 3, 8, 16} {
		cp := cp
		add(pr(fmt.Sprintf("append-cap-%d", cp), mainOf(2, 0, strIn("s", 0, 3)+strIn("t", 1, 1)+fmt.Sprintf(`
b := NewByteBuffer(%d)
vxObs(1, size(b))
vxObsStr(2, b.toString())
b.append(s)
vxObs(1, size(b))
vxObsStr(2, b.toString())
b.append(a0)
vxObsStr(2, b.toString())
b.append("").append(t).append("lit")
vxObs(1, size(b))
vxObsStr(2, b.toString())
for i in 0 .. 9 {
    b.append(a1 + i)
}
vxObs(1, size(b))
vxObsStr(2, b.toString())
b.reset()
vxObs(1, size(b))
vxObsStr(2, b.toString())
b.append(t)
vxObsStr(2, b.toString())
vxObsStr(3, s)`, cp)), func(r *Ref) {
			c := r.C
			s, t := r.Bytes(0, 3), r.Bytes(1, 1)
			lo := func(x *term.T) []*term.T { return []*term.T{c.Extract(7, 0, x)} }
			r.ObsN(1, 0)
			r.ObsS(2, cat())
			w := cat(s)
			r.ObsN(1, 3)
			r.ObsS(2, w)
			w = cat(w, lo(r.Int(0)))
			r.ObsS(2, w)
			w = cat(w, t, r.Str("lit"))
			r.ObsN(1, 8)
			r.ObsS(2, w)
			for i := int64(0); i < 9; i++ {
				w = cat(w, lo(c.Add(r.Int(1), r.K(i))))
			}
			r.ObsN(1, 17)
			r.ObsS(2, w)
			r.ObsN(1, 0)
			r.ObsS(2, cat())
			r.ObsS(2, t)
			r.ObsS(3, s)
		}))
	}
	// any small capacity, any number of appends of any small size
	add(pr("append-any", mainOf(0, 0, strIn("s", 0, 4)+`
b := NewByteBuffer(vxRange(0, 0, 2))
for i in 0 .. vxRange(1, 0, 2) {
    b.append(s.Substring(0, vxRange(10 + i, 0, 4)))
}
vxObs(1, size(b))
vxObsStr(2, b.toString())`), func(r *Ref) {
		r.Pick(r.Int(0), 0, 2)
		n := r.Pick(r.Int(1), 0, 2)
		var w []*term.T
		for i := int64(0); i < n; i++ {
			w = cat(w, r.Bytes(0, 4)[:r.Pick(r.Int(10+int(i)), 0, 4)])
		}
		r.ObsN(1, int64(len(w)))
		r.ObsS(2, cat(w))
	}))
	// a whole byte sequence one at a time through several growths
	for _, cp := range []int{0, 1, 16} {
		cp := cp
		add(pr(fmt.Sprintf("bytes-%d", cp), mainOf(1, 0, fmt.Sprintf(`
b := NewByteBuffer(%d)
for i in 0 .. 40 {
    b.append(a0 + i)
}
vxObsStr(1, b.toString())
b.reset()
b.append("xy")
vxObsStr(2, b.toString())`, cp)), func(r *Ref) {
			var w []*term.T
			for i := int64(0); i < 40; i++ {
				w = append(w, r.C.Extract(7, 0, r.C.Add(r.Int(0), r.K(i))))
			}
			r.ObsS(1, w)
			r.ObsS(2, r.Str("xy"))
		}))
	}
	// one append far larger than the capacity
	add(pr("big", mainOf(0, 0, strIn("s", 0, 50)+`
b := NewByteBuffer(2)
b.append("z")
b.append(s)
vxObs(1, size(b))
vxObsStr(2, b.toString())`), func(r *Ref) {
		r.ObsN(1, 51)
		r.ObsS(2, cat(r.Str("z"), r.Bytes(0, 50)))
	}))
	for _, n := range []int{0, 3} {
		n := n
		for _, lim := range []string{"a0 <= 1000000", "a1 <= 100"} {
			add(pr(fmt.Sprintf("substring-%d-%s", n, lim[:2]), mainOf(2, 0, strIn("s", 0, n)+`
vxAssume(`+lim+`)
b := NewByteBuffer(8)
b.append(s)
u := b.substring(a0, a1)
vxObsStr(1, u)
vxObs(2, u.length)
vxObsStr(3, b.toString())`), func(r *Ref) {
				c := r.C
				s := r.Bytes(0, n)
				p, l := r.Int(0), r.Int(1)
				// pos >= 0, length >= 0, pos <= n, length <= n - pos
				in := c.And(c.Sle(r.K(0), p), c.Sle(r.K(0), l), c.Sle(p, r.K(int64(n))), c.Sle(l, c.Sub(r.K(int64(n)), p)))
				if !r.If(in) {
					r.Exit()
				}
				i, k := r.Pick(p, 0, int64(n)), r.Pick(l, 0, int64(n))
				r.ObsS(1, cat(s[i:i+k]))
				r.ObsN(2, k)
				r.ObsS(3, s)
			}))
		}
	}
	// two buffers do not share
	add(pr("two", mainOf(2, 0, `
b := NewByteBuffer(1)
c := NewByteBuffer(1)
b.append(a0)
c.append(a1)
b.append(a1)
s := b.toString()
c.append(a0)
b.append("later")
vxObsStr(1, b.toString())
vxObsStr(2, c.toString())
vxObsStr(3, s)`), func(r *Ref) {
		lo := func(i int) *term.T { return r.C.Extract(7, 0, r.Int(i)) }
		r.ObsS(1, cat([]*term.T{lo(0), lo(1)}, r.Str("later")))
		r.ObsS(2, []*term.T{lo(1), lo(0)})
		r.ObsS(3, []*term.T{lo(0), lo(1)})
	}))
	return out
}

func init() {
	reg := func(id string, f func() []*clara.Probe, bounds ...string) {
		register(&Check{ID: id, Bounds: bounds, Assumptions: stdAssume, Probes: func(bool) []*clara.Probe { return f() }})
	}
	reg("C22", c22, "Equals: string lengths 0..4 x 0..4 and 17, all contents", "append: 8 length pairs up to 5+20, all contents", "Substring: lengths 0..6, all in-range arguments, all contents", "IndexOf: text 0..4 (quick 0..3 with a start), pattern 0..3, every start >= 0, all contents", "bytes toString: lengths 0..4, all in-range arguments, all contents")
	reg("C23", c23, "toString(int): every value of up to 3 digits (thorough: up to 7) symbolically, plus 55 windows of 16 values around every power of ten up to 10^18 (both signs), in between and at both extremes of the 63-bit range", "toBinary: 4 unknown bits at 13 positions covering the whole word, over all-zero and all-one backgrounds", "print/println/printHex of every int and bool and of 3-byte strings; printf's own conversions are trusted")
	all["C23"].NoTwins = true
	reg("C25", c25, "lists of 0..4 ints, all values and all comparison outcomes; lists of strings, structs and lists")
	reg("C26", c26, "options of 7 element types, results with string/int errors, all values")
	reg("C27", c27, "strings of length 0..4 and 8, all contents; one symbolic byte inside strings of length 7 and 41")
	reg("C32", c32, "capacities 0..3, 8, 16; up to 40 single-byte appends and appends of 0..50 bytes, all contents; substring with every 63-bit pos and length")
}
