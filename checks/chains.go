package checks

import (
	"fmt"
	"strings"

	"verif/engine/clara"
	"verif/engine/term"
)

// Chains of selections and indexing, from every kind of root, read and written.

const chainDecls = `
struct leaf {
    x: int
    y: int
}
struct pack {
    ls: []leaf
    q: leaf
}
struct hold {
    n: int
    a: leaf
    xs: []int
    ls: []leaf
    mm: [][]int
    ks: []pack
}
struct boxed {
    k: int
    h: hold
    hs: []hold
}
fn idx(i: int) int {
    vxObs(50, i)
    return i
}
fn same(h: hold) hold {
    vxObs(51, 1)
    return h
}
fn sames(hs: []hold) []hold {
    vxObs(52, 1)
    return hs
}
fn mk(b: int) hold = Hold(b, Leaf(b + 1, b + 2), [b + 3, b + 4, b + 5], [Leaf(b + 6, b + 7), Leaf(b + 8, b + 9)], [[b + 10, b + 11], [b + 12, b + 13]], [Pack([Leaf(b + 14, b + 15)], Leaf(b + 16, b + 17)), Pack([Leaf(b + 18, b + 19), Leaf(b + 20, b + 21)], Leaf(b + 22, b + 23))])
fn dump(h: hold) {
    vxObs(60, h.n)
    vxObs(60, h.a.x)
    vxObs(60, h.a.y)
    for x in h.xs {
        vxObs(60, x)
    }
    for l in h.ls {
        vxObs(60, l.x)
        vxObs(60, l.y)
    }
    for m in h.mm {
        for x in m {
            vxObs(60, x)
        }
    }
    for k in h.ks {
        for l in k.ls {
            vxObs(60, l.x)
            vxObs(60, l.y)
        }
        q := k.q
        vxObs(60, q.x)
        vxObs(60, q.y)
    }
}
`

// chain is a path to an int inside a hold; slot is its position in the dump, eff the indices it observes.
type chain struct {
	path string
	slot int
	eff  []int64
}

var chainPaths = []chain{
	{".n", 0, nil}, {".a.x", 1, nil}, {".a.y", 2, nil}, {".xs[0]", 3, nil}, {".xs[idx(2)]", 5, []int64{2}}, {".xs[i]", 4, nil},
	{".ls[0].x", 6, nil}, {".ls[i].y", 9, nil}, {".ls[idx(1)].x", 8, []int64{1}}, {".mm[0][1]", 11, nil}, {".mm[i][0]", 12, nil}, {".mm[idx(1)][idx(1)]", 13, []int64{1, 1}},
	{".ks[0].ls[0].y", 15, nil}, {".ks[i].ls[i].x", 20, nil}, {".ks[idx(1)].ls[idx(0)].y", 19, []int64{1, 0}}, {".ks[0].q.x", 16, nil}, {".ks[i].q.y", 23, nil}, {".ks[i - 1].q.y", 17, nil},
}

// roots give the hold h (0) or g (1); eff are the observations they make.
var chainRoots = []struct {
	name, text string
	obj        int
	eff        [][2]int64
}{
	{"var", "h", 0, nil}, {"element", "hs[1]", 0, nil}, {"element-call", "hs[idx(0)]", 1, [][2]int64{{50, 0}}}, {"call", "same(g)", 1, [][2]int64{{51, 1}}}, {"dot-call", "h.same()", 0, [][2]int64{{51, 1}}},
	{"call-element", "sames(hs)[1]", 0, [][2]int64{{52, 1}}}, {"field", "b.h", 1, nil}, {"field-element", "b.hs[i]", 0, nil}, {"literal", "sames([g, h])[i]", 0, [][2]int64{{52, 1}}}, {"funcval", "f(h)", 0, [][2]int64{{51, 1}}}, {"constructed", "Boxed(1, g, hs).h", 1, nil},
}

func chainProbes() []*clara.Probe {
	var out []*clara.Probe
	for ri, rt := range chainRoots {
		ri, rt := ri, rt
		for half := 0; half < 2; half++ {
			var ps []chain
			for i, p := range chainPaths {
				if i%2 == half {
					ps = append(ps, p)
				}
			}
			var b strings.Builder
			b.WriteString("h := mk(a0)\ng := mk(a1)\nhs := [g, h]\nb := Boxed(3, g, [g, h])\ni := 1\nf := same\n")
			for j, p := range ps {
				e := rt.text + p.path
				fmt.Fprintf(&b, "vxObs(1, %s)\n%s = a2 + %d\nvxObs(2, %s)\n", e, e, j, e)
				switch j % 3 {
				case 0:
					fmt.Fprintf(&b, "%s = %s + 1\n", e, e)
				case 1:
					fmt.Fprintf(&b, "vxObs(3, %s * 2 - %s)\n", e, e)
				}
				if j%4 == ri%4 || j == len(ps)-1 {
					b.WriteString("dump(h)\ndump(g)\n")
				}
			}
			b.WriteString("vxObs(4, i)\n")
			out = append(out, pr(fmt.Sprintf("chain-%s-%d", rt.name, half), chainDecls+mainOf(3, 0, b.String()), func(r *Ref) {
				c := r.C
				var v [2][24]*term.T
				for o := range v {
					for k := range v[o] {
						v[o][k] = c.Add(r.Int(o), r.K(int64(k)))
					}
				}
				for j, p := range ps {
					eff := func() {
						for _, x := range rt.eff {
							r.ObsN(int(x[0]), x[1])
						}
						for _, x := range p.eff {
							r.ObsN(50, x)
						}
					}
					s := &v[rt.obj][p.slot]
					eff()
					r.Obs(1, *s)
					eff()
					*s = c.Add(r.Int(2), r.K(int64(j)))
					eff()
					r.Obs(2, *s)
					switch j % 3 {
					case 0:
						eff()
						eff()
						*s = c.Add(*s, r.K(1))
					case 1:
						eff()
						eff()
						r.Obs(3, *s)
					}
					if j%4 == ri%4 || j == len(ps)-1 {
						for o := range v {
							for k := range v[o] {
								r.Obs(60, v[o][k])
							}
						}
					}
				}
				r.ObsN(4, 1)
			}))
		}
	}
	// assignment of whole objects through chains
	out = append(out, pr("chain-objects", chainDecls+mainOf(3, 0, `
h := mk(a0)
g := mk(a1)
b := Boxed(3, g, [g, h])
l := Leaf(a2, 5)
b.hs[1].a = l
l.x = 6
vxObs(1, h.a.x)
h.ls[1] = h.a
h.a.y = 7
vxObs(2, b.hs[1].ls[1].y)
b.h.ks[0].ls[0] = l
b.h.ks[1] = Pack([l, h.ls[0]], g.a)
g.ks[1].q.x = 8
vxObs(3, g.a.x)
vxObs(4, b.h.ks[0].ls[0].x)
b.hs[0].mm[1] = h.xs
h.xs[0] = 9
vxObs(5, g.mm[1][0])
b.h = h
b.h.n = 10
vxObs(6, h.n)
vxObs(7, b.hs[0].n)
b.hs[0] = b.hs[1]
b.hs[0].n = 11
vxObs(8, h.n)
vxObs(9, g.n)
g.ks[1].ls[1].x = 12
vxObs(10, h.ls[0].x)`), func(r *Ref) {
		r.ObsN(1, 6)
		r.ObsN(2, 7)
		r.ObsN(3, 8)
		r.ObsN(4, 6)
		r.ObsN(5, 9)
		r.ObsN(6, 10)
		r.Obs(7, r.Int(1))
		r.ObsN(8, 11)
		r.Obs(9, r.Int(1))
		r.ObsN(10, 12)
	}))
	// names that are alike
	names := []string{"x", "X", "xx", "xX", "x1", "x_"}
	var d, rd, wr strings.Builder
	d.WriteString("struct rec {\n")
	for i, n := range names {
		fmt.Fprintf(&d, "    %s: int\n", n)
		fmt.Fprintf(&rd, "vxObs(%d, s.%s)\n", i, n)
		fmt.Fprintf(&wr, "s.%s = s.%s + %d\n", n, n, i+1)
	}
	d.WriteString("}\n")
	out = append(out, pr("names-fields", d.String()+mainOf(6, 0, "s := Rec(a0, a1, a2, a3, a4, a5)\n"+rd.String()+wr.String()+rd.String()), func(r *Ref) {
		for i := range names {
			r.Obs(i, r.Int(i))
		}
		for i := range names {
			r.Obs(i, r.C.Add(r.Int(i), r.K(int64(i+1))))
		}
	}))
	return out
}
