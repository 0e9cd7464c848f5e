package checks

import (
	"fmt"
	"strings"

	"verif/engine/clara"
)

// Shapes: every assignment of two types to the positions of a constructor, parameter list or list of captured
// variables.

type maskType struct {
	name, typ string
	val       func(j int) string           // an expression for position j
	obs       func(k int, e string) string // statement observing e
	want      func(r *Ref, k, j int)       // the observation expected of val(j)
}

var maskTypes = map[string]maskType{
	"int": {"int", "int", func(j int) string { return fmt.Sprintf("a%d + %d", j%3, j) },
		func(k int, e string) string { return fmt.Sprintf("vxObs(%d, %s)", k, e) },
		func(r *Ref, k, j int) { r.Obs(k, r.C.Add(r.Int(j%3), r.K(int64(j)))) }},
	"bool": {"bool", "bool", func(j int) string { return fmt.Sprintf("p%d", j%3) },
		func(k int, e string) string { return fmt.Sprintf("vxObsB(%d, %s)", k, e) },
		func(r *Ref, k, j int) { r.ObsB(k, r.BoolIn(j%3)) }},
	"obj": {"obj", "pt", func(j int) string { return fmt.Sprintf("Pt(%d, a%d)", j, j%3) },
		func(k int, e string) string { return fmt.Sprintf("vxObs(%d, %s.v)\nvxObs(%d, %s.k)", k, e, k, e) },
		func(r *Ref, k, j int) { r.Obs(k, r.Int(j%3)); r.ObsN(k, int64(j)) }},
	"str": {"str", "string", func(j int) string { return fmt.Sprintf("\"s\".append(\"%d\")", j) },
		func(k int, e string) string { return fmt.Sprintf("vxObsStr(%d, %s)", k, e) },
		func(r *Ref, k, j int) { r.ObsS(k, r.Str(fmt.Sprintf("s%d", j))) }},
	"arr": {"arr", "[]int", func(j int) string { return fmt.Sprintf("[a%d, %d]", j%3, j) },
		func(k int, e string) string { return fmt.Sprintf("vxObs(%d, %s[0])\nvxObs(%d, %s[1])", k, e, k, e) },
		func(r *Ref, k, j int) { r.Obs(k, r.Int(j%3)); r.ObsN(k, int64(j)) }},
}

const maskDecls = `struct pt {
    k: int
    v: int
}
fn churn(n: int) int {
    x := [n, n, n]
    y := Pt(n, n)
    return x[1] + y.v
}
`

// maskProbes: what is "struct", "enum", "params", "fnvalue" or "captures"; n positions.
func maskProbes(what, A, B string, n int) []*clara.Probe {
	ta, tb := maskTypes[A], maskTypes[B]
	at := func(m, j int) maskType {
		if m>>uint(j)&1 == 1 {
			return tb
		}
		return ta
	}
	var out []*clara.Probe
	per := 8
	if what == "struct" {
		per = 4
	}
	for lo := 0; lo < 1<<uint(n); lo += per {
		lo := lo
		hi := lo + per
		if hi > 1<<uint(n) {
			hi = 1 << uint(n)
		}
		decls, body := maskDecls, ""
		var wants []func(r *Ref)
		for m := lo; m < hi; m++ {
			m := m
			var ds, vs, ns []string
			for j := 0; j < n; j++ {
				ds = append(ds, fmt.Sprintf("f%d: %s", j, at(m, j).typ))
				vs = append(vs, at(m, j).val(j))
				ns = append(ns, fmt.Sprintf("f%d", j))
			}
			all := func(pre string) string { // observe every position
				s := ""
				for j := 0; j < n; j++ {
					s += at(m, j).obs(100*j, fmt.Sprintf("%sf%d", pre, j)) + "\n"
				}
				return s
			}
			wantAll := func(r *Ref, val func(j int) int) {
				for j := 0; j < n; j++ {
					at(m, j).want(r, 100*j, val(j))
				}
			}
			id := func(j int) int { return j }
			switch what {
			case "struct":
				decls += fmt.Sprintf("struct s%d {\n    %s\n}\n", m, strings.Join(ds, "\n    "))
				body += fmt.Sprintf("x%d := S%d(%s)\nchurn(%d)\n", m, m, strings.Join(vs, ", "), m) + all(fmt.Sprintf("x%d.", m))
				wants = append(wants, func(r *Ref) { wantAll(r, id) })
				// assign each field in turn
				for j := 0; j < n; j++ {
					j := j
					body += fmt.Sprintf("x%d.f%d = %s\n", m, j, at(m, j).val(j+1))
					if j == n-1 || j%2 == 0 {
						body += all(fmt.Sprintf("x%d.", m))
						wants = append(wants, func(r *Ref) {
							wantAll(r, func(i int) int {
								if i <= j {
									return i + 1
								}
								return i
							})
						})
					}
				}
			case "enum":
				decls += fmt.Sprintf("enum e%d {\n    N%d()\n    F%d(%s)\n}\n", m, m, m, strings.Join(ds, ", "))
				body += fmt.Sprintf("x%d := F%d(%s)\nchurn(%d)\nmatch x%d {\n    case F%d(%s):\n    churn(1)\n%s    case N%d():\n        vxObs(1, 1)\n}\n", m, m, strings.Join(vs, ", "), m, m, m, strings.Join(ns, ", "), all(""), m)
				wants = append(wants, func(r *Ref) { wantAll(r, id) })
			case "params":
				decls += fmt.Sprintf("fn g%d(%s) int {\n    churn(%d)\n%s    return %d\n}\n", m, strings.Join(ds, ", "), m, all(""), m)
				body += fmt.Sprintf("vxObs(7, g%d(%s))\n", m, strings.Join(vs, ", "))
				wants = append(wants, func(r *Ref) { wantAll(r, id); r.ObsN(7, int64(m)) })
			case "fnvalue":
				body += fmt.Sprintf("x%d := fn(%s) int {\n    churn(%d)\n%s    return %d\n}\nvxObs(7, x%d(%s))\n", m, strings.Join(ds, ", "), m, all(""), m, m, strings.Join(vs, ", "))
				wants = append(wants, func(r *Ref) { wantAll(r, id); r.ObsN(7, int64(m)) })
			case "captures":
				decls += fmt.Sprintf("fn g%d(%s) fn(int) int {\n    return fn(q: int) int {\n    churn(q)\n%s    return q\n    }\n}\n", m, strings.Join(ds, ", "), all(""))
				body += fmt.Sprintf("x%d := g%d(%s)\nvxObs(7, x%d(%d))\n", m, m, strings.Join(vs, ", "), m, m)
				wants = append(wants, func(r *Ref) { wantAll(r, id); r.ObsN(7, int64(m)) })
			}
		}
		src := decls + runOf(3, 3, body)
		out = append(out, pr(fmt.Sprintf("shape-%s-%s-%s-%d", what, A, B, lo), src, func(r *Ref) {
			for _, w := range wants {
				w(r)
			}
		}))
	}
	return out
}
