package checks

import (
	"fmt"
	"math"
	"os"
	"os/exec"
	"regexp"
	"strconv"
	"strings"
	"time"

	"verif/engine/clara"
	"verif/engine/gosym"
	"verif/engine/term"
)

// C04: integer literals. Engine G runs the compiler on symbolic digits (acceptance, and the immediate in
// the emitted code); engine X runs the emitted code with that immediate symbolic.
func init() {
	register(&Check{
		ID: "C04",
		Bounds: []string{
			"every decimal literal of 1 to 22 digits and every hexadecimal literal of 1 to 20 digits, plain and negated, as the body of a function; every combination of up to 6 digits with or without leading zeros (these are only required not to crash the compiler)",
			"the emitted code for a literal (any value of the 32-bit, and of the 63-bit, immediate) as result, argument, operand of every operator, condition, element, field, index and range bound",
		},
		Assumptions: []string{"the assembler reads an immediate as the number it denotes", "a literal's own text or its value as a decimal number is what the compiler emits (anything else makes the check say it could not decide)"},
		Probes:      func(th bool) []*clara.Probe { return litCodeProbes() },
		NoTwins:     true,
		Extra:       func(r *Runner) error { return r.runFront(intProbes()) },
	})
}

// litValue gives, for the digits of a hole in a base, the value (the low 64 bits of it).
func litValue(c *term.Ctx, digits []*term.T, base uint64) *term.T {
	v := c.BV(0, 64)
	for _, b := range digits {
		d := c.Sub(b, c.BV('0', 8))
		if base == 16 {
			d = c.Ite(c.Ult(c.BV('9', 8), b), c.Sub(c.BOr(b, c.BV(32, 8)), c.BV('a'-10, 8)), d)
		}
		v = c.Add(c.Mul(v, c.BV(base, 64)), c.ZExt(d, 64))
	}
	return v
}

var immRe = regexp.MustCompile(`\$(-?)(0[xX])?((?:⟦T\d+⟧|[0-9a-fA-F\x01])+)`)

var symRe = regexp.MustCompile(`\n[A-Za-z_][\w.]*:|\n\s+\.globl`)

// fnCode finds the code of a function in the assembler text: up to the next symbol.
func fnCode(text, fn string) (int, int) {
	i := strings.Index(text, "\n"+fn+":")
	if i < 0 {
		return -1, 0
	}
	i += len(fn) + 2
	if m := symRe.FindStringIndex(text[i:]); m != nil {
		return i, i + m[0]
	}
	return i, len(text)
}

// litOut: the one immediate in the code of clara_t is the literal's value.
func litOut(want func(s *gosym.Src) *term.T) func(g *gpath) (*term.T, string) {
	return func(g *gpath) (*term.T, string) {
		c := g.Ctx
		text, sym := g.St.RawOutput()
		i, z := fnCode(text, "clara_t")
		if i < 0 {
			return nil, "no code for the function"
		}
		code := text[i:z]
		w := want(g.S)
		n := 0
		ok := c.False
		for _, m := range immRe.FindAllStringSubmatchIndex(code, -1) {
			body := code[m[6]:m[7]]
			if !strings.ContainsAny(body, "\x01⟦") {
				continue
			}
			n++
			var v *term.T
			if strings.HasPrefix(body, "⟦T") {
				k, err := strconv.Atoi(strings.TrimSuffix(strings.TrimPrefix(body, "⟦T"), "⟧"))
				if err != nil {
					return nil, "immediate " + body
				}
				v = g.E.Terms[k]
				if v.W < 64 {
					v = c.SExt(v, 64)
				}
			} else {
				var ds []*term.T
				for q := 0; q < len(body); q++ {
					if body[q] == 1 {
						ds = append(ds, sym[i+m[6]+q])
					} else {
						ds = append(ds, c.BV(uint64(body[q]), 8))
					}
				}
				base := uint64(10)
				if m[4] >= 0 {
					base = 16
				}
				v = litValue(c, ds, base)
			}
			if m[3] > m[2] {
				v = c.Neg(v)
			}
			// the value itself, or its tagged form
			ok = c.Or(c.Eq(v, w), c.Eq(v, c.Add(c.Shl(w, c.BV(1, 64)), c.BV(1, 64))))
		}
		if n != 1 {
			return nil, fmt.Sprintf("%d immediates in the code", n)
		}
		return ok, "the immediate in the emitted code is not the literal's value"
	}
}

var litSrc = regexp.MustCompile(`fn t\(\) int =\s*(-?)\s*(\S+)`)

// litCheck runs the compiled program, which prints the literal.
func litCheck(c *clara.Compiled, src string) string {
	m := litSrc.FindStringSubmatch(src)
	if m == nil {
		return ""
	}
	want, err := strconv.ParseInt(m[1]+m[2], 0, 64)
	if err != nil {
		return ""
	}
	got := runProgram(c)
	if got != fmt.Sprint(want) {
		return fmt.Sprintf("the literal %s%s is %s in the compiled program", m[1], m[2], got)
	}
	return ""
}

// runProgram runs the program the compiler linked and gives what it prints.
func runProgram(c *clara.Compiled) string {
	bin := c.Dir + "/prog"
	if _, err := os.Stat(bin); err != nil {
		return "no program"
	}
	cmd := exec.Command(bin)
	cmd.Dir = c.Dir
	cmd.Env = []string{}
	t := time.AfterFunc(10*time.Second, func() { cmd.Process.Kill() })
	defer t.Stop()
	out, err := cmd.Output()
	if err != nil {
		return fmt.Sprintf("%s (%v)", out, err)
	}
	return string(out)
}

const litEnd = "\nfn main() { printf(\"%ld\", t()) }\n"

func intProbes() []*gprobe {
	var ps []*gprobe
	dig := in("0123456789")
	hex := in("0123456789abcdefABCDEF")
	for _, neg := range []string{"", "-"} {
		neg := neg
		nm := map[string]string{"": "", "-": "negative-"}[neg]
		lim := uint64(1)<<62 - 1
		if neg != "" {
			lim++
		}
		sign := func(c *term.Ctx, v *term.T) *term.T {
			if neg != "" {
				return c.Neg(v)
			}
			return v
		}
		for n := 1; n <= 22; n++ {
			n := n
			ds := func(s *gosym.Src) []*term.T { return append(append([]*term.T{}, s.Holes["a"].B...), s.Holes["d"].B...) }
			ps = append(ps, &gprobe{
				name: fmt.Sprintf("%sdecimal-%d", nm, n),
				build: func(s *gosym.Src) {
					s.Lit("fn t() int = "+neg).Bytes("a", 1, in("123456789")).Bytes("d", n-1, dig).Lit(litEnd)
				},
				accept: func(s *gosym.Src) *term.T {
					if n > 19 {
						return s.Ctx().False // at least 10^19
					}
					return s.Ctx().Ule(litValue(s.Ctx(), ds(s), 10), s.Ctx().BV(lim, 64))
				},
				expect: "a literal that fits in 63 bits",
				out:    litOut(func(s *gosym.Src) *term.T { return sign(s.Ctx(), litValue(s.Ctx(), ds(s), 10)) }),
				check:  litCheck,
			})
		}
		for n := 1; n <= 20; n++ {
			n := n
			ps = append(ps, &gprobe{
				name:  fmt.Sprintf("%shex-%d", nm, n),
				build: func(s *gosym.Src) { s.Lit("fn t() int = "+neg+"0x").Bytes("d", n, hex).Lit(litEnd) },
				accept: func(s *gosym.Src) *term.T {
					c := s.Ctx()
					b := s.Holes["d"].B
					r := c.Ule(litValue(c, b[max(0, n-16):], 16), c.BV(lim, 64))
					for _, x := range b[:max(0, n-16)] {
						r = c.And(r, c.Eq(x, c.BV('0', 8)))
					}
					return r
				},
				expect: "a literal that fits in 63 bits",
				out:    litOut(func(s *gosym.Src) *term.T { return sign(s.Ctx(), litValue(s.Ctx(), s.Holes["d"].B, 16)) }),
				check:  litCheck,
			})
		}
		for _, z := range []int{1, 3, 6} {
			z := z
			ps = append(ps, &gprobe{name: fmt.Sprintf("%sleading-zero-%d", nm, z), build: func(s *gosym.Src) {
				s.Lit("fn t() int = "+neg+"0").Bytes("d", z-1, dig).Lit(litEnd)
			}})
		}
		// 0 by itself and with the other ways to write a number
		ps = append(ps, &gprobe{name: nm + "prefixes", build: func(s *gosym.Src) {
			s.Lit("fn t() int = "+neg).Bytes("p", 2, in("0123456789xXbBoO_")).Bytes("d", 2, in("01789afAFxXbo_")).Lit(litEnd)
		}})
	}
	return ps
}

// litCodeProbes: every place a literal can stand, with the immediate symbolic.
func litCodeProbes() []*clara.Probe {
	var ps []*clara.Probe
	type cls struct {
		name   string
		magic  int64
		lo, hi int64
	}
	classes := []cls{
		{"small", 1234567891, 0, math.MaxInt32},
		{"small-negative", -1234567891, math.MinInt32, -1},
		{"large", 123456789123456789, math.MaxInt32 + 1, 1<<62 - 1},
		{"large-negative", -123456789123456789, -1 << 62, math.MinInt32 - 1},
	}
	for _, k := range classes {
		k := k
		l := fmt.Sprint(k.magic)
		lit := func(r *Ref) *term.T { return r.C.Extract(62, 0, r.In("lit0", 64)) }
		add := func(name, src string, f func(r *Ref)) {
			p := pr(name+"-"+k.name, src, f)
			p.Lits = []clara.Lit{{Magic: k.magic, Var: "lit0", Lo: k.lo, Hi: k.hi}}
			ps = append(ps, p)
		}
		add("result", "fn t() int = "+l+"\nfn u() int {\n return "+l+"\n}\n"+mainOf(0, 0, "vxObs(1, t())\nvxObs(2, u())\nvxObs(3, "+l+")"), func(r *Ref) {
			r.Obs(1, lit(r))
			r.Obs(2, lit(r))
			r.Obs(3, lit(r))
		})
		add("argument", "fn t(a: int, b: int, c: int, d: int, e: int, f: int) {\n vxObs(1, a)\n vxObs(2, b)\n vxObs(3, c)\n vxObs(4, d)\n vxObs(5, e)\n vxObs(6, f)\n}\n"+
			mainOf(1, 0, fmt.Sprintf("t(%s, a0, %s, %s, a0, %s)", l, l, l, l)), func(r *Ref) {
			r.Obs(1, lit(r))
			r.Obs(2, r.Int(0))
			r.Obs(3, lit(r))
			r.Obs(4, lit(r))
			r.Obs(5, r.Int(0))
			r.Obs(6, lit(r))
		})
		add("arithmetic", mainOf(1, 0, fmt.Sprintf("vxObs(1, a0 + %s)\nvxObs(2, %s - a0)\nvxObs(3, a0 - %s)\nvxObs(4, (%s & a0) | (a0 ^ %s))\nvxObs(5, -(%s))\nvxObs(6, ~%s)", l, l, l, l, l, l, l)), func(r *Ref) {
			c, a, v := r.C, r.Int(0), lit(r)
			r.Obs(1, c.Add(a, v))
			r.Obs(2, c.Sub(v, a))
			r.Obs(3, c.Sub(a, v))
			r.Obs(4, c.BOr(c.BAnd(v, a), c.BXor(a, v)))
			r.Obs(5, c.Neg(v))
			r.Obs(6, c.BNot(v))
		})
		add("compare", mainOf(1, 0, fmt.Sprintf("vxObsB(1, a0 < %s)\nvxObsB(2, %s <= a0)\nvxObsB(3, a0 == %s)\nif a0 > %s { vxObs(4, 1) } else { vxObs(4, 2) }", l, l, l, l)), func(r *Ref) {
			c, a, v := r.C, r.Int(0), lit(r)
			r.ObsB(1, c.Slt(a, v))
			r.ObsB(2, c.Sle(v, a))
			r.ObsB(3, c.Eq(a, v))
			r.Obs(4, c.Ite(c.Slt(v, a), r.K(1), r.K(2)))
		})
		add("stored", "struct vs { a: int b: int c: int }\nenum ve { Va(x: int, y: int) }\n"+mainOf(1, 0, fmt.Sprintf(`x := %s
x = a0
x = %s
vxObs(1, x)
s := Vs(%s, a0, %s)
vxObs(2, s.a)
vxObs(3, s.b)
s.b = %s
vxObs(4, s.b + s.c)
z := [a0, %s, %s]
vxObs(5, z[1])
z[0] = %s
vxObs(6, z[0] + z[2])
match Va(%s, a0) {
    case Va(p, q): vxObs(7, p - q)
}
f := fn(m: int) int = m + %s
vxObs(8, f(%s))
w := a0 > 0 ? %s : 3
vxObs(9, w)`, l, l, l, l, l, l, l, l, l, l, l, l)), func(r *Ref) {
			c, a, v := r.C, r.Int(0), lit(r)
			r.Obs(1, v)
			r.Obs(2, v)
			r.Obs(3, a)
			r.Obs(4, c.Add(v, v))
			r.Obs(5, v)
			r.Obs(6, c.Add(v, v))
			r.Obs(7, c.Sub(v, a))
			r.Obs(8, c.Add(v, v))
			r.Obs(9, c.Ite(c.Slt(r.K(0), a), v, r.K(3)))
		})
	}
	return ps
}
