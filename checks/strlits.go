package checks

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"

	"verif/engine/clara"
	"verif/engine/gosym"
	"verif/engine/term"
)

// C06: string literals. Engine G runs the compiler on literals with symbolic bytes: which are accepted,
// and the length and bytes of the object emitted for them; engine X runs programs using literals.
func init() {
	register(&Check{
		ID: "C06",
		Bounds: []string{
			"every literal body of up to 4 bytes over all byte values (bodies with an unescaped quote are only required not to crash the compiler), and of up to 8 bytes over letters, escapes and two-byte characters",
			"pairs of literals of 2 bytes each (equal or not) in one program; literals as result, argument, operand, element and field",
			"what a program reads from literals of 0 to 40 bytes with escapes and UTF-8 text (length, bytes, comparison)",
		},
		Assumptions: []string{"the assembler reads .ascii, .asciz and .string as documented (octal, hexadecimal and letter escapes)", "an emitted form other than header, length, text directive makes the check say it could not decide"},
		Probes:      func(th bool) []*clara.Probe { return strRunProbes() },
		NoTwins:     true,
		Extra:       func(r *Runner) error { return r.runFront(strProbes()) },
	})
}

// wellFormed: the bytes are valid UTF-8 text with no newline, every backslash starting one of the four
// escapes; quoted is the condition that there is a quote which is not escaped.
func wellFormed(c *term.Ctx, bs []*term.T) (ok, quoted *term.T) {
	k := func(x byte) *term.T { return c.BV(uint64(x), 8) }
	in := func(b *term.T, lo, hi byte) *term.T { return c.And(c.Ule(k(lo), b), c.Ule(b, k(hi))) }
	ok, quoted = c.True, c.False
	esc := c.False
	// st: continuation bytes left (0..3); lo, hi: bounds of the next one
	left, lo, hi := k(0), k(0x80), k(0xbf)
	for _, b := range bs {
		lead := c.Eq(left, k(0))
		ok = c.And(ok, c.Or(c.Not(esc), c.Eq(b, k('n')), c.Eq(b, k('r')), c.Eq(b, k('\\')), c.Eq(b, k('"'))))
		ok = c.And(ok, c.Not(c.Eq(b, k('\n'))))
		quoted = c.Or(quoted, c.And(c.Not(esc), c.Eq(b, k('"'))))
		ascii := c.Ult(b, k(0x80))
		two, three, four := in(b, 0xc2, 0xdf), in(b, 0xe0, 0xef), in(b, 0xf0, 0xf4)
		ok = c.And(ok, c.Ite(lead, c.Or(ascii, two, three, four), c.And(c.Ule(lo, b), c.Ule(b, hi))))
		nleft := c.Ite(lead, c.Ite(two, k(1), c.Ite(three, k(2), c.Ite(four, k(3), k(0)))), c.Sub(left, k(1)))
		lo = c.Ite(c.And(lead, c.Eq(b, k(0xe0))), k(0xa0), c.Ite(c.And(lead, c.Eq(b, k(0xf0))), k(0x90), k(0x80)))
		hi = c.Ite(c.And(lead, c.Eq(b, k(0xed))), k(0x9f), c.Ite(c.And(lead, c.Eq(b, k(0xf4))), k(0x8f), k(0xbf)))
		left = nleft
		esc = c.And(c.Eq(b, k('\\')), c.Not(esc))
	}
	ok = c.And(ok, c.Not(esc), c.Eq(left, k(0)))
	return
}

// denoted gives the bytes a literal body stands for, on a path which settles where its escapes are.
func denoted(g *gpath, bs []*term.T) ([]*term.T, bool) {
	c := g.Ctx
	var r []*term.T
	isBS := func(b byte) bool { return b == '\\' }
	for i := 0; i < len(bs); i++ {
		switch {
		case g.St.Within(bs[i], isBS):
			if i++; i == len(bs) {
				return nil, false
			}
			r = append(r, unescape(c, bs[i]))
		case g.St.Within(bs[i], func(b byte) bool { return b != '\\' }):
			r = append(r, bs[i])
		default:
			return nil, false
		}
	}
	return r, true
}

func unescape(c *term.Ctx, b *term.T) *term.T {
	return c.Ite(c.Eq(b, c.BV('n', 8)), c.BV('\n', 8), c.Ite(c.Eq(b, c.BV('r', 8)), c.BV('\r', 8), b))
}

// asmBytes reads the text of an assembler string: the bytes it stands for.
func asmBytes(g *gpath, text string, at int, sym map[int]*term.T) ([]*term.T, string) {
	c := g.Ctx
	byteAt := func(i int) *term.T {
		if text[i] == 1 {
			if t := sym[at+i]; t != nil {
				return t
			}
		}
		return c.BV(uint64(text[i]), 8)
	}
	is := func(b *term.T, f func(byte) bool) bool { return g.St.Within(b, f) }
	var r []*term.T
	for i := 0; i < len(text); i++ {
		b := byteAt(i)
		switch {
		case is(b, func(x byte) bool { return x != '\\' && x != '"' && x != '\n' }):
			r = append(r, b)
		case is(b, func(x byte) bool { return x == '\\' }):
			if i++; i == len(text) {
				return nil, "text ends in an escape"
			}
			b = byteAt(i)
			switch {
			case is(b, func(x byte) bool { return strings.IndexByte("nr\\\"", x) >= 0 }):
				r = append(r, unescape(c, b))
			case b.IsConst() && strings.IndexByte("btf", byte(b.C)) >= 0:
				r = append(r, c.BV(uint64(map[byte]byte{'b': 8, 't': 9, 'f': 12}[byte(b.C)]), 8))
			case b.IsConst() && b.C >= '0' && b.C <= '7':
				v, n := uint64(0), 0
				for ; n < 3 && i+n < len(text) && text[i+n] >= '0' && text[i+n] <= '7'; n++ {
					v = v*8 + uint64(text[i+n]-'0')
				}
				if n < 3 && i+n < len(text) && text[i+n] == 1 {
					return nil, "octal escape before a symbolic byte"
				}
				i += n - 1
				r = append(r, c.BV(v&255, 8))
			default:
				return nil, "escape"
			}
		default:
			return nil, "a byte which may or may not be an escape"
		}
	}
	return r, ""
}

var litRef = regexp.MustCompile(`\$([.\w]+)\+8,`)

// strOut: the object the function fn loads has the length and bytes of the literal body.
func strOut(fn string, bodyOf func(s *gosym.Src) []*term.T) func(g *gpath) (*term.T, string) {
	return func(g *gpath) (*term.T, string) {
		c := g.Ctx
		text, sym := g.St.RawOutput()
		i, z0 := fnCode(text, fn)
		if i < 0 {
			return nil, "no code for the function"
		}
		var label string
		for _, m := range litRef.FindAllStringSubmatch(text[i:z0], -1) {
			if label != "" && label != m[1] {
				return nil, "several literals"
			}
			label = m[1]
		}
		if label == "" {
			return nil, "no literal in the code"
		}
		p := strings.Index(text, "\n"+label+":\n")
		if p < 0 {
			return nil, "no object for the literal"
		}
		p += len(label) + 3
		var num []string
		kind := ""
		for kind == "" {
			q := strings.IndexByte(text[p:], '\n')
			if q < 0 {
				return nil, "object cut short"
			}
			f := strings.Fields(text[p : p+min(q, 60)])
			if len(f) < 2 {
				return nil, "object not understood"
			}
			switch f[0] {
			case ".8byte", ".quad":
				num = append(num, f[1])
				p += q + 1
			case ".ascii", ".asciz", ".string":
				kind = f[0]
			default:
				return nil, "object not understood: " + f[0]
			}
		}
		if len(num) != 2 {
			return nil, "object not understood"
		}
		a := p + strings.IndexByte(text[p:], '"') + 1
		z := a
		for text[z] != '"' && text[z] != '\n' {
			if text[z] == '\\' {
				z++
			} else if text[z] == 1 && sym[z] != nil && g.St.Within(sym[z], func(b byte) bool { return b == '\\' }) {
				z++
			}
			z++
		}
		got, why := asmBytes(g, text[a:z], a, sym)
		if got == nil && why != "" {
			return nil, why
		}
		if kind != ".ascii" {
			got = append(got, c.BV(0, 8))
		}
		want, ok := denoted(g, bodyOf(g.S))
		_, quoted := wellFormed(c, bodyOf(g.S))
		if !ok {
			return quoted, "escapes not settled"
		}
		var n *term.T
		if v, err := strconv.ParseInt(num[1], 0, 64); err == nil {
			n = c.BV(uint64(v), 64)
		} else if strings.HasPrefix(num[1], "⟦T") {
			k, _ := strconv.Atoi(strings.TrimSuffix(strings.TrimPrefix(num[1], "⟦T"), "⟧"))
			n = g.E.Terms[k]
		} else {
			return nil, "length not understood"
		}
		right := c.Eq(n, c.BV(uint64(len(want))<<1|1, 64))
		if len(got) < len(want)+1 {
			right = c.False
		} else {
			for i, w := range append(append([]*term.T{}, want...), c.BV(0, 8)) {
				right = c.And(right, c.Eq(got[i], w))
			}
		}
		return c.Or(quoted, right), "the emitted string is not the one the literal denotes"
	}
}

var strSrc = regexp.MustCompile(`(?s)fn ([tu])\(\) string = "((?:[^"\\]|\\.)*)"`)

// strCheck runs the compiled program, which prints t() and u().
func strCheck(c *clara.Compiled, src string) string {
	want := ""
	for _, m := range strSrc.FindAllStringSubmatch(src, -1) {
		b := m[2]
		s := ""
		for i := 0; i < len(b); i++ {
			if b[i] == '\\' && i+1 < len(b) {
				i++
				switch b[i] {
				case 'n':
					s += "\n"
				case 'r':
					s += "\r"
				default:
					s += b[i : i+1]
				}
				continue
			}
			s += b[i : i+1]
		}
		if !utf8.ValidString(s) {
			return ""
		}
		want += s + "\x00"
	}
	got := runProgram(c)
	if got != want {
		return fmt.Sprintf("literals print as %q instead of %q (bytes up to and with the NUL)", got, want)
	}
	return ""
}

// strEnd prints what the functions give: the bytes and the byte after them.
const strEnd = `
#[RawValues]
fn write(fd: int, s: string, n: int) int
fn show(s: string) { write(1, s, s.length + 1) }
`

func strProbes() []*gprobe {
	var ps []*gprobe
	add := func(name string, build func(s *gosym.Src), th bool) {
		bodyOf := func(s *gosym.Src) []*term.T {
			var r []*term.T
			for _, k := range []string{"a", "b"} {
				if h := s.Holes[k]; h != nil {
					r = append(r, h.B...)
				}
			}
			return r
		}
		ps = append(ps, &gprobe{
			name: name,
			build: func(s *gosym.Src) {
				s.Lit("fn t() string = \"")
				build(s)
				s.Lit("\"" + strEnd + "fn main() { show(t()) }\n")
			},
			accept:   func(s *gosym.Src) *term.T { ok, _ := wellFormed(s.Ctx(), bodyOf(s)); return ok },
			free:     func(s *gosym.Src) *term.T { _, q := wellFormed(s.Ctx(), bodyOf(s)); return q },
			out:      strOut("clara_t", bodyOf),
			check:    strCheck,
			expect:   "a well-formed literal",
			thorough: th,
		})
	}
	for n := 0; n <= 2; n++ {
		n := n
		add(fmt.Sprintf("bytes-%d", n), func(s *gosym.Src) { s.Bytes("a", n, nil) }, false)
	}
	for i := 0; i < 8; i++ {
		q := func(b byte) bool { return int(b>>5) == i }
		add(fmt.Sprintf("bytes-3-%d", i), func(s *gosym.Src) { s.Bytes("a", 1, q).Bytes("b", 2, nil) }, false)
		add(fmt.Sprintf("bytes-4-%d", i), func(s *gosym.Src) { s.Bytes("a", 1, q).Bytes("b", 3, nil) }, false)
	}
	add("escapes-4", func(s *gosym.Src) { s.Bytes("a", 4, in("\\nr\"x")) }, false)
	add("escapes-6", func(s *gosym.Src) { s.Bytes("a", 6, in("\\nr\"x")) }, true)
	printable := func(b byte) bool { return b >= ' ' && b < 127 && b != '"' && b != '\\' }
	for _, n := range []int{4, 8, 16, 40} {
		n := n
		add(fmt.Sprintf("plain-%d", n), func(s *gosym.Src) { s.Bytes("a", n, printable) }, false)
	}
	add("plain-escape-plain", func(s *gosym.Src) { s.Bytes("a", 3, printable).Bytes("b", 4, in("\\nab01")) }, false)
	add("digits-after", func(s *gosym.Src) { s.Bytes("a", 1, in("\\\r\x00\t\x7f")).Bytes("b", 3, in("0178nr\x00\r")) }, false)
	add("two-byte", func(s *gosym.Src) {
		s.Bytes("a", 4, func(b byte) bool { return b >= 0x80 && b < 0xe0 })
	}, false)
	add("three-byte", func(s *gosym.Src) {
		s.Bytes("a", 1, func(b byte) bool { return b >= 0xe0 && b < 0xf0 }).Bytes("b", 2, func(b byte) bool { return b >= 0x70 })
	}, false)
	add("four-byte", func(s *gosym.Src) {
		s.Bytes("a", 1, func(b byte) bool { return b >= 0xf0 }).Bytes("b", 3, func(b byte) bool { return b >= 0x70 })
	}, false)

	// two literals, the same or not, in one program
	pairOf := func(name string, n, m int, set func(byte) bool, other string) {
		body := func(k string) func(s *gosym.Src) []*term.T {
			return func(s *gosym.Src) []*term.T { return s.Holes[k].B }
		}
		ot, ou := strOut("clara_t", body("a")), strOut("clara_u", body("b"))
		ps = append(ps, &gprobe{
			name: name,
			build: func(s *gosym.Src) {
				s.Lit("fn t() string = \"").Bytes("a", n, set).Lit("\"\nfn u() string = \"").Bytes("b", m, set).Lit("\"" + other + strEnd + "fn main() {\n show(t())\n show(u())\n}\n")
			},
			accept: func(s *gosym.Src) *term.T {
				a, _ := wellFormed(s.Ctx(), s.Holes["a"].B)
				b, _ := wellFormed(s.Ctx(), s.Holes["b"].B)
				return s.Ctx().And(a, b)
			},
			free: func(s *gosym.Src) *term.T {
				_, a := wellFormed(s.Ctx(), s.Holes["a"].B)
				_, b := wellFormed(s.Ctx(), s.Holes["b"].B)
				return s.Ctx().Or(a, b)
			},
			out: func(g *gpath) (*term.T, string) {
				a, w := ot(g)
				if a == nil {
					return nil, w
				}
				b, w := ou(g)
				if b == nil {
					return nil, w
				}
				return g.Ctx.And(a, b), w
			},
			check:  strCheck,
			expect: "well-formed literals",
		})
	}
	pairOf("two-2-2", 2, 2, printable, "")
	pairOf("two-1-2", 1, 2, printable, "")
	pairOf("two-0-1", 0, 1, printable, "")
	pairOf("two-escapes", 2, 2, in("\\nrx"), "")
	pairOf("two-case", 3, 3, in("aAn\\"), "")
	pairOf("two-3-2", 3, 2, in("aA\\n"), "")
	pairOf("two-4-4", 4, 4, printable, "")
	pairOf("two-5-5", 5, 5, func(b byte) bool { return printable(b) && b != 92 }, "")
	pairOf("two-escape-control", 1, 2, in("\\nr\r"), "")
	pairOf("two-among-others", 2, 2, in("ab\\n"), "\nfn v() string = \"ab\"\nfn w() string = \"a\\n\"")
	return ps
}

// strRunProbes: what programs read from literals.
func strRunProbes() []*clara.Probe {
	var ps []*clara.Probe
	long := strings.Repeat("0123456789", 4)
	lits := []struct{ src, val string }{{"", ""}, {"a", "a"}, {"abcdefg", "abcdefg"}, {"abcdefgh", "abcdefgh"}, {"abcdefghi", "abcdefghi"}, {`\n`, "\n"}, {`\r\n`, "\r\n"}, {`a\"b\\c`, `a"b\c`}, {`\\n`, `\n`}, {"héß", "héß"}, {"日本語", "日本語"}, {"😀", "😀"},
		{long, long}, {"// not a comment", "// not a comment"}, {"/* nor this */", "/* nor this */"}, {"%d %s", "%d %s"}, {"#define x", "#define x"}, {"??=", "??="}, {"a\tb", "a\tb"}, {"'", "'"}, {"$.LC0+8", "$.LC0+8"}, {"; ret", "; ret"}, {"ab\rc", "ab\rc"}}
	src, obs := "", ""
	for i, l := range lits {
		src += fmt.Sprintf("fn s%d() string = \"%s\"\n", i, l.src)
		obs += fmt.Sprintf("vxObsStr(%d, s%d())\nvxObs(%d, \"%s\".length)\n", 2*i+1, i, 2*i+2, l.src)
	}
	ps = append(ps, pr("read", src+mainOf(0, 0, obs), func(r *Ref) {
		for i, l := range lits {
			r.ObsS(2*i+1, strTerms(r, l.val))
			r.ObsN(2*i+2, int64(len(l.val)))
		}
	}))
	ps = append(ps, pr("uses", `struct vs { a: string n: int b: string }
enum ve { Va(s: string) Vb() }
fn id(s: string) string = s
fn two(a: string, b: string) string = b
`+mainOf(0, 1, `x := "first"
y := p0 ? "yes" : "no"
vxObsStr(1, x)
vxObsStr(2, y)
x = "second"
vxObsStr(3, x)
z := ["a", "bb", "", "first"]
vxObsStr(4, z[1])
vxObsStr(5, z[2])
vxObsStr(6, z[3])
s := Vs("l", 7, "r")
vxObsStr(7, s.a)
vxObsStr(8, s.b)
match Va("in enum") {
    case Va(q): vxObsStr(9, q)
    case Vb(): vxObsStr(9, "none")
}
vxObsStr(10, two("p", id("q")))
f := fn() string = "closure"
vxObsStr(11, f())
vxObsStr(12, "first")`), func(r *Ref) {
		o := func(k int, s string) { r.ObsS(k, strTerms(r, s)) }
		o(1, "first")
		if r.If(r.BoolIn(0)) {
			o(2, "yes")
		} else {
			o(2, "no")
		}
		o(3, "second")
		o(4, "bb")
		o(5, "")
		o(6, "first")
		o(7, "l")
		o(8, "r")
		o(9, "in enum")
		o(10, "q")
		o(11, "closure")
		o(12, "first")
	}))
	return ps
}

func strTerms(r *Ref, s string) []*term.T {
	var ts []*term.T
	for i := 0; i < len(s); i++ {
		ts = append(ts, r.C.BV(uint64(s[i]), 8))
	}
	return ts
}
