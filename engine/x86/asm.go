// Package x86 executes x86-64 assembly text symbolically. It understands the AT&T syntax that
// the Clara compiler and gcc emit, lays the program out in a pseudo address space (every
// instruction occupies 8 bytes, data has its true size and alignment) and explores every path.
package x86

import (
	"fmt"
	"strconv"
	"strings"
)

const (
	TextBase  = 0x400000
	DataBase  = 0x2000000
	StubBase  = 0x100000
	HeapBase  = 0x10000000
	StackTop  = 0x7fff00000000
	StackSize = 8 << 20
)

type opKind uint8

const (
	oNone opKind = iota
	oReg
	oImm
	oMem
)

type operand struct {
	kind  opKind
	reg   int // oReg; oMem base (-1 none)
	size  int // oReg: 1,2,4,8
	high  bool
	imm   uint64
	idx   int
	scale uint64
	disp  uint64
	rip   bool
	ind   bool // preceded by *
	sym   string
}

type Instr struct {
	mn   string
	op   func(x *Exec, s *State, in *Instr) // decoded handler
	size int
	ops  []operand
	File string
	Line int
	Text string
	cc   string
}

// Prog is an assembled program.
type Prog struct {
	Text    []*Instr          // indexed by (addr-TextBase)/8, nil where data sits in text
	TData   map[uint64]uint64 // 8-byte words placed in the text section
	Data    []byte
	DataEnd uint64
	Globals map[string]uint64
	Stubs   map[uint64]string
	StubOf  map[string]uint64
	names   map[uint64]string // text address -> function label
}

type fixup struct {
	off  uint64 // data offset or text address
	text bool
	expr string
	file string
	line int
}

var regNums = map[string][2]int{}

func init() {
	q := []string{"rax", "rcx", "rdx", "rbx", "rsp", "rbp", "rsi", "rdi", "r8", "r9", "r10", "r11", "r12", "r13", "r14", "r15"}
	l := []string{"eax", "ecx", "edx", "ebx", "esp", "ebp", "esi", "edi", "r8d", "r9d", "r10d", "r11d", "r12d", "r13d", "r14d", "r15d"}
	w := []string{"ax", "cx", "dx", "bx", "sp", "bp", "si", "di", "r8w", "r9w", "r10w", "r11w", "r12w", "r13w", "r14w", "r15w"}
	b := []string{"al", "cl", "dl", "bl", "spl", "bpl", "sil", "dil", "r8b", "r9b", "r10b", "r11b", "r12b", "r13b", "r14b", "r15b"}
	b2 := []string{"", "", "", "", "", "", "", "", "r8l", "r9l", "r10l", "r11l", "r12l", "r13l", "r14l", "r15l"}
	for i := 0; i < 16; i++ {
		regNums[q[i]] = [2]int{i, 8}
		regNums[l[i]] = [2]int{i, 4}
		regNums[w[i]] = [2]int{i, 2}
		regNums[b[i]] = [2]int{i, 1}
		if b2[i] != "" {
			regNums[b2[i]] = [2]int{i, 1}
		}
	}
}

const (
	RAX = iota
	RCX
	RDX
	RBX
	RSP
	RBP
	RSI
	RDI
	R8
	R9
	R10
	R11
	R12
	R13
	R14
	R15
)

// Source is one assembly file.
type Source struct {
	Name string
	Text string
}

// splitStatements cuts a line at ';' and drops '#' comments, honouring quotes.
func splitStatements(l string) []string {
	var out []string
	var sb strings.Builder
	q := false
	for i := 0; i < len(l); i++ {
		ch := l[i]
		if q {
			sb.WriteByte(ch)
			if ch == '\\' && i+1 < len(l) {
				i++
				sb.WriteByte(l[i])
			} else if ch == '"' {
				q = false
			}
			continue
		}
		switch ch {
		case '"':
			q = true
			sb.WriteByte(ch)
		case '#':
			i = len(l)
		case ';':
			out = append(out, sb.String())
			sb.Reset()
		default:
			sb.WriteByte(ch)
		}
	}
	out = append(out, sb.String())
	return out
}

// asciiBytes decodes a gas string literal body list: "..." , "..."
func asciiBytes(arg string, zero bool) ([]byte, error) {
	var out []byte
	i := 0
	for i < len(arg) {
		if arg[i] == ' ' || arg[i] == '\t' || arg[i] == ',' {
			i++
			continue
		}
		if arg[i] != '"' {
			return nil, fmt.Errorf("bad string %q", arg)
		}
		i++
		for {
			if i >= len(arg) {
				return nil, fmt.Errorf("unterminated string %q", arg)
			}
			ch := arg[i]
			i++
			if ch == '"' {
				break
			}
			if ch != '\\' {
				out = append(out, ch)
				continue
			}
			if i >= len(arg) {
				return nil, fmt.Errorf("dangling escape %q", arg)
			}
			e := arg[i]
			i++
			switch {
			case e == 'n':
				out = append(out, '\n')
			case e == 't':
				out = append(out, '\t')
			case e == 'r':
				out = append(out, '\r')
			case e == 'b':
				out = append(out, '\b')
			case e == 'f':
				out = append(out, '\f')
			case e == '\\' || e == '"':
				out = append(out, e)
			case e >= '0' && e <= '7':
				v := int(e - '0')
				for k := 0; k < 2 && i < len(arg) && arg[i] >= '0' && arg[i] <= '7'; k++ {
					v = v*8 + int(arg[i]-'0')
					i++
				}
				out = append(out, byte(v))
			case e == 'x':
				v := 0
				for i < len(arg) && strings.IndexByte("0123456789abcdefABCDEF", arg[i]) >= 0 {
					d, _ := strconv.ParseUint(arg[i:i+1], 16, 8)
					v = v*16 + int(d)
					i++
				}
				out = append(out, byte(v))
			default:
				return nil, fmt.Errorf("unknown escape \\%c", e)
			}
		}
		if zero {
			out = append(out, 0)
		}
	}
	return out, nil
}

// gasInt parses an integer the way gas does.
func gasInt(s string) (uint64, bool) {
	neg, inv := false, false
	s = strings.TrimSpace(s)
	for len(s) > 0 && (s[0] == '-' || s[0] == '~' || s[0] == '+') {
		if s[0] == '-' {
			if inv {
				return 0, false
			}
			neg = !neg
		} else if s[0] == '~' {
			if neg {
				return 0, false
			}
			inv = !inv
		}
		s = strings.TrimSpace(s[1:])
	}
	if s == "" || s[0] < '0' || s[0] > '9' {
		return 0, false
	}
	var v uint64
	var err error
	switch {
	case strings.HasPrefix(s, "0x") || strings.HasPrefix(s, "0X"):
		v, err = strconv.ParseUint(s[2:], 16, 64)
	case strings.HasPrefix(s, "0b") || strings.HasPrefix(s, "0B"):
		v, err = strconv.ParseUint(s[2:], 2, 64)
	case len(s) > 1 && s[0] == '0':
		v, err = strconv.ParseUint(s[1:], 8, 64)
	default:
		v, err = strconv.ParseUint(s, 10, 64)
	}
	if err != nil {
		return 0, false
	}
	if neg {
		v = -v
	}
	if inv {
		v = ^v
	}
	return v, true
}

type asmErr struct{ error }

// Assemble parses and links the sources. Undefined symbols become stubs.
func Assemble(srcs []Source, extern ...string) (p *Prog, err error) {
	defer func() {
		if r := recover(); r != nil {
			if ae, ok := r.(asmErr); ok {
				p, err = nil, ae.error
				return
			}
			panic(r)
		}
	}()
	p = &Prog{TData: map[uint64]uint64{}, Globals: map[string]uint64{}, Stubs: map[uint64]string{}, StubOf: map[string]uint64{}, names: map[uint64]string{}}
	type sec struct {
		text bool
	}
	locals := make([]map[string]uint64, len(srcs))
	var fix []fixup
	fixFile := map[int]int{}
	type pend struct {
		in   *Instr
		file int
	}
	var instrs []pend
	for fi, src := range srcs {
		fail := func(line int, f string, a ...interface{}) {
			panic(asmErr{fmt.Errorf("%s:%d: %s", src.Name, line, fmt.Sprintf(f, a...))})
		}
		loc := map[string]uint64{}
		locals[fi] = loc
		cur := sec{true}
		glob := map[string]bool{}
		var comm []string
		here := func() uint64 {
			if cur.text {
				return TextBase + 8*uint64(len(p.Text))
			}
			return DataBase + uint64(len(p.Data))
		}
		for ln, line := range strings.Split(src.Text, "\n") {
			line = strings.TrimSuffix(line, "\r")
			for _, st := range splitStatements(line) {
				st = strings.TrimSpace(st)
				// labels
				for {
					i := strings.IndexByte(st, ':')
					if i <= 0 || strings.ContainsAny(st[:i], " \t\"(,%") {
						break
					}
					lab := st[:i]
					if _, dup := loc[lab]; dup {
						fail(ln+1, "label %s redefined", lab)
					}
					loc[lab] = here()
					st = strings.TrimSpace(st[i+1:])
				}
				if st == "" {
					continue
				}
				word, rest := st, ""
				if i := strings.IndexAny(st, " \t"); i >= 0 {
					word, rest = st[:i], strings.TrimSpace(st[i+1:])
				}
				if word[0] == '.' {
					switch word {
					case ".text":
						cur.text = true
					case ".data", ".bss":
						cur.text = false
					case ".section":
						cur.text = strings.HasPrefix(rest, ".text")
					case ".align", ".balign", ".p2align":
						a := strings.TrimSpace(strings.Split(rest, ",")[0])
						n, ok := gasInt(a)
						if !ok {
							fail(ln+1, "bad alignment %q", rest)
						}
						if word == ".p2align" {
							n = 1 << n
						}
						if !cur.text {
							for n > 0 && uint64(len(p.Data))%n != 0 {
								p.Data = append(p.Data, 0)
							}
						}
					case ".globl", ".global":
						glob[rest] = true
					case ".8byte", ".quad", ".long", ".4byte", ".byte", ".value", ".2byte", ".short":
						n := map[string]int{".8byte": 8, ".quad": 8, ".long": 4, ".4byte": 4, ".byte": 1, ".value": 2, ".2byte": 2, ".short": 2}[word]
						for _, e := range strings.Split(rest, ",") {
							e = strings.TrimSpace(e)
							if e == "" {
								continue
							}
							if cur.text {
								if n != 8 {
									fail(ln+1, "%s in text", word)
								}
								a := here()
								p.Text = append(p.Text, nil)
								if v, ok := gasInt(e); ok {
									p.TData[a] = v
								} else {
									fixFile[len(fix)] = fi
									fix = append(fix, fixup{a, true, e, src.Name, ln + 1})
								}
								continue
							}
							off := uint64(len(p.Data))
							p.Data = append(p.Data, make([]byte, n)...)
							if v, ok := gasInt(e); ok {
								for k := 0; k < n; k++ {
									p.Data[off+uint64(k)] = byte(v >> uint(8*k))
								}
							} else if n == 8 {
								fixFile[len(fix)] = fi
								fix = append(fix, fixup{off, false, e, src.Name, ln + 1})
							} else {
								fail(ln+1, "unsupported data expression %q", e)
							}
						}
					case ".ascii", ".asciz", ".string":
						b, err := asciiBytes(rest, word != ".ascii")
						if err != nil {
							fail(ln+1, "%v", err)
						}
						if cur.text {
							fail(ln+1, "string in text")
						}
						p.Data = append(p.Data, b...)
					case ".zero", ".skip", ".space":
						n, ok := gasInt(strings.Split(rest, ",")[0])
						if !ok || cur.text {
							fail(ln+1, "bad %s", word)
						}
						p.Data = append(p.Data, make([]byte, n)...)
					case ".comm", ".lcomm":
						comm = append(comm, rest)
					case ".type", ".size", ".file", ".ident", ".local", ".hidden", ".weak", ".loc", ".set", ".intel_syntax", ".att_syntax":
					default:
						if strings.HasPrefix(word, ".cfi_") {
							break
						}
						fail(ln+1, "unknown directive %s", word)
					}
					continue
				}
				if !cur.text {
					fail(ln+1, "instruction outside text: %s", st)
				}
				in := &Instr{mn: word, File: src.Name, Line: ln + 1, Text: st}
				for _, o := range splitOperands(rest) {
					op, err := parseOperand(o)
					if err != nil {
						fail(ln+1, "%v in %q", err, st)
					}
					in.ops = append(in.ops, op)
				}
				p.Text = append(p.Text, in)
				instrs = append(instrs, pend{in, fi})
			}
		}
		for _, cm := range comm {
			f := strings.Split(cm, ",")
			n, _ := gasInt(f[1])
			for len(p.Data)%16 != 0 {
				p.Data = append(p.Data, 0)
			}
			loc[strings.TrimSpace(f[0])] = DataBase + uint64(len(p.Data))
			glob[strings.TrimSpace(f[0])] = true
			p.Data = append(p.Data, make([]byte, n)...)
		}
		for len(p.Data)%16 != 0 {
			p.Data = append(p.Data, 0)
		}
		for g := range glob {
			if a, ok := loc[g]; ok {
				if _, dup := p.Globals[g]; dup {
					return nil, fmt.Errorf("%s: symbol %s multiply defined", src.Name, g)
				}
				p.Globals[g] = a
			}
		}
		for l, a := range loc {
			if a >= TextBase && a < DataBase && glob[l] {
				p.names[a] = l
			}
		}
	}
	forced := map[string]bool{}
	for _, e := range extern {
		forced[e] = true
	}
	resolve := func(fi int, sym string) uint64 {
		if forced[sym] {
			if a, ok := p.StubOf[sym]; ok {
				return a
			}
			a := uint64(StubBase + 16*len(p.StubOf))
			p.StubOf[sym] = a
			p.Stubs[a] = sym
			return a
		}
		if a, ok := locals[fi][sym]; ok {
			return a
		}
		if a, ok := p.Globals[sym]; ok {
			return a
		}
		sym = strings.TrimSuffix(sym, "@PLT")
		if a, ok := p.Globals[sym]; ok {
			return a
		}
		if a, ok := p.StubOf[sym]; ok {
			return a
		}
		a := uint64(StubBase + 16*len(p.StubOf))
		p.StubOf[sym] = a
		p.Stubs[a] = sym
		return a
	}
	expr := func(fi int, e string) (uint64, error) {
		// sum of symbols and integers
		e = strings.TrimSpace(e)
		var total uint64
		sign := uint64(1)
		i := 0
		for i < len(e) {
			j := i
			for j < len(e) && !((e[j] == '+' || e[j] == '-') && j > i) {
				j++
			}
			tok := strings.TrimSpace(e[i:j])
			sign = 1
			if strings.HasPrefix(tok, "+") {
				tok = strings.TrimSpace(tok[1:])
			} else if strings.HasPrefix(tok, "-") {
				sign = ^uint64(0)
				tok = strings.TrimSpace(tok[1:])
			}
			if v, ok := gasInt(tok); ok {
				total += sign * v
			} else if tok == "" {
				return 0, fmt.Errorf("bad expression %q", e)
			} else if tok[0] >= '0' && tok[0] <= '9' {
				return 0, fmt.Errorf("bad number %q", tok)
			} else {
				total += sign * resolve(fi, tok)
			}
			i = j
		}
		return total, nil
	}
	for k, f := range fix {
		v, err := expr(fixFile[k], f.expr)
		if err != nil {
			return nil, fmt.Errorf("%s:%d: %v", f.file, f.line, err)
		}
		if f.text {
			p.TData[f.off] = v
		} else {
			for j := 0; j < 8; j++ {
				p.Data[f.off+uint64(j)] = byte(v >> uint(8*j))
			}
		}
	}
	for _, pi := range instrs {
		for i := range pi.in.ops {
			o := &pi.in.ops[i]
			if o.sym != "" {
				v, err := expr(pi.file, o.sym)
				if err != nil {
					return nil, fmt.Errorf("%s:%d: %v", pi.in.File, pi.in.Line, err)
				}
				if o.kind == oImm {
					o.imm = v
				} else {
					o.disp = v
				}
			}
		}
		if err := decode(pi.in); err != nil {
			return nil, fmt.Errorf("%s:%d: %v in %q", pi.in.File, pi.in.Line, err, pi.in.Text)
		}
	}
	p.DataEnd = DataBase + uint64(len(p.Data))
	return p, nil
}

func splitOperands(s string) []string {
	var out []string
	d := 0
	last := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(':
			d++
		case ')':
			d--
		case ',':
			if d == 0 {
				out = append(out, strings.TrimSpace(s[last:i]))
				last = i + 1
			}
		}
	}
	if t := strings.TrimSpace(s[last:]); t != "" {
		out = append(out, t)
	}
	return out
}

func parseReg(s string) (int, int, bool) {
	if !strings.HasPrefix(s, "%") {
		return 0, 0, false
	}
	r, ok := regNums[s[1:]]
	return r[0], r[1], ok
}

func parseOperand(s string) (operand, error) {
	var o operand
	o.reg, o.idx = -1, -1
	if strings.HasPrefix(s, "*") {
		o.ind = true
		s = strings.TrimSpace(s[1:])
	}
	switch {
	case strings.HasPrefix(s, "%"):
		r, n, ok := parseReg(s)
		if !ok {
			return o, fmt.Errorf("unknown register %s", s)
		}
		o.kind, o.reg, o.size = oReg, r, n
		return o, nil
	case strings.HasPrefix(s, "$"):
		o.kind = oImm
		if v, ok := gasInt(s[1:]); ok {
			o.imm = v
		} else {
			o.sym = s[1:]
		}
		return o, nil
	}
	o.kind = oMem
	o.scale = 1
	disp := s
	if i := strings.IndexByte(s, '('); i >= 0 {
		if !strings.HasSuffix(s, ")") {
			return o, fmt.Errorf("bad memory operand %s", s)
		}
		disp = strings.TrimSpace(s[:i])
		parts := strings.Split(s[i+1:len(s)-1], ",")
		b := strings.TrimSpace(parts[0])
		if b == "%rip" {
			o.rip = true
		} else if b != "" {
			r, n, ok := parseReg(b)
			if !ok || n != 8 {
				return o, fmt.Errorf("bad base %s", b)
			}
			o.reg = r
		}
		if len(parts) > 1 {
			r, n, ok := parseReg(strings.TrimSpace(parts[1]))
			if !ok || n != 8 {
				return o, fmt.Errorf("bad index %s", parts[1])
			}
			o.idx = r
		}
		if len(parts) > 2 {
			v, ok := gasInt(parts[2])
			if !ok {
				return o, fmt.Errorf("bad scale %s", parts[2])
			}
			o.scale = v
		}
	}
	if disp != "" {
		if v, ok := gasInt(disp); ok {
			o.disp = v
		} else {
			o.sym = disp
		}
	}
	return o, nil
}

// FuncAt names the function containing a text address (for diagnostics).
func (p *Prog) FuncAt(a uint64) string {
	for x := a; x >= TextBase && x+200000 > a; x -= 8 {
		if n, ok := p.names[x]; ok {
			return n
		}
	}
	return fmt.Sprintf("%#x", a)
}
