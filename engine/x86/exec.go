package x86

import (
	"fmt"
	"math/bits"
	"strings"
	"time"

	"verif/engine/smt"
	"verif/engine/term"
)

// Exec explores every path of a program.
type Exec struct {
	P          *Prog
	Imm        map[uint64]*term.T // immediates that stand for symbolic values
	C          *term.Ctx
	S          *smt.Solver
	Stubs      map[string]func(x *Exec, s *State)
	MaxSteps   uint64
	MaxPaths   int
	Incomplete []string // reasons why the exploration is not exhaustive
	Deadline   time.Time
	nextID     uint64
	work       []*State
	Paths      int
	faultAt    map[uint64]int
	Funcs      map[uint64]bool // function entry addresses executed
	OnEnd      func(s *State)
	Retired    uint64
	stop       bool
}

func New(p *Prog, c *term.Ctx, s *smt.Solver) *Exec {
	return &Exec{P: p, C: c, S: s, Stubs: map[string]func(*Exec, *State){}, MaxSteps: 40_000_000, MaxPaths: 20000, faultAt: map[uint64]int{}, Funcs: map[uint64]bool{}}
}

const exitAddr = StubBase - 16

// Start builds the initial state: data loaded, stack empty, about to execute entry.
func (x *Exec) Start(entry string) (*State, error) {
	a, ok := x.P.Globals[entry]
	if !ok {
		return nil, fmt.Errorf("no entry point %s", entry)
	}
	x.nextID++
	s := &State{pc: a, id: x.nextID, pages: map[uint64]*page{}, decided: map[*term.T]bool{}, Model: term.Model{}, heap: HeapBase, Notes: map[string]int{}}
	for i := range s.regs {
		s.regs[i] = poison
	}
	s.fl.kind = fNone
	s.mapRange(x, DataBase, uint64(len(x.P.Data)))
	for i := 0; i < len(x.P.Data); i += 8 {
		var v uint64
		for k := 0; k < 8 && i+k < len(x.P.Data); k++ {
			v |= uint64(x.P.Data[i+k]) << uint(8*k)
		}
		if v != 0 {
			s.cell(x, DataBase+uint64(i), true).c = v
		}
	}
	rsp := uint64(StackTop - 4096)
	s.regs[RSP] = C(rsp - 8)
	x.store(s, rsp-8, C(exitAddr), 8)
	s.regs[RBP] = C(rsp + 64)
	for _, r := range []int{RBX, R12, R13, R14, R15} {
		s.regs[r] = C(0xbbbb0000 + uint64(r))
	}
	x.Funcs[a] = true
	return s, nil
}

// Alloc reserves heap memory with red zones.
func (x *Exec) Alloc(s *State, n uint64) uint64 {
	a := s.heap
	s.heap += (n+15)/16*16 + 32
	s.mapRange(x, a, n)
	s.Blocks = append(s.Blocks, Block{Addr: a, Size: n})
	s.Live++
	return a
}

// Free releases a block; it reports an invalid or double free.
func (x *Exec) Free(s *State, a uint64) bool {
	for i := range s.Blocks {
		b := &s.Blocks[i]
		if b.Addr == a {
			if b.Freed {
				return false
			}
			b.Freed = true
			s.Live--
			for off := uint64(0); off < b.Size; off += 8 {
				s.cell(x, a+off, true).freed = true
			}
			return true
		}
	}
	return false
}

func (x *Exec) fault(s *State, f string, a ...interface{}) {
	if s.end != Running {
		return
	}
	s.end = Fault
	s.FaultPC = s.pc
	s.Why = fmt.Sprintf(f, a...) + " in " + x.P.FuncAt(s.pc)
	x.faultAt[s.pc]++
}

func (x *Exec) unsupported(s *State, f string, a ...interface{}) {
	if s.end != Running {
		return
	}
	s.end = Unsupported
	s.Why = fmt.Sprintf(f, a...)
	if in := x.at(s.pc); in != nil {
		s.Why += fmt.Sprintf(" at %s:%d %s", in.File, in.Line, in.Text)
	}
	x.Incomplete = append(x.Incomplete, s.Why)
}

// End finishes a path.
func (x *Exec) End(s *State, e End, code Val, why string) {
	if s.end == Running {
		s.end, s.Code, s.Why = e, code, why
	}
}

func (s *State) Ended() End { return s.end }

func (x *Exec) at(pc uint64) *Instr {
	i := (pc - TextBase) / 8
	if pc < TextBase || pc%8 != 0 || i >= uint64(len(x.P.Text)) {
		return nil
	}
	return x.P.Text[i]
}

// Decide settles a condition on this path: when both outcomes are possible the path forks
// (the clone repeats the current instruction). The caller must not have changed the state yet.
func (x *Exec) Decide(s *State, c *term.T) bool {
	if c.IsTrue() {
		return true
	}
	if c.IsFalse() {
		return false
	}
	if d, ok := s.decided[c]; ok {
		return d
	}
	nc := x.C.Not(c)
	if d, ok := s.decided[nc]; ok {
		return !d
	}
	if !x.Deadline.IsZero() && time.Now().After(x.Deadline) {
		x.Incomplete = append(x.Incomplete, "time budget")
		x.stop = true
		s.end = Dropped
		return false
	}
	side := term.NewEvaluator(s.Model).Eval(c) == 1
	mine, other := c, nc
	if !side {
		mine, other = nc, c
	}
	r, m := x.S.Check(append(s.Cond(), other)...)
	switch r {
	case smt.Sat:
		k := s.clone(x)
		k.assume(other)
		k.decided[c] = !side
		k.Model = m
		if x.Paths+len(x.work) < x.MaxPaths {
			x.work = append(x.work, k)
		} else {
			x.Incomplete = append(x.Incomplete, "path limit")
		}
		s.assume(mine)
	case smt.Unknown:
		x.Incomplete = append(x.Incomplete, "solver gave no answer on a branch")
		s.assume(mine)
	}
	s.decided[c] = side
	return side
}

// Assume restricts the path; it ends the path if the condition is impossible.
func (x *Exec) Assume(s *State, c *term.T) bool {
	if c.IsTrue() {
		return true
	}
	if c.IsFalse() {
		s.end = Dropped
		return false
	}
	if term.NewEvaluator(s.Model).Eval(c) == 1 {
		s.assume(c)
		return true
	}
	r, m := x.S.Check(append(s.Cond(), c)...)
	if r == smt.Sat {
		s.assume(c)
		s.Model = m
		return true
	}
	if r == smt.Unknown {
		x.Incomplete = append(x.Incomplete, "solver gave no answer on an assumption")
	}
	s.end = Dropped
	return false
}

// Concrete returns one concrete value for v on this path, forking for the others.
func (x *Exec) Concrete(s *State, v Val) (uint64, bool) {
	if v.pm != 0 {
		x.fault(s, "use of an undefined value")
		return 0, false
	}
	if v.t == nil {
		return v.c, true
	}
	for {
		cv := term.NewEvaluator(s.Model).Eval(v.t)
		if x.faultAt[s.pc] > 3 {
			x.Incomplete = append(x.Incomplete, "address enumeration cut after repeated faults")
			s.end = Dropped
			return 0, false
		}
		if s.enum++; s.enum > 300 {
			x.Incomplete = append(x.Incomplete, "more than 300 values for an address")
			s.end = Dropped
			return 0, false
		}
		if x.Decide(s, x.C.Eq(v.t, x.C.BV(cv, v.t.W))) {
			return cv, true
		}
	}
}

func (x *Exec) T(v Val, size int) *term.T {
	if v.t != nil {
		return v.t
	}
	return x.C.BV(v.c, size*8)
}

// ---- memory ----------------------------------------------------------------------------------

func maskOf(size int) uint64 {
	if size == 8 {
		return ^uint64(0)
	}
	return 1<<uint(size*8) - 1
}

// peek reads without side effects; why is non-empty if the access is invalid.
func (x *Exec) peek(s *State, a uint64, size int) (v Val, why string) {
	o := a & 7
	if a >= TextBase && a < DataBase {
		if o == 0 && size == 8 {
			if w, ok := x.P.TData[a]; ok {
				return C(w), ""
			}
		}
		if x.at(a&^7) != nil || x.P.TData[a&^7] != 0 {
			return poison, ""
		}
		if _, ok := x.P.TData[a&^7]; ok {
			return poison, ""
		}
		return Val{}, fmt.Sprintf("read of %d bytes at invalid address %#x", size, a)
	}
	w := s.cell(x, a, false)
	if w == nil || w.n == 0 || int(o)+min(size, 8-int(o)) > int(w.n) {
		return Val{}, fmt.Sprintf("read of %d bytes outside any object at %#x", size, a)
	}
	if w.freed {
		return Val{}, fmt.Sprintf("read of freed memory at %#x", a)
	}
	if o == 0 && size == 8 {
		return w.Val, ""
	}
	if int(o)+size <= 8 {
		if w.pm>>o&uint8(maskBits(size)) != 0 {
			return poison, ""
		}
		if w.t == nil {
			return C(w.c >> (8 * o) & maskOf(size)), ""
		}
		return fromTerm(x.C.Extract(int(o)*8+size*8-1, int(o)*8, w.t)), ""
	}
	// straddles two words
	n1 := 8 - int(o)
	v1, y := x.peek(s, a, n1)
	if y != "" {
		return v1, y
	}
	v2, y := x.peek(s, a+uint64(n1), size-n1)
	if y != "" {
		return v2, y
	}
	if v1.pm|v2.pm != 0 {
		return poison, ""
	}
	if v1.t == nil && v2.t == nil {
		return C(v1.c | v2.c<<uint(8*n1)), ""
	}
	return fromTerm(x.C.Concat(x.C2(v2, size-n1), x.C2(v1, n1))), ""
}

// C2 gives a term for a value of an arbitrary byte size.
func (x *Exec) C2(v Val, size int) *term.T {
	if v.t != nil {
		return v.t
	}
	return x.C.BV(v.c, size*8)
}

func maskBits(size int) uint { return 1<<uint(size) - 1 }

func (x *Exec) load(s *State, a uint64, size int) Val {
	v, why := x.peek(s, a, size)
	if why != "" {
		x.fault(s, "%s", why)
	}
	return v
}

func (x *Exec) check(s *State, a uint64, size int) string {
	if a >= TextBase && a < DataBase {
		return fmt.Sprintf("write of %d bytes to code at %#x", size, a)
	}
	for size > 0 {
		o := int(a & 7)
		n := min(size, 8-o)
		w := s.cell(x, a, false)
		if w == nil || w.n == 0 || o+n > int(w.n) {
			return fmt.Sprintf("write of %d bytes outside any object at %#x", size, a)
		}
		if w.freed {
			return fmt.Sprintf("write to freed memory at %#x", a)
		}
		a += uint64(n)
		size -= n
	}
	return ""
}

func (x *Exec) store(s *State, a uint64, v Val, size int) {
	if why := x.check(s, a, size); why != "" {
		x.fault(s, "%s", why)
		return
	}
	o := a & 7
	if o == 0 && size == 8 {
		s.cell(x, a, true).Val = v
		return
	}
	if int(o)+size <= 8 {
		x.storePart(s.cell(x, a, true), int(o), v, size)
		return
	}
	n1 := 8 - int(o)
	lo, hi := poison, poison
	if v.pm == 0 {
		if v.t == nil {
			lo, hi = C(v.c&maskOf(n1)), C(v.c>>uint(8*n1))
		} else {
			lo = fromTerm(x.C.Extract(n1*8-1, 0, v.t))
			hi = fromTerm(x.C.Extract(size*8-1, n1*8, v.t))
		}
	}
	x.storePart(s.cell(x, a, true), int(o), lo, n1)
	x.storePart(s.cell(x, a+uint64(n1), true), 0, hi, size-n1)
}

// merge replaces size bytes at offset o of an 8-byte value.
func (x *Exec) merge(old Val, o int, v Val, size int) Val {
	bm := uint8(maskBits(size)) << uint(o)
	if v.pm != 0 {
		old.pm |= bm
		return old
	}
	pm := old.pm &^ bm
	if old.t == nil && v.t == nil {
		m := maskOf(size) << uint(8*o)
		return Val{c: old.c&^m | v.c<<uint(8*o)&m, pm: pm}
	}
	ot := x.T(old, 8)
	var parts []*term.T
	if o+size < 8 {
		parts = append(parts, x.C.Extract(63, (o+size)*8, ot))
	}
	parts = append(parts, x.C2(v, size))
	if o > 0 {
		parts = append(parts, x.C.Extract(o*8-1, 0, ot))
	}
	r := fromTerm(x.C.Concat(parts...))
	r.pm = pm
	return r
}

func (x *Exec) storePart(w *word, o int, v Val, size int) { w.Val = x.merge(w.Val, o, v, size) }

// ---- operands --------------------------------------------------------------------------------

func (x *Exec) add64(a, b Val) Val {
	if a.pm|b.pm != 0 {
		return poison
	}
	if a.t == nil && b.t == nil {
		return C(a.c + b.c)
	}
	return fromTerm(x.C.Add(x.T(a, 8), x.T(b, 8)))
}

func (x *Exec) ea(s *State, o *operand) Val {
	if o.reg >= 0 && o.reg == o.idx && o.scale == 1 && s.regs[o.reg].t != nil && s.regs[o.reg].pm == 0 {
		// r + r, whatever the form of r
		return x.add64(x.add64(s.regs[o.reg], s.regs[o.reg]), C(o.disp))
	}
	v := C(o.disp)
	if o.reg >= 0 {
		r := s.regs[o.reg]
		if r.conc() {
			v.c += r.c
		} else {
			v = x.add64(v, r)
		}
	}
	if o.idx >= 0 {
		r := s.regs[o.idx]
		if r.conc() && v.conc() {
			v.c += r.c * o.scale
		} else if r.pm != 0 {
			return poison
		} else if r.t == nil {
			v = x.add64(v, C(r.c*o.scale))
		} else {
			sh := uint64(bits.TrailingZeros64(o.scale))
			v = x.add64(v, fromTerm(x.C.Shl(r.t, x.C.BV(sh, 64))))
		}
	}
	return v
}

// readMem loads through a possibly symbolic address.
func (x *Exec) readMem(s *State, o *operand, size int) Val {
	a := x.ea(s, o)
	if a.conc() {
		return x.load(s, a.c, size)
	}
	if a.pm != 0 {
		x.fault(s, "read through an undefined address")
		return poison
	}
	// enumerate every feasible address and merge the values
	type alt struct {
		a uint64
		v Val
	}
	var alts []alt
	conds := s.Cond()
	at := a.t
	m := s.Model
	for len(alts) < 70 {
		av := term.NewEvaluator(m).Eval(at)
		v, why := x.peek(s, av, size)
		if why != "" || v.pm != 0 {
			// Invalid or undefined for some inputs: split this address off.
			ad, ok := x.Concrete(s, a)
			if !ok {
				return poison
			}
			return x.load(s, ad, size)
		}
		alts = append(alts, alt{av, v})
		conds = append(conds, x.C.Ne(at, x.C.BV(av, 64)))
		r, nm := x.S.Check(conds...)
		if r == smt.Unsat {
			res := x.C2(alts[0].v, size)
			for _, al := range alts[1:] {
				res = x.C.Ite(x.C.Eq(at, x.C.BV(al.a, 64)), x.C2(al.v, size), res)
			}
			return fromTerm(res)
		}
		if r == smt.Unknown {
			break
		}
		m = nm
	}
	ad, ok := x.Concrete(s, a)
	if !ok {
		return poison
	}
	return x.load(s, ad, size)
}

func (x *Exec) get(s *State, o *operand, size int) Val {
	switch o.kind {
	case oImm:
		if x.Imm != nil && size == 8 {
			if t := x.Imm[o.imm]; t != nil {
				return Val{t: t}
			}
		}
		return C(o.imm & maskOf(size))
	case oReg:
		v := s.regs[o.reg]
		if size == 8 {
			return v
		}
		if v.pm&uint8(maskBits(size)) != 0 {
			return poison
		}
		if v.t == nil {
			return C(v.c & maskOf(size))
		}
		return fromTerm(x.C.Extract(size*8-1, 0, v.t))
	}
	return x.readMem(s, o, size)
}

func (x *Exec) setReg(s *State, r int, v Val, size int) {
	switch size {
	case 8:
		s.regs[r] = v
	case 4:
		if v.pm != 0 {
			s.regs[r] = poison
		} else if v.t == nil {
			s.regs[r] = C(v.c & 0xffffffff)
		} else {
			s.regs[r] = fromTerm(x.C.ZExt(v.t, 64))
		}
	default:
		s.regs[r] = x.merge(s.regs[r], 0, v, size)
	}
}

// put writes an operand. For memory the address is resolved first.
func (x *Exec) put(s *State, o *operand, v Val, size int) {
	if s.end != Running {
		return
	}
	if o.kind == oReg {
		x.setReg(s, o.reg, v, size)
		return
	}
	a, ok := x.addr(s, o)
	if !ok {
		return
	}
	x.store(s, a, v, size)
}

// addr resolves a memory operand to one address, forking if there are several.
func (x *Exec) addr(s *State, o *operand) (uint64, bool) {
	a := x.ea(s, o)
	if a.conc() {
		return a.c, true
	}
	if a.pm != 0 {
		x.fault(s, "memory access through an undefined address")
		return 0, false
	}
	return x.Concrete(s, a)
}

// ---- flags and conditions ----------------------------------------------------------------------

const (
	fNone = iota
	fSub
	fAdd
	fLogic
	fRes // only ZF/SF meaningful
)

func (x *Exec) setFlags(s *State, kind uint8, size int, a, b, r Val) {
	s.fl = flags{kind, size, a, b, r}
}

// condTerm evaluates a condition code; ok is false when the flags are not modelled.
func (x *Exec) condTerm(s *State, cc string) (t *term.T, undef, ok bool) {
	f := &s.fl
	if f.kind == fNone {
		return nil, true, true
	}
	if f.a.pm|f.b.pm|f.r.pm != 0 {
		return nil, true, true
	}
	c := x.C
	w := f.size
	neg := false
	switch cc {
	case "ne", "nz":
		cc, neg = "e", true
	case "ge", "nl":
		cc, neg = "l", true
	case "g", "nle":
		cc, neg = "le", true
	case "ae", "nb", "nc":
		cc, neg = "b", true
	case "a", "nbe":
		cc, neg = "be", true
	case "ns":
		cc, neg = "s", true
	case "no":
		cc, neg = "o", true
	case "z":
		cc = "e"
	case "nge":
		cc = "l"
	case "ng":
		cc = "le"
	case "nae", "c":
		cc = "b"
	case "na":
		cc = "be"
	}
	zero := func() *term.T { return c.Eq(x.T(f.r, w), c.BV(0, w*8)) }
	sign := func() *term.T { return c.Slt(x.T(f.r, w), c.BV(0, w*8)) }
	ovf := func() *term.T {
		a, b := x.T(f.a, w), x.T(f.b, w)
		z := c.BV(0, w*8)
		sa, sb, sr := c.Slt(a, z), c.Slt(b, z), sign()
		if f.kind == fAdd {
			return c.And(c.Eq(sa, sb), c.Ne(sa, sr))
		}
		return c.And(c.Ne(sa, sb), c.Ne(sa, sr))
	}
	var r *term.T
	switch f.kind {
	case fSub:
		a, b := x.T(f.a, w), x.T(f.b, w)
		switch cc {
		case "e":
			r = c.Eq(a, b)
		case "l":
			r = c.Slt(a, b)
		case "le":
			r = c.Sle(a, b)
		case "b":
			r = c.Ult(a, b)
		case "be":
			r = c.Ule(a, b)
		case "s":
			r = sign()
		case "o":
			r = ovf()
		}
	case fAdd:
		cf := func() *term.T { return c.Ult(x.T(f.r, w), x.T(f.a, w)) }
		switch cc {
		case "e":
			r = zero()
		case "l":
			r = c.Ne(sign(), ovf())
		case "le":
			r = c.Or(zero(), c.Ne(sign(), ovf()))
		case "b":
			r = cf()
		case "be":
			r = c.Or(zero(), cf())
		case "s":
			r = sign()
		case "o":
			r = ovf()
		}
	case fLogic:
		switch cc {
		case "e", "be":
			r = zero()
		case "l", "s":
			r = sign()
		case "le":
			r = c.Or(zero(), sign())
		case "b", "o":
			r = c.False
		}
	case fRes:
		switch cc {
		case "e":
			r = zero()
		case "s":
			r = sign()
		default:
			return nil, false, false
		}
	}
	if r == nil {
		return nil, false, false
	}
	if neg {
		r = c.Not(r)
	}
	return r, false, true
}

// fastCond evaluates common concrete cases without building terms.
func (x *Exec) fastCond(s *State, cc string) (res, ok bool) {
	f := &s.fl
	if f.kind != fSub && f.kind != fLogic || !f.a.conc() || !f.b.conc() || !f.r.conc() {
		return false, false
	}
	if f.kind == fLogic {
		switch cc {
		case "e", "z":
			return f.r.c == 0, true
		case "ne", "nz":
			return f.r.c != 0, true
		}
		return false, false
	}
	sh := uint(64 - 8*f.size)
	a, b := int64(f.a.c<<sh)>>sh, int64(f.b.c<<sh)>>sh
	switch cc {
	case "e", "z":
		return a == b, true
	case "ne", "nz":
		return a != b, true
	case "l":
		return a < b, true
	case "le":
		return a <= b, true
	case "g":
		return a > b, true
	case "ge":
		return a >= b, true
	case "b", "c":
		return f.a.c < f.b.c, true
	case "be":
		return f.a.c <= f.b.c, true
	case "a":
		return f.a.c > f.b.c, true
	case "ae", "nc":
		return f.a.c >= f.b.c, true
	}
	return false, false
}

// ---- running -----------------------------------------------------------------------------------

// Run explores all paths from s; OnEnd is called for each finished path.
func (x *Exec) Run(s0 *State) {
	x.work = append(x.work, s0)
	for len(x.work) > 0 && !x.stop {
		s := x.work[len(x.work)-1]
		x.work = x.work[:len(x.work)-1]
		x.run1(s)
		if s.end == Dropped {
			continue
		}
		x.Paths++
		x.OnEnd(s)
	}
}

func (x *Exec) run1(s *State) {
	text := x.P.Text
	for s.end == Running {
		pc := s.pc
		if pc >= TextBase && pc%8 == 0 && (pc-TextBase)/8 < uint64(len(text)) {
			in := text[(pc-TextBase)/8]
			if in == nil {
				x.fault(s, "execution of data at %#x", pc)
				return
			}
			s.Steps++
			x.Retired++
			if x.Retired&0xfffff == 0 && !x.Deadline.IsZero() && time.Now().After(x.Deadline) {
				x.Incomplete = append(x.Incomplete, "time budget")
				x.stop = true
				s.end = Dropped
				return
			}
			if s.Steps > x.MaxSteps {
				s.end = StepLimit
				s.Why = "step limit in " + x.P.FuncAt(pc)
				return
			}
			in.op(x, s, in)
			continue
		}
		if pc == exitAddr {
			s.end = Returned
			s.Code = s.regs[RAX]
			return
		}
		if name, ok := x.P.Stubs[pc]; ok {
			f := x.Stubs[name]
			if f == nil {
				x.unsupported(s, "call of unmodelled external %s", name)
				return
			}
			if s.regs[RSP].c%16 != 8 {
				s.Notes["misaligned:"+name]++
			}
			f(x, s)
			continue
		}
		x.fault(s, "jump to invalid address %#x", pc)
	}
}

// Ret returns from a stub to its caller, destroying every caller-saved register.
func (x *Exec) Ret(s *State, v Val) {
	if s.end != Running {
		return
	}
	ra := x.load(s, s.regs[RSP].c, 8)
	s.regs[RSP].c += 8
	for _, r := range []int{RCX, RDX, RSI, RDI, R8, R9, R10, R11} {
		s.regs[r] = poison
	}
	s.regs[RAX] = v
	s.fl.kind = fNone
	if s.end == Running {
		s.pc = ra.c
	}
}

var argRegs = [...]int{RDI, RSI, RDX, RCX, R8, R9}

// Arg reads an integer argument register.
func (s *State) Arg(i int) Val       { return s.regs[argRegs[i]] }
func (s *State) Reg(r int) Val       { return s.regs[r] }
func (s *State) SetReg(r int, v Val) { s.regs[r] = v }
func (s *State) PC() uint64          { return s.pc }

// Load and Store give stubs access to memory.
func (x *Exec) Load(s *State, a uint64, size int) Val       { return x.load(s, a, size) }
func (x *Exec) Store(s *State, a uint64, v Val, size int)   { x.store(s, a, v, size) }
func (x *Exec) Fault(s *State, f string, a ...interface{})  { x.fault(s, f, a...) }
func (x *Exec) Unsupp(s *State, f string, a ...interface{}) { x.unsupported(s, f, a...) }

// MapRange makes memory addressable and zero; Mapped tells whether an address is.
func (x *Exec) MapRange(s *State, a, n uint64) { s.mapRange(x, a, n) }
func (x *Exec) Mapped(s *State, a uint64) bool {
	w := s.cell(x, a, false)
	return w != nil && w.n > 0
}

// Stop abandons the remaining paths.
func (x *Exec) Stop() { x.stop = true }

// FromTerm wraps a term as a value.
func FromTerm(t *term.T) Val { return fromTerm(t) }

// CString reads a NUL-terminated string, forking on symbolic bytes.
func (x *Exec) CString(s *State, a uint64, max int) ([]*term.T, bool) {
	var out []*term.T
	for i := 0; i < max; i++ {
		v := x.load(s, a+uint64(i), 1)
		if s.end != Running {
			return nil, false
		}
		if v.pm != 0 {
			x.fault(s, "undefined byte in a string passed to C")
			return nil, false
		}
		if v.t == nil {
			if v.c == 0 {
				return out, true
			}
			out = append(out, x.C.BV(v.c, 8))
			continue
		}
		if x.Decide(s, x.C.Eq(v.t, x.C.BV(0, 8))) {
			return out, true
		}
		out = append(out, v.t)
	}
	x.unsupported(s, "string longer than %d", max)
	return nil, false
}

func ConcreteString(ts []*term.T) (string, bool) {
	var sb strings.Builder
	for _, t := range ts {
		if !t.IsConst() {
			return "", false
		}
		sb.WriteByte(byte(t.C))
	}
	return sb.String(), true
}
