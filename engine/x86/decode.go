package x86

import (
	"fmt"
	"math/bits"
	"strings"

	"verif/engine/term"
)

var sufSize = map[byte]int{'b': 1, 'w': 2, 'l': 4, 'q': 8}

var ccs = map[string]bool{}

func init() {
	for _, c := range strings.Fields("e z ne nz l nge le ng g nle ge nl b nae c be na a nbe ae nb nc s ns o no") {
		ccs[c] = true
	}
}

type hfn = func(x *Exec, s *State, in *Instr)

func opSize(in *Instr) int {
	for i := len(in.ops) - 1; i >= 0; i-- {
		if in.ops[i].kind == oReg {
			return in.ops[i].size
		}
	}
	return 0
}

// decode chooses the handler of an instruction.
func decode(in *Instr) error {
	mn := in.mn
	if mn == "rep" || mn == "repz" || mn == "notrack" || mn == "bnd" {
		return fmt.Errorf("unsupported prefix %s", mn)
	}
	n := len(in.ops)
	next := func(f hfn) hfn {
		return func(x *Exec, s *State, in *Instr) {
			f(x, s, in)
			if s.end == Running {
				s.pc += 8
			}
		}
	}
	// retry-safe: a handler that forked and moved its clone keeps pc; Decide/Concrete never
	// move pc, so adding 8 afterwards is right for the surviving state.
	switch mn {
	case "nop", "nopw", "nopl", "endbr64", "nopq":
		in.op = func(x *Exec, s *State, in *Instr) { s.pc += 8 }
		return nil
	case "ret", "retq":
		in.op = func(x *Exec, s *State, in *Instr) {
			sp := s.regs[RSP]
			if !sp.conc() {
				x.fault(s, "undefined stack pointer")
				return
			}
			x.jump(s, x.load(s, sp.c, 8), func() { s.regs[RSP].c += 8 })
		}
		return nil
	case "leave", "leaveq":
		in.op = next(func(x *Exec, s *State, in *Instr) {
			bp := s.regs[RBP]
			if !bp.conc() {
				x.fault(s, "undefined frame pointer")
				return
			}
			v := x.load(s, bp.c, 8)
			s.regs[RSP] = C(bp.c + 8)
			s.regs[RBP] = v
		})
		return nil
	case "enter":
		if n != 2 || in.ops[0].kind != oImm || in.ops[1].kind != oImm || in.ops[1].imm != 0 {
			return fmt.Errorf("unsupported enter")
		}
		sz := in.ops[0].imm & 0xffff
		in.op = next(func(x *Exec, s *State, in *Instr) {
			x.push(s, s.regs[RBP])
			s.regs[RBP] = s.regs[RSP]
			s.regs[RSP] = C(s.regs[RSP].c - sz)
			if !s.regs[RSP].conc() || s.end != Running {
				return
			}
			// the new frame's slots hold nothing defined
			for a := s.regs[RSP].c; a < s.regs[RSP].c+sz; a += 8 {
				if w := s.cell(x, a, true); w != nil {
					w.Val = poison
				}
			}
		})
		return nil
	case "cqo", "cqto":
		in.op = next(func(x *Exec, s *State, in *Instr) {
			s.regs[RDX] = x.signOf(s.regs[RAX], 8)
		})
		return nil
	case "cltd", "cdq":
		in.op = next(func(x *Exec, s *State, in *Instr) {
			x.setReg(s, RDX, x.signOf(x.get(s, &operand{kind: oReg, reg: RAX}, 4), 4), 4)
		})
		return nil
	case "cltq", "cdqe":
		in.op = next(func(x *Exec, s *State, in *Instr) {
			s.regs[RAX] = x.sext(x.get(s, &operand{kind: oReg, reg: RAX}, 4), 4, 8)
		})
		return nil
	case "cwtl", "cwde":
		in.op = next(func(x *Exec, s *State, in *Instr) {
			x.setReg(s, RAX, x.sext(x.get(s, &operand{kind: oReg, reg: RAX}, 2), 2, 4), 4)
		})
		return nil
	case "ud2", "hlt", "int3":
		in.op = func(x *Exec, s *State, in *Instr) { x.fault(s, "trap instruction") }
		return nil
	case "jmp", "jmpq", "call", "callq":
		if n != 1 {
			return fmt.Errorf("bad operands")
		}
		o := &in.ops[0]
		isCall := mn[0] == 'c'
		if !o.ind && o.kind == oMem && o.reg < 0 && o.idx < 0 {
			tgt := o.disp
			if isCall {
				in.op = func(x *Exec, s *State, in *Instr) {
					x.push(s, C(s.pc+8))
					x.Funcs[tgt] = true
					s.pc = tgt
				}
			} else {
				in.op = func(x *Exec, s *State, in *Instr) { s.pc = tgt }
			}
			return nil
		}
		if !o.ind {
			return fmt.Errorf("bad target")
		}
		in.op = func(x *Exec, s *State, in *Instr) {
			v := x.get(s, o, 8)
			if s.end != Running {
				return
			}
			ra := s.pc + 8
			x.jump(s, v, func() {
				if isCall {
					x.push(s, C(ra))
				}
			})
			if isCall && s.end == Running {
				x.Funcs[s.pc] = true
			}
		}
		return nil
	case "push", "pushq":
		in.op = next(func(x *Exec, s *State, in *Instr) {
			v := x.get(s, &in.ops[0], 8)
			if in.ops[0].kind == oImm {
				v = C(in.ops[0].imm)
			}
			x.push(s, v)
		})
		return nil
	case "pop", "popq":
		in.op = next(func(x *Exec, s *State, in *Instr) {
			sp := s.regs[RSP]
			if !sp.conc() {
				x.fault(s, "undefined stack pointer")
				return
			}
			v := x.load(s, sp.c, 8)
			if in.ops[0].kind == oMem {
				if _, ok := x.addr(s, &in.ops[0]); !ok {
					return
				}
			}
			s.regs[RSP] = C(sp.c + 8)
			x.put(s, &in.ops[0], v, 8)
		})
		return nil
	case "movabs", "movabsq":
		if n != 2 || in.ops[1].kind != oReg {
			return fmt.Errorf("unsupported movabs")
		}
		v := in.ops[0]
		if v.kind == oMem {
			in.op = next(func(x *Exec, s *State, in *Instr) { x.put(s, &in.ops[1], x.get(s, &in.ops[0], 8), 8) })
			return nil
		}
		in.op = next(func(x *Exec, s *State, in *Instr) { s.regs[in.ops[1].reg] = x.get(s, &in.ops[0], 8) })
		return nil
	}
	if mn[0] == 'j' && ccs[mn[1:]] {
		cc := mn[1:]
		if n != 1 || in.ops[0].ind {
			return fmt.Errorf("bad operands")
		}
		tgt := in.ops[0].disp
		in.op = func(x *Exec, s *State, in *Instr) {
			if r, ok := x.fastCond(s, cc); ok {
				if r {
					s.pc = tgt
				} else {
					s.pc += 8
				}
				return
			}
			t, undef, ok := x.condTerm(s, cc)
			if !ok {
				x.unsupported(s, "flags not modelled")
				return
			}
			if undef {
				x.fault(s, "branch on an undefined value")
				return
			}
			if x.Decide(s, t) {
				s.pc = tgt
			} else {
				s.pc += 8
			}
		}
		return nil
	}
	if strings.HasPrefix(mn, "set") && ccs[mn[3:]] {
		cc := mn[3:]
		in.op = next(func(x *Exec, s *State, in *Instr) {
			if r, ok := x.fastCond(s, cc); ok {
				v := uint64(0)
				if r {
					v = 1
				}
				x.put(s, &in.ops[0], C(v), 1)
				return
			}
			t, undef, ok := x.condTerm(s, cc)
			if !ok {
				x.unsupported(s, "flags not modelled")
				return
			}
			if undef {
				x.put(s, &in.ops[0], poison, 1)
				return
			}
			x.put(s, &in.ops[0], fromTerm(x.C.ToBV(t, 8)), 1)
		})
		return nil
	}
	if strings.HasPrefix(mn, "cmov") {
		cc, size := mn[4:], opSize(in)
		if !ccs[cc] && len(cc) > 1 && sufSize[cc[len(cc)-1]] != 0 && ccs[cc[:len(cc)-1]] {
			cc = cc[:len(cc)-1]
		}
		if !ccs[cc] {
			return fmt.Errorf("unknown instruction %s", mn)
		}
		in.op = next(func(x *Exec, s *State, in *Instr) {
			t, undef, ok := x.condTerm(s, cc)
			if !ok {
				x.unsupported(s, "flags not modelled")
				return
			}
			a, b := x.get(s, &in.ops[0], size), x.get(s, &in.ops[1], size)
			switch {
			case undef:
				x.put(s, &in.ops[1], poison, size)
			case t.IsTrue():
				x.put(s, &in.ops[1], a, size)
			case t.IsFalse():
				x.put(s, &in.ops[1], b, size)
			case a.pm|b.pm != 0:
				x.put(s, &in.ops[1], poison, size)
			default:
				x.put(s, &in.ops[1], fromTerm(x.C.Ite(t, x.T(a, size), x.T(b, size))), size)
			}
		})
		return nil
	}
	if (strings.HasPrefix(mn, "movz") || strings.HasPrefix(mn, "movs")) && len(mn) >= 5 {
		var from, to int
		if len(mn) == 6 {
			from, to = sufSize[mn[4]], sufSize[mn[5]]
		} else if len(mn) == 5 {
			from, to = sufSize[mn[4]], opSize(in)
		}
		if from == 0 || to == 0 || n != 2 {
			return fmt.Errorf("unknown instruction %s", mn)
		}
		sx := mn[3] == 's'
		in.op = next(func(x *Exec, s *State, in *Instr) {
			v := x.get(s, &in.ops[0], from)
			if s.end != Running {
				return
			}
			if sx {
				v = x.sext(v, from, to)
			} else if v.t != nil && v.pm == 0 {
				v = fromTerm(x.C.ZExt(v.t, to*8))
			}
			x.put(s, &in.ops[1], v, to)
		})
		return nil
	}
	// suffixed two-operand arithmetic
	base, size := mn, 0
	known := map[string]bool{"mov": true, "lea": true, "add": true, "sub": true, "and": true, "or": true, "xor": true, "cmp": true, "test": true, "imul": true, "mul": true, "idiv": true, "div": true, "neg": true, "not": true, "inc": true, "dec": true, "shl": true, "sal": true, "shr": true, "sar": true, "xchg": true}
	if !known[base] && len(mn) > 1 && known[mn[:len(mn)-1]] && sufSize[mn[len(mn)-1]] != 0 {
		base, size = mn[:len(mn)-1], sufSize[mn[len(mn)-1]]
	}
	if !known[base] {
		return fmt.Errorf("unknown instruction %s", mn)
	}
	if size == 0 {
		switch base {
		case "shl", "sal", "shr", "sar":
			size = in.ops[n-1].size
		default:
			size = opSize(in)
		}
	}
	if size == 0 {
		return fmt.Errorf("operand size of %s unknown", mn)
	}
	// register operand sizes must agree
	for i := range in.ops {
		o := &in.ops[i]
		if o.kind == oReg && o.size != size {
			if (base == "shl" || base == "sal" || base == "shr" || base == "sar") && i == 0 && n == 2 && o.reg == RCX && o.size == 1 {
				continue
			}
			return fmt.Errorf("register size mismatch")
		}
		if o.kind == oImm && size == 8 && base != "mov" {
			if int64(o.imm) != int64(int32(o.imm)) {
				return fmt.Errorf("immediate out of range")
			}
		}
	}
	if n == 2 && in.ops[0].kind == oMem && in.ops[1].kind == oMem {
		return fmt.Errorf("two memory operands")
	}
	in.size = size
	switch base {
	case "mov":
		if n != 2 || in.ops[1].kind == oImm {
			return fmt.Errorf("bad operands")
		}
		if size == 8 && in.ops[0].kind == oImm && in.ops[1].kind == oMem && int64(in.ops[0].imm) != int64(int32(in.ops[0].imm)) {
			return fmt.Errorf("immediate out of range")
		}
		in.op = next(func(x *Exec, s *State, in *Instr) {
			v := x.get(s, &in.ops[0], size)
			x.put(s, &in.ops[1], v, size)
		})
	case "xchg":
		in.op = next(func(x *Exec, s *State, in *Instr) {
			a, b := x.get(s, &in.ops[0], size), x.get(s, &in.ops[1], size)
			x.put(s, &in.ops[0], b, size)
			x.put(s, &in.ops[1], a, size)
		})
	case "lea":
		if n != 2 || in.ops[0].kind != oMem || in.ops[1].kind != oReg {
			return fmt.Errorf("bad operands")
		}
		in.op = next(func(x *Exec, s *State, in *Instr) {
			v := x.ea(s, &in.ops[0])
			if size != 8 && v.pm == 0 {
				if v.t != nil {
					v = fromTerm(x.C.Extract(size*8-1, 0, v.t))
				} else {
					v.c &= maskOf(size)
				}
			}
			x.put(s, &in.ops[1], v, size)
		})
	case "add", "sub", "and", "or", "xor", "cmp", "test":
		if n != 2 || in.ops[1].kind == oImm {
			return fmt.Errorf("bad operands")
		}
		write := base != "cmp" && base != "test"
		kind := uint8(fLogic)
		switch base {
		case "add":
			kind = fAdd
		case "sub", "cmp":
			kind = fSub
		}
		same := in.ops[0].kind == oReg && in.ops[1].kind == oReg && in.ops[0].reg == in.ops[1].reg && (base == "xor" || base == "sub")
		in.op = next(func(x *Exec, s *State, in *Instr) {
			d := &in.ops[1]
			if same {
				x.put(s, d, C(0), size)
				x.setFlags(s, fLogic, size, C(0), C(0), C(0))
				return
			}
			if write && d.kind == oMem {
				// settle the address before reading so that a fork repeats the whole instruction
				if _, ok := x.addr(s, d); !ok {
					return
				}
			}
			b := x.get(s, &in.ops[0], size)
			a := x.get(s, d, size)
			if s.end != Running {
				return
			}
			r := x.alu(base, a, b, size)
			if write {
				x.put(s, d, r, size)
			}
			x.setFlags(s, kind, size, a, b, r)
		})
	case "inc", "dec", "neg", "not":
		if n != 1 || in.ops[0].kind == oImm {
			return fmt.Errorf("bad operands")
		}
		in.op = next(func(x *Exec, s *State, in *Instr) {
			d := &in.ops[0]
			if d.kind == oMem {
				if _, ok := x.addr(s, d); !ok {
					return
				}
			}
			a := x.get(s, d, size)
			if s.end != Running {
				return
			}
			switch base {
			case "inc":
				r := x.alu("add", a, C(1), size)
				x.put(s, d, r, size)
				x.setFlags(s, fRes, size, a, C(1), r)
			case "dec":
				r := x.alu("sub", a, C(1), size)
				x.put(s, d, r, size)
				x.setFlags(s, fRes, size, a, C(1), r)
			case "neg":
				r := x.alu("sub", C(0), a, size)
				x.put(s, d, r, size)
				x.setFlags(s, fSub, size, C(0), a, r)
			case "not":
				x.put(s, d, x.alu("xor", a, C(maskOf(size)), size), size)
			}
		})
	case "shl", "sal", "shr", "sar":
		if n == 0 || n > 2 {
			return fmt.Errorf("bad operands")
		}
		in.op = next(func(x *Exec, s *State, in *Instr) {
			d := &in.ops[len(in.ops)-1]
			if d.kind == oMem {
				if _, ok := x.addr(s, d); !ok {
					return
				}
			}
			cnt := C(1)
			if len(in.ops) == 2 {
				cnt = x.get(s, &in.ops[0], 1)
			}
			a := x.get(s, d, size)
			if s.end != Running {
				return
			}
			r := x.shift(base, a, cnt, size)
			x.put(s, d, r, size)
			if cnt.conc() && cnt.c&63 != 0 {
				x.setFlags(s, fRes, size, a, cnt, r)
			} else if !cnt.conc() {
				s.fl.kind = fNone
			}
		})
	case "imul", "mul":
		if base == "imul" && n >= 2 {
			in.op = next(func(x *Exec, s *State, in *Instr) {
				a := x.get(s, &in.ops[0], size)
				b := x.get(s, &in.ops[1], size)
				if s.end != Running {
					return
				}
				x.put(s, &in.ops[len(in.ops)-1], x.alu("mul", a, b, size), size)
				s.fl.kind = fNone
			})
			return nil
		}
		if n != 1 || size < 4 {
			return fmt.Errorf("unsupported form")
		}
		signed := base == "imul"
		in.op = next(func(x *Exec, s *State, in *Instr) {
			a := x.get(s, &in.ops[0], size)
			b := x.get(s, &operand{kind: oReg, reg: RAX}, size)
			if s.end != Running {
				return
			}
			lo, hi := x.alu("mul", a, b, size), poison
			if a.conc() && b.conc() {
				if size == 8 {
					h, _ := bits.Mul64(a.c, b.c)
					if signed {
						if int64(a.c) < 0 {
							h -= b.c
						}
						if int64(b.c) < 0 {
							h -= a.c
						}
					}
					hi = C(h)
				} else {
					var p uint64
					if signed {
						p = uint64(int64(int32(a.c)) * int64(int32(b.c)))
					} else {
						p = a.c * b.c
					}
					hi = C(p >> 32)
				}
			} else if a.pm|b.pm == 0 && size == 4 {
				ext := x.C.ZExt
				if signed {
					ext = x.C.SExt
				}
				p := x.C.Mul(ext(x.T(a, 4), 64), ext(x.T(b, 4), 64))
				hi = fromTerm(x.C.Extract(63, 32, p))
			}
			x.setReg(s, RAX, lo, size)
			x.setReg(s, RDX, hi, size)
			s.fl.kind = fNone
		})
	case "idiv", "div":
		if n == 2 && in.ops[1].kind == oReg && in.ops[1].reg == RAX {
			in.ops = in.ops[:1] // gas accepts the explicit accumulator
			n = 1
		}
		if n != 1 || size < 4 {
			return fmt.Errorf("unsupported form")
		}
		in.op = next(func(x *Exec, s *State, in *Instr) { x.divide(s, in, base == "idiv", size) })
	}
	if in.op == nil {
		return fmt.Errorf("unknown instruction %s", mn)
	}
	return nil
}

func (x *Exec) push(s *State, v Val) {
	sp := s.regs[RSP]
	if !sp.conc() {
		x.fault(s, "undefined stack pointer")
		return
	}
	if sp.c-8 < StackTop-StackSize+8192 {
		x.fault(s, "stack overflow")
		return
	}
	x.store(s, sp.c-8, v, 8)
	s.regs[RSP] = C(sp.c - 8)
}

func (x *Exec) jump(s *State, v Val, commit func()) {
	if s.end != Running {
		return
	}
	if v.pm != 0 {
		x.fault(s, "jump to an undefined address")
		return
	}
	a, ok := x.Concrete(s, v)
	if !ok {
		return
	}
	commit()
	if s.end == Running {
		s.pc = a
	}
}

func (x *Exec) signOf(v Val, size int) Val {
	if v.pm != 0 {
		return poison
	}
	w := uint(size * 8)
	if v.t == nil {
		if v.c>>(w-1)&1 == 1 {
			return C(maskOf(size))
		}
		return C(0)
	}
	return fromTerm(x.C.AShr(v.t, x.C.BV(uint64(w-1), int(w))))
}

func (x *Exec) sext(v Val, from, to int) Val {
	if v.pm != 0 {
		return poison
	}
	if v.t == nil {
		sh := uint(64 - 8*from)
		return C(uint64(int64(v.c<<sh)>>sh) & maskOf(to))
	}
	return fromTerm(x.C.SExt(v.t, to*8))
}

func (x *Exec) alu(op string, a, b Val, size int) Val {
	if a.pm|b.pm != 0 {
		return poison
	}
	if a.t == nil && b.t == nil {
		var r uint64
		switch op {
		case "add":
			r = a.c + b.c
		case "sub", "cmp":
			r = a.c - b.c
		case "and", "test":
			r = a.c & b.c
		case "or":
			r = a.c | b.c
		case "xor":
			r = a.c ^ b.c
		case "mul":
			r = a.c * b.c
		}
		return C(r & maskOf(size))
	}
	ta, tb := x.T(a, size), x.T(b, size)
	var r *term.T
	switch op {
	case "add":
		r = x.C.Add(ta, tb)
	case "sub", "cmp":
		r = x.C.Sub(ta, tb)
	case "and", "test":
		r = x.C.BAnd(ta, tb)
	case "or":
		r = x.C.BOr(ta, tb)
	case "xor":
		r = x.C.BXor(ta, tb)
	case "mul":
		r = x.C.Mul(ta, tb)
	}
	return fromTerm(r)
}

func (x *Exec) shift(op string, a, cnt Val, size int) Val {
	if a.pm|cnt.pm != 0 {
		return poison
	}
	m := uint64(31)
	if size == 8 {
		m = 63
	}
	w := size * 8
	if a.t == nil && cnt.t == nil {
		n := cnt.c & m
		switch op {
		case "shl", "sal":
			return C(a.c << n & maskOf(size))
		case "shr":
			return C(a.c >> n)
		default:
			sh := uint(64 - w)
			return C(uint64(int64(a.c<<sh)>>sh>>n) & maskOf(size))
		}
	}
	var n *term.T
	if cnt.t == nil {
		n = x.C.BV(cnt.c&m, w)
	} else {
		ct := x.C.BAnd(cnt.t, x.C.BV(m, 8))
		if w == 8 {
			n = ct
		} else {
			n = x.C.ZExt(ct, w)
		}
	}
	ta := x.T(a, size)
	switch op {
	case "shl", "sal":
		return fromTerm(x.C.Shl(ta, n))
	case "shr":
		return fromTerm(x.C.LShr(ta, n))
	}
	return fromTerm(x.C.AShr(ta, n))
}

func (x *Exec) divide(s *State, in *Instr, signed bool, size int) {
	d := x.get(s, &in.ops[0], size)
	lo := x.get(s, &operand{kind: oReg, reg: RAX}, size)
	hi := x.get(s, &operand{kind: oReg, reg: RDX}, size)
	if s.end != Running {
		return
	}
	if d.pm|lo.pm|hi.pm != 0 {
		x.fault(s, "division of undefined values")
		return
	}
	w := size * 8
	c := x.C
	td, tl, th := x.T(d, size), x.T(lo, size), x.T(hi, size)
	if x.Decide(s, c.Eq(td, c.BV(0, w))) {
		x.fault(s, "division by zero")
		return
	}
	var ext *term.T
	if signed {
		ext = c.AShr(tl, c.BV(uint64(w-1), w))
	} else {
		ext = c.BV(0, w)
	}
	if !x.Decide(s, c.Eq(th, ext)) {
		// Not a plain widened dividend: decide on the concrete values of the model.
		dv, ok1 := x.Concrete(s, d)
		lv, ok2 := x.Concrete(s, lo)
		hv, ok3 := x.Concrete(s, hi)
		if !ok1 || !ok2 || !ok3 {
			return
		}
		if size != 8 {
			x.unsupported(s, "32-bit division of a wide dividend")
			return
		}
		q, r, ok := div128(hv, lv, dv, signed)
		if !ok {
			x.fault(s, "division overflow")
			return
		}
		s.regs[RAX], s.regs[RDX] = C(q), C(r)
		s.fl.kind = fNone
		return
	}
	if signed {
		if x.Decide(s, c.And(c.Eq(tl, c.BV(1<<uint(w-1), w)), c.Eq(td, c.BV(^uint64(0), w)))) {
			x.fault(s, "division overflow")
			return
		}
		x.setReg(s, RAX, fromTerm(c.SDiv(tl, td)), size)
		x.setReg(s, RDX, fromTerm(c.SRem(tl, td)), size)
	} else {
		x.setReg(s, RAX, fromTerm(c.UDiv(tl, td)), size)
		x.setReg(s, RDX, fromTerm(c.URem(tl, td)), size)
	}
	s.fl.kind = fNone
}

func div128(hi, lo, d uint64, signed bool) (q, r uint64, ok bool) {
	if !signed {
		if hi >= d {
			return 0, 0, false
		}
		q, r = bits.Div64(hi, lo, d)
		return q, r, true
	}
	neg := int64(hi) < 0
	if neg {
		lo = ^lo + 1
		hi = ^hi
		if lo == 0 {
			hi++
		}
	}
	dn := int64(d) < 0
	ad := d
	if dn {
		ad = -d
	}
	if hi >= ad {
		return 0, 0, false
	}
	q, r = bits.Div64(hi, lo, ad)
	if neg != dn {
		if q > 1<<63 {
			return 0, 0, false
		}
		q = -q
	} else if q >= 1<<63 {
		return 0, 0, false
	}
	if neg {
		r = -r
	}
	return q, r, true
}
