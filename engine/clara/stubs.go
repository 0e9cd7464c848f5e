package clara

import (
	"fmt"
	"strings"

	"verif/engine/term"
	"verif/engine/x86"
)

const (
	argBase = 0x30000000
)

// DefaultArgs starts the program with no arguments and no environment.
func DefaultArgs(x *x86.Exec, s *x86.State) {
	x.MapRange(s, argBase, 64)
	s.SetReg(x86.RDI, x86.C(0))
	s.SetReg(x86.RSI, x86.C(argBase))
	s.SetReg(x86.RDX, x86.C(argBase+32))
}

// evOf converts an engine event.
func symOut(ctx *term.Ctx, s *x86.State) *Out {
	o := &Out{C: ctx, End: s.Ended(), Why: s.Why, Live: s.Live}
	if s.Ended() == x86.Exited {
		o.Code = termOf(ctx, s.Code)
	}
	for _, e := range s.Events {
		o.Evs = append(o.Evs, e.Data.(Ev))
	}
	for k := range s.Notes {
		if strings.HasPrefix(k, "misaligned:") {
			o.Misaligned = append(o.Misaligned, strings.TrimPrefix(k, "misaligned:"))
		}
	}
	return o
}

func termOf(c *term.Ctx, v x86.Val) *term.T {
	if v.Poison() {
		return c.BV(0xdeadbeefdeadbee8, 64)
	}
	return v.Term(c, 8)
}

// arg reads an argument that must be defined.
func arg(x *x86.Exec, s *x86.State, i int) (*term.T, bool) {
	v := s.Arg(i)
	if v.Poison() {
		x.Fault(s, "undefined argument %d passed to C", i)
		return nil, false
	}
	return v.Term(x.C, 8), true
}

func constArg(x *x86.Exec, s *x86.State, i int) (uint64, bool) {
	v := s.Arg(i)
	if v.Poison() {
		x.Fault(s, "undefined argument %d passed to C", i)
		return 0, false
	}
	return x.Concrete(s, v)
}

func emit(s *x86.State, e Ev) { s.Events = append(s.Events, x86.Event{Data: e}) }

// intVar is vxInt's value for key k: a 63-bit variable sign-extended.
func intVar(x *x86.Exec, k uint64) *term.T {
	return x.C.SExt(x.C.Var(fmt.Sprintf("i%d", k), 63), 64)
}

func readBytes(x *x86.Exec, s *x86.State, a uint64, n uint64) ([]*term.T, bool) {
	r := []*term.T{}
	for i := uint64(0); i < n; i++ {
		v := x.Load(s, a+i, 1)
		if s.Ended() != x86.Running {
			return nil, false
		}
		if v.Poison() {
			x.Fault(s, "undefined byte %d of a string", i)
			return nil, false
		}
		r = append(r, v.Term(x.C, 1))
	}
	return r, true
}

// sysIndex numbers the system calls of a run.
func sysIndex(s *x86.State) int {
	n := 0
	for _, e := range s.Events {
		switch e.Data.(Ev).Kind {
		case "open", "lseek", "read", "gettimeofday":
			n++
		}
	}
	return n
}

const errnoAddr = 0x31000000

func addStubs(x *x86.Exec) {
	st := x.Stubs
	c := x.C
	st["vxInt"] = func(x *x86.Exec, s *x86.State) {
		k, ok := constArg(x, s, 0)
		if !ok {
			return
		}
		x.Ret(s, x86.FromTerm(intVar(x, k)))
	}
	st["vxRange"] = func(x *x86.Exec, s *x86.State) {
		k, ok := constArg(x, s, 0)
		lo, ok1 := arg(x, s, 1)
		hi, ok2 := arg(x, s, 2)
		if !ok || !ok1 || !ok2 {
			return
		}
		v := intVar(x, k)
		if !x.Assume(s, c.And(c.Sle(lo, v), c.Sle(v, hi))) {
			return
		}
		x.Ret(s, x86.FromTerm(v))
	}
	st["vxBool"] = func(x *x86.Exec, s *x86.State) {
		k, ok := constArg(x, s, 0)
		if !ok {
			return
		}
		x.Ret(s, x86.FromTerm(c.ZExt(c.Var(fmt.Sprintf("p%d", k), 1), 64)))
	}
	st["vxAssume"] = func(x *x86.Exec, s *x86.State) {
		v, ok := arg(x, s, 0)
		if !ok {
			return
		}
		if !x.Assume(s, c.Eq(v, c.BV(1, 64))) {
			return
		}
		x.Ret(s, x86.Poisoned())
	}
	st["vxFill"] = func(x *x86.Exec, s *x86.State) {
		a, ok := constArg(x, s, 0)
		k, ok1 := constArg(x, s, 1)
		n, ok2 := constArg(x, s, 2)
		if !ok || !ok1 || !ok2 {
			return
		}
		for i := uint64(0); i < n; i++ {
			x.Store(s, a+i, x86.FromTerm(c.Var(fmt.Sprintf("b%d_%d", k, i), 8)), 1)
		}
		x.Ret(s, x86.Poisoned())
	}
	obs := func(kind string) func(x *x86.Exec, s *x86.State) {
		return func(x *x86.Exec, s *x86.State) {
			k, ok := constArg(x, s, 0)
			v, ok1 := arg(x, s, 1)
			if !ok || !ok1 {
				return
			}
			emit(s, Ev{Kind: kind, K: int(k), V: []*term.T{v}})
			x.Ret(s, x86.Poisoned())
		}
	}
	st["vxObs"], st["vxObsB"], st["vxObsPtr"] = obs("obs"), obs("obsb"), obs("obsp")
	str := func(kind string) func(x *x86.Exec, s *x86.State) {
		return func(x *x86.Exec, s *x86.State) {
			k, ok := constArg(x, s, 0)
			a, ok1 := constArg(x, s, 1)
			if !ok || !ok1 {
				return
			}
			ln := x.Load(s, a-8, 8)
			if s.Ended() != x86.Running {
				return
			}
			raw, ok := x.Concrete(s, ln)
			if !ok {
				return
			}
			n := int64(raw) >> 1
			if n < 0 || n > 100000 {
				emit(s, Ev{Kind: "strbad", K: int(k), V: []*term.T{c.BV(uint64(n), 64)}})
				x.Ret(s, x86.Poisoned())
				return
			}
			b, ok := readBytes(x, s, a, uint64(n))
			if !ok {
				return
			}
			e := Ev{Kind: kind, K: int(k), B: b, Nul: c.BV(0, 8)}
			if kind == "str" {
				nul, ok := readBytes(x, s, a+uint64(n), 1)
				if !ok {
					return
				}
				e.Nul = nul[0]
			}
			emit(s, e)
			x.Ret(s, x86.Poisoned())
		}
	}
	st["vxObsStr"], st["vxObsBytes"] = str("str"), str("bytes")
	st["vxLive"] = func(x *x86.Exec, s *x86.State) { x.Ret(s, x86.C(uint64(s.Live))) }
	st["vxExt"] = func(x *x86.Exec, s *x86.State) {
		k, ok := constArg(x, s, 0)
		if !ok {
			return
		}
		e := Ev{Kind: "ext", K: int(k)}
		for i := 1; i < 6; i++ {
			v, ok := arg(x, s, i)
			if !ok {
				return
			}
			e.V = append(e.V, v)
		}
		emit(s, e)
		x.Ret(s, x86.FromTerm(c.Var(fmt.Sprintf("x%d", k), 64)))
	}
	for n := 0; n <= 6; n++ {
		n := n
		st[fmt.Sprintf("vxExt%d", n)] = func(x *x86.Exec, s *x86.State) {
			e := Ev{Kind: fmt.Sprintf("ext%d", n)}
			for i := 0; i < n; i++ {
				v, ok := arg(x, s, i)
				if !ok {
					return
				}
				e.V = append(e.V, v)
			}
			emit(s, e)
			x.Ret(s, x86.FromTerm(c.Var(fmt.Sprintf("x%d", n), 64)))
		}
	}
	st["vxExtArr"] = func(x *x86.Exec, s *x86.State) {
		k, ok := constArg(x, s, 0)
		a, ok1 := constArg(x, s, 1)
		n, ok2 := constArg(x, s, 2)
		if !ok || !ok1 || !ok2 {
			return
		}
		e := Ev{Kind: "arr", K: int(k)}
		for i := uint64(0); i < n; i++ {
			v := x.Load(s, a+8*i, 8)
			if v.Poison() {
				x.Fault(s, "undefined array element")
			}
			if s.Ended() != x86.Running {
				return
			}
			e.V = append(e.V, v.Term(c, 8))
		}
		emit(s, e)
		x.Ret(s, x86.Poisoned())
	}
	st["vxExtMem"] = func(x *x86.Exec, s *x86.State) {
		k, ok := constArg(x, s, 0)
		a, ok1 := constArg(x, s, 1)
		n, ok2 := constArg(x, s, 2)
		if !ok || !ok1 || !ok2 {
			return
		}
		b, ok := readBytes(x, s, a, n)
		if !ok {
			return
		}
		emit(s, Ev{Kind: "mem", K: int(k), B: b})
		x.Ret(s, x86.Poisoned())
	}
	st["calloc"] = func(x *x86.Exec, s *x86.State) {
		if v := s.Arg(0); !v.Poison() {
			// no room for more than 2^32 bytes, whatever the exact number
			if x.Decide(s, c.Ult(c.BV(1<<32, 64), v.Term(c, 8))) {
				x.Ret(s, x86.C(0))
				return
			}
		}
		a, ok := constArg(x, s, 0)
		b, ok1 := constArg(x, s, 1)
		if !ok || !ok1 {
			return
		}
		n := a * b
		if n > 1<<32 || (a != 0 && n/a != b) {
			x.Ret(s, x86.C(0))
			return
		}
		if n > 1<<22 {
			x.Unsupp(s, "allocation of %d bytes", n)
			return
		}
		x.Ret(s, x86.C(x.Alloc(s, n)))
	}
	st["free"] = func(x *x86.Exec, s *x86.State) {
		a, ok := constArg(x, s, 0)
		if !ok {
			return
		}
		if a != 0 && !x.Free(s, a) {
			x.Fault(s, "free of an invalid or already freed block %#x", a)
			return
		}
		x.Ret(s, x86.Poisoned())
	}
	st["exit"] = func(x *x86.Exec, s *x86.State) {
		v := s.Arg(0)
		if v.Poison() {
			x.Fault(s, "undefined exit status")
			return
		}
		x.End(s, x86.Exited, x86.FromTerm(c.SExt(c.Extract(31, 0, v.Term(c, 8)), 64)), "")
	}
	st["debug"] = func(x *x86.Exec, s *x86.State) { x.Ret(s, x86.Poisoned()) }
	st["printf"] = func(x *x86.Exec, s *x86.State) {
		a, ok := constArg(x, s, 0)
		if !ok {
			return
		}
		ft, ok := x.CString(s, a, 4000)
		if !ok {
			return
		}
		f, ok := x86.ConcreteString(ft)
		if !ok {
			x.Unsupp(s, "symbolic printf format")
			return
		}
		e := Ev{Kind: "printf"}
		n := 1
		for i := 0; i < len(f); i++ {
			if f[i] != '%' {
				e.B = append(e.B, c.BV(uint64(f[i]), 8))
				e.Name += "c"
				continue
			}
			j := i + 1
			for j < len(f) && !strings.ContainsRune("sdixuc%", rune(f[j])) {
				j++
			}
			if j >= len(f) {
				break
			}
			switch f[j] {
			case '%':
				e.B = append(e.B, c.BV('%', 8))
				e.Name += "c"
			case 's':
				if n > 5 {
					x.Unsupp(s, "printf with stack arguments")
					return
				}
				p, ok := constArg(x, s, n)
				if !ok {
					return
				}
				n++
				t, ok := x.CString(s, p, 4000)
				if !ok {
					return
				}
				for _, b := range t {
					e.B = append(e.B, b)
					e.Name += "c"
				}
			default:
				if n > 5 {
					x.Unsupp(s, "printf with stack arguments")
					return
				}
				v, ok := arg(x, s, n)
				if !ok {
					return
				}
				n++
				if f[j] == 'c' {
					e.B = append(e.B, c.Extract(7, 0, v))
					e.Name += "c"
				} else {
					if !strings.Contains(f[i:j], "l") {
						v = c.SExt(c.Extract(31, 0, v), 64)
					}
					e.V = append(e.V, v)
					e.Name += "%" + f[i+1:j+1] + ";"
				}
			}
			i = j
		}
		emit(s, e)
		x.Ret(s, x86.C(0))
	}
	st["__errno_location"] = func(x *x86.Exec, s *x86.State) {
		if !x.Mapped(s, errnoAddr) {
			x.MapRange(s, errnoAddr, 8)
		}
		x.Ret(s, x86.C(errnoAddr))
	}
	setErr := func(x *x86.Exec, s *x86.State, k int) {
		if !x.Mapped(s, errnoAddr) {
			x.MapRange(s, errnoAddr, 8)
		}
		x.Store(s, errnoAddr, x86.FromTerm(c.Var(fmt.Sprintf("syserr%d", k), 32)), 4)
	}
	st["open"] = func(x *x86.Exec, s *x86.State) {
		a, ok := constArg(x, s, 0)
		fl, ok1 := arg(x, s, 1)
		if !ok || !ok1 {
			return
		}
		p, ok := x.CString(s, a, 4000)
		if !ok {
			return
		}
		k := sysIndex(s)
		r := c.Var(fmt.Sprintf("sysret%d", k), 32)
		// open gives -1 or a descriptor
		er := x.Decide(s, c.Eq(r, c.BV(0xffffffff, 32)))
		if !er && !x.Assume(s, c.Sle(c.BV(0, 32), r)) {
			return
		}
		if er {
			en := c.Var(fmt.Sprintf("syserr%d", k), 32)
			if !x.Assume(s, c.And(c.Slt(c.BV(0, 32), en), c.Slt(en, c.BV(134, 32)))) {
				return
			}
			setErr(x, s, k)
		}
		emit(s, Ev{Kind: "open", V: []*term.T{c.SExt(c.Extract(31, 0, fl), 64)}, B: p})
		x.Ret(s, x86.FromTerm(c.ZExt(r, 64)))
	}
	st["lseek"] = func(x *x86.Exec, s *x86.State) {
		fd, ok := arg(x, s, 0)
		off, ok1 := arg(x, s, 1)
		mode, ok2 := arg(x, s, 2)
		if !ok || !ok1 || !ok2 {
			return
		}
		k := sysIndex(s)
		r := c.Var(fmt.Sprintf("sysret%d", k), 64)
		er := x.Decide(s, c.Eq(r, c.BV(^uint64(0), 64)))
		if !er && !x.Assume(s, c.And(c.Sle(c.BV(0, 64), r), c.Slt(r, c.BV(1<<61, 64)))) {
			return
		}
		if er {
			en := c.Var(fmt.Sprintf("syserr%d", k), 32)
			if !x.Assume(s, c.And(c.Slt(c.BV(0, 32), en), c.Slt(en, c.BV(134, 32)))) {
				return
			}
			setErr(x, s, k)
		}
		w32 := func(t *term.T) *term.T { return c.SExt(c.Extract(31, 0, t), 64) }
		emit(s, Ev{Kind: "lseek", V: []*term.T{w32(fd), off, w32(mode)}})
		x.Ret(s, x86.FromTerm(r))
	}
	st["read"] = func(x *x86.Exec, s *x86.State) {
		fd, ok := arg(x, s, 0)
		a, ok1 := constArg(x, s, 1)
		n, ok2 := constArg(x, s, 2)
		if !ok || !ok1 || !ok2 {
			return
		}
		k := sysIndex(s)
		r := c.Var(fmt.Sprintf("sysret%d", k), 64)
		er := x.Decide(s, c.Eq(r, c.BV(^uint64(0), 64)))
		cnt := uint64(0)
		if er {
			en := c.Var(fmt.Sprintf("syserr%d", k), 32)
			if !x.Assume(s, c.And(c.Slt(c.BV(0, 32), en), c.Slt(en, c.BV(134, 32)))) {
				return
			}
		} else {
			if !x.Assume(s, c.And(c.Sle(c.BV(0, 64), r), c.Sle(r, c.BV(n, 64)))) {
				return
			}
			if cnt, ok = x.Concrete(s, x86.FromTerm(r)); !ok {
				return
			}
		}
		if er {
			setErr(x, s, k)
		}
		for i := uint64(0); i < cnt; i++ {
			x.Store(s, a+i, x86.FromTerm(c.Var(fmt.Sprintf("f%d_%d", k, i), 8)), 1)
		}
		emit(s, Ev{Kind: "read", V: []*term.T{c.SExt(c.Extract(31, 0, fd), 64), c.BV(n, 64)}})
		x.Ret(s, x86.FromTerm(r))
	}
	st["gettimeofday"] = func(x *x86.Exec, s *x86.State) {
		a, ok := constArg(x, s, 0)
		if !ok {
			return
		}
		k := sysIndex(s)
		x.Store(s, a, x86.FromTerm(c.SExt(c.Var(fmt.Sprintf("tsec%d", k), 63), 64)), 8)
		x.Store(s, a+8, x86.FromTerm(c.SExt(c.Var(fmt.Sprintf("tusec%d", k), 63), 64)), 8)
		emit(s, Ev{Kind: "gettimeofday"})
		x.Ret(s, x86.C(0))
	}
	// getopt_long: the argument order GNU getopt leaves behind and one answer per option argument
	st["getopt_long"] = func(x *x86.Exec, s *x86.State) {
		argc, ok := constArg(x, s, 0)
		argv, ok1 := constArg(x, s, 1)
		oa, ok2 := constArg(x, s, 2)
		if !ok || !ok1 || !ok2 {
			return
		}
		ob, ok := x.CString(s, oa, 100)
		if !ok {
			return
		}
		opts, ok := x86.ConcreteString(ob)
		if !ok {
			x.Unsupp(s, "symbolic option string")
			return
		}
		argc = uint64(int32(argc))
		if argc > 1000 {
			x.Unsupp(s, "%d arguments", int64(argc))
			return
		}
		const opt = errnoAddr + 0x100
		at := uint64(1)
		if x.Mapped(s, opt) {
			if at, ok = x.Concrete(s, x.Load(s, opt, 8)); !ok {
				return
			}
		}
		const (
			plain = iota
			option
			end
		)
		kind := func(i uint64) (int, uint64) {
			p, ok := x.Concrete(s, x.Load(s, argv+8*i, 8))
			if !ok {
				return 0, 0
			}
			is := func(o, v uint64) bool {
				b := x.Load(s, p+o, 1)
				return s.Ended() == x86.Running && x.Decide(s, c.Eq(b.Term(c, 1), c.BV(v, 8)))
			}
			if !is(0, '-') || is(1, 0) {
				return plain, p
			}
			if is(1, '-') && is(2, 0) {
				return end, p
			}
			return option, p
		}
		order := []uint64{}
		if at == 1 && !strings.HasPrefix(opts, "+") && !strings.HasPrefix(opts, "-") {
			var a, b []uint64
			i := uint64(1)
			for ; i < argc; i++ {
				k, p := kind(i)
				if s.Ended() != x86.Running {
					return
				}
				if k == plain {
					b = append(b, p)
					continue
				}
				a = append(a, p)
				if k == end {
					i++
					break
				}
			}
			for ; i < argc; i++ {
				_, p := kind(i)
				b = append(b, p)
			}
			order = append(a, b...)
		}
		k := plain
		if len(order) > 0 {
			// the first argument after reordering
			for i := uint64(1); i < argc; i++ {
				ki, p := kind(i)
				if p == order[0] {
					k = ki
				}
			}
		} else if at < argc {
			k, _ = kind(at)
		}
		if s.Ended() != x86.Running {
			return
		}
		if !x.Mapped(s, opt) {
			x.MapRange(s, opt, 8)
		}
		for i, p := range order {
			x.Store(s, argv+8*uint64(i+1), x86.C(p), 8)
		}
		x.Store(s, opt, x86.C(at+1), 8)
		if k == option {
			x.Ret(s, x86.C('?'))
		} else {
			x.Ret(s, x86.C(0xffffffff))
		}
	}
}
