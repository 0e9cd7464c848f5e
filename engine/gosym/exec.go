package gosym

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"unicode/utf8"

	"verif/engine/term"
)

// runtimeError is the dynamic type of run-time panics.
var rtErr = &rtype{id: -1, name: "runtime.Error"}

// Call starts a state that calls fn with the given arguments on goroutine 0.
func (e *Engine) Call(st *State, fn *Fn, args []V) {
	g := &G{id: 0}
	st.gs = []*G{g}
	st.cur = 0
	st.pushFrame(g, fn, nil, args, -1)
}

// Base returns a fresh state with the package initialisers run.
func (e *Engine) Base(pkgs ...string) (*State, error) {
	st := e.newState()
	for _, path := range pkgs {
		pk := e.P.Pkgs[path]
		if pk == nil {
			return nil, fmt.Errorf("package %s not loaded", path)
		}
		pk.Build()
		e.Call(st, e.P.fn(pk.Func("init")), nil)
		st.run()
		if st.End != "return" {
			return nil, fmt.Errorf("initialising %s: %s %s", path, st.End, st.Msg)
		}
		st.End = ""
	}
	return st, nil
}

// Func finds a package-level function.
func (p *Program) Func(pkg, name string) *Fn {
	pk := p.Pkgs[pkg]
	if pk == nil {
		return nil
	}
	f := pk.Func(name)
	if f == nil {
		return nil
	}
	return p.fn(f)
}

// Explore runs st and everything it forks; end is called for every finished path.
func (e *Engine) Explore(st *State, end func(*State)) {
	e.work = append(e.work[:0], st)
	for len(e.work) > 0 {
		n := len(e.work)
		s := e.work[n-1]
		e.work[n-1] = nil
		e.work = e.work[:n-1]
		if e.Paths >= e.MaxPaths || (e.Stop != nil && e.Stop()) {
			e.Dropped++
			continue
		}
		e.Paths++
		s0 := s.steps
		s.run()
		e.Steps += s.steps - s0
		end(s)
	}
}

func (st *State) pushFrame(g *G, fn *Fn, free []V, args []V, dst int) *Frame {
	if !fn.built.Load() && fn.natf == nil {
		st.e.P.prepare(fn)
	}
	if fn.bad != "" {
		panic(stop{"unsupported", fn.bad})
	}
	if fn.own && !st.e.Funcs[fn.Name] {
		st.e.Funcs[fn.Name] = true
	}
	f := &Frame{fn: fn, dst: dst}
	if fn.natf != nil {
		f.regs = append([]V(nil), args...)
	} else {
		f.regs = make([]V, fn.nregs)
		copy(f.regs, args)
		copy(f.regs[len(args):], free)
	}
	if len(g.fs) > 3000 {
		panic(stop{"panic", "stack overflow"})
	}
	g.fs = append(g.fs, f)
	return f
}

func (st *State) run() {
	for {
		if r := st.runProtected(); r {
			return
		}
	}
}

// runProtected runs until the path ends; Go panics used as control flow are translated here.
func (st *State) runProtected() (done bool) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case stop:
				st.End, st.Msg = x.end, x.msg
				if x.end == "unsupported" || x.end == "limit" || x.end == "panic" {
					st.Msg += " at " + st.Where()
				}
				done = true
			case goPanic:
				st.startPanic(x.v, x.msg)
				done = false
				// continue unwinding
				func() {
					defer func() {
						if r := recover(); r != nil {
							if s, ok := r.(stop); ok {
								st.End, st.Msg = s.end, s.msg
								done = true
								return
							}
							panic(r)
						}
					}()
					st.unwind()
				}()
			default:
				panic(fmt.Sprintf("%v\nin %s", r, st.Where()))
			}
		}
	}()
	st.loop()
	return true
}

type goPanic struct {
	v   V
	msg string
}

func (st *State) rtPanic(msg string) {
	panic(goPanic{V{R: &Iface{t: rtErr, v: mkStr(msg)}}, msg})
}

func (st *State) startPanic(v V, msg string) {
	g := st.gs[st.cur]
	if msg == "" {
		msg = st.describe(v)
	}
	g.panics = append(g.panics, panicRec{v: v, msg: msg + " at " + st.Where()})
	g.fs[len(g.fs)-1].unwind = true
}

func (st *State) describe(v V) string {
	i, ok := v.R.(*Iface)
	if !ok {
		return "nil"
	}
	switch {
	case i.t == rtErr || i.t.ti.k == kString:
		s := i.v.str()
		if s.sym == nil {
			return s.s
		}
		return "<symbolic text>"
	}
	return i.t.name
}

// unwind runs the deferred calls of the top frame, or pops it, while a panic is in flight.
func (st *State) unwind() {
	g := st.gs[st.cur]
	for {
		if len(g.fs) == 0 {
			p := g.panics[len(g.panics)-1]
			panic(stop{"panic", p.msg})
		}
		f := g.fs[len(g.fs)-1]
		f.unwind = true
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			if d.bi != "" {
				st.deferredBuiltin(d)
				continue
			}
			if d.fn.nat != nil {
				d.fn.nat(st, d.args)
				continue
			}
			nf := st.pushFrame(g, d.fn, d.free, d.args, -1)
			nf.deferRun = true
			nf.dropRet = true
			return
		}
		st.freeLocals(f)
		g.fs = g.fs[:len(g.fs)-1]
		if n := len(g.fs); n > 0 && g.fs[n-1].fn.natf != nil && f.dst >= 0 && pkgOf(g.fs[n-1].fn) == "fmt" {
			// fmt recovers from panics of the methods it calls
			g.panics = g.panics[:len(g.panics)-1]
			g.fs[n-1].regs[f.dst] = V{R: &Iface{t: rtErr, v: mkStr("%!v(PANIC=String method)")}}
			return
		}
	}
}

func (st *State) freeLocals(f *Frame) {
	for _, id := range f.locals {
		st.free = append(st.free, id)
	}
	f.locals = nil
}

// schedule picks another goroutine when the current one cannot go on.
func (st *State) schedule() bool {
	n := len(st.gs)
	for i := 1; i <= n; i++ {
		k := (st.cur + i) % n
		if !st.gs[k].blocked && !st.gs[k].done {
			st.cur = k
			return true
		}
	}
	return false
}

func (st *State) truthV(v V) bool {
	if t, ok := v.R.(*term.T); ok {
		return st.decide(t)
	}
	return v.N != 0
}

func (st *State) toTerm(v V, w int) *term.T {
	if t, ok := v.R.(*term.T); ok {
		return t
	}
	if w == 0 {
		return st.e.T.Bool(v.N != 0)
	}
	return st.e.T.BV(v.N&wmask(w), w)
}

// fromTerm makes a value of a term of an integer type.
func fromTerm(t *term.T, ti *tinfo) V {
	if t.IsConst() {
		if t.W == 0 || !ti.signed {
			return V{N: t.C}
		}
		return V{N: uint64(normS(int64(t.C), t.W))}
	}
	return V{R: t}
}

func boolV(b bool) V {
	if b {
		return V{N: 1}
	}
	return V{}
}

func termBool(t *term.T) V {
	if t.IsConst() {
		return V{N: t.C}
	}
	return V{R: t}
}

// intV gives a concrete integer, picking a value (and forking) if it is symbolic.
func (st *State) intV(v V, ti *tinfo) int64 {
	if t, ok := v.R.(*term.T); ok {
		c := st.concretise(t)
		if ti == nil || ti.signed {
			return normS(int64(c), t.W)
		}
		return int64(c)
	}
	if u, ok := v.R.(unsup); ok {
		panic(stop{"unsupported", u.what})
	}
	return int64(v.N)
}

func (st *State) byteTerm(s *Str, i int) *term.T {
	if s.sym != nil {
		return s.sym[i]
	}
	return st.e.T.BV(uint64(s.s[i]), 8)
}

func (st *State) strBytes(s *Str) []*term.T {
	if s.sym != nil {
		return s.sym
	}
	r := make([]*term.T, len(s.s))
	for i := range r {
		r[i] = st.e.T.BV(uint64(s.s[i]), 8)
	}
	return r
}

func (st *State) concat(a, b *Str) V {
	if a.Len() == 0 {
		if b.Len() == 0 {
			return V{}
		}
		return V{R: b}
	}
	if b.Len() == 0 {
		return V{R: a}
	}
	if a.sym == nil && b.sym == nil {
		return V{R: &Str{s: a.s + b.s}}
	}
	r := append(append([]*term.T(nil), st.strBytes(a)...), st.strBytes(b)...)
	return V{R: &Str{sym: r}}
}

// eqStr is the equality of two strings.
func (st *State) eqStr(a, b *Str) *term.T {
	c := st.e.T
	if a.Len() != b.Len() {
		return c.False
	}
	if a.sym == nil && b.sym == nil {
		return c.Bool(a.s == b.s)
	}
	var cs []*term.T
	for i := 0; i < a.Len(); i++ {
		e := c.Eq(st.byteTerm(a, i), st.byteTerm(b, i))
		if e.IsFalse() {
			return e
		}
		cs = append(cs, e)
	}
	return c.And(cs...)
}

// ltStr is the lexicographic order.
func (st *State) ltStr(a, b *Str) *term.T {
	c := st.e.T
	if a.sym == nil && b.sym == nil {
		return c.Bool(a.s < b.s)
	}
	n := a.Len()
	if b.Len() < n {
		n = b.Len()
	}
	r := c.Bool(a.Len() < b.Len())
	for i := n - 1; i >= 0; i-- {
		x, y := st.byteTerm(a, i), st.byteTerm(b, i)
		r = c.Or(c.Ult(x, y), c.And(c.Eq(x, y), r))
	}
	return r
}

// eq is the equality of two values of a type.
func (st *State) eq(ti *tinfo, a, b V) *term.T {
	c := st.e.T
	switch ti.k {
	case kInt:
		if a.R == nil && b.R == nil {
			return c.Bool(a.N == b.N)
		}
		return c.Eq(st.toTerm(a, ti.w), st.toTerm(b, ti.w))
	case kBool:
		if a.R == nil && b.R == nil {
			return c.Bool(a.N == b.N)
		}
		return c.Eq(st.toTerm(a, 0), st.toTerm(b, 0))
	case kString:
		return st.eqStr(a.str(), b.str())
	case kPtr, kMap, kChan:
		return c.Bool(a.N == b.N)
	case kSlice, kFunc: // only against nil
		return c.Bool((a.R == nil) == (b.R == nil))
	case kIface:
		x, ok1 := a.R.(*Iface)
		y, ok2 := b.R.(*Iface)
		if !ok1 || !ok2 {
			return c.Bool(ok1 == ok2)
		}
		if x.t != y.t {
			return c.False
		}
		if x.t == rtErr {
			return c.Bool(x == y)
		}
		if x.t.ti.k == kSlice || x.t.ti.k == kMap || x.t.ti.k == kFunc {
			st.rtPanic("runtime error: comparing uncomparable type " + x.t.name)
		}
		return st.eq(x.t.ti, x.v, y.v)
	case kStruct, kArray:
		x, y := a.R.(Agg), b.R.(Agg)
		var cs []*term.T
		for i, n := 0, ti.slots; i < n; {
			f := st.slotType(ti, i)
			cs = append(cs, st.eq(f, x[i], y[i]))
			i++
		}
		return c.And(cs...)
	}
	panic(stop{"unsupported", "comparison of " + ti.t.String()})
}

// slotType is the scalar type at a slot of an aggregate.
func (st *State) slotType(ti *tinfo, slot int) *tinfo {
	for ti.agg() {
		if ti.k == kArray {
			slot %= ti.elem.slots
			ti = ti.elem
			continue
		}
		for i := len(ti.offs) - 1; i >= 0; i-- {
			if ti.fields[i].slots > 0 && ti.offs[i] <= slot {
				slot -= ti.offs[i]
				ti = ti.fields[i]
				break
			}
		}
	}
	return ti
}

func (st *State) load(p uint64, ti *tinfo) V {
	id := p >> 24
	if id == 0 {
		st.rtPanic("runtime error: invalid memory address or nil pointer dereference")
	}
	o := st.obj(id)
	off := int(p & (1<<24 - 1))
	if ti.agg() {
		return V{R: Agg(append([]V(nil), o.s[off:off+ti.slots]...))}
	}
	return o.s[off]
}

func (st *State) store(p uint64, ti *tinfo, v V) {
	id := p >> 24
	if id == 0 {
		st.rtPanic("runtime error: invalid memory address or nil pointer dereference")
	}
	o := st.wobj(id)
	off := int(p & (1<<24 - 1))
	if ti.agg() {
		copy(o.s[off:off+ti.slots], v.R.(Agg))
		return
	}
	o.s[off] = v
}

// part takes a component out of a flattened aggregate.
func part(a Agg, off int, ti *tinfo) V {
	if ti.agg() {
		return V{R: a[off : off+ti.slots : off+ti.slots]}
	}
	return a[off]
}

func put(a Agg, off int, ti *tinfo, v V) {
	if ti.agg() {
		copy(a[off:off+ti.slots], v.R.(Agg))
		return
	}
	a[off] = v
}

func zero(ti *tinfo) V {
	if ti.agg() {
		return V{R: Agg(make([]V, ti.slots))}
	}
	return V{}
}

func (f *Frame) get(i int) V {
	if i >= 0 {
		return f.regs[i]
	}
	return f.fn.consts[-i-1]
}

func (st *State) jump(f *Frame, e *edge) {
	switch len(e.src) {
	case 0:
	case 1:
		f.regs[e.dst[0]] = f.get(e.src[0])
	default:
		var tmp [16]V
		t := tmp[:0]
		for _, s := range e.src {
			t = append(t, f.get(s))
		}
		for i, d := range e.dst {
			f.regs[d] = t[i]
		}
	}
	f.pc = e.pc
}

// ret hands a result to the caller of the top frame.
func (st *State) ret(g *G, v V) {
	f := g.fs[len(g.fs)-1]
	st.freeLocals(f)
	g.fs = g.fs[:len(g.fs)-1]
	if len(g.fs) == 0 {
		g.done = true
		if st.cur == 0 {
			panic(stop{"return", ""})
		}
		if !st.schedule() {
			panic(stop{"deadlock", "all goroutines are asleep"})
		}
		return
	}
	c := g.fs[len(g.fs)-1]
	if f.deferRun {
		if c.unwind {
			p := &g.panics[len(g.panics)-1]
			if p.recovered {
				g.panics = g.panics[:len(g.panics)-1]
				c.unwind = false
				if c.fn.recover >= 0 {
					c.pc = c.fn.recover
					return
				}
				st.ret(g, zeroRes(c.fn.res))
				return
			}
			st.unwind()
		}
		return // RunDefers executes again
	}
	if f.dst >= 0 {
		c.regs[f.dst] = v
	}
}

func zeroRes(ti *tinfo) V {
	switch len(ti.fields) {
	case 0:
		return V{}
	case 1:
		return zero(ti.fields[0])
	}
	return V{R: Agg(make([]V, ti.slots))}
}

func (st *State) loop() {
	e := st.e
	for {
		g := st.gs[st.cur]
		if g.blocked || g.done {
			if !st.schedule() {
				panic(stop{"deadlock", "all goroutines are asleep"})
			}
			continue
		}
		f := g.fs[len(g.fs)-1]
		st.steps++
		if st.steps&0xffff == 0 && e.Stop != nil && e.Stop() {
			panic(stop{"limit", "out of time"})
		}
		if st.steps > e.MaxSteps {
			panic(stop{"limit", fmt.Sprintf("more than %d steps", e.MaxSteps)})
		}
		if f.fn.natf != nil {
			done, v := f.fn.natf(st, g, f)
			if done {
				if st.cur == 0 && len(g.fs) == 1 {
					st.Ret = v
				}
				st.ret(g, v)
			}
			continue
		}
		in := &f.fn.code[f.pc]
		switch in.op {
		case oNop:
		case oAlloc:
			if in.ok {
				f.regs[in.dst] = V{N: st.alloc(in.ti.slots) << 24}
			} else {
				id, ok := f.locals[in.dst]
				if !ok {
					id = st.alloc(in.ti.slots)
					if f.locals == nil {
						f.locals = map[int]uint64{}
					}
					f.locals[in.dst] = id
				} else {
					o := st.wobj(id)
					for i := range o.s {
						o.s[i] = V{}
					}
				}
				f.regs[in.dst] = V{N: id << 24}
			}
		case oBin:
			f.regs[in.dst] = st.binop(in, f.get(in.a), f.get(in.b))
		case oNot:
			v := f.get(in.a)
			if t, ok := v.R.(*term.T); ok {
				f.regs[in.dst] = termBool(e.T.Not(t))
			} else {
				f.regs[in.dst] = V{N: v.N ^ 1}
			}
		case oNeg:
			v := f.get(in.a)
			if t, ok := v.R.(*term.T); ok {
				f.regs[in.dst] = fromTerm(e.T.Neg(t), in.ti)
			} else if in.ti.k != kInt {
				panic(stop{"unsupported", "negation of " + in.ti.t.String()})
			} else {
				f.regs[in.dst] = V{N: norm(-v.N, in.ti)}
			}
		case oCom:
			v := f.get(in.a)
			if t, ok := v.R.(*term.T); ok {
				f.regs[in.dst] = fromTerm(e.T.BNot(t), in.ti)
			} else {
				f.regs[in.dst] = V{N: norm(^v.N, in.ti)}
			}
		case oLoad:
			v := f.get(in.a)
			if v.R != nil {
				st.badV(v)
			}
			f.regs[in.dst] = st.load(v.N, in.ti)
		case oStore:
			v := f.get(in.a)
			if v.R != nil {
				st.badV(v)
			}
			w := f.get(in.b)
			if u, ok := w.R.(unsup); ok {
				panic(stop{"unsupported", u.what})
			}
			st.store(v.N, in.ti, w)
		case oCopy:
			f.regs[in.dst] = f.get(in.a)
		case oConvert:
			f.regs[in.dst] = st.convert(f.get(in.a), in.ti, in.ti2)
		case oMakeIface:
			v := f.get(in.a)
			if u, ok := v.R.(unsup); ok {
				panic(stop{"unsupported", u.what})
			}
			f.regs[in.dst] = V{R: &Iface{t: in.rt, v: v}}
		case oMakeClosure:
			c := &Closure{fn: in.fn}
			for _, a := range in.args {
				c.free = append(c.free, f.get(a))
			}
			f.regs[in.dst] = V{R: c}
		case oMakeMap:
			f.regs[in.dst] = V{N: st.newObj(&Obj{m: &MapObj{idx: map[string]int{}}}) << 24}
		case oMakeChan:
			f.regs[in.dst] = V{N: st.newObj(&Obj{ch: &ChanObj{cap: int(st.intV(f.get(in.a), nil))}}) << 24}
		case oMakeSlice:
			n, c := st.intV(f.get(in.a), nil), st.intV(f.get(in.b), nil)
			if n < 0 || c < n || c > 1<<22 {
				st.rtPanic("runtime error: makeslice: len out of range")
			}
			f.regs[in.dst] = st.newSlice(in.ti, int(n), int(c))
		case oSlice:
			f.regs[in.dst] = st.slice(f, in)
		case oFieldAddr:
			v := f.get(in.a)
			if v.R != nil {
				st.badV(v)
			}
			if v.N == 0 {
				st.rtPanic("runtime error: invalid memory address or nil pointer dereference")
			}
			f.regs[in.dst] = V{N: v.N + uint64(in.n)}
		case oField:
			f.regs[in.dst] = part(f.get(in.a).R.(Agg), in.n, in.ti)
		case oIndexAddr:
			f.regs[in.dst] = st.indexAddr(f.get(in.a), f.get(in.b), in)
		case oIndex:
			f.regs[in.dst] = st.index(f.get(in.a), f.get(in.b), in)
		case oLookup:
			f.regs[in.dst] = st.lookup(f.get(in.a), f.get(in.b), in)
		case oMapUpdate:
			st.mapSet(f.get(in.a), in.ti, f.get(in.b), f.get(in.c))
		case oRange:
			f.regs[in.dst] = st.rangeOver(f.get(in.a), in.ti)
		case oNext:
			f.regs[in.dst] = st.next(f, in)
		case oAssert:
			f.regs[in.dst] = st.typeAssert(f.get(in.a), in)
		case oExtract:
			f.regs[in.dst] = part(f.get(in.a).R.(Agg), in.n, in.ti)
		case oJump:
			st.jump(f, in.e1)
			continue
		case oIf:
			if st.truthV(f.get(in.a)) {
				st.jump(f, in.e1)
			} else {
				st.jump(f, in.e2)
			}
			continue
		case oReturn:
			var v V
			switch len(in.args) {
			case 0:
			case 1:
				v = f.get(in.args[0])
			default:
				a := make(Agg, f.fn.res.slots)
				for i, r := range in.args {
					put(a, f.fn.res.offs[i], f.fn.res.fields[i], f.get(r))
				}
				v = V{R: a}
			}
			if st.cur == 0 && len(g.fs) == 1 {
				st.Ret = v
			}
			if len(f.defers) > 0 {
				panic(stop{"unsupported", "return with pending defers"})
			}
			st.ret(g, v)
			continue
		case oRunDefers:
			if n := len(f.defers); n > 0 {
				d := f.defers[n-1]
				f.defers = f.defers[:n-1]
				if d.bi != "" {
					st.deferredBuiltin(d)
					continue
				}
				if d.fn.nat != nil {
					d.fn.nat(st, d.args)
					continue
				}
				nf := st.pushFrame(g, d.fn, d.free, d.args, -1)
				nf.deferRun = true
				continue
			}
		case oPanic:
			panic(goPanic{f.get(in.a), ""})
		case oGo:
			st.goStart(f, in.call)
		case oDefer:
			st.deferCall(f, in.call)
		case oSend:
			if !st.send(g, f, in) {
				continue
			}
		case oRecv:
			if !st.recv(g, f, in) {
				continue
			}
		case oCall:
			if st.call(g, f, in) {
				continue // pc already advanced
			}
		case oUnsupported:
			panic(stop{"unsupported", in.msg})
		default:
			panic(stop{"unsupported", fmt.Sprintf("opcode %d", in.op)})
		}
		f.pc++
	}
}

func (st *State) badV(v V) {
	if u, ok := v.R.(unsup); ok {
		panic(stop{"unsupported", u.what})
	}
	panic(stop{"unsupported", fmt.Sprintf("address is %T", v.R)})
}

func norm(n uint64, ti *tinfo) uint64 {
	if ti.signed {
		return uint64(normS(int64(n), ti.w))
	}
	return n & wmask(ti.w)
}

func (st *State) binop(in *instr, a, b V) V {
	ti := in.ti
	switch in.tok {
	case token.EQL:
		if a.R == nil && b.R == nil && ti.k == kInt {
			return boolV(a.N == b.N)
		}
		return termBool(st.eq(ti, a, b))
	case token.NEQ:
		if a.R == nil && b.R == nil && ti.k == kInt {
			return boolV(a.N != b.N)
		}
		return termBool(st.e.T.Not(st.eq(ti, a, b)))
	}
	if u, ok := a.R.(unsup); ok {
		panic(stop{"unsupported", u.what})
	}
	if u, ok := b.R.(unsup); ok {
		panic(stop{"unsupported", u.what})
	}
	switch ti.k {
	case kString:
		x, y := a.str(), b.str()
		switch in.tok {
		case token.ADD:
			return st.concat(x, y)
		case token.LSS:
			return termBool(st.ltStr(x, y))
		case token.GTR:
			return termBool(st.ltStr(y, x))
		case token.LEQ:
			return termBool(st.e.T.Not(st.ltStr(y, x)))
		case token.GEQ:
			return termBool(st.e.T.Not(st.ltStr(x, y)))
		}
	case kBool:
		c := st.e.T
		switch in.tok {
		case token.AND, token.LAND:
			return termBool(c.And(st.toTerm(a, 0), st.toTerm(b, 0)))
		case token.OR, token.LOR:
			return termBool(c.Or(st.toTerm(a, 0), st.toTerm(b, 0)))
		}
	case kInt:
		if a.R == nil && b.R == nil {
			x, y := a.N, b.N
			s := ti.signed
			switch in.tok {
			case token.ADD:
				return V{N: norm(x+y, ti)}
			case token.SUB:
				return V{N: norm(x-y, ti)}
			case token.MUL:
				return V{N: norm(x*y, ti)}
			case token.QUO, token.REM:
				if y == 0 {
					st.rtPanic("runtime error: integer divide by zero")
				}
				if s {
					if int64(y) == -1 {
						if in.tok == token.QUO {
							return V{N: norm(-x, ti)}
						}
						return V{}
					}
					if in.tok == token.QUO {
						return V{N: norm(uint64(int64(x)/int64(y)), ti)}
					}
					return V{N: norm(uint64(int64(x)%int64(y)), ti)}
				}
				if in.tok == token.QUO {
					return V{N: x / y}
				}
				return V{N: x % y}
			case token.AND:
				return V{N: x & y}
			case token.OR:
				return V{N: x | y}
			case token.XOR:
				return V{N: norm(x^y, ti)}
			case token.AND_NOT:
				return V{N: norm(x&^y, ti)}
			case token.SHL:
				if in.ti2.signed && int64(y) < 0 {
					st.rtPanic("runtime error: negative shift amount")
				}
				if y >= 64 {
					return V{}
				}
				return V{N: norm(x<<y, ti)}
			case token.SHR:
				if in.ti2.signed && int64(y) < 0 {
					st.rtPanic("runtime error: negative shift amount")
				}
				if s {
					if y >= 64 {
						y = 63
					}
					return V{N: uint64(int64(x) >> y)}
				}
				if y >= 64 {
					return V{}
				}
				return V{N: x >> y}
			case token.LSS:
				if s {
					return boolV(int64(x) < int64(y))
				}
				return boolV(x < y)
			case token.LEQ:
				if s {
					return boolV(int64(x) <= int64(y))
				}
				return boolV(x <= y)
			case token.GTR:
				if s {
					return boolV(int64(x) > int64(y))
				}
				return boolV(x > y)
			case token.GEQ:
				if s {
					return boolV(int64(x) >= int64(y))
				}
				return boolV(x >= y)
			}
			break
		}
		c := st.e.T
		x := st.toTerm(a, ti.w)
		switch in.tok {
		case token.SHL, token.SHR:
			n := st.intV(b, in.ti2)
			if in.ti2.signed && n < 0 {
				st.rtPanic("runtime error: negative shift amount")
			}
			big := uint64(n) >= uint64(ti.w)
			switch {
			case in.tok == token.SHL && big:
				return V{}
			case in.tok == token.SHL:
				return fromTerm(c.Shl(x, c.BV(uint64(n), ti.w)), ti)
			case ti.signed && big:
				return fromTerm(c.AShr(x, c.BV(uint64(ti.w-1), ti.w)), ti)
			case ti.signed:
				return fromTerm(c.AShr(x, c.BV(uint64(n), ti.w)), ti)
			case big:
				return V{}
			}
			return fromTerm(c.LShr(x, c.BV(uint64(n), ti.w)), ti)
		}
		y := st.toTerm(b, ti.w)
		switch in.tok {
		case token.ADD:
			return fromTerm(c.Add(x, y), ti)
		case token.SUB:
			return fromTerm(c.Sub(x, y), ti)
		case token.MUL:
			return fromTerm(c.Mul(x, y), ti)
		case token.QUO, token.REM:
			if st.decide(c.Eq(y, c.BV(0, ti.w))) {
				st.rtPanic("runtime error: integer divide by zero")
			}
			switch {
			case ti.signed && in.tok == token.QUO:
				return fromTerm(c.SDiv(x, y), ti)
			case ti.signed:
				return fromTerm(c.SRem(x, y), ti)
			case in.tok == token.QUO:
				return fromTerm(c.UDiv(x, y), ti)
			}
			return fromTerm(c.URem(x, y), ti)
		case token.AND:
			return fromTerm(c.BAnd(x, y), ti)
		case token.OR:
			return fromTerm(c.BOr(x, y), ti)
		case token.XOR:
			return fromTerm(c.BXor(x, y), ti)
		case token.AND_NOT:
			return fromTerm(c.BAnd(x, c.BNot(y)), ti)
		case token.LSS:
			if ti.signed {
				return termBool(c.Slt(x, y))
			}
			return termBool(c.Ult(x, y))
		case token.LEQ:
			if ti.signed {
				return termBool(c.Sle(x, y))
			}
			return termBool(c.Ule(x, y))
		case token.GTR:
			if ti.signed {
				return termBool(c.Slt(y, x))
			}
			return termBool(c.Ult(y, x))
		case token.GEQ:
			if ti.signed {
				return termBool(c.Sle(y, x))
			}
			return termBool(c.Ule(y, x))
		}
	}
	panic(stop{"unsupported", "operator " + in.tok.String() + " on " + ti.t.String()})
}

func (st *State) newSlice(elem *tinfo, n, c int) V {
	id := st.alloc(c * elem.slots)
	return V{R: &Slice{p: id << 24, len: n, cap: c}}
}

// bytesOf makes a []byte of a string.
func (st *State) bytesOf(s *Str) V {
	n := s.Len()
	id := st.alloc(n)
	o := st.wobj(id)
	for i := 0; i < n; i++ {
		if s.sym != nil {
			t := s.sym[i]
			if t.IsConst() {
				o.s[i] = V{N: t.C}
			} else {
				o.s[i] = V{R: t}
			}
		} else {
			o.s[i] = V{N: uint64(s.s[i])}
		}
	}
	return V{R: &Slice{p: id << 24, len: n, cap: n}}
}

// strOfBytes makes a string of n byte slots.
func (st *State) strOfBytes(p uint64, n int) V {
	if n == 0 {
		return V{}
	}
	o := st.obj(p >> 24)
	off := int(p & (1<<24 - 1))
	b := make([]byte, n)
	for i := 0; i < n; i++ {
		v := o.s[off+i]
		if v.R != nil {
			r := make([]*term.T, n)
			for j := 0; j < n; j++ {
				r[j] = st.toTerm(o.s[off+j], 8)
			}
			return symStr(r)
		}
		b[i] = byte(v.N)
	}
	return mkStr(string(b))
}

func (st *State) convert(v V, from, to *tinfo) V {
	if u, ok := v.R.(unsup); ok {
		panic(stop{"unsupported", u.what})
	}
	switch {
	case from.k == kInt && to.k == kInt:
		if t, ok := v.R.(*term.T); ok {
			c := st.e.T
			switch {
			case to.w < from.w:
				t = c.Extract(to.w-1, 0, t)
			case to.w > from.w && from.signed:
				t = c.SExt(t, to.w)
			case to.w > from.w:
				t = c.ZExt(t, to.w)
			}
			return fromTerm(t, to)
		}
		return V{N: norm(v.N, to)}
	case from.k == kString && to.k == kString:
		return v
	case from.k == kString && to.k == kSlice && to.elem.w == 8:
		return st.bytesOf(v.str())
	case from.k == kSlice && to.k == kString && from.elem.w == 8:
		s, _ := v.R.(*Slice)
		if s == nil {
			return V{}
		}
		return st.strOfBytes(s.p, s.len)
	case from.k == kInt && to.k == kString:
		if t, ok := v.R.(*term.T); ok {
			return st.encodeRune(t)
		}
		return mkStr(string(rune(int64(v.N))))
	case from.k == kString && to.k == kSlice && to.elem.w == 32:
		s := v.str()
		var rs []V
		for i := 0; i < s.Len(); {
			r, w := st.decodeRune(s, i)
			rs = append(rs, r)
			i += w
		}
		sl := st.newSlice(to.elem, len(rs), len(rs))
		copy(st.wobj(sl.R.(*Slice).p>>24).s, rs)
		return sl
	case from.k == kSlice && to.k == kString && from.elem.w == 32:
		s, _ := v.R.(*Slice)
		r := V{}
		if s == nil {
			return r
		}
		for i := 0; i < s.len; i++ {
			x := st.load(s.p+uint64(i), from.elem)
			r = st.concat(r.str(), st.convert(x, from.elem, to).str())
		}
		return r
	case from.k == kPtr && to.k == kPtr:
		return v
	case from.k == to.k && from.k != kFloat:
		return v
	}
	panic(stop{"unsupported", fmt.Sprintf("conversion %s to %s", from.t, to.t)})
}

var rune32 = &tinfo{k: kInt, w: 32, signed: true, slots: 1, t: types.Typ[types.Int32]}
var int64t = &tinfo{k: kInt, w: 64, signed: true, slots: 1, t: types.Typ[types.Int]}

// encodeRune is string(r) for a symbolic rune.
func (st *State) encodeRune(t *term.T) V {
	c := st.e.T
	if t.W < 32 {
		t = c.ZExt(t, 32)
	} else if t.W > 32 {
		t = c.Extract(31, 0, t)
	}
	k := func(v uint64) *term.T { return c.BV(v, 32) }
	b := func(hi, lo int, top uint64) *term.T {
		x := c.Extract(hi, lo, t)
		n := 8 - (hi - lo + 1)
		return c.Concat(c.BV(top, n), x)
	}
	switch {
	case st.decide(c.Ult(t, k(0x80))):
		return symStr([]*term.T{c.Extract(7, 0, t)})
	case st.decide(c.Ult(t, k(0x800))):
		return symStr([]*term.T{b(10, 6, 6), b(5, 0, 2)})
	case st.decide(c.Or(c.Ult(k(0x10ffff), t), c.And(c.Ule(k(0xd800), t), c.Ule(t, k(0xdfff))))):
		return mkStr("\uFFFD")
	case st.decide(c.Ult(t, k(0x10000))):
		return symStr([]*term.T{b(15, 12, 14), b(11, 6, 2), b(5, 0, 2)})
	}
	return symStr([]*term.T{b(20, 18, 30), b(17, 12, 2), b(11, 6, 2), b(5, 0, 2)})
}

// decodeRune is utf8.DecodeRuneInString(s[i:]).
func (st *State) decodeRune(s *Str, i int) (V, int) {
	n := s.Len()
	if i >= n {
		return V{N: 0xfffd}, 0
	}
	if s.sym == nil {
		r, w := utf8.DecodeRuneInString(s.s[i:])
		return V{N: uint64(r)}, w
	}
	c := st.e.T
	at := func(j int) *term.T { return st.narrow(s.sym[i+j]) }
	k := func(v uint64) *term.T { return c.BV(v, 8) }
	in := func(t *term.T, lo, hi uint64) *term.T { return c.And(c.Ule(k(lo), t), c.Ule(t, k(hi))) }
	bad := V{N: 0xfffd}
	b0 := at(0)
	if st.decide(c.Ult(b0, k(0x80))) {
		return fromTerm(c.ZExt(st.narrow(b0), 32), rune32), 1
	}
	if !st.decide(in(b0, 0xc2, 0xf4)) {
		return bad, 1
	}
	z := func(ts ...*term.T) V { return fromTerm(c.ZExt(c.Concat(ts...), 32), rune32) }
	lo6 := func(t *term.T) *term.T { return c.Extract(5, 0, t) }
	if st.decide(c.Ule(b0, k(0xdf))) {
		if n-i < 2 || !st.decide(in(at(1), 0x80, 0xbf)) {
			return bad, 1
		}
		return z(c.Extract(4, 0, b0), lo6(at(1))), 2
	}
	if st.decide(c.Ule(b0, k(0xef))) {
		lo, hi := uint64(0x80), uint64(0xbf)
		if st.decide(c.Eq(b0, k(0xe0))) {
			lo = 0xa0
		} else if st.decide(c.Eq(b0, k(0xed))) {
			hi = 0x9f
		}
		if n-i < 3 || !st.decide(in(at(1), lo, hi)) || !st.decide(in(at(2), 0x80, 0xbf)) {
			return bad, 1
		}
		return z(c.Extract(3, 0, b0), lo6(at(1)), lo6(at(2))), 3
	}
	lo, hi := uint64(0x80), uint64(0xbf)
	if st.decide(c.Eq(b0, k(0xf0))) {
		lo = 0x90
	} else if st.decide(c.Eq(b0, k(0xf4))) {
		hi = 0x8f
	}
	if n-i < 4 || !st.decide(in(at(1), lo, hi)) || !st.decide(in(at(2), 0x80, 0xbf)) || !st.decide(in(at(3), 0x80, 0xbf)) {
		return bad, 1
	}
	return z(c.Extract(2, 0, b0), lo6(at(1)), lo6(at(2)), lo6(at(3))), 4
}

func (st *State) slice(f *Frame, in *instr) V {
	const none = 1 << 30
	x := f.get(in.a)
	opt := func(o int, d int) int {
		if o == none {
			return d
		}
		return int(st.intV(f.get(o), nil))
	}
	switch in.ti.k {
	case kString:
		s := x.str()
		lo, hi := opt(in.b, 0), opt(in.c, s.Len())
		if lo < 0 || hi < lo || hi > s.Len() {
			st.rtPanic("runtime error: slice bounds out of range")
		}
		if lo == 0 && hi == s.Len() {
			return x
		}
		return st.narrowStr(s.Sub(lo, hi))
	case kSlice:
		s, _ := x.R.(*Slice)
		if s == nil {
			s = &Slice{}
		}
		lo, hi := opt(in.b, 0), opt(in.c, s.len)
		mx := opt(in.n, s.cap)
		if lo < 0 || hi < lo || mx < hi || mx > s.cap {
			st.rtPanic("runtime error: slice bounds out of range")
		}
		if x.R == nil {
			return V{}
		}
		return V{R: &Slice{p: s.p + uint64(lo*in.ti.elem.slots), len: hi - lo, cap: mx - lo}}
	case kPtr: // pointer to array
		at := in.ti2
		lo, hi := opt(in.b, 0), opt(in.c, at.n)
		mx := opt(in.n, at.n)
		if x.N == 0 {
			st.rtPanic("runtime error: invalid memory address or nil pointer dereference")
		}
		if lo < 0 || hi < lo || mx < hi || mx > at.n {
			st.rtPanic("runtime error: slice bounds out of range")
		}
		return V{R: &Slice{p: x.N + uint64(lo*at.elem.slots), len: hi - lo, cap: mx - lo}}
	}
	panic(stop{"unsupported", "slice of " + in.ti.t.String()})
}

// boundsCheck settles an index against a length.
func (st *State) boundsCheck(iv V, n int) int {
	if t, ok := iv.R.(*term.T); ok {
		c := st.e.T
		if t.W < 64 {
			t = c.ZExt(t, 64)
		}
		if !st.decide(c.Ult(t, c.BV(uint64(n), 64))) {
			st.rtPanic(fmt.Sprintf("runtime error: index out of range with length %d", n))
		}
		return int(st.concretise(t))
	}
	i := int64(iv.N)
	if i < 0 || i >= int64(n) {
		st.rtPanic(fmt.Sprintf("runtime error: index out of range [%d] with length %d", i, n))
	}
	return int(i)
}

func (st *State) indexAddr(x, iv V, in *instr) V {
	if in.ti.k == kPtr {
		if x.R != nil {
			st.badV(x)
		}
		if x.N == 0 {
			st.rtPanic("runtime error: invalid memory address or nil pointer dereference")
		}
		i := st.boundsCheck(iv, in.ti2.n)
		return V{N: x.N + uint64(i*in.ti2.elem.slots)}
	}
	s, _ := x.R.(*Slice)
	n := 0
	if s != nil {
		n = s.len
	}
	i := st.boundsCheck(iv, n)
	return V{N: s.p + uint64(i*in.ti.elem.slots)}
}

func (st *State) index(x, iv V, in *instr) V {
	switch in.ti.k {
	case kString:
		s := x.str()
		i := st.boundsCheck(iv, s.Len())
		if s.sym != nil {
			t := s.sym[i]
			if t.IsConst() {
				return V{N: t.C}
			}
			return V{R: t}
		}
		return V{N: uint64(s.s[i])}
	case kArray:
		i := st.boundsCheck(iv, in.ti.n)
		return part(x.R.(Agg), i*in.ti.elem.slots, in.ti.elem)
	}
	panic(stop{"unsupported", "index of " + in.ti.t.String()})
}

// ---- maps ----

// keyText is the canonical form of a concrete key; ok is false if it is symbolic.
func (st *State) keyText(ti *tinfo, v V) (string, bool) {
	switch ti.k {
	case kInt, kBool, kPtr, kMap, kChan:
		if v.R != nil {
			return "", false
		}
		return strconv.FormatUint(v.N, 16), true
	case kString:
		s := v.str()
		return s.s, s.sym == nil
	case kIface:
		i, _ := v.R.(*Iface)
		if i == nil {
			return "nil", true
		}
		if i.t == rtErr {
			return "rt", true
		}
		s, ok := st.keyText(i.t.ti, i.v)
		return strconv.Itoa(i.t.id) + ":" + s, ok
	case kStruct, kArray:
		a := v.R.(Agg)
		r := ""
		for i := range a {
			s, ok := st.keyText(st.slotType(ti, i), a[i])
			if !ok {
				return "", false
			}
			r += strconv.Itoa(len(s)) + ":" + s
		}
		return r, true
	}
	panic(stop{"unsupported", "map key " + ti.t.String()})
}

// mapFind returns the entry of a key or -1.
func (st *State) mapFind(m *MapObj, key *tinfo, k V) int {
	txt, ok := st.keyText(key, k)
	if ok {
		if i, found := m.idx[txt]; found {
			return i
		}
		if !m.sym {
			return -1
		}
	}
	for i := range m.ks {
		if m.dead[i] {
			continue
		}
		if ok {
			if _, c := st.keyText(key, m.ks[i]); c {
				continue // concrete and different
			}
		}
		if st.decide(st.eq(key, m.ks[i], k)) {
			return i
		}
	}
	return -1
}

func (st *State) lookup(x, k V, in *instr) V {
	if in.ti.k == kString {
		return st.index(x, k, in)
	}
	if x.R != nil {
		st.badV(x)
	}
	el := in.ti.elem
	i := -1
	var m *MapObj
	if x.N != 0 {
		m = st.obj(x.N >> 24).m
		i = st.mapFind(m, in.ti.key, k)
	}
	v := zero(el)
	if i >= 0 {
		v = m.vs[i]
	}
	if !in.ok {
		return v
	}
	a := make(Agg, el.slots+1)
	put(a, 0, el, v)
	a[el.slots] = boolV(i >= 0)
	return V{R: a}
}

func (st *State) mapSet(x V, ti *tinfo, k, v V) {
	if x.N == 0 {
		st.rtPanic("assignment to entry in nil map")
	}
	i := st.mapFind(st.obj(x.N>>24).m, ti.key, k)
	m := st.wobj(x.N >> 24).m
	if i >= 0 {
		m.vs[i] = v
		return
	}
	txt, ok := st.keyText(ti.key, k)
	if ok {
		m.idx[txt] = len(m.ks)
	} else {
		m.sym = true
	}
	m.ks = append(m.ks, k)
	m.vs = append(m.vs, v)
	m.dead = append(m.dead, false)
	m.n++
}

func (st *State) mapDelete(x V, ti *tinfo, k V) {
	if x.N == 0 {
		return
	}
	i := st.mapFind(st.obj(x.N>>24).m, ti.key, k)
	if i < 0 {
		return
	}
	m := st.wobj(x.N >> 24).m
	if txt, ok := st.keyText(ti.key, m.ks[i]); ok {
		delete(m.idx, txt)
	}
	m.dead[i] = true
	m.n--
}

// Iterators live in an object: slot 0 the position.
func (st *State) rangeOver(x V, ti *tinfo) V {
	id := st.alloc(2)
	o := st.wobj(id)
	o.s[1] = x
	return V{N: id << 24}
}

func (st *State) next(f *Frame, in *instr) V {
	it := f.get(in.a).N
	o := st.obj(it >> 24)
	pos, x := int(o.s[0].N), o.s[1]
	tt := in.ti2
	a := make(Agg, tt.slots)
	set := func(i int, v V) {
		if tt.fields[i].k == kOther {
			return
		}
		put(a, tt.offs[i], tt.fields[i], v)
	}
	if in.ok { // string
		s := x.str()
		if pos >= s.Len() {
			return V{R: a}
		}
		r, w := st.decodeRune(s, pos)
		set(0, V{N: 1})
		set(1, V{N: uint64(pos)})
		set(2, r)
		st.wobj(it >> 24).s[0].N = uint64(pos + w)
		return V{R: a}
	}
	if x.N == 0 {
		return V{R: a}
	}
	m := st.obj(x.N >> 24).m
	for pos < len(m.ks) && m.dead[pos] {
		pos++
	}
	if pos >= len(m.ks) {
		return V{R: a}
	}
	set(0, V{N: 1})
	set(1, m.ks[pos])
	set(2, m.vs[pos])
	st.wobj(it >> 24).s[0].N = uint64(pos + 1)
	return V{R: a}
}

func (st *State) typeAssert(v V, in *instr) V {
	i, _ := v.R.(*Iface)
	ok := false
	var r V
	ti := in.rt.ti
	if ti.k == kIface {
		if i != nil && i.t != rtErr {
			ok = types.Implements(i.t.t, in.rt.t.Underlying().(*types.Interface))
		}
		if i != nil && i.t == rtErr {
			it := in.rt.t.Underlying().(*types.Interface)
			ok = it.NumMethods() == 0 || (it.NumMethods() == 1 && it.Method(0).Name() == "Error")
		}
		if ok {
			r = v
		}
	} else {
		ok = i != nil && i.t == in.rt
		if ok {
			r = i.v
		} else {
			r = zero(ti)
		}
	}
	if in.ok {
		a := make(Agg, ti.slots+1)
		put(a, 0, ti, r)
		a[ti.slots] = boolV(ok)
		return V{R: a}
	}
	if !ok {
		st.rtPanic("interface conversion: not " + in.rt.name)
	}
	return r
}

// ---- channels and goroutines ----

func (st *State) goStart(f *Frame, ci *callInfo) {
	fn, free, args := st.resolve(f, ci)
	g := &G{id: len(st.gs)}
	st.gs = append(st.gs, g)
	if fn == nil || fn.nat != nil {
		panic(stop{"unsupported", "go of a native function"})
	}
	st.pushFrame(g, fn, free, args, -1)
}

func (st *State) send(g *G, f *Frame, in *instr) bool {
	x := f.get(in.a)
	if x.N == 0 {
		g.blocked = true
		return false
	}
	ch := st.wobj(x.N >> 24).ch
	v := f.get(in.b)
	if ch.closed {
		st.rtPanic("send on closed channel")
	}
	if len(ch.recvq) > 0 {
		w := ch.recvq[0]
		ch.recvq = ch.recvq[1:]
		st.deliver(w.g, v, true)
		return true
	}
	if len(ch.buf) < ch.cap {
		ch.buf = append(ch.buf, v)
		return true
	}
	ch.sendq = append(ch.sendq, waiter{st.cur, v})
	g.blocked = true
	f.pc++ // continues after the send once it is taken
	return false
}

// deliver completes the blocked receive of goroutine k.
func (st *State) deliver(k int, v V, ok bool) {
	g := st.gs[k]
	g.blocked = false
	f := g.fs[len(g.fs)-1]
	in := &f.fn.code[f.pc]
	st.setRecv(f, in, v, ok)
	f.pc++
}

func (st *State) setRecv(f *Frame, in *instr, v V, ok bool) {
	if !ok {
		v = zero(in.ti)
	}
	if in.ok {
		a := make(Agg, in.ti.slots+1)
		put(a, 0, in.ti, v)
		a[in.ti.slots] = boolV(ok)
		v = V{R: a}
	}
	f.regs[in.dst] = v
}

func (st *State) recv(g *G, f *Frame, in *instr) bool {
	x := f.get(in.a)
	if x.N == 0 {
		g.blocked = true
		return false
	}
	ch := st.wobj(x.N >> 24).ch
	if len(ch.buf) > 0 {
		v := ch.buf[0]
		ch.buf = ch.buf[1:]
		if len(ch.sendq) > 0 {
			w := ch.sendq[0]
			ch.sendq = ch.sendq[1:]
			ch.buf = append(ch.buf, w.v)
			st.gs[w.g].blocked = false
		}
		st.setRecv(f, in, v, true)
		return true
	}
	if len(ch.sendq) > 0 {
		w := ch.sendq[0]
		ch.sendq = ch.sendq[1:]
		st.gs[w.g].blocked = false
		st.setRecv(f, in, w.v, true)
		return true
	}
	if ch.closed {
		st.setRecv(f, in, V{}, false)
		return true
	}
	ch.recvq = append(ch.recvq, waiter{g: st.cur})
	g.blocked = true
	return false
}

func (st *State) closeChan(x V) {
	if x.N == 0 {
		st.rtPanic("close of nil channel")
	}
	ch := st.wobj(x.N >> 24).ch
	if ch.closed {
		st.rtPanic("close of closed channel")
	}
	ch.closed = true
	q := ch.recvq
	ch.recvq = nil
	for _, w := range q {
		st.deliver(w.g, V{}, false)
	}
}

// ---- calls ----

// resolve finds the callee and arguments of a call that is not a builtin.
func (st *State) resolve(f *Frame, ci *callInfo) (*Fn, []V, []V) {
	args := make([]V, 0, len(ci.args)+1)
	if ci.invoke != "" {
		v := f.get(ci.value)
		i, _ := v.R.(*Iface)
		if i == nil {
			if u, ok := v.R.(unsup); ok {
				panic(stop{"unsupported", u.what})
			}
			st.rtPanic("runtime error: invalid memory address or nil pointer dereference")
		}
		if i.t == rtErr {
			panic(stop{"unsupported", "method of a run-time error"})
		}
		m := st.e.P.method(i.t, ci.ipkg, ci.invoke)
		if m == nil {
			panic(stop{"unsupported", "method " + ci.invoke + " of " + i.t.name})
		}
		args = append(args, i.v)
		for _, a := range ci.args {
			args = append(args, f.get(a))
		}
		return m, nil, args
	}
	for _, a := range ci.args {
		v := f.get(a)
		if u, ok := v.R.(unsup); ok {
			panic(stop{"unsupported", u.what})
		}
		args = append(args, v)
	}
	if ci.fn != nil {
		return ci.fn, nil, args
	}
	v := f.get(ci.value)
	c, ok := v.R.(*Closure)
	if !ok {
		if u, ok := v.R.(unsup); ok {
			panic(stop{"unsupported", u.what})
		}
		st.rtPanic("runtime error: invalid memory address or nil pointer dereference")
	}
	return c.fn, c.free, args
}

// call executes a call; true if the program counter is already right.
func (st *State) call(g *G, f *Frame, in *instr) bool {
	ci := in.call
	if ci.builtin != "" {
		f.regs[in.dst] = st.builtin(g, f, ci)
		return false
	}
	fn, free, args := st.resolve(f, ci)
	if fn.nat != nil {
		v, ok := fn.nat(st, args)
		if ok {
			f.regs[in.dst] = v
			return false
		}
	}
	if pkgNative[pkgOf(fn)] && fn.natf == nil {
		panic(stop{"unsupported", "call of " + fn.Name})
	}
	if t := st.pure(fn, args); t != nil {
		st.e.Funcs[fn.Name] = true
		f.regs[in.dst] = termBool(t)
		return false
	}
	st.pushFrame(g, fn, free, args, in.dst)
	f.pc++
	return true
}

func pkgOf(fn *Fn) string {
	if fn.F.Pkg != nil {
		return fn.F.Pkg.Pkg.Path()
	}
	return ""
}

func (st *State) deferCall(f *Frame, ci *callInfo) {
	if ci.builtin != "" {
		d := &deferred{bi: ci.builtin, ats: ci.ats}
		for _, a := range ci.args {
			d.args = append(d.args, f.get(a))
		}
		f.defers = append(f.defers, d)
		return
	}
	fn, free, args := st.resolve(f, ci)
	f.defers = append(f.defers, &deferred{fn: fn, free: free, args: args})
}

// deferredBuiltin runs a builtin that was the operand of defer (recover has no effect there).
func (st *State) deferredBuiltin(d *deferred) {
	switch d.bi {
	case "close":
		st.closeChan(d.args[0])
	case "delete":
		st.mapDelete(d.args[0], d.ats[0], d.args[1])
	case "recover", "print", "println":
	default:
		panic(stop{"unsupported", "defer of " + d.bi})
	}
}

func (st *State) builtin(g *G, f *Frame, ci *callInfo) V {
	arg := func(i int) V { return f.get(ci.args[i]) }
	switch ci.builtin {
	case "len", "cap":
		v := arg(0)
		ti := ci.ats[0]
		switch ti.k {
		case kString:
			return V{N: uint64(v.str().Len())}
		case kSlice:
			s, _ := v.R.(*Slice)
			if s == nil {
				return V{}
			}
			if ci.builtin == "cap" {
				return V{N: uint64(s.cap)}
			}
			return V{N: uint64(s.len)}
		case kMap:
			if v.N == 0 {
				return V{}
			}
			return V{N: uint64(st.obj(v.N >> 24).m.n)}
		case kArray:
			return V{N: uint64(ti.n)}
		case kChan:
			if v.N == 0 {
				return V{}
			}
			ch := st.obj(v.N >> 24).ch
			if ci.builtin == "cap" {
				return V{N: uint64(ch.cap)}
			}
			return V{N: uint64(len(ch.buf))}
		}
	case "append":
		return st.appendV(ci.ats[0].elem, arg(0), arg(1), ci.ats[1])
	case "copy":
		d, _ := arg(0).R.(*Slice)
		es := ci.ats[0].elem.slots
		if d == nil {
			return V{}
		}
		if ci.ats[1].k == kString {
			s := arg(1).str()
			n := min(d.len, s.Len())
			if n == 0 {
				return V{}
			}
			o := st.wobj(d.p >> 24)
			off := int(d.p & (1<<24 - 1))
			for i := 0; i < n; i++ {
				if s.sym != nil {
					o.s[off+i] = fromTerm(s.sym[i], &tinfo{})
				} else {
					o.s[off+i] = V{N: uint64(s.s[i])}
				}
			}
			return V{N: uint64(n)}
		}
		s, _ := arg(1).R.(*Slice)
		if s == nil {
			return V{}
		}
		n := min(d.len, s.len)
		if n == 0 {
			return V{}
		}
		src := st.obj(s.p >> 24).s[s.p&(1<<24-1):][:n*es]
		tmp := append([]V(nil), src...)
		o := st.wobj(d.p >> 24)
		copy(o.s[d.p&(1<<24-1):], tmp)
		return V{N: uint64(n)}
	case "delete":
		st.mapDelete(arg(0), ci.ats[0], arg(1))
		return V{}
	case "close":
		st.closeChan(arg(0))
		return V{}
	case "recover":
		if f.deferRun && len(g.fs) >= 2 && g.fs[len(g.fs)-2].unwind && len(g.panics) > 0 {
			p := &g.panics[len(g.panics)-1]
			if !p.recovered {
				p.recovered = true
				return p.v
			}
		}
		return V{}
	case "print", "println":
		return V{}
	case "min", "max":
		if ci.ats[0].k == kInt {
			v := arg(0)
			for i := 1; i < len(ci.args); i++ {
				w := arg(i)
				var less bool
				switch c := st.e.T; {
				case v.R == nil && w.R == nil && ci.ats[0].signed:
					less = int64(w.N) < int64(v.N)
				case v.R == nil && w.R == nil:
					less = w.N < v.N
				case ci.ats[0].signed:
					less = st.decide(c.Slt(st.toTerm(w, ci.ats[0].w), st.toTerm(v, ci.ats[0].w)))
				default:
					less = st.decide(c.Ult(st.toTerm(w, ci.ats[0].w), st.toTerm(v, ci.ats[0].w)))
				}
				if (ci.builtin == "min") == less {
					v = w
				}
			}
			return v
		}
	case "String": // unsafe.String
		n := st.intV(arg(1), nil)
		return st.strOfBytes(arg(0).N, int(n))
	case "SliceData":
		s, _ := arg(0).R.(*Slice)
		if s == nil {
			return V{}
		}
		return V{N: s.p}
	case "StringData":
		s := arg(0).str()
		return V{N: st.bytesOf(s).R.(*Slice).p}
	case "Slice":
		n := st.intV(arg(1), nil)
		return V{R: &Slice{p: arg(0).N, len: int(n), cap: int(n)}}
	case "ssa:wrapnilchk":
		v := arg(0)
		if v.R == nil && v.N == 0 {
			st.rtPanic("runtime error: invalid memory address or nil pointer dereference")
		}
		return v
	}
	panic(stop{"unsupported", "builtin " + ci.builtin})
}

func (st *State) appendV(el *tinfo, a, b V, bt *tinfo) V {
	x, _ := a.R.(*Slice)
	es := el.slots
	var add []V
	if bt.k == kString {
		s := b.str()
		for i := 0; i < s.Len(); i++ {
			if s.sym != nil {
				add = append(add, fromTerm(s.sym[i], &tinfo{}))
			} else {
				add = append(add, V{N: uint64(s.s[i])})
			}
		}
	} else {
		y, _ := b.R.(*Slice)
		if y != nil && y.len > 0 {
			add = append([]V(nil), st.obj(y.p >> 24).s[y.p&(1<<24-1):][:y.len*es]...)
		}
	}
	n := 0
	if es > 0 {
		n = len(add) / es
	}
	if x == nil {
		if n == 0 {
			return V{}
		}
		x = &Slice{}
	}
	if n == 0 {
		return a
	}
	if x.len+n <= x.cap {
		o := st.wobj(x.p >> 24)
		copy(o.s[int(x.p&(1<<24-1))+x.len*es:], add)
		return V{R: &Slice{p: x.p, len: x.len + n, cap: x.cap}}
	}
	c := growCap(x.cap, x.len+n, el)
	o := &Obj{s: make([]V, c*es)}
	if x.len > 0 {
		copy(o.s, st.obj(x.p >> 24).s[x.p&(1<<24-1):][:x.len*es])
	}
	copy(o.s[x.len*es:], add)
	id := st.newObj(o)
	return V{R: &Slice{p: id << 24, len: x.len + n, cap: c}}
}

var goSizes = types.SizesFor("gc", "amd64")

var sizeClasses = []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

// growCap follows the growth of append in the Go runtime (capacity decides what later appends alias).
func growCap(old, need int, el *tinfo) int {
	c := old
	switch {
	case need > 2*old:
		c = need
	case old < 256:
		c = 2 * old
	default:
		for c < need {
			c += (c + 3*256) / 4
		}
	}
	sz := int(goSizes.Sizeof(el.t))
	if sz == 0 {
		return c
	}
	b := c * sz
	for _, k := range sizeClasses {
		if k >= b {
			return k / sz
		}
	}
	b = (b + 8191) / 8192 * 8192
	return b / sz
}

// AddFile adds a concrete virtual file.
func (e *Engine) AddFile(path, text string) { e.Files[path] = mkStr(text) }

// Str1 is a concrete string value.
func Str1(s string) V { return mkStr(s) }

// Strings is a concrete []string value.
func (e *Engine) Strings(st *State, ss []string) V {
	var vs []V
	for _, s := range ss {
		vs = append(vs, mkStr(s))
	}
	return st.mkStrs(vs)
}

// Start prepares the call of a package-level function.
func (e *Engine) Start(st *State, pkg, fn string, args ...V) error {
	f := e.P.Func(pkg, fn)
	if f == nil {
		return fmt.Errorf("no function %s.%s", pkg, fn)
	}
	e.Call(st, f, args)
	return nil
}
