package gosym

import (
	"fmt"
	"sort"
	"strings"

	"verif/engine/smt"
	"verif/engine/term"
)

// V is a value: a scalar (N, or a term in R), a string (*Str), slice (*Slice), interface (*Iface),
// function (*Closure), aggregate (Agg). Pointers, maps and channels are object numbers in N:
// object<<24 | slot.
type V struct {
	N uint64
	R any
}

// Agg is a flattened struct, array or tuple.
type Agg []V

// Str is an immutable string; sym holds one 8-bit term per byte when some byte is symbolic.
type Str struct {
	s   string
	sym []*term.T
}

type Slice struct {
	p   uint64 // object<<24 | slot of element 0
	len int
	cap int
}

type Iface struct {
	t *rtype
	v V
}

type Closure struct {
	fn   *Fn
	free []V
}

func mkStr(s string) V {
	if s == "" {
		return V{}
	}
	return V{R: &Str{s: s}}
}

func (v V) str() *Str {
	if v.R == nil {
		return emptyStr
	}
	return v.R.(*Str)
}

var emptyStr = &Str{}

func (s *Str) Len() int {
	if s.sym != nil {
		return len(s.sym)
	}
	return len(s.s)
}

// Sub returns s[i:j].
func (s *Str) Sub(i, j int) V {
	if i == j {
		return V{}
	}
	if s.sym == nil {
		return V{R: &Str{s: s.s[i:j]}}
	}
	return symStr(s.sym[i:j])
}

// symStr makes a string value of byte terms, concrete if they all are.
func symStr(b []*term.T) V {
	if len(b) == 0 {
		return V{}
	}
	for _, t := range b {
		if !t.IsConst() {
			return V{R: &Str{sym: b[:len(b):len(b)]}}
		}
	}
	r := make([]byte, len(b))
	for i, t := range b {
		r[i] = byte(t.C)
	}
	return V{R: &Str{s: string(r)}}
}

func normS(v int64, w int) int64 {
	if w >= 64 {
		return v
	}
	return v << (64 - w) >> (64 - w)
}

func wmask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<w - 1
}

// Obj is a heap object: slots, or a map or channel.
type Obj struct {
	ep uint64
	s  []V
	m  *MapObj
	ch *ChanObj
}

type MapObj struct {
	idx  map[string]int // canonical key -> entry
	ks   []V
	vs   []V
	dead []bool
	n    int
	sym  bool // some key is symbolic: idx does not decide
}

type ChanObj struct {
	cap    int
	buf    []V
	closed bool
	sendq  []waiter
	recvq  []waiter
}

type waiter struct {
	g int
	v V
}

const pageBits = 6

type page struct {
	ep uint64
	o  [1 << pageBits]*Obj
}

type deferred struct {
	fn   *Fn
	free []V
	args []V
	bi   string
	ats  []*tinfo
}

type Frame struct {
	fn       *Fn
	pc       int
	regs     []V
	dst      int // register of the caller
	defers   []*deferred
	locals   map[int]uint64
	deferRun bool // runs on behalf of an unwinding or returning frame below
	unwind   bool // a panic is unwinding this frame
	retv     V
	nstep    int
	dropRet  bool
}

type G struct {
	id      int
	fs      []*Frame
	blocked bool
	done    bool
	panics  []panicRec
}

type panicRec struct {
	v         V
	recovered bool
	msg       string
}

type outNode struct {
	prev *outNode
	file int
	s    *Str
}

// State is one path.
type State struct {
	e       *Engine
	ep      uint64
	pages   []*page
	nobj    uint64
	free    []uint64
	gs      []*G
	cur     int
	dom     map[string]*[4]uint64
	conds   []*term.T
	decided map[*term.T]bool
	steps   int
	out     *outNode
	nfile   int
	rnd     uint64
	depth   int
	// how the path ended
	End  string // "return", "panic", "limit", "unsupported", "deadlock", "pause", "infeasible"
	Msg  string
	Ret  V
	cov  map[*Fn]bool
	pend *pending
}

type pending struct{}

// Engine explores the paths of one call.
type Engine struct {
	P        *Program
	C        *term.Ctx
	S        *smt.Solver
	Files    map[string]V // virtual files: path -> string value
	PauseOn  string       // reading this file ends the path with End "pause"
	MaxSteps int
	MaxPaths int
	Stop     func() bool
	Funcs    map[string]bool
	T        *tctx
	tabs     map[*term.T]*table
	members  map[memberKey]*term.T
	Terms    []*term.T // by placeholder number
	termID   map[*term.T]int
	work     []*State
	epoch    uint64
	truth    map[*term.T]*[4]uint64
	pures    map[pureKey]*term.T
	tvars    map[*term.T][]*term.T
	Steps    int
	Paths    int
	Forks    int
	Dropped  int // states given up because of MaxPaths or Stop
}

func NewEngine(p *Program, base uint64) *Engine {
	c := term.NewCtx()
	e := &Engine{P: p, C: c, S: smt.New(c), Files: map[string]V{}, MaxSteps: 60_000_000, MaxPaths: 200_000,
		Funcs: map[string]bool{}, termID: map[*term.T]int{}, truth: map[*term.T]*[4]uint64{}, tvars: map[*term.T][]*term.T{}, epoch: base,
		tabs: map[*term.T]*table{}, members: map[memberKey]*term.T{}}
	e.T = &tctx{c, e}
	return e
}

func (e *Engine) newState() *State {
	e.epoch++
	st := &State{e: e, ep: e.epoch, dom: map[string]*[4]uint64{}, decided: map[*term.T]bool{}}
	st.nobj = uint64(len(e.P.gtypes))
	for uint64(len(st.pages))<<pageBits < st.nobj+1 {
		st.pages = append(st.pages, &page{ep: st.ep})
	}
	return st
}

// Adopt makes a state of another engine (at rest, without terms) the starting point here.
func (e *Engine) Adopt(b *State) *State {
	if b.e.epoch >= e.epoch {
		e.epoch = b.e.epoch + 1
	}
	n := b.clone0(e)
	n.End = ""
	n.steps = 0
	return n
}

func (st *State) clone0(e *Engine) *State {
	e.epoch++
	n := &State{e: e, ep: e.epoch, nobj: st.nobj, cur: st.cur, steps: st.steps, out: st.out, nfile: st.nfile, rnd: st.rnd, depth: st.depth}
	n.pages = append([]*page(nil), st.pages...)
	n.free = append([]uint64(nil), st.free...)
	n.conds = append([]*term.T(nil), st.conds...)
	n.dom = make(map[string]*[4]uint64, len(st.dom))
	for k, v := range st.dom {
		n.dom[k] = v
	}
	n.decided = make(map[*term.T]bool, len(st.decided))
	for k, v := range st.decided {
		n.decided[k] = v
	}
	for _, g := range st.gs {
		h := &G{id: g.id, blocked: g.blocked, done: g.done, panics: append([]panicRec(nil), g.panics...)}
		for _, f := range g.fs {
			k := *f
			k.regs = append([]V(nil), f.regs...)
			k.defers = append([]*deferred(nil), f.defers...)
			if f.locals != nil {
				k.locals = make(map[int]uint64, len(f.locals))
				for a, b := range f.locals {
					k.locals[a] = b
				}
			}
			h.fs = append(h.fs, &k)
		}
		n.gs = append(n.gs, h)
	}
	return n
}

// fork clones the state; both sides stop owning what they share.
func (st *State) fork() *State {
	n := st.clone0(st.e)
	st.e.epoch++
	st.ep = st.e.epoch
	st.e.Forks++
	return n
}

func (st *State) obj(id uint64) *Obj {
	o := st.pages[id>>pageBits].o[id&(1<<pageBits-1)]
	if o == nil {
		if id == 0 {
			return nil
		}
		if id < uint64(len(st.e.P.gtypes)) {
			o = &Obj{ep: st.ep, s: make([]V, st.e.P.gtypes[id].slots)}
			st.setObj(id, o)
			return o
		}
	}
	return o
}

func (st *State) setObj(id uint64, o *Obj) {
	pi := id >> pageBits
	for uint64(len(st.pages)) <= pi {
		st.pages = append(st.pages, &page{ep: st.ep})
	}
	pg := st.pages[pi]
	if pg.ep != st.ep {
		c := *pg
		c.ep = st.ep
		pg = &c
		st.pages[pi] = pg
	}
	pg.o[id&(1<<pageBits-1)] = o
}

// wobj returns the object for writing.
func (st *State) wobj(id uint64) *Obj {
	o := st.obj(id)
	if o.ep == st.ep {
		return o
	}
	c := &Obj{ep: st.ep}
	if o.s != nil {
		c.s = append([]V(nil), o.s...)
	}
	if o.m != nil {
		m := &MapObj{idx: make(map[string]int, len(o.m.idx)), ks: append([]V(nil), o.m.ks...), vs: append([]V(nil), o.m.vs...), dead: append([]bool(nil), o.m.dead...), n: o.m.n, sym: o.m.sym}
		for k, v := range o.m.idx {
			m.idx[k] = v
		}
		c.m = m
	}
	if o.ch != nil {
		h := &ChanObj{cap: o.ch.cap, closed: o.ch.closed}
		h.buf = append(h.buf, o.ch.buf...)
		h.sendq = append(h.sendq, o.ch.sendq...)
		h.recvq = append(h.recvq, o.ch.recvq...)
		c.ch = h
	}
	st.setObj(id, c)
	return c
}

func (st *State) alloc(slots int) uint64 {
	o := &Obj{ep: st.ep, s: make([]V, slots)}
	return st.newObj(o)
}

func (st *State) newObj(o *Obj) uint64 {
	o.ep = st.ep
	if n := len(st.free); n > 0 {
		id := st.free[n-1]
		st.free = st.free[:n-1]
		st.setObj(id, o)
		return id
	}
	id := st.nobj
	st.nobj++
	st.setObj(id, o)
	return id
}

// ---- path conditions ----

func (e *Engine) vars(t *term.T) []*term.T {
	if v, ok := e.tvars[t]; ok {
		return v
	}
	v := term.Vars(t)
	e.tvars[t] = v
	return v
}

// truthSet tabulates a condition over one 8-bit variable.
func (e *Engine) truthSet(t *term.T, v *term.T) *[4]uint64 {
	if s, ok := e.truth[t]; ok {
		return s
	}
	var s [4]uint64
	for i := 0; i < 1<<v.W; i++ {
		ev := term.NewEvaluator(term.Model{v.Name: uint64(i)})
		if ev.Eval(t) != 0 {
			s[i>>6] |= 1 << (i & 63)
		}
	}
	e.truth[t] = &s
	return &s
}

func (st *State) domain(v *term.T) [4]uint64 {
	if d := st.dom[v.Name]; d != nil {
		return *d
	}
	var d [4]uint64
	for i := 0; i < 1<<v.W; i++ {
		d[i>>6] |= 1 << (i & 63)
	}
	return d
}

func isZero(d [4]uint64) bool { return d[0]|d[1]|d[2]|d[3] == 0 }

// Assume restricts the path; false if it becomes infeasible.
func (st *State) Assume(t *term.T) bool {
	if t.IsTrue() {
		return true
	}
	if t.IsFalse() {
		return false
	}
	vs := st.e.vars(t)
	if len(vs) == 1 && vs[0].W <= 8 {
		s := st.e.truthSet(t, vs[0])
		d := st.domain(vs[0])
		for i := range d {
			d[i] &= s[i]
		}
		if isZero(d) {
			return false
		}
		st.dom[vs[0].Name] = &d
		return true
	}
	st.conds = append(st.conds, t)
	st.decided[t] = true
	return true
}

// PC is the path condition as terms.
func (st *State) PC() []*term.T {
	c := st.e.C
	var r []*term.T
	var names []string
	for n := range st.dom {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		d := st.dom[n]
		v := c.Var(n, 8)
		c.Plain(func() { r = append(r, rangesOf(c, v, d)) })
	}
	return append(r, st.conds...)
}

// decide fixes the truth of a condition on this path, forking when both are possible. Until the
// last decide of an instruction nothing may have been changed: the other side executes the
// instruction again.
func (st *State) decide(t *term.T) bool {
	if t.IsConst() {
		return t.C != 0
	}
	vs := st.e.vars(t)
	unary := len(vs) == 1 && vs[0].W <= 8
	switch {
	case unary:
	case t.Op == term.Not:
		return !st.decide(t.A[0])
	case t.Op == term.And && st.e.unaryParts(t):
		for _, a := range t.A {
			if !st.decide(a) {
				return false
			}
		}
		return true
	case t.Op == term.Or && st.e.unaryParts(t):
		for _, a := range t.A {
			if st.decide(a) {
				return true
			}
		}
		return false
	}
	if unary {
		s := st.e.truthSet(t, vs[0])
		d := st.domain(vs[0])
		var y, n [4]uint64
		for i := range d {
			y[i] = d[i] & s[i]
			n[i] = d[i] &^ s[i]
		}
		if isZero(n) {
			return true
		}
		if isZero(y) {
			return false
		}
		if len(st.conds) > 0 {
			// the domain alone does not settle feasibility
			if b, ok := st.decided[t]; ok {
				return b
			}
			ry := st.feasible(t)
			rn := st.feasible(st.e.C.Not(t))
			if !rn {
				st.dom[vs[0].Name] = &y
				return true
			}
			if !ry {
				st.dom[vs[0].Name] = &n
				return false
			}
		}
		o := st.fork()
		o.dom[vs[0].Name] = &n
		st.dom[vs[0].Name] = &y
		st.e.push(o)
		return true
	}
	if b, ok := st.decided[t]; ok {
		return b
	}
	nt := st.e.C.Not(t)
	ry := st.feasible(t)
	if !ry {
		st.decided[t] = false
		return false
	}
	if !st.feasible(nt) {
		st.decided[t] = true
		return true
	}
	o := st.fork()
	o.conds = append(o.conds, nt)
	o.decided[t] = false
	st.conds = append(st.conds, t)
	st.decided[t] = true
	st.e.push(o)
	return true
}

// unaryParts: every operand of a connective depends on at most one input byte.
func (e *Engine) unaryParts(t *term.T) bool {
	for _, a := range t.A {
		vs := e.vars(a)
		if len(vs) > 1 {
			switch a.Op {
			case term.And, term.Or, term.Not:
				if !e.unaryParts(a) {
					return false
				}
			default:
				return false
			}
		}
	}
	return true
}

func (st *State) feasible(t *term.T) bool {
	r, _ := st.e.S.Check(append(st.PC(), t)...)
	return r != smt.Unsat
}

// concretise picks a value for a term, forking over the others.
func (st *State) concretise(t *term.T) uint64 {
	if t.IsConst() {
		return t.C
	}
	for {
		vs := st.e.vars(t)
		var cand uint64
		if len(vs) == 1 && vs[0].W <= 8 && len(st.conds) == 0 {
			d := st.domain(vs[0])
			for i := 0; i < 256; i++ {
				if d[i>>6]>>(i&63)&1 == 1 {
					cand = term.NewEvaluator(term.Model{vs[0].Name: uint64(i)}).Eval(t)
					break
				}
			}
		} else {
			r, m := st.e.S.Check(st.PC()...)
			if r != smt.Sat {
				panic(stop{"unsupported", "no model to pick a value from"})
			}
			cand = term.NewEvaluator(m).Eval(t)
		}
		if st.decide(st.e.C.Eq(t, st.e.C.BV(cand, t.W))) {
			return cand
		}
	}
}

type stop struct{ end, msg string }

func (e *Engine) push(s *State) { e.work = append(e.work, s) }

// Model solves the path condition together with extra conditions.
func (st *State) Model(extra ...*term.T) (smt.Result, term.Model) {
	return st.e.S.Check(append(st.PC(), extra...)...)
}

// EvalStr is the text of a string value under a model.
func EvalStr(v V, m term.Model) string {
	s := v.str()
	if s.sym == nil {
		return s.s
	}
	ev := term.NewEvaluator(m)
	b := make([]byte, len(s.sym))
	for i, t := range s.sym {
		b[i] = byte(ev.Eval(t))
	}
	return string(b)
}

// Output is what the path wrote to a file, under a model.
func (st *State) Output(m term.Model) string {
	var parts []string
	for n := st.out; n != nil; n = n.prev {
		parts = append(parts, EvalStr(V{R: n.s}, m))
	}
	var b strings.Builder
	for i := len(parts) - 1; i >= 0; i-- {
		b.WriteString(parts[i])
	}
	return b.String()
}

// Where describes where the path is.
func (st *State) Where() string {
	if st.cur >= len(st.gs) {
		return "?"
	}
	g := st.gs[st.cur]
	var s []string
	for i := len(g.fs) - 1; i >= 0 && len(s) < 12; i-- {
		f := g.fs[i]
		pos := ""
		if f.pc < len(f.fn.code) {
			pos = st.e.P.Prog.Fset.Position(f.fn.code[f.pc].pos).String()
			if j := strings.LastIndex(pos, "/"); j >= 0 {
				pos = pos[j+1:]
			}
		}
		s = append(s, fmt.Sprintf("%s@%s", f.fn.Name, pos))
	}
	return strings.Join(s, " < ")
}

// RawOutput is what the path wrote to a file, with symbolic bytes as \x01 and their terms by position.
func (st *State) RawOutput() (string, map[int]*term.T) {
	var ns []*outNode
	for n := st.out; n != nil; n = n.prev {
		ns = append(ns, n)
	}
	var b strings.Builder
	sym := map[int]*term.T{}
	for i := len(ns) - 1; i >= 0; i-- {
		s := ns[i].s
		if s.sym == nil {
			b.WriteString(s.s)
			continue
		}
		for _, t := range s.sym {
			if t.IsConst() {
				b.WriteByte(byte(t.C))
			} else {
				sym[b.Len()] = t
				b.WriteByte(1)
			}
		}
	}
	return b.String(), sym
}
