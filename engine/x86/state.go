package x86

import (
	"verif/engine/term"
)

// Val is a register or memory value: concrete (t == nil) or symbolic. pm marks bytes whose
// content is undefined (uninitialised memory, clobbered registers).
type Val struct {
	c  uint64
	t  *term.T
	pm uint8
}

func C(v uint64) Val { return Val{c: v} }

var poison = Val{pm: 0xff}

func (v Val) conc() bool   { return v.t == nil && v.pm == 0 }
func (v Val) Poison() bool { return v.pm != 0 }

// Poisoned is the undefined value.
func Poisoned() Val { return poison }

// Term gives the value as a term of size bytes.
func (v Val) Term(c *term.Ctx, size int) *term.T {
	if v.t != nil {
		return v.t
	}
	return c.BV(v.c, size*8)
}

// Const returns the concrete value.
func (v Val) Const() (uint64, bool) { return v.c, v.conc() }

func fromTerm(t *term.T) Val {
	if t.IsConst() {
		return Val{c: t.C}
	}
	return Val{t: t}
}

const pageWords = 128
const pageBytes = pageWords * 8

// word is one 8-byte memory cell; n is the number of addressable bytes in it, freed marks
// memory that has been given back.
type word struct {
	Val
	n     uint8
	freed bool
}

type page struct {
	owner uint64
	w     [pageWords]word
}

// Block is one heap allocation.
type Block struct {
	Addr, Size uint64
	Freed      bool
}

type node struct {
	t    *term.T
	prev *node
	n    int
}

// Event is something the program did that the outside world can see.
type Event struct{ Data interface{} }

type End uint8

const (
	Running End = iota
	Returned
	Exited
	Fault
	StepLimit
	Unsupported
	Dropped
)

func (e End) String() string {
	return [...]string{"running", "returned", "exited", "fault", "step-limit", "unsupported", "dropped"}[e]
}

type flags struct {
	kind uint8
	size int
	a, b Val
	r    Val
}

// State is one symbolic machine state.
type State struct {
	pc      uint64
	regs    [16]Val
	fl      flags
	id      uint64
	pages   map[uint64]*page
	lastKey uint64
	lastPg  *page
	cond    *node
	decided map[*term.T]bool
	Model   term.Model
	Steps   uint64
	Events  []Event
	Blocks  []Block
	Live    int
	heap    uint64
	end     End
	Why     string
	Code    Val
	FaultPC uint64
	Notes   map[string]int
	enum    int
	// loop detection
}

func (s *State) clone(x *Exec) *State {
	n := *s
	x.nextID++
	n.id = x.nextID
	x.nextID++
	s.id = x.nextID // both sides lose ownership of shared pages
	n.pages = make(map[uint64]*page, len(s.pages))
	for k, p := range s.pages {
		n.pages[k] = p
	}
	n.lastPg, s.lastPg = nil, nil
	n.decided = make(map[*term.T]bool, len(s.decided)+1)
	for k, v := range s.decided {
		n.decided[k] = v
	}
	n.Events = append([]Event(nil), s.Events...)
	n.Blocks = append([]Block(nil), s.Blocks...)
	n.Notes = map[string]int{}
	for k, v := range s.Notes {
		n.Notes[k] = v
	}
	return &n
}

// Cond lists the path condition.
func (s *State) Cond() []*term.T {
	var out []*term.T
	for n := s.cond; n != nil; n = n.prev {
		out = append(out, n.t)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (s *State) assume(t *term.T) {
	n := 0
	if s.cond != nil {
		n = s.cond.n
	}
	s.cond = &node{t, s.cond, n + 1}
}

func inStack(a uint64) bool { return a >= StackTop-StackSize && a < StackTop }

// cell returns the memory word holding addr (nil if unmapped); write makes it writable.
func (s *State) cell(x *Exec, a uint64, write bool) *word {
	key := a / pageBytes
	var p *page
	if s.lastPg != nil && s.lastKey == key {
		p = s.lastPg
	} else {
		p = s.pages[key]
		if p == nil {
			if !inStack(a) {
				return nil
			}
			p = &page{owner: s.id}
			for i := range p.w {
				p.w[i].Val = poison
				p.w[i].n = 8
			}
			s.pages[key] = p
		}
		s.lastKey, s.lastPg = key, p
	}
	if write && p.owner != s.id {
		q := *p
		q.owner = s.id
		p = &q
		s.pages[key] = p
		s.lastPg = p
	}
	return &p.w[(a%pageBytes)/8]
}

// mapRange makes [a,a+n) addressable and zero.
func (s *State) mapRange(x *Exec, a, n uint64) {
	for off := uint64(0); off < n; off += 8 {
		ad := a + off
		key := ad / pageBytes
		if s.pages[key] == nil {
			s.pages[key] = &page{owner: s.id}
		}
		w := s.cell(x, ad, true)
		w.Val = Val{}
		w.freed = false
		w.n = 8
		if n-off < 8 {
			w.n = uint8(n - off)
		}
	}
}
