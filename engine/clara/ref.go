package clara

import (
	"verif/engine/term"
)

// Ref runs a reference semantics over symbolic inputs: If forks, and each feasible branch yields
// the observations expected under its guard.
type Ref struct {
	*Out
	log   []bool
	pos   int
	open  []bool
	guard []*term.T
	want  []KV
	exit  bool
	skip  bool
	extra []*term.T
}

type refStop struct{}

// Feasible may be set by the runner: can the path condition hold together with these terms?
// (nil: assume yes).

// If decides a condition, exploring both outcomes where the path admits them.
func (r *Ref) If(t *term.T) bool {
	if t.IsTrue() {
		return true
	}
	if t.IsFalse() {
		return false
	}
	if r.pos < len(r.log) {
		v := r.log[r.pos]
		r.pos++
		r.assume(t, v)
		return v
	}
	yes, no := true, true
	if r.Feasible != nil {
		yes = r.Feasible(append(append([]*term.T{}, r.guard...), t))
		if yes {
			no = r.Feasible(append(append([]*term.T{}, r.guard...), r.C.Not(t)))
		}
	}
	v := yes
	r.log = append(r.log, v)
	r.open = append(r.open, yes && no)
	r.pos++
	r.assume(t, v)
	return v
}

func (r *Ref) assume(t *term.T, v bool) {
	if !v {
		t = r.C.Not(t)
	}
	r.guard = append(r.guard, t)
}

// Pick forces a small-range term to a constant: the first value in lo..hi it can equal.
func (r *Ref) Pick(t *term.T, lo, hi int64) int64 {
	if t.IsConst() {
		return int64(t.C<<(64-uint(t.W))) >> (64 - uint(t.W))
	}
	for v := lo; v < hi; v++ {
		if r.If(r.C.Eq(t, r.C.BV(uint64(v), t.W))) {
			return v
		}
	}
	r.assume(r.C.Eq(t, r.C.BV(uint64(hi), t.W)), true)
	return hi
}

// Obs expects an integer observation (63-bit term).
func (r *Ref) Obs(k int, v *term.T) { r.want = append(r.want, r.I(k, v)) }

// ObsN expects a constant integer observation.
func (r *Ref) ObsN(k int, v int64) { r.want = append(r.want, r.N(k, v)) }

// ObsB expects a boolean observation.
func (r *Ref) ObsB(k int, v *term.T) { r.want = append(r.want, r.B(k, v)) }

// ObsS expects a string (or bytes) observation.
func (r *Ref) ObsS(k int, v []*term.T) { r.want = append(r.want, r.S(k, v)) }

// ObsEv expects an event of another kind with the given 64-bit values (nil: any) and bytes.
func (r *Ref) ObsEv(kind string, k int, vs []*term.T, b []*term.T) {
	r.want = append(r.want, KV{Kind: kind, K: k, Vs: vs, S: b})
}

// Exit expects the program to stop with a non-zero status here.
func (r *Ref) Exit() { r.exit = true; panic(refStop{}) }

// Skip says nothing about the inputs of this branch.
func (r *Ref) Skip() { r.skip = true; panic(refStop{}) }

// Must adds a requirement on the run itself (over its events).
func (r *Ref) Must(t *term.T) { r.extra = append(r.extra, t) }

// K is a 63-bit constant.
func (r *Ref) K(v int64) *term.T { return r.C.BV(uint64(v), 63) }

func (r *Ref) once(f func(r *Ref)) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(refStop); !ok {
				panic(e)
			}
		}
	}()
	f(r)
}

// Oracle makes an oracle of a reference semantics.
func Oracle(f func(r *Ref)) func(*Out) *term.T {
	return func(o *Out) *term.T {
		c := o.C
		ok := c.True
		var log, open []bool
		for n := 0; ; n++ {
			if n > 4000 {
				panic("reference semantics has too many branches")
			}
			r := &Ref{Out: o, log: log, open: open}
			r.once(f)
			log, open = r.log, r.open
			good := c.False
			switch {
			case r.skip:
				good = c.True
			case r.exit:
				good = c.And(o.Panicked(), o.Seq(r.want...))
			default:
				good = o.Ret(r.want...)
			}
			if !r.skip {
				for _, t := range r.extra {
					good = c.And(good, t)
				}
			}
			g := c.True
			for _, t := range r.guard {
				g = c.And(g, t)
			}
			ok = c.And(ok, c.Implies(g, good))
			if ok.IsFalse() {
				return ok
			}
			// next branch
			i := len(log) - 1
			for i >= 0 && !(open[i] && log[i]) {
				i--
			}
			if i < 0 {
				return ok
			}
			log = append(append([]bool{}, log[:i]...), false)
			open = append(append([]bool{}, open[:i]...), false)
		}
	}
}

// Branches counts the branches of a reference semantics over free inputs (a condition already decided on
// a branch is not counted again); it stops after max+1.
func Branches(c *term.Ctx, f func(r *Ref), max int) int {
	o := &Out{C: c}
	o.Feasible = func(ts []*term.T) bool {
		last := ts[len(ts)-1]
		n := c.Not(last)
		for _, t := range ts[:len(ts)-1] {
			if t == n {
				return false
			}
		}
		return true
	}
	var log, open []bool
	for n := 1; ; n++ {
		r := &Ref{Out: o, log: log, open: open}
		r.once(f)
		log, open = r.log, r.open
		i := len(log) - 1
		for i >= 0 && !(open[i] && log[i]) {
			i--
		}
		if i < 0 || n > max {
			return n
		}
		log = append(append([]bool{}, log[:i]...), false)
		open = append(append([]bool{}, open[:i]...), false)
	}
}
