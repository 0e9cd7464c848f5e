package gosym

import (
	"math/bits"

	"verif/engine/term"
)

// tctx is the term context with shortcuts for terms that are functions of one small choice
// variable: comparisons between them are tabulated rather than simplified structurally.
type tctx struct {
	*term.Ctx
	e *Engine
}

type table struct {
	v   *term.T
	val [256]uint64
}

func (k *tctx) of(t *term.T) *table {
	if x, ok := k.e.tabs[t]; ok {
		return x
	}
	return nil
}

func (k *tctx) register(t *term.T, x *table) *term.T {
	if !t.IsConst() && t.Op != term.Var {
		k.e.tabs[t] = x
	}
	return t
}

func (k *tctx) ZExt(a *term.T, w int) *term.T {
	r := k.Ctx.ZExt(a, w)
	if x := k.of(a); x != nil {
		k.register(r, x)
	}
	return r
}

func (k *tctx) Extract(hi, lo int, a *term.T) *term.T {
	r := k.Ctx.Extract(hi, lo, a)
	if x := k.of(a); x != nil && k.of(r) == nil {
		y := &table{v: x.v}
		for i, v := range x.val {
			y.val[i] = v >> lo & (1<<(hi-lo+1) - 1)
		}
		k.register(r, y)
	}
	return r
}

// cmp tabulates a comparison of two terms of width w; ok is false if that does not apply.
func (k *tctx) cmp(a, b *term.T, f func(x, y uint64) bool) (*term.T, bool) {
	ta, tb := k.of(a), k.of(b)
	if ta == nil && tb == nil || ta == nil && !a.IsConst() || tb == nil && !b.IsConst() || ta != nil && tb != nil && ta.v != tb.v {
		return nil, false
	}
	t := ta
	if t == nil {
		t = tb
	}
	var set [4]uint64
	for i := 0; i < 256; i++ {
		x, y := a.C, b.C
		if ta != nil {
			x = ta.val[i]
		}
		if tb != nil {
			y = tb.val[i]
		}
		if f(x, y) {
			set[i>>6] |= 1 << (i & 63)
		}
	}
	return k.member(t.v, set), true
}

type memberKey struct {
	v   *term.T
	set [4]uint64
}

// member is the condition that v lies in set.
func (k *tctx) member(v *term.T, set [4]uint64) *term.T {
	if set == [4]uint64{} {
		return k.False
	}
	if set == [4]uint64{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)} {
		return k.True
	}
	key := memberKey{v, set}
	if t, ok := k.e.members[key]; ok {
		return t
	}
	t := rangesOf(k.Ctx, v, &set)
	k.e.members[key] = t
	if !t.IsConst() {
		s := set
		k.e.truth[t] = &s
	}
	return t
}

func rangesOf(c *term.Ctx, v *term.T, d *[4]uint64) *term.T {
	var ors []*term.T
	for i := 0; i < 256; {
		if d[i>>6]>>(i&63)&1 == 0 {
			i++
			continue
		}
		j := i
		for j+1 < 256 && d[(j+1)>>6]>>((j+1)&63)&1 == 1 {
			j++
		}
		if i == j {
			ors = append(ors, c.Eq(v, c.BV(uint64(i), 8)))
		} else {
			ors = append(ors, c.And(c.Ule(c.BV(uint64(i), 8), v), c.Ule(v, c.BV(uint64(j), 8))))
		}
		i = j + 1
	}
	return c.Or(ors...)
}

func (k *tctx) Eq(a, b *term.T) *term.T {
	if a.W > 0 {
		if t, ok := k.cmp(a, b, func(x, y uint64) bool { return x == y }); ok {
			return t
		}
	}
	return k.Ctx.Eq(a, b)
}

func (k *tctx) Ult(a, b *term.T) *term.T {
	if t, ok := k.cmp(a, b, func(x, y uint64) bool { return x < y }); ok {
		return t
	}
	return k.Ctx.Ult(a, b)
}

func (k *tctx) Ule(a, b *term.T) *term.T {
	if t, ok := k.cmp(a, b, func(x, y uint64) bool { return x <= y }); ok {
		return t
	}
	return k.Ctx.Ule(a, b)
}

func (k *tctx) Slt(a, b *term.T) *term.T {
	w := a.W
	if t, ok := k.cmp(a, b, func(x, y uint64) bool { return term.SInt(x, w) < term.SInt(y, w) }); ok {
		return t
	}
	return k.Ctx.Slt(a, b)
}

func (k *tctx) Sle(a, b *term.T) *term.T {
	w := a.W
	if t, ok := k.cmp(a, b, func(x, y uint64) bool { return term.SInt(x, w) <= term.SInt(y, w) }); ok {
		return t
	}
	return k.Ctx.Sle(a, b)
}

// narrow replaces a byte that the path has settled by its value.
func (st *State) narrow(t *term.T) *term.T {
	if t.IsConst() {
		return t
	}
	x := st.e.T.of(t)
	v := t
	if x != nil {
		v = x.v
	} else if t.Op != term.Var || t.W != 8 {
		return t
	}
	d := st.dom[v.Name]
	if d == nil {
		return t
	}
	first, seen := uint64(0), false
	for w := 0; w < 4; w++ {
		for m := d[w]; m != 0; m &= m - 1 {
			i := uint64(w*64 + bits.TrailingZeros64(m))
			if x != nil {
				i = x.val[i]
			}
			if seen && i != first {
				return t
			}
			first, seen = i, true
		}
	}
	if !seen {
		return t
	}
	return st.e.C.BV(first, t.W)
}

// narrowStr does so for the bytes of a short string.
func (st *State) narrowStr(v V) V {
	s, ok := v.R.(*Str)
	if !ok || s.sym == nil || len(s.sym) > 64 {
		return v
	}
	var r []*term.T
	for i, t := range s.sym {
		n := st.narrow(t)
		if n != t && r == nil {
			r = append([]*term.T(nil), s.sym...)
		}
		if r != nil {
			r[i] = n
		}
	}
	if r == nil {
		return v
	}
	return symStr(r)
}
