package term

import "math/bits"

// SetRange declares that the variable v only takes values lo..hi; the caller has to make that an
// assumption of every query.
func (c *Ctx) SetRange(v *T, lo, hi uint64) {
	if c.ranges == nil {
		c.ranges = map[*T][2]uint64{}
	}
	c.ranges[v] = [2]uint64{lo, hi}
}

// urange bounds the unsigned value of t, using the declared ranges of variables.
func (c *Ctx) urange(t *T) (uint64, uint64) {
	if t.W == 0 || t.W > 64 {
		return 0, ^uint64(0)
	}
	if t.Op == Const {
		return t.C, t.C
	}
	if r, ok := c.ranges[t]; ok {
		return r[0], r[1]
	}
	lo, hi := c.urange1(t)
	c.ranges[t] = [2]uint64{lo, hi}
	return lo, hi
}

func (c *Ctx) urange1(t *T) (uint64, uint64) {
	m := mask(t.W)
	switch t.Op {
	case Concat:
		var lo, hi uint64
		for _, x := range t.A {
			l, h := c.urange(x)
			lo, hi = lo<<uint(x.W)|l, hi<<uint(x.W)|h
		}
		return lo, hi
	case Extract:
		if t.Lo == 0 && t.A[0].W <= 64 {
			if l, h := c.urange(t.A[0]); h <= m {
				return l, h
			}
		}
	case SExt:
		if l, h := c.urange(t.A[0]); h < 1<<uint(t.A[0].W-1) {
			return l, h
		}
	case Ite:
		l, h := c.urange(t.A[1])
		l2, h2 := c.urange(t.A[2])
		return min(l, l2), max(h, h2)
	case Add:
		l, h := c.urange(t.A[0])
		l2, h2 := c.urange(t.A[1])
		if s, cy := bits.Add64(h, h2, 0); cy == 0 && s <= m {
			return l + l2, s
		}
		a, b := (l+l2)&m, (h+h2)&m
		if (l2 == h2 || l == h) && a <= b && b-a == (h+h2)-(l+l2) {
			return a, b
		}
	case Sub:
		l, h := c.urange(t.A[0])
		l2, h2 := c.urange(t.A[1])
		if l >= h2 {
			return l - h2, h - l2
		}
	case Mul:
		l, h := c.urange(t.A[0])
		l2, h2 := c.urange(t.A[1])
		if o, p := bits.Mul64(h, h2); o == 0 && p <= m {
			return l * l2, p
		}
	case Shl:
		if k := t.A[1]; k.Op == Const && k.C < uint64(t.W) {
			l, h := c.urange(t.A[0])
			if h<<k.C>>k.C == h && h<<k.C <= m {
				return l << k.C, h << k.C
			}
		}
	case LShr:
		if k := t.A[1]; k.Op == Const && k.C < 64 {
			l, h := c.urange(t.A[0])
			return l >> k.C, h >> k.C
		}
	case BAnd:
		_, h := c.urange(t.A[0])
		_, h2 := c.urange(t.A[1])
		return 0, min(h, h2)
	case BOr:
		l, h := c.urange(t.A[0])
		l2, h2 := c.urange(t.A[1])
		return max(l, l2), uint64(1)<<uint(max(bits.Len64(h), bits.Len64(h2))) - 1&m
	}
	return 0, m
}

// cmpRange decides a comparison by the ranges of its operands.
func (c *Ctx) cmpRange(op Op, a, b *T) *T {
	if c.ranges == nil || c.noRange || a.W == 0 || a.W > 64 {
		return nil
	}
	al, ah := c.urange(a)
	bl, bh := c.urange(b)
	if op == Slt || op == Sle {
		s := uint64(1) << uint(a.W-1)
		if ah >= s || bh >= s {
			return nil
		}
	}
	strict := op == Slt || op == Ult
	// x+y (which does not wrap) is never below x
	if strict && c.addsTo(a, b) {
		return c.False
	}
	if !strict && c.addsTo(b, a) {
		return c.True
	}
	switch {
	case ah < bl || !strict && ah <= bl:
		return c.True
	case al > bh || strict && al >= bh:
		return c.False
	}
	return nil
}

// addsTo: sum is x plus something, without wrapping.
func (c *Ctx) addsTo(sum, x *T) bool {
	if sum.Op != Add || sum.A[0] != x && sum.A[1] != x {
		return false
	}
	_, h := c.urange(sum.A[0])
	_, h2 := c.urange(sum.A[1])
	s, cy := bits.Add64(h, h2, 0)
	return cy == 0 && s <= mask(sum.W)
}

// Plain runs f with the use of declared ranges off, for building the conditions that state them.
func (c *Ctx) Plain(f func()) {
	c.noRange = true
	f()
	c.noRange = false
}
