// Package term is a hash-consed DAG of bit-vector (1..64 bits, wider only through
// concatenation internally never built) and boolean terms with a simplifier and a
// concrete evaluator. It is the common language of both symbolic executors.
package term

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

type Op uint8

const (
	Const Op = iota // bit-vector or boolean constant (W==0: boolean, C 0/1)
	Var
	// boolean
	Not
	And
	Or
	Eq // over booleans or bit-vectors
	Ult
	Ule
	Slt
	Sle
	// any sort
	Ite
	// bit-vector
	BNot
	Neg
	Add
	Sub
	Mul
	UDiv
	SDiv
	URem
	SRem
	BAnd
	BOr
	BXor
	Shl
	LShr
	AShr
	Concat // n-ary, most significant first
	Extract
	SExt
)

var opNames = [...]string{"const", "var", "not", "and", "or", "=", "bvult", "bvule", "bvslt", "bvsle", "ite",
	"bvnot", "bvneg", "bvadd", "bvsub", "bvmul", "bvudiv", "bvsdiv", "bvurem", "bvsrem", "bvand", "bvor", "bvxor",
	"bvshl", "bvlshr", "bvashr", "concat", "extract", "sign_extend"}

// T is one term. W is the width in bits, 0 for booleans.
type T struct {
	Op   Op
	W    int
	C    uint64 // Const value
	Hi   int    // Extract
	Lo   int    // Extract
	Name string // Var
	A    []*T
	ID   int
}

// Ctx owns the hash-consing table. Not safe for concurrent use.
type Ctx struct {
	tab   map[uint64][]*T
	n     int
	vars  map[string]*T
	True  *T
	False *T
	// Raw switches rewriting off: only constants are folded, everything else is left to the solver.
	Raw     bool
	ranges  map[*T][2]uint64
	noRange bool
}

func NewCtx() *Ctx {
	c := &Ctx{tab: make(map[uint64][]*T), vars: make(map[string]*T)}
	c.True = c.mk(Const, 0, 1, 0, 0, "")
	c.False = c.mk(Const, 0, 0, 0, 0, "")
	return c
}

// Size is the number of distinct terms built.
func (c *Ctx) Size() int { return c.n }

func (c *Ctx) mk(op Op, w int, k uint64, hi, lo int, name string, a ...*T) *T {
	h := uint64(op)*0x9E3779B97F4A7C15 ^ uint64(w)<<32 ^ k*0xff51afd7ed558ccd ^ uint64(hi)<<20 ^ uint64(lo)<<8
	for _, x := range a {
		h = (h ^ uint64(x.ID)) * 0x100000001b3
		h ^= h >> 29
	}
	for i := 0; i < len(name); i++ {
		h = (h ^ uint64(name[i])) * 0x100000001b3
	}
outer:
	for _, t := range c.tab[h] {
		if t.Op != op || t.W != w || t.C != k || t.Hi != hi || t.Lo != lo || t.Name != name || len(t.A) != len(a) {
			continue
		}
		for i := range a {
			if t.A[i] != a[i] {
				continue outer
			}
		}
		return t
	}
	t := &T{Op: op, W: w, C: k, Hi: hi, Lo: lo, Name: name, ID: c.n}
	if len(a) > 0 {
		t.A = append([]*T(nil), a...)
	}
	c.n++
	c.tab[h] = append(c.tab[h], t)
	return t
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func sx(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	return int64(v<<uint(64-w)) >> uint(64-w)
}

func (t *T) IsConst() bool { return t.Op == Const }
func (t *T) IsTrue() bool  { return t.Op == Const && t.W == 0 && t.C == 1 }
func (t *T) IsFalse() bool { return t.Op == Const && t.W == 0 && t.C == 0 }

func (c *Ctx) BV(v uint64, w int) *T {
	if w < 1 || w > 64 {
		panic(fmt.Sprintf("bad width %d", w))
	}
	return c.mk(Const, w, v&mask(w), 0, 0, "")
}
func (c *Ctx) Bool(b bool) *T {
	if b {
		return c.True
	}
	return c.False
}
func (c *Ctx) Var(name string, w int) *T {
	if v, ok := c.vars[name]; ok {
		if v.W != w {
			panic("variable " + name + " redeclared at another width")
		}
		return v
	}
	v := c.mk(Var, w, 0, 0, 0, name)
	c.vars[name] = v
	return v
}

// ---------------------------------------------------------------- booleans

func (c *Ctx) Not(a *T) *T {
	switch {
	case a.IsTrue():
		return c.False
	case a.IsFalse():
		return c.True
	case a.Op == Not:
		return a.A[0]
	case c.Raw:
		return c.mk(Not, 0, 0, 0, 0, "", a)
	case a.Op == Ult:
		return c.Ule(a.A[1], a.A[0])
	case a.Op == Ule:
		return c.Ult(a.A[1], a.A[0])
	case a.Op == Slt:
		return c.Sle(a.A[1], a.A[0])
	case a.Op == Sle:
		return c.Slt(a.A[1], a.A[0])
	}
	return c.mk(Not, 0, 0, 0, 0, "", a)
}

func (c *Ctx) nary(op Op, unit, zero *T, as []*T) *T {
	var flat []*T
	seen := map[*T]bool{}
	var add func(x *T) bool
	add = func(x *T) bool {
		if x == zero {
			return false
		}
		if x == unit || seen[x] {
			return true
		}
		if x.Op == op {
			for _, y := range x.A {
				if !add(y) {
					return false
				}
			}
			return true
		}
		if seen[c.Not(x)] {
			return false
		}
		seen[x] = true
		flat = append(flat, x)
		return true
	}
	for _, x := range as {
		if !add(x) {
			return zero
		}
	}
	switch len(flat) {
	case 0:
		return unit
	case 1:
		return flat[0]
	}
	sort.Slice(flat, func(i, j int) bool { return flat[i].ID < flat[j].ID })
	return c.mk(op, 0, 0, 0, 0, "", flat...)
}
func (c *Ctx) And(as ...*T) *T    { return c.nary(And, c.True, c.False, as) }
func (c *Ctx) Or(as ...*T) *T     { return c.nary(Or, c.False, c.True, as) }
func (c *Ctx) Implies(a, b *T) *T { return c.Or(c.Not(a), b) }

func (c *Ctx) Eq(a, b *T) *T {
	if a == b {
		return c.True
	}
	if a.W != b.W {
		panic(fmt.Sprintf("Eq width %d vs %d: %s vs %s", a.W, b.W, a, b))
	}
	if a.Op == Const && b.Op == Const {
		return c.Bool(a.C == b.C)
	}
	if a.Op == Const {
		a, b = b, a
	}
	if a.W == 0 {
		if b.Op == Const {
			if b.C == 1 {
				return a
			}
			return c.Not(a)
		}
		if a.ID > b.ID {
			a, b = b, a
		}
		return c.mk(Eq, 0, 0, 0, 0, "", a, b)
	}
	if c.Raw {
		return c.mk(Eq, 0, 0, 0, 0, "", a, b)
	}
	if a.Op == Concat || b.Op == Concat {
		if a.Op != Concat {
			a, b = b, a
		}
		// split only when b splits without growing: constant, concat
		if b.Op == Const || b.Op == Concat {
			var parts []*T
			for _, cut := range cuts(a, b) {
				parts = append(parts, c.eqLeaf(c.Extract(cut[0], cut[1], a), c.Extract(cut[0], cut[1], b)))
				if parts[len(parts)-1].IsFalse() {
					return c.False
				}
			}
			return c.And(parts...)
		}
	}
	return c.eqLeaf(a, b)
}

func (c *Ctx) eqLeaf(a, b *T) *T {
	if a == b {
		return c.True
	}
	if a.Op == Const && b.Op == Const {
		return c.Bool(a.C == b.C)
	}
	if a.Op == Const {
		a, b = b, a
	}
	if b.Op == Const {
		switch a.Op {
		case Ite:
			if t := c.iteEqConst(a, b, 64); t != nil {
				return t
			}
		case SExt:
			x := a.A[0]
			if uint64(sx(b.C&mask(x.W), x.W))&mask(a.W) != b.C {
				return c.False
			}
			return c.Eq(x, c.BV(b.C, x.W))
		case Add:
			if a.A[1].Op == Const {
				return c.Eq(a.A[0], c.BV(b.C-a.A[1].C, a.W))
			}
		case BNot:
			return c.Eq(a.A[0], c.BV(^b.C, a.W))
		case Neg:
			return c.Eq(a.A[0], c.BV(-b.C, a.W))
		case BXor:
			if a.A[1].Op == Const {
				return c.Eq(a.A[0], c.BV(a.A[1].C^b.C, a.W))
			}
		}
	}
	if a.Op == SExt && b.Op == SExt && a.A[0].W == b.A[0].W {
		return c.Eq(a.A[0], b.A[0])
	}
	if a.Op == Ite && b.Op == Ite && a.A[0] == b.A[0] {
		return c.Ite(a.A[0], c.Eq(a.A[1], b.A[1]), c.Eq(a.A[2], b.A[2]))
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return c.mk(Eq, 0, 0, 0, 0, "", a, b)
}

// iteEqConst distributes an equality with a constant over an ite tree whose leaves are constants.
func (c *Ctx) iteEqConst(a, b *T, fuel int) *T {
	if fuel <= 0 {
		return nil
	}
	leaf := func(x *T) *T {
		if x.Op == Const {
			return c.Bool(x.C == b.C)
		}
		if x.Op == Ite {
			return c.iteEqConst(x, b, fuel/2)
		}
		return nil
	}
	l, r := leaf(a.A[1]), leaf(a.A[2])
	if l == nil && r == nil {
		return nil
	}
	if l == nil {
		l = c.Eq(a.A[1], b)
	}
	if r == nil {
		r = c.Eq(a.A[2], b)
	}
	return c.Ite(a.A[0], l, r)
}

func cuts(a, b *T) [][2]int {
	set := map[int]bool{0: true, a.W: true}
	for _, t := range []*T{a, b} {
		if t.Op == Concat {
			p := t.W
			for _, x := range t.A {
				p -= x.W
				set[p] = true
			}
		}
	}
	var ps []int
	for k := range set {
		ps = append(ps, k)
	}
	sort.Ints(ps)
	var out [][2]int
	for i := len(ps) - 1; i > 0; i-- {
		out = append(out, [2]int{ps[i] - 1, ps[i-1]})
	}
	return out
}

func (c *Ctx) Ne(a, b *T) *T { return c.Not(c.Eq(a, b)) }

func (c *Ctx) Ult(a, b *T) *T { return c.cmp(Ult, a, b) }
func (c *Ctx) Ule(a, b *T) *T { return c.cmp(Ule, a, b) }
func (c *Ctx) Slt(a, b *T) *T { return c.cmp(Slt, a, b) }
func (c *Ctx) Sle(a, b *T) *T { return c.cmp(Sle, a, b) }

func (c *Ctx) cmp(op Op, a, b *T) *T {
	if a.W != b.W {
		panic("cmp width")
	}
	if a == b {
		return c.Bool(op == Ule || op == Sle)
	}
	if a.Op == Const && b.Op == Const {
		var r bool
		switch op {
		case Ult:
			r = a.C < b.C
		case Ule:
			r = a.C <= b.C
		case Slt:
			r = sx(a.C, a.W) < sx(b.C, b.W)
		case Sle:
			r = sx(a.C, a.W) <= sx(b.C, b.W)
		}
		return c.Bool(r)
	}
	if c.Raw {
		return c.mk(op, 0, 0, 0, 0, "", a, b)
	}
	if r := c.cmpRange(op, a, b); r != nil {
		return r
	}
	// drop identical low constant parts:  concat(x,k) op concat(y,k)
	if la, lb := lowConst(a), lowConst(b); la > 0 && lb > 0 {
		w := la
		if lb < w {
			w = lb
		}
		if w < a.W {
			ea, eb := c.Extract(w-1, 0, a), c.Extract(w-1, 0, b)
			if ea.Op == Const && eb.Op == Const && ea.C == eb.C {
				return c.cmp(op, c.Extract(a.W-1, w, a), c.Extract(b.W-1, w, b))
			}
		}
	}
	if op == Slt || op == Sle {
		if al, ah, ok := rangeS(a, 6); ok {
			if bl, bh, ok := rangeS(b, 6); ok {
				switch {
				case ah < bl || op == Sle && ah <= bl:
					return c.True
				case al > bh || op == Slt && al >= bh:
					return c.False
				}
			}
		}
	}
	// sign-extended operands compare as their narrow selves
	n := narrowS(a)
	if m := narrowS(b); m > n {
		n = m
	}
	if n < a.W && (a.Op == SExt || b.Op == SExt) {
		if op == Slt || op == Sle {
			return c.cmp(op, c.Extract(n-1, 0, a), c.Extract(n-1, 0, b))
		}
		return c.cmp(op, c.Extract(n-1, 0, a), c.Extract(n-1, 0, b))
	}
	// zero-extended operands
	z := narrowU(a)
	if m := narrowU(b); m > z {
		z = m
	}
	if z < a.W && z > 0 {
		uop := op
		if op == Slt {
			uop = Ult
		} else if op == Sle {
			uop = Ule
		}
		return c.cmp(uop, c.Extract(z-1, 0, a), c.Extract(z-1, 0, b))
	}
	switch op {
	case Ult:
		if b.Op == Const && b.C == 0 {
			return c.False
		}
		if b.Op == Const && b.C == 1 {
			return c.Eq(a, c.BV(0, a.W))
		}
		if a.Op == Const && a.C == mask(a.W) {
			return c.False
		}
	case Ule:
		if a.Op == Const && a.C == 0 {
			return c.True
		}
		if b.Op == Const && b.C == mask(b.W) {
			return c.True
		}
		if b.Op == Const && b.C == 0 {
			return c.Eq(a, b)
		}
	case Slt:
		if b.Op == Const && b.C == uint64(1)<<uint(b.W-1) {
			return c.False
		}
		if a.Op == Const && a.C == mask(a.W-1) {
			return c.False
		}
	case Sle:
		if a.Op == Const && a.C == uint64(1)<<uint(a.W-1) {
			return c.True
		}
		if b.Op == Const && b.C == mask(b.W-1) {
			return c.True
		}
	}
	return c.mk(op, 0, 0, 0, 0, "", a, b)
}

// rangeS bounds the signed value of t; ok is false when nothing better than the width is known.
func rangeS(t *T, fuel int) (lo, hi int64, ok bool) {
	if t.W == 0 || t.W > 64 || fuel == 0 {
		return 0, 0, false
	}
	wlo, whi := int64(-1)<<uint(t.W-1), int64(uint64(1)<<uint(t.W-1)-1)
	fits := func(a, b int64) (int64, int64, bool) { return a, b, a >= wlo && b <= whi }
	switch t.Op {
	case Const:
		v := sx(t.C, t.W)
		return v, v, true
	case SExt:
		return rangeS(t.A[0], fuel-1)
	case Concat:
		if h := t.A[0]; h.Op == Const && h.C == 0 && t.W-h.W < 63 {
			return 0, int64(1)<<uint(t.W-h.W) - 1, true
		}
	case Extract:
		if t.Lo == 0 {
			if l, h, ok := rangeS(t.A[0], fuel-1); ok {
				return fits(l, h)
			}
		}
	case Ite:
		l, h, ok := rangeS(t.A[1], fuel-1)
		if !ok {
			return 0, 0, false
		}
		l2, h2, ok := rangeS(t.A[2], fuel-1)
		return min(l, l2), max(h, h2), ok
	case Add, Sub:
		l, h, ok := rangeS(t.A[0], fuel-1)
		if !ok {
			return 0, 0, false
		}
		l2, h2, ok := rangeS(t.A[1], fuel-1)
		if !ok {
			return 0, 0, false
		}
		if t.Op == Sub {
			if l2 == -1<<63 {
				return 0, 0, false
			}
			l2, h2 = -h2, -l2
		}
		a, b := l+l2, h+h2
		if (l2 > 0) != (a > l) && l2 != 0 || (h2 > 0) != (b > h) && h2 != 0 {
			return 0, 0, false
		}
		return fits(a, b)
	case SDiv:
		if d := t.A[1]; d.Op == Const && sx(d.C, d.W) > 1 {
			if l, h, ok := rangeS(t.A[0], fuel-1); ok {
				k := sx(d.C, d.W)
				return l / k, h / k, true
			}
		}
	}
	return 0, 0, false
}

// mapConsts applies f to the leaves of a small Ite tree over constants.
func (c *Ctx) mapConsts(t *T, fuel *int, f func(*T) *T) *T {
	if *fuel--; *fuel < 0 {
		return nil
	}
	if t.Op == Const {
		return f(t)
	}
	if t.Op == Ite {
		a := c.mapConsts(t.A[1], fuel, f)
		if a == nil {
			return nil
		}
		b := c.mapConsts(t.A[2], fuel, f)
		if b == nil {
			return nil
		}
		return c.Ite(t.A[0], a, b)
	}
	return nil
}

// divRange rewrites a quotient that can only take a few values.
func (c *Ctx) divRange(a, b *T) *T {
	d := sx(b.C, b.W)
	if b.Op != Const || d < 2 || a.Op == Const {
		return nil
	}
	if a.Op == Ite {
		fuel := 17
		if r := c.mapConsts(a, &fuel, func(k *T) *T { return c.bin(SDiv, k, b) }); r != nil {
			return r
		}
	}
	lo, hi, ok := rangeS(a, 12)
	if !ok || hi/d-lo/d > 3 {
		return nil
	}
	r := c.BV(uint64(lo/d), a.W)
	for k := lo/d + 1; k <= hi/d; k++ {
		t := k * d
		if k <= 0 {
			t = (k-1)*d + 1
		}
		r = c.Ite(c.Sle(c.BV(uint64(t), a.W), a), c.BV(uint64(k), a.W), r)
	}
	return r
}

func lowConst(t *T) int {
	if t.Op == Const {
		return t.W
	}
	if t.Op == Concat {
		l := t.A[len(t.A)-1]
		if l.Op == Const {
			return l.W
		}
	}
	return 0
}

// narrowS: smallest n such that t is the sign extension of its low n bits (syntactically).
func narrowS(t *T) int {
	switch t.Op {
	case SExt:
		return t.A[0].W
	case Const:
		v := sx(t.C, t.W)
		if v < 0 {
			v = ^v
		}
		n := bits.Len64(uint64(v)) + 1
		if n > t.W {
			n = t.W
		}
		return n
	case Concat:
		h := t.A[0]
		if h.Op == Const && h.C == 0 {
			return t.W - h.W + 1
		}
	}
	return t.W
}

// narrowU: smallest n such that bits >= n are syntactically zero.
func narrowU(t *T) int {
	switch t.Op {
	case Const:
		return bits.Len64(t.C)
	case Concat:
		h := t.A[0]
		if h.Op == Const && h.C == 0 {
			return t.W - h.W
		}
	}
	return t.W
}

func (c *Ctx) Ite(g, a, b *T) *T {
	if g.W != 0 || a.W != b.W {
		panic("ite sorts")
	}
	if g.Op == Const {
		if g.C == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if g.Op == Not {
		g, a, b = g.A[0], b, a
	}
	if c.Raw && a.W != 0 {
		return c.mk(Ite, a.W, 0, 0, 0, "", g, a, b)
	}
	if a.W == 0 {
		switch {
		case a.IsTrue() && b.IsFalse():
			return g
		case a.IsFalse() && b.IsTrue():
			return c.Not(g)
		case a.IsTrue():
			return c.Or(g, b)
		case a.IsFalse():
			return c.And(c.Not(g), b)
		case b.IsTrue():
			return c.Or(c.Not(g), a)
		case b.IsFalse():
			return c.And(g, a)
		}
	} else {
		if a.Op == Ite && a.A[0] == g {
			a = a.A[1]
		}
		if b.Op == Ite && b.A[0] == g {
			b = b.A[2]
		}
		if a == b {
			return a
		}
		// pull common structure out of concats
		if a.Op == Concat || b.Op == Concat {
			cs := cuts(a, b)
			if len(cs) > 1 {
				same := false
				for _, k := range cs {
					if c.Extract(k[0], k[1], a) == c.Extract(k[0], k[1], b) {
						same = true
						break
					}
				}
				if same {
					var parts []*T
					for _, k := range cs {
						parts = append(parts, c.Ite(g, c.Extract(k[0], k[1], a), c.Extract(k[0], k[1], b)))
					}
					return c.Concat(parts...)
				}
			}
		}
	}
	return c.mk(Ite, a.W, 0, 0, 0, "", g, a, b)
}

// ---------------------------------------------------------------- bit-vectors

func (c *Ctx) Concat(as ...*T) *T {
	var out []*T
	var push func(x *T)
	push = func(x *T) {
		if x.Op == Concat {
			for _, y := range x.A {
				push(y)
			}
			return
		}
		if n := len(out); n > 0 && !(c.Raw && (out[n-1].Op != Const || x.Op != Const)) {
			p := out[n-1]
			if p.Op == Const && x.Op == Const && p.W+x.W <= 64 {
				out[n-1] = c.BV(p.C<<uint(x.W)|x.C, p.W+x.W)
				return
			}
			if p.Op == Extract && x.Op == Extract && p.A[0] == x.A[0] && p.Lo == x.Hi+1 {
				out[n-1] = c.Extract(p.Hi, x.Lo, p.A[0])
				return
			}
			if p.Op == Extract && p.A[0] == x && p.Lo == x.W {
				// cannot happen: extract beyond width
			}
			if p.Op == Ite && x.Op == Ite && p.A[0] == x.A[0] && p.A[1].Op == Const && p.A[2].Op == Const &&
				x.A[1].Op == Const && x.A[2].Op == Const && p.W+x.W <= 64 {
				out[n-1] = c.Ite(p.A[0], c.BV(p.A[1].C<<uint(x.W)|x.A[1].C, p.W+x.W), c.BV(p.A[2].C<<uint(x.W)|x.A[2].C, p.W+x.W))
				return
			}
		}
		out = append(out, x)
	}
	for _, x := range as {
		push(x)
	}
	if len(out) == 1 {
		return out[0]
	}
	w := 0
	for _, x := range out {
		w += x.W
	}
	if w > 64 {
		panic("concat wider than 64")
	}
	return c.mk(Concat, w, 0, 0, 0, "", out...)
}

func (c *Ctx) Extract(hi, lo int, a *T) *T {
	if lo == 0 && hi == a.W-1 {
		return a
	}
	if hi < lo || hi >= a.W || lo < 0 {
		panic(fmt.Sprintf("bad extract %d:%d of %d", hi, lo, a.W))
	}
	w := hi - lo + 1
	if c.Raw && a.Op != Const {
		return c.mk(Extract, w, 0, hi, lo, "", a)
	}
	switch a.Op {
	case Const:
		return c.BV(a.C>>uint(lo), w)
	case Extract:
		return c.Extract(hi+a.Lo, lo+a.Lo, a.A[0])
	case Concat:
		var parts []*T
		p := a.W
		for _, x := range a.A {
			xh, xl := p-1, p-x.W
			p = xl
			if xl > hi || xh < lo {
				continue
			}
			h, l := xh, xl
			if h > hi {
				h = hi
			}
			if l < lo {
				l = lo
			}
			parts = append(parts, c.Extract(h-xl, l-xl, x))
		}
		return c.Concat(parts...)
	case SExt:
		x := a.A[0]
		if hi < x.W {
			return c.Extract(hi, lo, x)
		}
		if lo < x.W {
			return c.SExt(c.Extract(x.W-1, lo, x), w)
		}
		return c.SExt(c.Extract(x.W-1, x.W-1, x), w)
	case Shl:
		if n := a.A[1]; lo == 0 && w > 8 && n.Op == Concat && n.A[0].Op == Const && n.A[0].C == 0 && n.W-n.A[0].W <= 8 {
			return c.Shl(c.Extract(hi, 0, a.A[0]), c.Extract(hi, 0, n))
		}
	case BNot:
		return c.BNot(c.Extract(hi, lo, a.A[0]))
	case BAnd:
		return c.BAnd(c.Extract(hi, lo, a.A[0]), c.Extract(hi, lo, a.A[1]))
	case BOr:
		return c.BOr(c.Extract(hi, lo, a.A[0]), c.Extract(hi, lo, a.A[1]))
	case BXor:
		return c.BXor(c.Extract(hi, lo, a.A[0]), c.Extract(hi, lo, a.A[1]))
	case Add:
		if lo == 0 {
			return c.Add(c.Extract(hi, 0, a.A[0]), c.Extract(hi, 0, a.A[1]))
		}
	case Sub:
		if lo == 0 {
			return c.Sub(c.Extract(hi, 0, a.A[0]), c.Extract(hi, 0, a.A[1]))
		}
	case Mul:
		if lo == 0 {
			return c.Mul(c.Extract(hi, 0, a.A[0]), c.Extract(hi, 0, a.A[1]))
		}
	case Neg:
		if lo == 0 {
			return c.Neg(c.Extract(hi, 0, a.A[0]))
		}
	case SDiv:
		// operands that fit in hi+1 signed bits: the truncated quotient is the narrow quotient
		if lo == 0 && narrowS(a.A[0]) <= w && narrowS(a.A[1]) <= w {
			return c.SDiv(c.Extract(hi, 0, a.A[0]), c.Extract(hi, 0, a.A[1]))
		}
	case Ite:
		if a.A[1].Op == Const || a.A[2].Op == Const || a.A[1].Op == Concat || a.A[2].Op == Concat || a.A[1].Op == Ite || a.A[2].Op == Ite {
			return c.Ite(a.A[0], c.Extract(hi, lo, a.A[1]), c.Extract(hi, lo, a.A[2]))
		}
	}
	return c.mk(Extract, w, 0, hi, lo, "", a)
}

func (c *Ctx) SExt(a *T, w int) *T {
	if w == a.W {
		return a
	}
	if w < a.W {
		panic("sext narrows")
	}
	if c.Raw && a.Op != Const {
		return c.mk(SExt, w, 0, 0, 0, "", a)
	}
	switch a.Op {
	case Const:
		return c.BV(uint64(sx(a.C, a.W)), w)
	case SExt:
		return c.SExt(a.A[0], w)
	case Concat:
		if h := a.A[0]; h.Op == Const && h.C>>uint(h.W-1) == 0 {
			return c.ZExt(a, w)
		}
	case Ite:
		if a.A[1].Op == Const && a.A[2].Op == Const {
			return c.Ite(a.A[0], c.SExt(a.A[1], w), c.SExt(a.A[2], w))
		}
	}
	return c.mk(SExt, w, 0, 0, 0, "", a)
}

func (c *Ctx) ZExt(a *T, w int) *T {
	if w == a.W {
		return a
	}
	return c.Concat(c.BV(0, w-a.W), a)
}

func (c *Ctx) BNot(a *T) *T {
	if c.Raw && a.Op != Const {
		return c.mk(BNot, a.W, 0, 0, 0, "", a)
	}
	switch a.Op {
	case Const:
		return c.BV(^a.C, a.W)
	case BNot:
		return a.A[0]
	case Concat:
		var p []*T
		for _, x := range a.A {
			p = append(p, c.BNot(x))
		}
		return c.Concat(p...)
	case SExt:
		return c.SExt(c.BNot(a.A[0]), a.W)
	case Ite:
		if a.A[1].Op == Const && a.A[2].Op == Const {
			return c.Ite(a.A[0], c.BNot(a.A[1]), c.BNot(a.A[2]))
		}
	}
	return c.mk(BNot, a.W, 0, 0, 0, "", a)
}

func (c *Ctx) Neg(a *T) *T {
	if c.Raw && a.Op != Const {
		return c.mk(Neg, a.W, 0, 0, 0, "", a)
	}
	if a.Op == Const {
		return c.BV(-a.C, a.W)
	}
	if a.Op == Neg {
		return a.A[0]
	}
	if a.Op == Sub {
		return c.Sub(a.A[1], a.A[0])
	}
	return c.mk(Neg, a.W, 0, 0, 0, "", a)
}

func (c *Ctx) chk(a, b *T) {
	if a.W != b.W || a.W == 0 {
		panic(fmt.Sprintf("width mismatch %d %d: %s ; %s", a.W, b.W, a, b))
	}
}

func (c *Ctx) Add(a, b *T) *T {
	c.chk(a, b)
	if c.Raw {
		return c.bin(Add, a, b)
	}
	if a.Op == Const && b.Op == Const {
		return c.BV(a.C+b.C, a.W)
	}
	if a.Op == Const {
		a, b = b, a
	}
	if b.Op == Const {
		if b.C == 0 {
			return a
		}
		if a.Op == Add && a.A[1].Op == Const {
			return c.Add(a.A[0], c.BV(a.A[1].C+b.C, a.W))
		}
		if a.Op == Ite && a.A[1].Op == Const && a.A[2].Op == Const {
			return c.Ite(a.A[0], c.Add(a.A[1], b), c.Add(a.A[2], b))
		}
		// concat(x, 0_k) + const with low k bits only
		if a.Op == Concat {
			if l := a.A[len(a.A)-1]; l.Op == Const && l.C == 0 && b.C <= mask(l.W) {
				return c.BOr(a, b)
			}
		}
		return c.mk(Add, a.W, 0, 0, 0, "", a, b)
	}
	if a == b && a.W > 1 {
		return c.Shl(a, c.BV(1, a.W))
	}
	if a.Op == Add && a.A[1].Op == Const {
		return c.Add(c.Add(a.A[0], b), a.A[1])
	}
	if b.Op == Add && b.A[1].Op == Const {
		return c.Add(c.Add(a, b.A[0]), b.A[1])
	}
	if a.Op == Neg {
		return c.Sub(b, a.A[0])
	}
	if b.Op == Neg {
		return c.Sub(a, b.A[0])
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return c.mk(Add, a.W, 0, 0, 0, "", a, b)
}

func (c *Ctx) Sub(a, b *T) *T {
	c.chk(a, b)
	if c.Raw {
		return c.bin(Sub, a, b)
	}
	if a == b {
		return c.BV(0, a.W)
	}
	if b.Op == Const {
		return c.Add(a, c.BV(-b.C, a.W))
	}
	if a.Op == Const && a.C == 0 {
		return c.Neg(b)
	}
	if b.Op == Neg {
		return c.Add(a, b.A[0])
	}
	if a.Op == Add {
		if a.A[0] == b {
			return a.A[1]
		}
		if a.A[1] == b {
			return a.A[0]
		}
	}
	if a.Op == Add && a.A[1].Op == Const {
		return c.Add(c.Sub(a.A[0], b), a.A[1])
	}
	return c.mk(Sub, a.W, 0, 0, 0, "", a, b)
}

func (c *Ctx) Mul(a, b *T) *T {
	c.chk(a, b)
	if c.Raw {
		return c.bin(Mul, a, b)
	}
	if a.Op == Const && b.Op == Const {
		return c.BV(a.C*b.C, a.W)
	}
	if a.Op == Const {
		a, b = b, a
	}
	if b.Op == Const {
		if a.Op == Ite {
			fuel := 17
			if r := c.mapConsts(a, &fuel, func(k *T) *T { return c.BV(k.C*b.C, a.W) }); r != nil {
				return r
			}
		}
		switch {
		case b.C == 0:
			return b
		case b.C == 1:
			return a
		case b.C == mask(b.W):
			return c.Neg(a)
		case b.C&(b.C-1) == 0:
			return c.Shl(a, c.BV(uint64(bits.TrailingZeros64(b.C)), a.W))
		}
		return c.mk(Mul, a.W, 0, 0, 0, "", a, b)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return c.mk(Mul, a.W, 0, 0, 0, "", a, b)
}

// Div/rem by zero follow SMT-LIB; callers guard.
func (c *Ctx) bin(op Op, a, b *T) *T {
	c.chk(a, b)
	if a.Op == Const && b.Op == Const {
		return c.BV(evalBin(op, a.C, b.C, a.W), a.W)
	}
	return c.mk(op, a.W, 0, 0, 0, "", a, b)
}
func (c *Ctx) UDiv(a, b *T) *T {
	if c.Raw {
		return c.bin(UDiv, a, b)
	}
	if b.Op == Const && b.C != 0 && b.C&(b.C-1) == 0 {
		return c.LShr(a, c.BV(uint64(bits.TrailingZeros64(b.C)), a.W))
	}
	return c.bin(UDiv, a, b)
}
func (c *Ctx) URem(a, b *T) *T {
	if c.Raw {
		return c.bin(URem, a, b)
	}
	if b.Op == Const && b.C != 0 && b.C&(b.C-1) == 0 {
		return c.BAnd(a, c.BV(b.C-1, a.W))
	}
	if a.Op != Const && b.Op == Const && b.C > 1 {
		return c.Sub(a, c.Mul(c.UDiv(a, b), b))
	}
	return c.bin(URem, a, b)
}
func (c *Ctx) SDiv(a, b *T) *T {
	if c.Raw {
		return c.bin(SDiv, a, b)
	}
	if b.Op == Const && b.C == 1 {
		return a
	}
	if r := c.divRange(a, b); r != nil {
		return r
	}
	if k := 1 + max(narrowS(a), narrowS(b)); k < a.W && !(a.Op == Const && b.Op == Const) {
		return c.SExt(c.SDiv(c.Extract(k-1, 0, a), c.Extract(k-1, 0, b)), a.W)
	}
	return c.bin(SDiv, a, b)
}
func (c *Ctx) SRem(a, b *T) *T {
	if c.Raw {
		return c.bin(SRem, a, b)
	}
	if k := max(narrowS(a), narrowS(b)); k < a.W && !(a.Op == Const && b.Op == Const) {
		return c.SExt(c.SRem(c.Extract(k-1, 0, a), c.Extract(k-1, 0, b)), a.W)
	}
	if a.Op != Const && b.Op == Const && b.C > 1 && sx(b.C, b.W) > 0 {
		return c.Sub(a, c.Mul(c.SDiv(a, b), b))
	}
	return c.bin(SRem, a, b)
}

// hasConstPiece: is t a concat containing constants (so bitwise ops split over it)?
func hasConstPiece(t *T) bool {
	if t.Op != Concat {
		return false
	}
	for _, x := range t.A {
		if x.Op == Const {
			return true
		}
	}
	return false
}

func runs(v uint64, w int) int {
	n := 1
	for i := 1; i < w; i++ {
		if (v>>uint(i))&1 != (v>>uint(i-1))&1 {
			n++
		}
	}
	return n
}

func (c *Ctx) bitwise(op Op, a, b *T) *T {
	c.chk(a, b)
	if c.Raw {
		return c.bin(op, a, b)
	}
	if a.Op == Const && b.Op == Const {
		return c.BV(evalBin(op, a.C, b.C, a.W), a.W)
	}
	if a.Op == Const {
		a, b = b, a
	}
	if a == b {
		if op == BXor {
			return c.BV(0, a.W)
		}
		return a
	}
	if b.Op == Const {
		ones := mask(b.W)
		switch {
		case op == BAnd && b.C == 0, op == BOr && b.C == ones:
			return b
		case op == BAnd && b.C == ones, op == BOr && b.C == 0, op == BXor && b.C == 0:
			return a
		case op == BXor && b.C == ones:
			return c.BNot(a)
		}
		if a.Op == Ite && a.A[1].Op == Const && a.A[2].Op == Const {
			return c.Ite(a.A[0], c.bitwise(op, a.A[1], b), c.bitwise(op, a.A[2], b))
		}
		if a.Op == op && a.A[1].Op == Const {
			return c.bitwise(op, a.A[0], c.BV(evalBin(op, a.A[1].C, b.C, a.W), a.W))
		}
		if runs(b.C, b.W) <= 8 {
			// split along runs of equal bits
			var parts []*T
			hi := b.W - 1
			for hi >= 0 {
				lo := hi
				for lo > 0 && (b.C>>uint(lo-1))&1 == (b.C>>uint(hi))&1 {
					lo--
				}
				x := c.Extract(hi, lo, a)
				bit := (b.C >> uint(hi)) & 1
				switch {
				case op == BAnd && bit == 0:
					x = c.BV(0, hi-lo+1)
				case op == BOr && bit == 1:
					x = c.BV(^uint64(0), hi-lo+1)
				case op == BXor && bit == 1:
					x = c.BNot(x)
				}
				parts = append(parts, x)
				hi = lo - 1
			}
			if len(parts) > 1 {
				return c.Concat(parts...)
			}
			return parts[0]
		}
	}
	if a.Op == SExt && b.Op == SExt && a.A[0].W == b.A[0].W {
		return c.SExt(c.bitwise(op, a.A[0], b.A[0]), a.W)
	}
	if hasConstPiece(a) || hasConstPiece(b) {
		cs := cuts(a, b)
		if len(cs) > 1 {
			var parts []*T
			for _, k := range cs {
				parts = append(parts, c.bitwise(op, c.Extract(k[0], k[1], a), c.Extract(k[0], k[1], b)))
			}
			return c.Concat(parts...)
		}
	}
	if b.Op != Const && a.ID > b.ID {
		a, b = b, a
	}
	return c.mk(op, a.W, 0, 0, 0, "", a, b)
}
func (c *Ctx) BAnd(a, b *T) *T { return c.bitwise(BAnd, a, b) }
func (c *Ctx) BOr(a, b *T) *T  { return c.bitwise(BOr, a, b) }
func (c *Ctx) BXor(a, b *T) *T { return c.bitwise(BXor, a, b) }

func (c *Ctx) Shl(a, b *T) *T {
	c.chk(a, b)
	if c.Raw {
		return c.bin(Shl, a, b)
	}
	if b.Op == Const {
		if b.C == 0 {
			return a
		}
		if b.C >= uint64(a.W) {
			return c.BV(0, a.W)
		}
		k := int(b.C)
		return c.Concat(c.Extract(a.W-1-k, 0, a), c.BV(0, k))
	}
	// (x ++ 0_k) << n = (x << n) ++ 0_k, when n survives narrowing
	if a.Op == Concat && len(a.A) == 2 && a.A[1].Op == Const && a.A[1].C == 0 && b.Op == Concat && b.A[0].Op == Const && b.A[0].C == 0 && b.W-b.A[0].W <= 8 && a.A[0].W > 8 {
		return c.Concat(c.Shl(a.A[0], c.Extract(a.A[0].W-1, 0, b)), a.A[1])
	}
	return c.bin(Shl, a, b)
}
func (c *Ctx) LShr(a, b *T) *T {
	c.chk(a, b)
	if c.Raw {
		return c.bin(LShr, a, b)
	}
	if b.Op == Const {
		if b.C == 0 {
			return a
		}
		if b.C >= uint64(a.W) {
			return c.BV(0, a.W)
		}
		k := int(b.C)
		return c.Concat(c.BV(0, k), c.Extract(a.W-1, k, a))
	}
	return c.bin(LShr, a, b)
}
func (c *Ctx) AShr(a, b *T) *T {
	c.chk(a, b)
	if c.Raw {
		return c.bin(AShr, a, b)
	}
	if b.Op == Const {
		if b.C == 0 {
			return a
		}
		k := int(b.C)
		if b.C >= uint64(a.W) {
			k = a.W - 1
		}
		return c.SExt(c.Extract(a.W-1, k, a), a.W)
	}
	return c.bin(AShr, a, b)
}

// ToBV turns a boolean into a w-bit 0/1.
func (c *Ctx) ToBV(b *T, w int) *T { return c.Ite(b, c.BV(1, w), c.BV(0, w)) }

// ---------------------------------------------------------------- evaluation

func evalBin(op Op, a, b uint64, w int) uint64 {
	m := mask(w)
	switch op {
	case Add:
		return (a + b) & m
	case Sub:
		return (a - b) & m
	case Mul:
		return (a * b) & m
	case UDiv:
		if b == 0 {
			return m
		}
		return a / b
	case URem:
		if b == 0 {
			return a
		}
		return a % b
	case SDiv:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return m
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case SRem:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case BAnd:
		return a & b
	case BOr:
		return a | b
	case BXor:
		return a ^ b
	case Shl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case LShr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case AShr:
		if b >= uint64(w) {
			b = uint64(w - 1)
		}
		return uint64(sx(a, w)>>b) & m
	}
	panic("evalBin")
}

// Model assigns variables; missing ones are 0.
type Model map[string]uint64

// Evaluator evaluates terms under one model with memoisation.
type Evaluator struct {
	M    Model
	memo map[*T]uint64
}

func NewEvaluator(m Model) *Evaluator { return &Evaluator{m, make(map[*T]uint64)} }

func (e *Evaluator) Eval(t *T) uint64 {
	if t.Op == Const {
		return t.C
	}
	if v, ok := e.memo[t]; ok {
		return v
	}
	var r uint64
	switch t.Op {
	case Var:
		r = e.M[t.Name] & func() uint64 {
			if t.W == 0 {
				return 1
			}
			return mask(t.W)
		}()
	case Not:
		r = 1 - e.Eval(t.A[0])
	case And:
		r = 1
		for _, x := range t.A {
			if e.Eval(x) == 0 {
				r = 0
				break
			}
		}
	case Or:
		for _, x := range t.A {
			if e.Eval(x) == 1 {
				r = 1
				break
			}
		}
	case Eq:
		if e.Eval(t.A[0]) == e.Eval(t.A[1]) {
			r = 1
		}
	case Ult, Ule, Slt, Sle:
		a, b := e.Eval(t.A[0]), e.Eval(t.A[1])
		w := t.A[0].W
		var ok bool
		switch t.Op {
		case Ult:
			ok = a < b
		case Ule:
			ok = a <= b
		case Slt:
			ok = sx(a, w) < sx(b, w)
		case Sle:
			ok = sx(a, w) <= sx(b, w)
		}
		if ok {
			r = 1
		}
	case Ite:
		if e.Eval(t.A[0]) == 1 {
			r = e.Eval(t.A[1])
		} else {
			r = e.Eval(t.A[2])
		}
	case BNot:
		r = ^e.Eval(t.A[0]) & mask(t.W)
	case Neg:
		r = -e.Eval(t.A[0]) & mask(t.W)
	case Concat:
		for _, x := range t.A {
			r = r<<uint(x.W)&mask(64) | e.Eval(x)
		}
	case Extract:
		r = e.Eval(t.A[0]) >> uint(t.Lo) & mask(t.W)
	case SExt:
		r = uint64(sx(e.Eval(t.A[0]), t.A[0].W)) & mask(t.W)
	default:
		r = evalBin(t.Op, e.Eval(t.A[0]), e.Eval(t.A[1]), t.W)
	}
	e.memo[t] = r
	return r
}

// SInt interprets v as a signed w-bit number.
func SInt(v uint64, w int) int64 { return sx(v, w) }

// Vars collects the variables of the terms.
func Vars(ts ...*T) []*T {
	seen := map[*T]bool{}
	var out []*T
	var walk func(t *T)
	walk = func(t *T) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Op == Var {
			out = append(out, t)
		}
		for _, x := range t.A {
			walk(x)
		}
	}
	for _, t := range ts {
		walk(t)
	}
	return out
}

// ---------------------------------------------------------------- printing

func Sort(w int) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

// Expr prints one node, naming children through name().
func (t *T) Expr(name func(*T) string) string {
	switch t.Op {
	case Const:
		if t.W == 0 {
			if t.C == 1 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.C, t.W)
	case Var:
		return "|" + t.Name + "|"
	case Extract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.Hi, t.Lo, name(t.A[0]))
	case SExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.W-t.A[0].W, name(t.A[0]))
	case Concat:
		s := name(t.A[len(t.A)-1])
		for i := len(t.A) - 2; i >= 0; i-- {
			s = "(concat " + name(t.A[i]) + " " + s + ")"
		}
		return s
	}
	var sb strings.Builder
	sb.WriteByte('(')
	sb.WriteString(opNames[t.Op])
	for _, x := range t.A {
		sb.WriteByte(' ')
		sb.WriteString(name(x))
	}
	sb.WriteByte(')')
	return sb.String()
}

func (t *T) String() string {
	n := 0
	var f func(t *T) string
	f = func(t *T) string {
		n++
		if n > 60 {
			return "…"
		}
		return t.Expr(f)
	}
	return f(t)
}
