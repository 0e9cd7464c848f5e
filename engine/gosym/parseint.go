package gosym

import (
	"go/types"

	"verif/engine/term"
)

// strconv.ParseInt and ParseUint on digit strings with symbolic digits: one term for the value and one
// decision for the range, where interpreting their source would branch on every digit. Everything but
// plain digits after an optional sign and prefix is left to the source.

// Within reports whether every value the byte can have on this path satisfies f.
func (st *State) Within(b *term.T, f func(byte) bool) bool { return st.within(b, f) }

// within reports whether every value the byte can have on this path satisfies f.
func (st *State) within(b *term.T, f func(byte) bool) bool {
	if b.IsConst() {
		return f(byte(b.C))
	}
	if b.Op != term.Var {
		return false
	}
	d := st.domain(b)
	for i := 0; i < 256; i++ {
		if d[i>>6]>>(i&63)&1 != 0 && !f(byte(i)) {
			return false
		}
	}
	return true
}

func digitIn(base uint64) func(byte) bool {
	return func(b byte) bool {
		switch {
		case '0' <= b && b <= '9':
			return uint64(b-'0') < base
		case 'a' <= b|32 && b|32 <= 'z':
			return uint64(b|32-'a')+10 < base
		}
		return false
	}
}

func parseInt(st *State, a []V, signed bool) (V, bool) {
	s := a[0].str()
	if s.sym == nil || a[1].R != nil || a[2].R != nil || s.Len() == 0 {
		return V{}, false
	}
	c := st.e.T
	b := s.sym
	base, size := a[1].N, a[2].N
	if size == 0 {
		size = 64
	}
	if size > 64 || base != 0 && base != 10 && base != 16 {
		return V{}, false
	}
	neg := false
	if signed && b[0].IsConst() && (b[0].C == '-' || b[0].C == '+') {
		neg = b[0].C == '-'
		b = b[1:]
	}
	if base == 0 {
		if len(b) >= 3 && b[0].IsConst() && b[0].C == '0' && b[1].IsConst() && b[1].C|32 == 'x' {
			base, b = 16, b[2:]
		} else if len(b) >= 1 && st.within(b[0], digitIn(10)) && st.within(b[0], func(x byte) bool { return x != '0' }) {
			base = 10
		} else {
			return V{}, false
		}
	}
	if len(b) == 0 {
		return V{}, false
	}
	for _, x := range b {
		if !st.within(x, digitIn(base)) {
			return V{}, false
		}
	}
	// the low digits, which cannot overflow 64 bits, and those above them
	low := 19
	if base == 16 {
		low = 16
	}
	high := b[:max(0, len(b)-low)]
	var over []*term.T
	for _, x := range high {
		over = append(over, c.Not(c.Eq(x, c.BV('0', 8))))
	}
	v := c.BV(0, 64)
	for _, x := range b[len(high):] {
		d := c.Sub(x, c.BV('0', 8))
		if base == 16 {
			d = c.Ite(c.Ult(c.BV('9', 8), x), c.Sub(c.BOr(x, c.BV(32, 8)), c.BV('a'-10, 8)), d)
		}
		v = c.Add(c.Mul(v, c.BV(base, 64)), c.ZExt(d, 64))
	}
	if base == 10 && len(high) > 0 && !signed && size == 64 {
		return V{}, false // 20 digits may fit, every other limit is below 10^19
	}
	lim := ^uint64(0)
	if signed {
		lim = 1<<(size-1) - 1
		if neg {
			lim++
		}
	} else if size < 64 {
		lim = 1<<size - 1
	}
	over = append(over, c.Ult(c.BV(lim, 64), v))
	if st.decide(c.Or(over...)) {
		num := st.e.P.Pkgs["strconv"]
		if num == nil {
			return V{}, false
		}
		id := st.alloc(3)
		o := st.wobj(id)
		o.s[0] = mkStr(map[bool]string{true: "ParseInt", false: "ParseUint"}[signed])
		o.s[1] = a[0]
		o.s[2] = st.obj(st.e.P.globals[num.Var("ErrRange")]).s[0]
		err := V{R: &Iface{t: st.e.P.rt(types.NewPointer(num.Type("NumError").Type())), v: V{N: id << 24}}}
		if neg {
			lim = -lim
		}
		return pair(V{N: lim}, err), true
	}
	if neg {
		v = c.Neg(v)
	}
	return pair(V{R: v}, V{}), true
}
