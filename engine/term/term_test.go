package term

import (
	"math/rand"
	"testing"
)

// Builds random terms through the simplifying constructors next to a directly computed value
// and requires both to agree: the simplifier must never change what a term means.
func TestSimplifierAgreesWithEvaluation(t *testing.T) {
	for seed := int64(0); seed < 3000; seed++ {
		r := rand.New(rand.NewSource(seed))
		c := NewCtx()
		c.Raw = seed%3 == 0
		m := Model{}
		type tv struct {
			t *T
			v uint64
		}
		var bv []tv
		var bo []tv
		ws := []int{1, 3, 8, 16, 63, 64}
		pickC := func(w int) uint64 {
			switch r.Intn(6) {
			case 0:
				return 0
			case 1:
				return 1
			case 2:
				return mask(w)
			case 3:
				return uint64(1) << uint(w-1) & mask(w)
			case 4:
				return uint64(r.Intn(300)) & mask(w)
			}
			return r.Uint64() & mask(w)
		}
		for i, w := range ws {
			v := pickC(w)
			n := string(rune('a' + i))
			m[n] = v
			bv = append(bv, tv{c.Var(n, w), v})
			k := pickC(w)
			bv = append(bv, tv{c.BV(k, w), k})
		}
		bo = append(bo, tv{c.True, 1}, tv{c.False, 0}, tv{c.Var("p", 0), 1})
		m["p"] = 1
		same := func(w int) tv {
			var cand []tv
			for _, x := range bv {
				if x.t.W == w {
					cand = append(cand, x)
				}
			}
			if len(cand) == 0 || r.Intn(6) == 0 {
				k := pickC(w)
				return tv{c.BV(k, w), k}
			}
			return cand[r.Intn(len(cand))]
		}
		b2u := func(b bool) uint64 {
			if b {
				return 1
			}
			return 0
		}
		e := NewEvaluator(m)
		for i := 0; i < 60; i++ {
			x := bv[r.Intn(len(bv))]
			w := x.t.W
			y := same(w)
			var n tv
			switch r.Intn(26) {
			case 24:
				if w <= 8 {
					continue
				}
				k := 1 + r.Intn(8)
				n = tv{c.Shl(x.t, c.ZExt(c.Extract(k-1, 0, y.t), w)), evalBin(Shl, x.v, y.v&mask(k), w)}
				if r.Intn(2) == 0 {
					hi := r.Intn(w)
					n = tv{c.Extract(hi, 0, n.t), n.v & mask(hi+1)}
				}
			case 25:
				if w < 2 || w > 60 {
					continue
				}
				k := min(w, 1+r.Intn(8))
				cnt := c.ZExt(c.Extract(k-1, 0, y.t), w+2)
				n = tv{c.Shl(c.Concat(x.t, c.BV(0, 2)), cnt), evalBin(Shl, x.v<<2, y.v&mask(k), w+2)}
			case 0:
				n = tv{c.Add(x.t, y.t), (x.v + y.v) & mask(w)}
			case 1:
				n = tv{c.Sub(x.t, y.t), (x.v - y.v) & mask(w)}
			case 2:
				n = tv{c.Mul(x.t, y.t), (x.v * y.v) & mask(w)}
			case 3:
				n = tv{c.BAnd(x.t, y.t), x.v & y.v}
			case 4:
				n = tv{c.BOr(x.t, y.t), x.v | y.v}
			case 5:
				n = tv{c.BXor(x.t, y.t), x.v ^ y.v}
			case 6:
				n = tv{c.BNot(x.t), ^x.v & mask(w)}
			case 7:
				n = tv{c.Neg(x.t), -x.v & mask(w)}
			case 8:
				k := uint64(r.Intn(w + 1))
				if k > mask(w) {
					continue
				}
				n = tv{c.Shl(x.t, c.BV(k, w)), evalBin(Shl, x.v, k, w)}
			case 9:
				k := uint64(r.Intn(w + 1))
				if k > mask(w) {
					continue
				}
				n = tv{c.LShr(x.t, c.BV(k, w)), evalBin(LShr, x.v, k, w)}
			case 10:
				k := uint64(r.Intn(w + 1))
				if k > mask(w) {
					continue
				}
				n = tv{c.AShr(x.t, c.BV(k, w)), evalBin(AShr, x.v, k, w)}
			case 11:
				hi := r.Intn(w)
				lo := r.Intn(hi + 1)
				n = tv{c.Extract(hi, lo, x.t), x.v >> uint(lo) & mask(hi-lo+1)}
			case 12:
				z := bv[r.Intn(len(bv))]
				if w+z.t.W > 64 {
					continue
				}
				n = tv{c.Concat(x.t, z.t), x.v<<uint(z.t.W) | z.v}
			case 13:
				nw := w + r.Intn(65-w)
				n = tv{c.SExt(x.t, nw), uint64(sx(x.v, w)) & mask(nw)}
			case 14:
				g := bo[r.Intn(len(bo))]
				v := y.v
				if g.v == 1 {
					v = x.v
				}
				n = tv{c.Ite(g.t, x.t, y.t), v}
			case 15:
				bo = append(bo, tv{c.Eq(x.t, y.t), b2u(x.v == y.v)})
			case 16:
				bo = append(bo, tv{c.Ult(x.t, y.t), b2u(x.v < y.v)})
			case 17:
				bo = append(bo, tv{c.Sle(x.t, y.t), b2u(sx(x.v, w) <= sx(y.v, w))})
			case 18:
				bo = append(bo, tv{c.Slt(x.t, y.t), b2u(sx(x.v, w) < sx(y.v, w))})
			case 19:
				p, q := bo[r.Intn(len(bo))], bo[r.Intn(len(bo))]
				bo = append(bo, tv{c.And(p.t, q.t), p.v & q.v}, tv{c.Or(p.t, q.t), p.v | q.v})
			case 20:
				p, q, s := bo[r.Intn(len(bo))], bo[r.Intn(len(bo))], bo[r.Intn(len(bo))]
				v := s.v
				if p.v == 1 {
					v = q.v
				}
				bo = append(bo, tv{c.Ite(p.t, q.t, s.t), v}, tv{c.Not(p.t), 1 - p.v}, tv{c.Eq(p.t, q.t), b2u(p.v == q.v)})
			case 21:
				n = tv{c.SDiv(x.t, y.t), evalBin(SDiv, x.v, y.v, w)}
			case 22:
				n = tv{c.URem(x.t, y.t), evalBin(URem, x.v, y.v, w)}
			case 23:
				p := bo[r.Intn(len(bo))]
				n = tv{c.ToBV(p.t, w), p.v}
			}
			if n.t != nil {
				bv = append(bv, n)
			}
		}
		for _, x := range append(bv, bo...) {
			if got := e.Eval(x.t); got != x.v {
				t.Fatalf("seed %d: %s (w=%d) evaluates to %#x, want %#x", seed, x.t, x.t.W, got, x.v)
			}
		}
	}
}
