package gosym

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"

	"verif/engine/term"
)

// A predicate over characters (isHexadecimal and the like) is a chain of comparisons; interpreting it
// on a symbolic byte would branch once per alternative. Where a function of the code under test takes
// one integer, returns a bool and only computes (no loads, stores, allocations or calls except of such
// functions), its table over the 256 values of the byte becomes a term instead.

const maxPureSteps = 4096

type pureEval struct {
	p     *Program
	steps int
	depth int
}

type pureBail struct{}

func (e *pureEval) call(f *ssa.Function, args []interface{}) (r interface{}) {
	if f.Pkg != nil {
		f.Pkg.Build()
	}
	if e.depth++; e.depth > 20 || len(f.Blocks) == 0 || len(f.FreeVars) > 0 || f.Recover != nil {
		panic(pureBail{})
	}
	defer func() { e.depth-- }()
	env := map[ssa.Value]interface{}{}
	for i, a := range f.Params {
		env[a] = args[i]
	}
	val := func(v ssa.Value) interface{} {
		if c, ok := v.(*ssa.Const); ok {
			if c.Value == nil {
				panic(pureBail{})
			}
			switch c.Value.Kind() {
			case constant.Bool:
				return constant.BoolVal(c.Value)
			case constant.Int:
				n, ok := constant.Int64Val(c.Value)
				if !ok {
					panic(pureBail{})
				}
				return n
			case constant.String:
				return constant.StringVal(c.Value)
			}
			panic(pureBail{})
		}
		x, ok := env[v]
		if !ok {
			panic(pureBail{})
		}
		return x
	}
	var prev *ssa.BasicBlock
	b := f.Blocks[0]
	for {
		var next *ssa.BasicBlock
		phis := map[ssa.Value]interface{}{}
		for _, in := range b.Instrs {
			if e.steps++; e.steps > maxPureSteps {
				panic(pureBail{})
			}
			ph, ok := in.(*ssa.Phi)
			if !ok {
				for k, v := range phis {
					env[k] = v
				}
				phis = nil
			}
			switch x := in.(type) {
			case *ssa.Phi:
				for i, q := range b.Preds {
					if q == prev {
						phis[ph] = val(ph.Edges[i])
					}
				}
			case *ssa.DebugRef:
			case *ssa.If:
				c, ok := val(x.Cond).(bool)
				if !ok {
					panic(pureBail{})
				}
				if c {
					next = b.Succs[0]
				} else {
					next = b.Succs[1]
				}
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.Return:
				if len(x.Results) != 1 {
					panic(pureBail{})
				}
				return val(x.Results[0])
			case *ssa.UnOp:
				if v, ok := val(x.X).(bool); ok && x.Op == token.NOT {
					env[x] = !v
				} else {
					panic(pureBail{})
				}
			case *ssa.BinOp:
				env[x] = pureBin(x, val(x.X), val(x.Y))
			case *ssa.Convert:
				n, ok := val(x.X).(int64)
				if !ok {
					panic(pureBail{})
				}
				env[x] = pureWrap(n, x.Type())
			case *ssa.ChangeType:
				env[x] = val(x.X)
			case *ssa.Call:
				c := x.Common()
				g := c.StaticCallee()
				if g == nil || c.IsInvoke() {
					panic(pureBail{})
				}
				var as []interface{}
				for _, a := range c.Args {
					as = append(as, val(a))
				}
				env[x] = e.callee(g, as)
			default:
				panic(pureBail{})
			}
		}
		if next == nil {
			panic(pureBail{})
		}
		prev, b = b, next
	}
}

var pureUnicode = map[string]func(rune) bool{
	"unicode.IsDigit": unicode.IsDigit, "unicode.IsLetter": unicode.IsLetter, "unicode.IsSpace": unicode.IsSpace, "unicode.IsUpper": unicode.IsUpper,
	"unicode.IsLower": unicode.IsLower, "unicode.IsNumber": unicode.IsNumber, "unicode.IsPunct": unicode.IsPunct, "unicode.IsControl": unicode.IsControl,
	"unicode.IsPrint": unicode.IsPrint, "unicode.IsSymbol": unicode.IsSymbol, "unicode.IsGraphic": unicode.IsGraphic,
}

func (e *pureEval) callee(g *ssa.Function, as []interface{}) interface{} {
	n := g.String()
	if f := pureUnicode[n]; f != nil {
		return f(rune(as[0].(int64)))
	}
	switch n {
	case "strings.ContainsRune":
		return strings.ContainsRune(as[0].(string), rune(as[1].(int64)))
	case "strings.IndexRune":
		return int64(strings.IndexRune(as[0].(string), rune(as[1].(int64))))
	case "strings.IndexByte":
		return int64(strings.IndexByte(as[0].(string), byte(as[1].(int64))))
	case "unicode.ToLower":
		return int64(unicode.ToLower(rune(as[0].(int64))))
	case "unicode.ToUpper":
		return int64(unicode.ToUpper(rune(as[0].(int64))))
	}
	if !e.p.fn(g).own {
		panic(pureBail{})
	}
	return e.call(g, as)
}

func pureWrap(n int64, t types.Type) int64 {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		panic(pureBail{})
	}
	switch b.Kind() {
	case types.Int8:
		return int64(int8(n))
	case types.Int16:
		return int64(int16(n))
	case types.Int32:
		return int64(int32(n))
	case types.Int, types.Int64:
		return n
	case types.Uint8:
		return int64(uint8(n))
	case types.Uint16:
		return int64(uint16(n))
	case types.Uint32:
		return int64(uint32(n))
	}
	panic(pureBail{})
}

func pureBin(x *ssa.BinOp, a, b interface{}) interface{} {
	if p, ok := a.(bool); ok {
		q, ok := b.(bool)
		if ok && x.Op == token.EQL {
			return p == q
		}
		if ok && x.Op == token.NEQ {
			return p != q
		}
		panic(pureBail{})
	}
	m, ok1 := a.(int64)
	n, ok2 := b.(int64)
	if !ok1 || !ok2 {
		panic(pureBail{})
	}
	switch x.Op {
	case token.EQL:
		return m == n
	case token.NEQ:
		return m != n
	case token.LSS:
		return m < n
	case token.LEQ:
		return m <= n
	case token.GTR:
		return m > n
	case token.GEQ:
		return m >= n
	case token.ADD:
		return pureWrap(m+n, x.Type())
	case token.SUB:
		return pureWrap(m-n, x.Type())
	case token.AND:
		return pureWrap(m&n, x.Type())
	case token.OR:
		return pureWrap(m|n, x.Type())
	case token.XOR:
		return pureWrap(m^n, x.Type())
	}
	panic(pureBail{})
}

type pureKey struct {
	f *Fn
	t *term.T
}

// pure gives the result of a predicate on one symbolic byte as a term, nil if it is not one.
func (st *State) pure(fn *Fn, args []V) *term.T {
	if !fn.own || len(args) != 1 || fn.nonpure.Load() {
		return nil
	}
	a, ok := args[0].R.(*term.T)
	if !ok || a.W == 0 {
		return nil
	}
	sig := fn.F.Signature
	if sig.Results().Len() != 1 || !isBasic(sig.Results().At(0).Type(), types.IsBoolean) || !isBasic(fn.F.Params[0].Type(), types.IsInteger) {
		return nil
	}
	vs := st.e.vars(a)
	if len(vs) != 1 || vs[0].W > 8 {
		return nil
	}
	k := pureKey{fn, a}
	if t, ok := st.e.pures[k]; ok {
		return t
	}
	c := st.e.T
	tab, ok := st.e.pureTable(fn, a, vs[0])
	var r *term.T
	if !ok {
		fn.nonpure.Store(true)
	} else {
		r = c.False
		for i := 0; i < len(tab); {
			if !tab[i] {
				i++
				continue
			}
			j := i
			for j+1 < len(tab) && tab[j+1] {
				j++
			}
			w := vs[0].W
			r = c.Or(r, c.And(c.Ule(c.BV(uint64(i), w), vs[0]), c.Ule(vs[0], c.BV(uint64(j), w))))
			i = j + 1
		}
	}
	if st.e.pures == nil {
		st.e.pures = map[pureKey]*term.T{}
	}
	st.e.pures[k] = r
	return r
}

func isBasic(t types.Type, info types.BasicInfo) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&info != 0
}

func (e *Engine) pureTable(fn *Fn, a, v *term.T) (tab []bool, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(pureBail); !is {
				if _, is := r.(error); !is { // a failed type assertion is as good as a bail out
					panic(r)
				}
			}
			tab, ok = nil, false
		}
	}()
	for i := 0; i < 1<<v.W; i++ {
		x := term.NewEvaluator(term.Model{v.Name: uint64(i)}).Eval(a)
		n := pureWrap(int64(x), fn.F.Params[0].Type())
		pe := &pureEval{p: e.P}
		r, is := pe.call(fn.F, []interface{}{n}).(bool)
		if !is {
			return nil, false
		}
		tab = append(tab, r)
	}
	return tab, true
}
