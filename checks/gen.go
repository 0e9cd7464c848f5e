package checks

import (
	"fmt"
	"strings"

	"verif/engine/clara"
	"verif/engine/term"
)

// Generated programs. A small typed language (the core of Clara) is generated from a fixed sequence of
// choices together with its meaning: every expression and statement carries a function that computes it on
// terms, so a program is compared with its meaning for all values of its inputs.

type gk byte

const (
	gInt gk = iota
	gBool
	gStr
	gStruct
	gEnum
	gArr
	gFn
)

type gtype struct {
	k    gk
	name string // Clara type
	// struct
	fields []gfield
	cons   string
	// enum
	cases []gcase
	// array
	elem *gtype
	// function value
	args []*gtype
	ret  *gtype
	pure bool
	deep int // nesting depth of the type
}
type gfield struct {
	name string
	t    *gtype
}
type gcase struct {
	cons string
	fs   []*gtype
}

type gobj struct {
	tag int
	f   []interface{}
}
type gclo struct {
	params []*gvar
	body   *gblock
	cap    map[*gvar]interface{}
}

type gvar struct {
	name   string
	t      *gtype
	assign bool
	depth  int // function nesting depth at which it is declared
}

// gframe is an activation.
type gframe struct {
	r   *Ref
	m   map[*gvar]interface{}
	cap map[*gvar]interface{}
	st  *int
}

func (f *gframe) get(v *gvar) interface{} {
	if x, ok := f.m[v]; ok {
		return x
	}
	if x, ok := f.cap[v]; ok {
		return x
	}
	panic("generated program reads an undefined variable " + v.name)
}
func (f *gframe) set(v *gvar, x interface{}) {
	if _, ok := f.m[v]; ok {
		f.m[v] = x
		return
	}
	if _, ok := f.cap[v]; ok {
		f.cap[v] = x
		return
	}
	panic("assignment to an undefined variable")
}

type gexpr struct {
	src string
	t   *gtype
	ev  func(f *gframe) interface{}
}
type gstmt struct {
	lines []string
	ex    func(f *gframe) (bool, interface{})
}
type gblock struct{ stmts []*gstmt }

func (b *gblock) run(f *gframe) (bool, interface{}) {
	for _, s := range b.stmts {
		*f.st++
		if *f.st > 600 {
			panic("generated program runs too long")
		}
		if ret, v := s.ex(f); ret {
			return true, v
		}
	}
	return false, nil
}
func (b *gblock) lines() []string {
	var r []string
	for _, s := range b.stmts {
		for _, l := range s.lines {
			r = append(r, "    "+l)
		}
	}
	return r
}

type gfunc struct {
	name   string
	params []*gvar
	ret    *gtype
	pure   bool
	body   *gblock
	expr   *gexpr // = expr
}

func (fn *gfunc) call(r *Ref, st *int, args []interface{}) interface{} {
	f := &gframe{r: r, m: map[*gvar]interface{}{}, st: st}
	for i, p := range fn.params {
		f.m[p] = args[i]
	}
	if fn.expr != nil {
		return fn.expr.ev(f)
	}
	_, v := fn.body.run(f)
	return v
}

func (c *gclo) call(r *Ref, st *int, args []interface{}) interface{} {
	f := &gframe{r: r, m: map[*gvar]interface{}{}, cap: c.cap, st: st}
	for i, p := range c.params {
		f.m[p] = args[i]
	}
	_, v := c.body.run(f)
	return v
}

// gen is the generator.
type gen struct {
	seed              uint64
	w                 map[string]int // weights of statement kinds
	types             []*gtype
	funcs             []*gfunc
	scopes            []*gscope
	obs               int
	uniq              int
	size              int
	pure              bool   // inside a pure function
	ret               *gtype // result of the function being generated
	fdepth            int
	caps              []map[*gvar]bool // captures of each enclosing closure
	loops             int
	tInt, tBool, tStr *gtype
	strs              int
	splan             []string // kinds of the statements of the next nesting levels
	xplan             []string // forms of the expressions of the next nesting levels
}
type gscope struct {
	vars  []*gvar
	depth int
}

func (g *gen) n(k int) int {
	g.seed = g.seed*6364136223846793005 + 1442695040888963407
	return int((g.seed >> 33) % uint64(k))
}
func (g *gen) p(percent int) bool { return g.n(100) < percent }

func (g *gen) open()  { g.scopes = append(g.scopes, &gscope{depth: g.fdepth}) }
func (g *gen) close() { g.scopes = g.scopes[:len(g.scopes)-1] }

// visible lists the variables in scope, innermost first, without shadowed ones, that satisfy ok and whose
// use keeps the number of captured variables within the limit.
func (g *gen) visible(ok func(v *gvar) bool) []*gvar {
	seen := map[string]bool{}
	var r []*gvar
	for i := len(g.scopes) - 1; i >= 0; i-- {
		vs := g.scopes[i].vars
		for j := len(vs) - 1; j >= 0; j-- {
			v := vs[j]
			if seen[v.name] {
				continue
			}
			seen[v.name] = true
			if !ok(v) {
				continue
			}
			fits := true
			for d := v.depth; d < g.fdepth; d++ {
				c := g.caps[d]
				if !c[v] && len(c) >= 6 {
					fits = false
				}
			}
			if fits {
				r = append(r, v)
			}
		}
	}
	return r
}

func (g *gen) use(v *gvar) {
	for d := v.depth; d < g.fdepth; d++ {
		g.caps[d][v] = true
	}
}

// fresh declares a variable; its name may shadow one of an outer block.
func (g *gen) fresh(t *gtype, assign bool) *gvar {
	sc := g.scopes[len(g.scopes)-1]
	taken := map[string]bool{}
	for _, v := range sc.vars {
		taken[v.name] = true
	}
	var name string
	if g.p(55) {
		name = []string{"x", "y", "z", "u", "v"}[g.n(5)]
	}
	if name == "" || taken[name] {
		g.uniq++
		name = fmt.Sprintf("v%d", g.uniq)
	}
	return &gvar{name: name, t: t, assign: assign, depth: g.fdepth}
}

// freshFor declares a variable for an initial value, not named like anything in it.
func (g *gen) freshFor(e *gexpr) *gvar {
	v := g.fresh(e.t, true)
	for _, w := range strings.FieldsFunc(e.src, func(r rune) bool {
		return !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9')
	}) {
		if w == v.name {
			g.uniq++
			v.name = fmt.Sprintf("v%d", g.uniq)
			break
		}
	}
	return v
}
func (g *gen) declare(v *gvar) { sc := g.scopes[len(g.scopes)-1]; sc.vars = append(sc.vars, v) }

func (g *gen) anyType() *gtype {
	if g.p(45) {
		return g.tInt
	}
	if g.p(25) {
		return g.tBool
	}
	return g.types[g.n(len(g.types))]
}

func vr(v *gvar) *gexpr {
	return &gexpr{v.name, v.t, func(f *gframe) interface{} { return f.get(v) }}
}

// same tells whether two types are one in Clara (function values differ here also by purity).
func same(a, b *gtype) bool { return a == b }

// expr generates an expression without effects.
func (g *gen) expr(t *gtype, d int) *gexpr {
	vars := g.visible(func(v *gvar) bool { return same(v.t, t) })
	form := -1
	if len(g.xplan) > 0 {
		if g.p(80) {
			form = map[string]int{"var": 0, "path": 4, "call": 5, "tern": 6, "make": 9}[g.xplan[0]]
		}
		old := g.xplan
		g.xplan = g.xplan[1:]
		defer func() { g.xplan = old }()
		if d < 1 {
			d = 1
		}
	}
	for try := 0; try < 3; try++ {
		k := g.n(10)
		if form >= 0 && try == 0 {
			k = form
		}
		switch {
		case k < 3 && len(vars) > 0:
			v := vars[g.n(len(vars))]
			g.use(v)
			return vr(v)
		case k < 5:
			if e := g.path(t); e != nil {
				return e
			}
		case k < 6 && d > 0:
			if e := g.callOf(t, d, true); e != nil {
				return e
			}
		case k == 6 && d > 0:
			c := g.expr(g.tBool, d-1)
			a, b := g.expr(t, d-1), g.expr(t, d-1)
			return &gexpr{"(" + c.src + " ? " + a.src + " : " + b.src + ")", t, func(f *gframe) interface{} {
				if f.r.If(c.ev(f).(*term.T)) {
					return a.ev(f)
				}
				return b.ev(f)
			}}
		case d > 0 || k > 8:
			return g.make(t, d-1)
		}
	}
	if len(vars) > 0 && g.p(70) {
		v := vars[g.n(len(vars))]
		g.use(v)
		return vr(v)
	}
	return g.make(t, d-1)
}

// path reads a field or element of a variable (to any depth).
func (g *gen) path(t *gtype) *gexpr {
	type pt struct {
		src string
		t   *gtype
		ev  func(f *gframe) interface{}
		v   *gvar
	}
	var work, hits []pt
	for _, v := range g.visible(func(v *gvar) bool { return v.t.k == gStruct || v.t.k == gArr }) {
		v := v
		work = append(work, pt{v.name, v.t, func(f *gframe) interface{} { return f.get(v) }, v})
	}
	for i := 0; i < len(work) && i < 60; i++ {
		w := work[i]
		ext := func(src string, tt *gtype, k int) {
			n := pt{src, tt, func(f *gframe) interface{} { return w.ev(f).(*gobj).f[k] }, w.v}
			if same(tt, t) {
				hits = append(hits, n)
			}
			if (tt.k == gStruct || tt.k == gArr) && strings.Count(src, ".")+strings.Count(src, "[") < 3 {
				work = append(work, n)
			}
		}
		if w.t.k == gStruct {
			for k, fl := range w.t.fields {
				ext(w.src+"."+fl.name, fl.t, k)
			}
		} else {
			for k := 0; k < 3; k++ {
				ext(fmt.Sprintf("%s[%d]", w.src, k), w.t.elem, k)
			}
		}
	}
	if len(hits) == 0 {
		return nil
	}
	h := hits[g.n(len(hits))]
	g.use(h.v)
	return &gexpr{h.src, t, h.ev}
}

// callOf generates a call yielding t: of a declared function or a function value.
func (g *gen) callOf(t *gtype, d int, pure bool) *gexpr {
	var cand []func() *gexpr
	for _, fn := range g.funcs {
		fn := fn
		if fn.ret == nil || !same(fn.ret, t) || pure && !fn.pure {
			continue
		}
		cand = append(cand, func() *gexpr { return g.callFn(fn, d, pure) })
	}
	for _, v := range g.visible(func(v *gvar) bool { return v.t.k == gFn && same(v.t.ret, t) && (!pure || v.t.pure) }) {
		v := v
		cand = append(cand, func() *gexpr {
			g.use(v)
			return g.callVal(vr(v), d, pure)
		})
	}
	if len(cand) == 0 {
		return nil
	}
	return cand[g.n(len(cand))]()
}

func (g *gen) arg(t *gtype, d int, pure bool) *gexpr {
	if !pure && g.p(25) && d > 0 {
		if e := g.callOf(t, d-1, false); e != nil {
			return e
		}
	}
	return g.expr(t, d-1)
}

// effect generates an expression with effects: a call, or a choice between such.
func (g *gen) effect(t *gtype, d int) *gexpr {
	if g.p(20) {
		c := g.cond(1)
		a, b := g.callOf(t, d, false), g.expr(t, d)
		if a == nil {
			return nil
		}
		if g.p(50) {
			a, b = b, a
		}
		return &gexpr{c.src + " ? " + a.src + " : " + b.src, t, func(f *gframe) interface{} {
			if f.r.If(c.ev(f).(*term.T)) {
				return a.ev(f)
			}
			return b.ev(f)
		}}
	}
	return g.callOf(t, d, false)
}

// cond generates the condition of a statement.
func (g *gen) cond(d int) *gexpr {
	if !g.pure && g.p(15) {
		if e := g.callOf(g.tBool, d, false); e != nil {
			return e
		}
	}
	return g.expr(g.tBool, d)
}

func (g *gen) callFn(fn *gfunc, d int, pure bool) *gexpr {
	var as []*gexpr
	var ss []string
	for _, p := range fn.params {
		a := g.arg(p.t, d, pure)
		as = append(as, a)
		ss = append(ss, a.src)
	}
	src := fn.name + "(" + strings.Join(ss, ", ") + ")"
	if len(ss) > 0 && plainWord(ss[0]) && g.p(40) {
		src = ss[0] + "." + fn.name + "(" + strings.Join(ss[1:], ", ") + ")"
	}
	return &gexpr{src, fn.ret, func(f *gframe) interface{} {
		var vs []interface{}
		for _, a := range as {
			vs = append(vs, a.ev(f))
		}
		return fn.call(f.r, f.st, vs)
	}}
}

// plainWord: a name that can stand before a selection without parentheses.
func plainWord(s string) bool {
	if s == "true" || s == "false" || s == "" || s[0] >= '0' && s[0] <= '9' {
		return false
	}
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9') {
			return false
		}
	}
	return true
}

func (g *gen) callVal(fe *gexpr, d int, pure bool) *gexpr {
	t := fe.t
	var as []*gexpr
	var ss []string
	for _, p := range t.args {
		a := g.arg(p, d, pure)
		as = append(as, a)
		ss = append(ss, a.src)
	}
	return &gexpr{fe.src + "(" + strings.Join(ss, ", ") + ")", t.ret, func(f *gframe) interface{} {
		var vs []interface{}
		for _, a := range as {
			vs = append(vs, a.ev(f))
		}
		switch c := fe.ev(f).(type) {
		case *gclo:
			return c.call(f.r, f.st, vs)
		case *gfunc:
			return c.call(f.r, f.st, vs)
		}
		panic("not a function")
	}}
}

// make generates a literal, constructor or operator expression.
func (g *gen) make(t *gtype, d int) *gexpr {
	switch t.k {
	case gInt:
		if d <= 0 || g.p(30) {
			n := int64(g.n(20))
			if g.p(20) {
				n = int64(g.n(1 << 30))
			}
			return &gexpr{fmt.Sprint(n), t, func(f *gframe) interface{} { return f.r.K(n) }}
		}
		op := []string{"+", "-", "+", "-", "*", "&", "|", "^"}[g.n(8)]
		a := g.expr(t, d)
		b := g.expr(t, d)
		if op == "*" {
			b = g.make(t, 0)
		}
		return &gexpr{"(" + a.src + " " + op + " " + b.src + ")", t, func(f *gframe) interface{} {
			x, y := a.ev(f).(*term.T), b.ev(f).(*term.T)
			c := f.r.C
			switch op {
			case "+":
				return c.Add(x, y)
			case "-":
				return c.Sub(x, y)
			case "*":
				return c.Mul(x, y)
			case "&":
				return c.BAnd(x, y)
			case "|":
				return c.BOr(x, y)
			}
			return c.BXor(x, y)
		}}
	case gBool:
		if vs := g.visible(func(v *gvar) bool { return v.t == t }); d <= 0 && len(vs) > 0 && g.p(80) {
			v := vs[g.n(len(vs))]
			g.use(v)
			return vr(v)
		}
		if d <= 0 || g.p(8) {
			v := g.p(50)
			return &gexpr{fmt.Sprint(v), t, func(f *gframe) interface{} { return f.r.C.Bool(v) }}
		}
		switch g.n(4) {
		case 0:
			a := g.expr(t, d)
			return &gexpr{"(not " + a.src + ")", t, func(f *gframe) interface{} { return f.r.C.Not(a.ev(f).(*term.T)) }}
		case 1:
			op := []string{"<", "==", ">", "<=", ">="}[g.n(5)]
			a, b := g.expr(g.tInt, d-1), g.expr(g.tInt, d-1)
			return &gexpr{"(" + a.src + " " + op + " " + b.src + ")", t, func(f *gframe) interface{} {
				x, y := a.ev(f).(*term.T), b.ev(f).(*term.T)
				c := f.r.C
				switch op {
				case "<":
					return c.Slt(x, y)
				case ">":
					return c.Slt(y, x)
				case "<=":
					return c.Sle(x, y)
				case ">=":
					return c.Sle(y, x)
				}
				return c.Eq(x, y)
			}}
		}
		op := []string{"and", "or"}[g.n(2)]
		a, b := g.expr(t, d), g.expr(t, d)
		return &gexpr{"(" + a.src + " " + op + " " + b.src + ")", t, func(f *gframe) interface{} {
			x, y := a.ev(f).(*term.T), b.ev(f).(*term.T)
			if op == "and" {
				return f.r.C.And(x, y)
			}
			return f.r.C.Or(x, y)
		}}
	case gStr:
		if d > 0 && g.p(35) {
			a, b := g.expr(t, d-1), g.expr(t, d-1)
			if plainWord(a.src) {
				return &gexpr{a.src + ".append(" + b.src + ")", t, func(f *gframe) interface{} { return a.ev(f).(string) + b.ev(f).(string) }}
			}
			return &gexpr{"append(" + a.src + ", " + b.src + ")", t, func(f *gframe) interface{} { return a.ev(f).(string) + b.ev(f).(string) }}
		}
		g.strs++
		s := fmt.Sprintf("s%d", g.strs)
		return &gexpr{"\"" + s + "\"", t, func(f *gframe) interface{} { return s }}
	case gStruct:
		var fs []*gtype
		for _, f := range t.fields {
			fs = append(fs, f.t)
		}
		return g.construct(t, 0, t.cons, fs, d)
	case gEnum:
		k := g.n(len(t.cases))
		return g.construct(t, k, t.cases[k].cons, t.cases[k].fs, d)
	case gArr:
		fs := []*gtype{t.elem, t.elem, t.elem}
		return g.construct(t, 0, "", fs, d)
	case gFn:
		return g.fnValue(t)
	}
	panic("type")
}

func (g *gen) construct(t *gtype, tag int, cons string, fs []*gtype, d int) *gexpr {
	var as []*gexpr
	var ss []string
	for _, ft := range fs {
		a := g.expr(ft, d-1)
		as = append(as, a)
		ss = append(ss, a.src)
	}
	src := cons + "(" + strings.Join(ss, ", ") + ")"
	if cons == "" {
		src = "[" + strings.Join(ss, ", ") + "]"
	}
	return &gexpr{src, t, func(f *gframe) interface{} {
		*f.st += 4
		o := &gobj{tag: tag}
		for _, a := range as {
			o.f = append(o.f, a.ev(f))
		}
		return o
	}}
}

// fnValue: a declared function of that type, or a closure.
func (g *gen) fnValue(t *gtype) *gexpr {
	var cand []*gfunc
	for _, fn := range g.funcs {
		if fn.name == "go" || fn.ret != t.ret || len(fn.params) != len(t.args) || t.pure && !fn.pure {
			continue
		}
		ok := true
		for i, p := range fn.params {
			ok = ok && same(p.t, t.args[i])
		}
		if ok {
			cand = append(cand, fn)
		}
	}
	if len(cand) > 0 && g.p(30) {
		fn := cand[g.n(len(cand))]
		return &gexpr{fn.name, t, func(f *gframe) interface{} { return fn }}
	}
	// closure
	sp, sr, sd, sl := g.pure, g.ret, g.fdepth, g.loops
	g.pure, g.ret, g.loops = g.pure || t.pure, t.ret, 2
	g.fdepth++
	capt := map[*gvar]bool{}
	g.caps = append(g.caps, capt)
	g.open()
	var ps []*gvar
	var ss []string
	for _, a := range t.args {
		p := g.fresh(a, true)
		g.declare(p)
		ps = append(ps, p)
		ss = append(ss, p.name+": "+a.name)
	}
	var body *gblock
	if g.fdepth > 2 || g.size < -20 {
		e := g.make(t.ret, 0)
		body = &gblock{[]*gstmt{{splitLines("return " + e.src), func(f *gframe) (bool, interface{}) { return true, e.ev(f) }}}}
	} else {
		body = g.fnBody(1 + g.n(3))
	}
	g.close()
	g.caps = g.caps[:len(g.caps)-1]
	g.pure, g.ret, g.fdepth, g.loops = sp, sr, sd, sl
	src := "fn(" + strings.Join(ss, ", ") + ") " + t.ret.name + " {\n" + strings.Join(body.lines(), "\n") + "\n}"
	var cs []*gvar
	for v := range capt {
		cs = append(cs, v)
	}
	return &gexpr{src, t, func(f *gframe) interface{} {
		*f.st += 4
		c := &gclo{params: ps, body: body, cap: map[*gvar]interface{}{}}
		for _, v := range cs {
			c.cap[v] = f.get(v)
		}
		return c
	}}
}

// fnBody generates statements ending in a return (by structure).
func (g *gen) fnBody(n int) *gblock {
	b := &gblock{}
	for i := 0; i < n; i++ {
		if s := g.stmt(2); s != nil {
			b.stmts = append(b.stmts, s)
		}
	}
	b.stmts = append(b.stmts, g.final(1))
	return b
}

// final generates a statement that always returns.
func (g *gen) final(d int) *gstmt {
	if d > 0 && g.p(25) {
		c := g.cond(1)
		a := g.sub(func() *gblock { return g.tail(d - 1) })
		b := g.sub(func() *gblock { return g.tail(d - 1) })
		return &gstmt{ifLines([]*gexpr{c}, []*gblock{a}, b), func(f *gframe) (bool, interface{}) {
			if f.r.If(c.ev(f).(*term.T)) {
				return a.run(f)
			}
			return b.run(f)
		}}
	}
	if d > 0 && g.p(25) {
		if s := g.match(func() *gblock { return g.tail(d - 1) }); s != nil {
			return s
		}
	}
	return g.returnStmt()
}
func (g *gen) tail(d int) *gblock {
	b := &gblock{}
	if g.p(40) {
		if s := g.stmt(0); s != nil {
			b.stmts = append(b.stmts, s)
		}
	}
	b.stmts = append(b.stmts, g.final(d))
	return b
}

func (g *gen) returnStmt() *gstmt {
	var e *gexpr
	if !g.pure && g.p(30) {
		e = g.callOf(g.ret, 2, false)
	}
	if e == nil {
		e = g.expr(g.ret, 2)
	}
	return &gstmt{splitLines("return " + e.src), func(f *gframe) (bool, interface{}) { return true, e.ev(f) }}
}

func splitLines(s string) []string { return strings.Split(s, "\n") }

func (g *gen) sub(f func() *gblock) *gblock {
	g.open()
	defer g.close()
	return f()
}

func (g *gen) block(d int) *gblock {
	b := &gblock{}
	if len(g.splan) > 0 {
		// exactly the planned statement
		for i := 0; i < 20 && len(b.stmts) == 0; i++ {
			if s := g.stmt(d); s != nil {
				b.stmts = append(b.stmts, s)
			}
		}
		return b
	}
	if g.p(4) {
		return b
	}
	n := 1
	if g.p(50) {
		n = 2 + g.n(2)
	}
	for ; n > 0; n-- {
		if s := g.stmt(d); s != nil {
			b.stmts = append(b.stmts, s)
		}
	}
	if !g.pure && g.p(30) {
		// observe something declared here
		vs := g.scopes[len(g.scopes)-1].vars
		if len(vs) > 0 {
			b.stmts = append(b.stmts, g.observe(vr(vs[g.n(len(vs))]), 1)...)
		}
	}
	if g.ret != nil && g.p(12) {
		b.stmts = append(b.stmts, g.returnStmt())
	}
	return b
}

func ifLines(cs []*gexpr, bs []*gblock, els *gblock) []string {
	var r []string
	for i, c := range cs {
		kw := "if "
		if i > 0 {
			kw = "} elseif "
		}
		r = append(r, splitLines(kw+c.src+" {")...)
		r = append(r, bs[i].lines()...)
	}
	if els != nil {
		r = append(r, "} else {")
		r = append(r, els.lines()...)
	}
	return append(r, "}")
}

// stmt generates a statement (nil if the chosen kind is not possible here).
func (g *gen) stmt(d int) *gstmt {
	g.size--
	if g.size <= 0 {
		d = 0
	}
	kinds := []string{"decl", "assign", "set", "if", "while", "range", "each", "match", "obs", "call", "declcall", "asgcall"}
	total := 0
	for _, k := range kinds {
		total += g.w[k]
	}
	x := g.n(total)
	kind := ""
	for _, k := range kinds {
		if x < g.w[k] {
			kind = k
			break
		}
		x -= g.w[k]
	}
	if len(g.splan) > 0 {
		kind = g.splan[0]
		old := g.splan
		g.splan = g.splan[1:]
		defer func() { g.splan = old }()
		if d == 0 {
			d = 1
		}
	}
	switch kind {
	case "decl":
		t := g.anyType()
		e := g.expr(t, 2)
		v := g.freshFor(e)
		g.declare(v)
		return &gstmt{splitLines(v.name + " := " + e.src), func(f *gframe) (bool, interface{}) {
			f.m[v] = e.ev(f)
			return false, nil
		}}
	case "declcall":
		if g.pure {
			return nil
		}
		t := g.anyType()
		e := g.effect(t, 2)
		if e == nil {
			return nil
		}
		v := g.freshFor(e)
		g.declare(v)
		return &gstmt{splitLines(v.name + " := " + e.src), func(f *gframe) (bool, interface{}) {
			f.m[v] = e.ev(f)
			return false, nil
		}}
	case "asgcall":
		if g.pure {
			return nil
		}
		vs := g.visible(func(v *gvar) bool { return v.assign })
		if len(vs) == 0 {
			return nil
		}
		v := vs[g.n(len(vs))]
		g.use(v)
		e := g.effect(v.t, 2)
		if e == nil {
			return nil
		}
		return &gstmt{splitLines(v.name + " = " + e.src), func(f *gframe) (bool, interface{}) {
			f.set(v, e.ev(f))
			return false, nil
		}}
	case "assign":
		vs := g.visible(func(v *gvar) bool { return v.assign && (!g.pure || v.depth == g.fdepth) })
		if len(vs) == 0 {
			return nil
		}
		v := vs[g.n(len(vs))]
		g.use(v)
		e := g.expr(v.t, 2)
		return &gstmt{splitLines(v.name + " = " + e.src), func(f *gframe) (bool, interface{}) {
			f.set(v, e.ev(f))
			return false, nil
		}}
	case "set":
		if g.pure {
			return nil
		}
		vs := g.visible(func(v *gvar) bool { return v.t.k == gStruct || v.t.k == gArr })
		if len(vs) == 0 {
			return nil
		}
		v := vs[g.n(len(vs))]
		g.use(v)
		base, bt := vr(v).ev, v.t
		src := v.name
		for {
			var nt *gtype
			var k int
			if bt.k == gStruct {
				k = g.n(len(bt.fields))
				nt = bt.fields[k].t
				src += "." + bt.fields[k].name
			} else {
				k = g.n(3)
				nt = bt.elem
				src += fmt.Sprintf("[%d]", k)
			}
			if (nt.k == gStruct || nt.k == gArr) && g.p(60) {
				b := base
				base = func(f *gframe) interface{} { return b(f).(*gobj).f[k] }
				bt = nt
				continue
			}
			e := g.expr(nt, 2)
			return &gstmt{splitLines(src + " = " + e.src), func(f *gframe) (bool, interface{}) {
				x := e.ev(f)
				base(f).(*gobj).f[k] = x
				return false, nil
			}}
		}
	case "if":
		if d == 0 {
			return nil
		}
		var cs []*gexpr
		var bs []*gblock
		for n := 1 + g.n(3); n > 0; n-- {
			cs = append(cs, g.cond(2))
			bs = append(bs, g.sub(func() *gblock { return g.block(d - 1) }))
		}
		var els *gblock
		if g.p(50) {
			els = g.sub(func() *gblock { return g.block(d - 1) })
		}
		return &gstmt{ifLines(cs, bs, els), func(f *gframe) (bool, interface{}) {
			for i, c := range cs {
				if f.r.If(c.ev(f).(*term.T)) {
					return bs[i].run(f)
				}
			}
			if els != nil {
				return els.run(f)
			}
			return false, nil
		}}
	case "while":
		if d == 0 || g.loops <= 0 {
			return nil
		}
		g.loops--
		if !g.pure && g.p(40) {
			// the condition counts, so that the body is only what is generated
			g.uniq++
			w := &gvar{name: fmt.Sprintf("w%d", g.uniq), depth: g.fdepth}
			n := 1 + g.n(3)
			b := g.sub(func() *gblock { return g.block(d - 1) })
			g.loops++
			lines := append([]string{w.name + " := [0]", fmt.Sprintf("while upTo(%s, %d) {", w.name, n)}, b.lines()...)
			return &gstmt{append(lines, "}"), func(f *gframe) (bool, interface{}) {
				for i := 0; i < n; i++ {
					if ret, v := b.run(f); ret {
						return ret, v
					}
				}
				return false, nil
			}}
		}
		g.uniq++
		w := &gvar{name: fmt.Sprintf("w%d", g.uniq), t: g.tInt, depth: g.fdepth}
		g.declare(w)
		n := int64(g.n(8)+2) / 3
		cond := fmt.Sprintf("%s < %d", w.name, n)
		var extra *gexpr
		if g.p(30) {
			extra = g.expr(g.tBool, 1)
			cond = extra.src + " and " + cond
		}
		b := g.sub(func() *gblock { return g.block(d - 1) })
		inc := w.name + " = " + w.name + " + 1"
		first := g.p(50)
		lines := append([]string{w.name + " := 0"}, splitLines("while "+cond+" {")...)
		if first {
			lines = append(lines, "    "+inc)
		}
		lines = append(lines, b.lines()...)
		if !first {
			lines = append(lines, "    "+inc)
		}
		lines = append(lines, "}")
		g.loops++
		return &gstmt{lines, func(f *gframe) (bool, interface{}) {
			f.m[w] = f.r.K(0)
			for {
				c := f.r.C.Slt(f.m[w].(*term.T), f.r.K(n))
				if extra != nil {
					c = f.r.C.And(extra.ev(f).(*term.T), c)
				}
				if !f.r.If(c) {
					return false, nil
				}
				step := func() { f.m[w] = f.r.C.Add(f.m[w].(*term.T), f.r.K(1)) }
				if first {
					step()
				}
				if ret, v := b.run(f); ret {
					return ret, v
				}
				if !first {
					step()
				}
			}
		}}
	case "range":
		if d == 0 || g.loops <= 0 {
			return nil
		}
		g.loops--
		defer func() { g.loops++ }()
		lo := int64(g.n(5)) - 2
		hi := lo + int64(g.n(4))
		down := g.p(15)
		src := fmt.Sprintf("%d .. %d", lo, hi)
		if hi == 0 || lo < 0 && g.p(50) {
			lo, hi = 0, int64(g.n(4))
			src = fmt.Sprintf("%d .. %d", lo, hi)
		}
		if down {
			lo, hi = 0, 1+int64(g.n(3))
			src = fmt.Sprintf("%d .. 0", hi)
		}
		var v *gvar
		b := g.sub(func() *gblock {
			v = g.fresh(g.tInt, false)
			g.declare(v)
			return g.block(d - 1)
		})
		lines := append([]string{"for " + v.name + " in " + src + " {"}, b.lines()...)
		return &gstmt{append(lines, "}"), func(f *gframe) (bool, interface{}) {
			for i := lo; i < hi; i++ {
				x := i
				if down {
					x = hi - 1 - (i - lo)
				}
				f.m[v] = f.r.K(x)
				if ret, r := b.run(f); ret {
					return ret, r
				}
			}
			return false, nil
		}}
	case "each":
		if d == 0 || g.loops <= 0 {
			return nil
		}
		var arrs []*gtype
		for _, t := range g.types {
			if t.k == gArr {
				arrs = append(arrs, t)
			}
		}
		if len(arrs) == 0 {
			return nil
		}
		g.loops--
		defer func() { g.loops++ }()
		t := arrs[g.n(len(arrs))]
		e := g.expr(t, 1)
		if !g.pure && g.p(20) {
			if c := g.callOf(t, 1, false); c != nil {
				e = c
			}
		}
		var v *gvar
		b := g.sub(func() *gblock {
			v = g.fresh(t.elem, false)
			g.declare(v)
			return g.block(d - 1)
		})
		lines := append(splitLines("for "+v.name+" in "+e.src+" {"), b.lines()...)
		return &gstmt{append(lines, "}"), func(f *gframe) (bool, interface{}) {
			o := e.ev(f).(*gobj)
			for i := 0; i < 3; i++ {
				f.m[v] = o.f[i]
				if ret, r := b.run(f); ret {
					return ret, r
				}
			}
			return false, nil
		}}
	case "match":
		if d == 0 {
			return nil
		}
		return g.match(func() *gblock { return g.block(d - 1) })
	case "obs":
		if g.pure {
			return nil
		}
		t := g.tInt
		if g.p(35) {
			t = g.tBool
		}
		return g.obsOf(g.expr(t, 2))
	case "call":
		if g.pure {
			return nil
		}
		var fs []*gfunc
		for _, fn := range g.funcs {
			if !fn.pure {
				fs = append(fs, fn)
			}
		}
		if len(fs) == 0 {
			return nil
		}
		e := g.callFn(fs[g.n(len(fs))], 2, false)
		return &gstmt{splitLines(e.src), func(f *gframe) (bool, interface{}) { e.ev(f); return false, nil }}
	}
	panic(kind)
}

func (g *gen) obsOf(e *gexpr) *gstmt {
	g.obs++
	k := g.obs
	fn := map[gk]string{gInt: "vxObs", gBool: "vxObsB", gStr: "vxObsStr"}[e.t.k]
	return &gstmt{splitLines(fmt.Sprintf("%s(%d, %s)", fn, k, e.src)), func(f *gframe) (bool, interface{}) {
		switch v := e.ev(f).(type) {
		case string:
			f.r.ObsS(k, f.r.Str(v))
		case *term.T:
			if e.t.k == gBool {
				f.r.ObsB(k, v)
			} else {
				f.r.Obs(k, v)
			}
		}
		return false, nil
	}}
}

func (g *gen) match(body func() *gblock) *gstmt {
	var es []*gtype
	for _, t := range g.types {
		if t.k == gEnum {
			es = append(es, t)
		}
	}
	if len(es) == 0 {
		return nil
	}
	t := es[g.n(len(es))]
	e := g.expr(t, 1)
	if !g.pure && g.p(25) {
		if c := g.callOf(t, 1, false); c != nil {
			e = c
		}
	}
	order := make([]int, len(t.cases))
	for i := range order {
		order[i] = i
	}
	for i := len(order) - 1; i > 0; i-- {
		j := g.n(i + 1)
		order[i], order[j] = order[j], order[i]
	}
	vars := make([][]*gvar, len(t.cases))
	blocks := make([]*gblock, len(t.cases))
	lines := splitLines("match " + e.src + " {")
	for _, k := range order {
		k := k
		blocks[k] = g.sub(func() *gblock {
			for _, ft := range t.cases[k].fs {
				v := g.fresh(ft, true)
				g.declare(v)
				vars[k] = append(vars[k], v)
			}
			return body()
		})
		var ns []string
		for _, v := range vars[k] {
			ns = append(ns, v.name)
		}
		lines = append(lines, "    case "+t.cases[k].cons+"("+strings.Join(ns, ", ")+"):")
		for _, l := range blocks[k].lines() {
			lines = append(lines, "    "+l)
		}
	}
	return &gstmt{append(lines, "}"), func(f *gframe) (bool, interface{}) {
		o := e.ev(f).(*gobj)
		for i, v := range vars[o.tag] {
			f.m[v] = o.f[i]
		}
		return blocks[o.tag].run(f)
	}}
}

// observe lists statements observing a value to its depth.
func (g *gen) observe(e *gexpr, d int) []*gstmt {
	t := e.t
	sub := func(src string, tt *gtype, k int) []*gstmt {
		return g.observe(&gexpr{src, tt, func(f *gframe) interface{} { return e.ev(f).(*gobj).f[k] }}, d-1)
	}
	switch t.k {
	case gInt, gBool, gStr:
		return []*gstmt{g.obsOf(e)}
	}
	if d == 0 {
		return nil
	}
	var r []*gstmt
	switch t.k {
	case gStruct:
		for k, f := range t.fields {
			r = append(r, sub(e.src+"."+f.name, f.t, k)...)
		}
	case gArr:
		for k := 0; k < 3; k++ {
			r = append(r, sub(fmt.Sprintf("%s[%d]", e.src, k), t.elem, k)...)
		}
	case gEnum:
		lines := splitLines("match " + e.src + " {")
		vars := make([][]*gvar, len(t.cases))
		blocks := make([]*gblock, len(t.cases))
		for k, c := range t.cases {
			var ns []string
			blocks[k] = &gblock{}
			for _, ft := range c.fs {
				g.uniq++
				v := &gvar{name: fmt.Sprintf("o%d", g.uniq), t: ft}
				vars[k] = append(vars[k], v)
				ns = append(ns, v.name)
				blocks[k].stmts = append(blocks[k].stmts, g.observe(vr(v), d-1)...)
			}
			blocks[k].stmts = append(blocks[k].stmts, g.obsOf(g.make(g.tInt, 0)))
			lines = append(lines, "    case "+c.cons+"("+strings.Join(ns, ", ")+"):")
			for _, l := range blocks[k].lines() {
				lines = append(lines, "    "+l)
			}
		}
		r = append(r, &gstmt{append(lines, "}"), func(f *gframe) (bool, interface{}) {
			o := e.ev(f).(*gobj)
			for i, v := range vars[o.tag] {
				f.m[v] = o.f[i]
			}
			return blocks[o.tag].run(f)
		}})
	case gFn:
		if plainWord(e.src) && t.ret.k <= gStr {
			r = append(r, g.obsOf(g.callVal(e, 0, true)))
		}
	}
	return r
}

// genFocus is the mix of constructs of a family of programs.
type genFocus struct {
	w                map[string]int
	structs, enums   int
	funcs            int
	closures, arrays bool
	size             int
	plan             []string // kinds of nested statements
	forms            []string // forms of nested expressions
}

var genBase = map[string]int{"decl": 14, "assign": 12, "set": 8, "if": 8, "while": 4, "range": 4, "each": 3, "match": 5, "obs": 10, "call": 3, "declcall": 6, "asgcall": 3}

func mix(kv ...interface{}) map[string]int {
	r := map[string]int{}
	for k, v := range genBase {
		r[k] = v
	}
	for i := 0; i < len(kv); i += 2 {
		r[kv[i].(string)] = kv[i+1].(int)
	}
	return r
}

// program generates one program; ok is false if it has too many paths to be worth running.
func genProgram(seed uint64, fo genFocus) (src string, mean func(r *Ref)) {
	g := &gen{seed: seed*2862933555777941757 + 3037000493, w: fo.w, size: 10}
	for i := 0; i < 5; i++ {
		g.n(2)
	}
	g.tInt, g.tBool, g.tStr = &gtype{k: gInt, name: "int"}, &gtype{k: gBool, name: "bool"}, &gtype{k: gStr, name: "string"}
	simple := func() *gtype {
		switch k := g.n(10); {
		case k < 5:
			return g.tInt
		case k < 8:
			return g.tBool
		case k < 9:
			return g.tStr
		}
		return g.tInt
	}
	var heap []*gtype
	ft := func() *gtype {
		if len(heap) > 0 && g.p(30) {
			return heap[g.n(len(heap))]
		}
		return simple()
	}
	g.types = []*gtype{g.tInt, g.tBool, g.tStr}
	addT := func(t *gtype) { g.types = append(g.types, t); heap = append(heap, t) }
	var decls []string
	if fo.arrays {
		addT(&gtype{k: gArr, name: "[]int", elem: g.tInt})
	}
	for i := 0; i < fo.structs; i++ {
		t := &gtype{k: gStruct, name: fmt.Sprintf("st%d", i), cons: fmt.Sprintf("St%d", i)}
		s := "struct " + t.name + " {\n"
		for j, n := 0, 1+g.n(6); j < n; j++ {
			f := gfield{fmt.Sprintf("f%c", 'a'+j), ft()}
			t.fields = append(t.fields, f)
			s += "    " + f.name + ": " + f.t.name + "\n"
		}
		decls = append(decls, s+"}\n")
		addT(t)
		if fo.arrays && g.p(40) {
			addT(&gtype{k: gArr, name: "[]" + t.name, elem: t})
		}
	}
	for i := 0; i < fo.enums; i++ {
		t := &gtype{k: gEnum, name: fmt.Sprintf("en%d", i)}
		s := "enum " + t.name + " {\n"
		for j, n := 0, 1+g.n(4); j < n; j++ {
			c := gcase{cons: fmt.Sprintf("E%dc%d", i, j)}
			var ss []string
			for k, m := 0, g.n(6); k < m; k++ {
				x := ft()
				c.fs = append(c.fs, x)
				ss = append(ss, fmt.Sprintf("g%d: %s", k, x.name))
			}
			t.cases = append(t.cases, c)
			s += "    " + c.cons + "(" + strings.Join(ss, ", ") + ")\n"
		}
		decls = append(decls, s+"}\n")
		addT(t)
	}
	if fo.closures {
		for _, pure := range []bool{true, false} {
			for i := 0; i < 2; i++ {
				t := &gtype{k: gFn, ret: simple(), pure: pure}
				if t.ret == g.tStr {
					t.ret = g.tInt
				}
				var ss []string
				for k, m := 0, g.n(4+i); k < m; k++ {
					a := ft()
					if a.k == gFn {
						a = g.tInt
					}
					t.args = append(t.args, a)
					ss = append(ss, a.name)
				}
				t.name = "fn(" + strings.Join(ss, ", ") + ") " + t.ret.name
				addT(t)
			}
		}
	}
	sigs := map[string]bool{}
	for i := 0; i < fo.funcs; i++ {
		fn := &gfunc{name: fmt.Sprintf("h%d", i), pure: g.p(45), ret: g.anyType()}
		g.scopes, g.fdepth, g.caps = nil, 0, nil
		g.open()
		var ss, ts []string
		for k, m := 0, g.n(7); k < m; k++ {
			p := g.fresh(g.anyType(), true)
			g.declare(p)
			fn.params = append(fn.params, p)
			ss = append(ss, p.name+": "+p.t.name)
			ts = append(ts, p.t.name)
		}
		if sig := strings.Join(ts, ","); !sigs[sig] && g.p(40) && !strings.Contains(sig, "fn") {
			fn.name = "go"
			sigs[sig] = true
		}
		g.pure, g.ret, g.size, g.loops = fn.pure, fn.ret, fo.size/3, 1
		head := "fn " + fn.name + "(" + strings.Join(ss, ", ") + ") " + fn.ret.name
		if g.p(20) {
			fn.expr = g.expr(fn.ret, 2)
			decls = append(decls, head+" = "+fn.expr.src+"\n")
		} else {
			fn.body = g.fnBody(1 + g.n(4))
			decls = append(decls, head+" {\n"+strings.Join(fn.body.lines(), "\n")+"\n}\n")
		}
		g.close()
		g.funcs = append(g.funcs, fn)
	}
	// main
	g.scopes, g.fdepth, g.caps, g.pure, g.ret, g.size, g.loops = nil, 0, nil, false, nil, fo.size, 2
	g.open()
	body := &gblock{}
	for i := 0; i < 3; i++ {
		i := i
		v := &gvar{name: fmt.Sprintf("a%d", i), t: g.tInt, assign: true}
		g.declare(v)
		body.stmts = append(body.stmts, &gstmt{[]string{fmt.Sprintf("a%d := vxInt(%d)", i, i)}, func(f *gframe) (bool, interface{}) { f.m[v] = f.r.Int(i); return false, nil }})
	}
	for i := 0; i < 3; i++ {
		i := i
		v := &gvar{name: fmt.Sprintf("p%d", i), t: g.tBool, assign: true}
		g.declare(v)
		body.stmts = append(body.stmts, &gstmt{[]string{fmt.Sprintf("p%d := vxBool(%d)", i, i)}, func(f *gframe) (bool, interface{}) { f.m[v] = f.r.BoolIn(i); return false, nil }})
	}
	if fo.plan != nil || fo.forms != nil {
		// one variable of each type, then the planned statements
		for _, t := range g.types {
			e := g.make(t, 1)
			v := g.freshFor(e)
			g.declare(v)
			body.stmts = append(body.stmts, &gstmt{splitLines(v.name + " := " + e.src), func(f *gframe) (bool, interface{}) {
				f.m[v] = e.ev(f)
				return false, nil
			}})
		}
		n := 0
		for i := 0; i < 20 && n < 2; i++ {
			g.splan, g.xplan = fo.plan, fo.forms
			if s := g.stmt(3); s != nil {
				body.stmts = append(body.stmts, s)
				n++
			}
			g.splan, g.xplan = nil, nil
		}
		g.size = 0
	}
	for g.size > 0 {
		if s := g.stmt(3); s != nil {
			body.stmts = append(body.stmts, s)
		}
	}
	for _, v := range g.scopes[0].vars {
		body.stmts = append(body.stmts, g.observe(vr(v), 2)...)
	}
	src = ""
	for i := len(decls) - 1; i > 0; i-- {
		j := g.n(i + 1)
		decls[i], decls[j] = decls[j], decls[i]
	}
	if s := strings.Join(decls, "") + strings.Join(body.lines(), "\n"); strings.Contains(s, "upTo(") {
		decls = append(decls, "fn upTo(c: []int, n: int) bool {\n    c[0] = c[0] + 1\n    return c[0] <= n\n}\n")
	}
	src = strings.Join(decls, "") + "fn main() {\n" + strings.Join(body.lines(), "\n") + "\n}\n"
	return src, func(r *Ref) {
		st := 0
		body.run(&gframe{r: r, m: map[*gvar]interface{}{}, st: &st})
	}
}

// genPaths bounds the number of branches of the meaning (max+1 if there are more, or it runs too long).
func genPaths(mean func(r *Ref), max int) (n int) {
	defer func() {
		if e := recover(); e != nil {
			n = max + 1
		}
	}()
	c := term.NewCtx()
	return clara.Branches(c, mean, max)
}

// genProbes gives n programs of a family.
func genProbes(prefix string, n int, seed uint64, fo genFocus) []*clara.Probe {
	var out []*clara.Probe
	for k := uint64(0); len(out) < n; k++ {
		src, mean := genProgram(seed*1000+k, fo)
		if len(src) > 8000 || genPaths(mean, 24) > 24 {
			continue
		}
		out = append(out, pr(fmt.Sprintf("%s-%d", prefix, k), src, mean))
	}
	return out
}

// genFamilies: the generated programs of each property, by the constructs it is about.
var genFamilies = map[string]genFocus{
	"C12": {w: mix("if", 14, "while", 8, "range", 8, "each", 6), structs: 1, arrays: true, funcs: 2, size: 24},
	"C13": {w: mix("match", 16), structs: 1, enums: 2, funcs: 2, size: 20},
	"C14": {w: mix("declcall", 16, "call", 8, "asgcall", 6), structs: 1, enums: 1, arrays: true, funcs: 5, size: 18},
	"C15": {w: mix("declcall", 12), structs: 1, enums: 1, closures: true, funcs: 3, size: 18},
	"C16": {w: mix("decl", 24, "if", 12, "while", 8, "range", 6, "each", 5), structs: 1, enums: 1, closures: true, arrays: true, funcs: 1, size: 24},
	"C17": {w: mix("set", 24, "if", 4, "while", 2), structs: 3, arrays: true, funcs: 3, size: 22},
	"C20": {w: mix("set", 10, "asgcall", 8), structs: 2, enums: 1, closures: true, arrays: true, funcs: 3, size: 24},
}

// addGenerated adds the generated programs to the property's check.
func addGenerated(id string, quick int) {
	c := all[id]
	old := c.Probes
	c.Probes = func(th bool) []*clara.Probe {
		n := quick
		if th {
			n *= 12
		}
		return append(old(th), genProbes("gen", n, uint64(id[1]-'0')*10+uint64(id[2]-'0'), genFamilies[id])...)
	}
	c.Bounds = append(c.Bounds, fmt.Sprintf("%d generated programs (%d in the thorough tier) of up to 24 statements mixing the constructs of the property with functions, records, sums, arrays, closures and loops, each compared with its meaning for all values of three ints and three bools on all (at most 24) paths", quick, 12*quick))
}

// planned gives, for every plan of nested statement kinds and every list of nested expression forms, n programs.
func planned(prefix string, seed uint64, n int, fo genFocus, plans, forms [][]string) []*clara.Probe {
	var out []*clara.Probe
	if plans == nil {
		plans = [][]string{nil}
	}
	if forms == nil {
		forms = [][]string{nil}
	}
	seed *= 1000000
	for _, p := range plans {
		for _, x := range forms {
			fo.plan, fo.forms = p, x
			got := 0
			for k := 0; k < 40 && got < n; k++ {
				seed++
				src, mean := genProgram(seed, fo)
				if len(src) > 8000 || genPaths(mean, 24) > 24 {
					continue
				}
				got++
				out = append(out, pr(fmt.Sprintf("%s-%s-%s-%d", prefix, strings.Join(p, "."), strings.Join(x, "."), got), src, mean))
			}
		}
	}
	return out
}

func pairs(as, bs []string) [][]string {
	var r [][]string
	for _, a := range as {
		for _, b := range bs {
			r = append(r, []string{a, b})
		}
	}
	return r
}
func singles(as []string) [][]string {
	var r [][]string
	for _, a := range as {
		r = append(r, []string{a})
	}
	return r
}
