package checks

import (
	"fmt"
	"strings"

	"verif/engine/clara"
	"verif/engine/term"
)

// X is a Clara expression together with its meaning: ints are 63-bit terms, bools are Bool terms.
type X struct {
	Op   string // "" for atoms
	A    []*X
	Src  string
	Mean func(o *clara.Out) *term.T
	Bool bool
}

func atom(src string, f func(o *clara.Out) *term.T) *X { return &X{Src: src, Mean: f} }
func batom(src string, f func(o *clara.Out) *term.T) *X {
	return &X{Src: src, Mean: f, Bool: true}
}

// V is a variable (or any expression text) holding vxInt(k).
func V(src string, k int) *X {
	return atom(src, func(o *clara.Out) *term.T { return o.Int(k) })
}

// P is an expression holding vxBool(k).
func P(src string, k int) *X {
	return batom(src, func(o *clara.Out) *term.T { return o.BoolIn(k) })
}

// L is an integer literal.
func L(n int64) *X {
	return atom(fmt.Sprint(n), func(o *clara.Out) *term.T { return o.C.BV(uint64(n), 63) })
}

var boolOps = map[string]bool{"<": true, "<=": true, ">": true, ">=": true, "==": true, "and": true, "or": true, "not": true}

func B(op string, a, b *X) *X { return &X{Op: op, A: []*X{a, b}, Bool: boolOps[op]} }
func U(op string, a *X) *X    { return &X{Op: op, A: []*X{a}, Bool: op == "not"} }
func Q(c, a, b *X) *X         { return &X{Op: "?", A: []*X{c, a, b}, Bool: a.Bool} }

// Eval gives the meaning.
func (x *X) Eval(o *clara.Out) *term.T {
	c := o.C
	if x.Op == "" {
		return x.Mean(o)
	}
	a := x.A[0].Eval(o)
	if len(x.A) == 1 {
		switch x.Op {
		case "-":
			return c.Neg(a)
		case "~":
			return c.BNot(a)
		case "not":
			return c.Not(a)
		}
		panic(x.Op)
	}
	b := x.A[1].Eval(o)
	switch x.Op {
	case "+":
		return c.Add(a, b)
	case "-":
		return c.Sub(a, b)
	case "*":
		return c.Mul(a, b)
	case "/":
		return c.SDiv(a, b)
	case "mod":
		return c.Sub(a, c.Mul(c.SDiv(a, b), b))
	case "&":
		return c.BAnd(a, b)
	case "|":
		return c.BOr(a, b)
	case "^":
		return c.BXor(a, b)
	case "<<":
		return c.Shl(a, c.ZExt(c.Extract(5, 0, b), 63)) // counts 0..62 only: see defined
	case ">>":
		return c.AShr(a, c.ZExt(c.Extract(5, 0, b), 63))
	case "<":
		return c.Slt(a, b)
	case "<=":
		return c.Sle(a, b)
	case ">":
		return c.Slt(b, a)
	case ">=":
		return c.Sle(b, a)
	case "==":
		return c.Eq(a, b)
	case "and":
		return c.And(a, b)
	case "or":
		return c.Or(a, b)
	case "?":
		return c.Ite(a, b, x.A[2].Eval(o))
	}
	panic(x.Op)
}

// Full renders with parentheses around every operator.
func (x *X) Full() string {
	switch {
	case x.Op == "":
		return x.Src
	case x.Op == "?":
		return "((" + x.A[0].Full() + ") ? " + x.A[1].Full() + " : " + x.A[2].Full() + ")"
	case x.Op == "mod":
		return "mod(" + x.A[0].Full() + ", " + x.A[1].Full() + ")"
	case len(x.A) == 1:
		sep := ""
		if x.Op == "not" {
			sep = " "
		}
		return "(" + x.Op + sep + "(" + x.A[0].Full() + "))"
	}
	return "(" + x.A[0].Full() + " " + x.Op + " " + x.A[1].Full() + ")"
}

// side collects, in the whole expression, the divisors and shift counts.
func (x *X) divisors(o *clara.Out) (r []*term.T) {
	for _, a := range x.A {
		r = append(r, a.divisors(o)...)
	}
	if x.Op == "/" || x.Op == "mod" {
		r = append(r, x.A[1].Eval(o))
	}
	return
}

func (x *X) shifts(o *clara.Out) (r []*term.T) {
	for _, a := range x.A {
		r = append(r, a.shifts(o)...)
	}
	if x.Op == "<<" || x.Op == ">>" {
		r = append(r, x.A[1].Eval(o))
	}
	return
}

// defined is the condition under which the expression's value is specified.
func (x *X) defined(o *clara.Out) *term.T {
	c := o.C
	r := c.True
	for _, d := range x.divisors(o) {
		r = c.And(r, c.Ne(d, c.BV(0, 63)))
	}
	for _, n := range x.shifts(o) {
		r = c.And(r, c.Ult(n, c.BV(63, 63)))
	}
	return r
}

// obsOf is the statement that observes an expression.
func obsOf(k int, src string, isBool bool) string {
	f := "vxObs"
	if isBool {
		f = "vxObsB"
	}
	return fmt.Sprintf("    %s(%d, %s)\n", f, k, src)
}

// exprProbe observes each expression of the list and then every variable again. Divisors are
// assumed non-zero by the oracle (a run that stops on division by zero is outside the property).
func exprProbe(name, decls, body string, vars []*X, es []*X, render func(*X) string) *clara.Probe {
	var sb strings.Builder
	sb.WriteString(decls)
	sb.WriteString("fn main() {\n")
	sb.WriteString(body)
	for i, e := range es {
		sb.WriteString(obsOf(100+i, render(e), e.Bool))
	}
	for i, v := range vars {
		sb.WriteString(obsOf(900+i, v.Src, v.Bool))
	}
	sb.WriteString("}\n")
	return &clara.Probe{Name: name, Src: sb.String(), Oracle: func(o *clara.Out) *term.T {
		c := o.C
		var divs []*term.T
		for _, e := range es {
			divs = append(divs, e.divisors(o)...)
		}
		if !o.Returned() {
			r := c.False
			for _, d := range divs {
				r = c.Or(r, c.Eq(d, c.BV(0, 63)))
			}
			return r
		}
		var evs []clara.Ev
		for _, e := range o.Evs {
			if e.Kind == "obs" || e.Kind == "obsb" {
				evs = append(evs, e)
			}
		}
		if len(evs) != len(es)+len(vars) {
			return c.False
		}
		r := c.True
		val := func(x *X) *term.T {
			if x.Bool {
				return c.ToBV(x.Eval(o), 64)
			}
			return c.SExt(x.Eval(o), 64)
		}
		for i, e := range es {
			r = c.And(r, c.Implies(e.defined(o), c.Eq(evs[i].V[0], val(e))))
		}
		for i, v := range vars {
			r = c.And(r, c.Eq(evs[len(es)+i].V[0], val(v)))
		}
		return r
	}}
}
