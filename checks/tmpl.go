package checks

import (
	"fmt"
	"strings"

	"verif/engine/gosym"
	"verif/engine/term"
)

// tp is a source template: {name} is a hole filled by one of several texts; {name.x} is filled
// according to the same choice with other texts (holes["name.x"]).
type tp struct {
	text  string
	holes map[string][]string
}

// fill adds the template to the source.
func (t tp) fill(s *gosym.Src) {
	x := t.text
	for {
		i := strings.Index(x, "{{")
		if i < 0 {
			s.Lit(x)
			return
		}
		j := strings.Index(x, "}}")
		name := x[i+2 : j]
		alts := t.holes[name]
		if alts == nil {
			panic("no texts for hole " + name)
		}
		s.Lit(x[:i])
		if len(alts) == 1 && s.Holes[strings.SplitN(name, ".", 2)[0]] == nil {
			s.Lit(alts[0])
		} else {
			s.Choice(strings.SplitN(name, ".", 2)[0], alts...)
		}
		x = x[j+2:]
	}
}

// when gives the condition on the choices of the named holes (in that order) under which pred holds of
// their indices.
func when(s *gosym.Src, names []string, pred func(ix []int) bool) *term.T {
	c := s.Ctx()
	ix := make([]int, len(names))
	var rec func(k int) *term.T
	rec = func(k int) *term.T {
		if k == len(names) {
			if pred(ix) {
				return c.True
			}
			return c.False
		}
		h := s.Holes[names[k]]
		if h == nil {
			ix[k] = 0
			return rec(k + 1)
		}
		var ors []*term.T
		for i := range h.Alts {
			ix[k] = i
			x := rec(k + 1)
			if !x.IsFalse() {
				ors = append(ors, c.And(c.Eq(h.C, c.BV(uint64(i), 8)), x))
			}
		}
		return c.Or(ors...)
	}
	return rec(0)
}

// choices builds a probe from a template, with the condition for acceptance given over the indices
// chosen for the named holes; a hole is split over several probes by the split argument.
func choices(name, text string, holes map[string][]string, names []string, pred func(ix []int) bool, expect string) *gprobe {
	return &gprobe{
		name:   name,
		build:  func(s *gosym.Src) { tp{text, holes}.fill(s) },
		accept: func(s *gosym.Src) *term.T { return when(s, names, pred) },
		expect: expect,
	}
}

func numbered(f string, n int) []string {
	var r []string
	for i := 0; i < n; i++ {
		r = append(r, fmt.Sprintf(f, i))
	}
	return r
}

func mapStr(xs []string, f func(string) string) []string {
	var r []string
	for _, x := range xs {
		r = append(r, f(x))
	}
	return r
}
