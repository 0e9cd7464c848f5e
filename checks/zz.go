package checks

import (
	"strings"

	"verif/engine/clara"
)

// more adds probes to a registered property.
func more(id string, bound string, f func(th bool) []*clara.Probe) {
	c := all[id]
	old := c.Probes
	c.Probes = func(th bool) []*clara.Probe {
		var ps []*clara.Probe
		if old != nil {
			ps = old(th)
		}
		return append(ps, f(th)...)
	}
	c.Bounds = append(c.Bounds, bound)
}

func init() {
	for _, id := range []string{"C12", "C13", "C14", "C15", "C16", "C17", "C20"} {
		addGenerated(id, 250)
	}
	ctxs := strings.Fields("if while range each match")
	kinds := strings.Fields("decl assign set if while range each match obs call declcall asgcall")
	leaf := strings.Fields("decl assign set obs call declcall asgcall")
	forms := strings.Fields("var path call tern make")
	full := genFocus{w: mix(), structs: 2, enums: 1, closures: true, arrays: true, funcs: 4, size: 12}
	times := func(q, t int, th bool) int {
		if th {
			return t
		}
		return q
	}
	for _, id := range []string{"C12", "C16", "C20"} {
		id := id
		more(id, "every kind of statement as the only one of every kind of block (thorough: to three levels), two programs of the kind each (thorough: 12)", func(th bool) []*clara.Probe {
			ps := planned("in", num(id), times(3, 12, th), full, pairs(ctxs, kinds), nil)
			if th {
				var three [][]string
				for _, a := range ctxs {
					for _, p := range pairs(ctxs, leaf) {
						three = append(three, append([]string{a}, p...))
					}
				}
				ps = append(ps, planned("in3", num(id)+100, 4, full, three, nil)...)
			}
			return ps
		})
	}
	for _, id := range []string{"C14", "C15", "C20"} {
		id := id
		more(id, "every form of expression within every form, in every kind of statement", func(th bool) []*clara.Probe {
			return planned("form", num(id)+200, times(1, 8, th), full, singles(append(leaf, "if", "each", "match")), pairs(forms, forms))
		})
	}
	shapes := func(id, what string, n int) {
		more(id, "every assignment of two types (int/bool, object/int, string/bool; thorough: more) to the positions", func(th bool) []*clara.Probe {
			ps := append(maskProbes(what, "int", "bool", n), maskProbes(what, "obj", "int", n)...)
			if th {
				ps = append(ps, maskProbes(what, "str", "bool", n)...)
				ps = append(ps, maskProbes(what, "arr", "obj", n)...)
				ps = append(ps, maskProbes(what, "bool", "arr", n)...)
			}
			return ps
		})
	}
	more("C14", "argument lists of 2 and 3 in which an argument changes what another reads: 23 x 23 forms, through functions, function values, constructors; and the two operands of each of 11 binary operators", func(bool) []*clara.Probe { return orderProbes() })
	shapes("C13", "enum", 5)
	shapes("C14", "params", 6)
	shapes("C14", "fnvalue", 5)
	shapes("C15", "captures", 6)
	shapes("C17", "struct", 6)
}

func num(id string) uint64 { return uint64(id[1]-'0')*10 + uint64(id[2]-'0') }
