package gosym

import (
	"fmt"
	"go/types"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"verif/engine/term"
)

// native models a library function; false means: interpret its source instead.
type native func(st *State, args []V) (V, bool)

// natFrame models a library function that calls back; it is resumed until it reports done.
type natFrame func(st *State, g *G, f *Frame) (bool, V)

// Packages of which only modelled functions may be called.
var pkgNative = map[string]bool{"fmt": true, "os": true, "os/exec": true, "io/ioutil": true, "regexp": true, "reflect": true,
	"runtime": true, "syscall": true, "unicode": true, "math/rand": true, "flag": true, "os/user": true, "time": true, "sync": true,
	"internal/poll": true, "sync/atomic": true, "internal/reflectlite": true}

var natives map[string]native
var natFrames map[string]natFrame

func conc(vs ...V) bool {
	for _, v := range vs {
		switch x := v.R.(type) {
		case nil:
		case *Str:
			if x.sym != nil {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func pair(a, b V) V { return V{R: Agg{a, b}} }

// strs reads a []string.
func (st *State) strs(v V) []*Str {
	s, _ := v.R.(*Slice)
	if s == nil {
		return nil
	}
	var r []*Str
	for i := 0; i < s.len; i++ {
		r = append(r, st.obj(s.p >> 24).s[int(s.p&(1<<24-1))+i].str())
	}
	return r
}

func (st *State) mkStrs(vs []V) V {
	if vs == nil {
		return V{}
	}
	id := st.alloc(len(vs))
	copy(st.wobj(id).s, vs)
	return V{R: &Slice{p: id << 24, len: len(vs), cap: len(vs)}}
}

// mkError makes an error value with a text, as errors.New does.
func (st *State) mkError(s V) V {
	p := st.e.P
	pk := p.Pkgs["errors"]
	t := types.NewPointer(pk.Type("errorString").Type())
	id := st.alloc(1)
	st.wobj(id).s[0] = s
	return V{R: &Iface{t: p.rt(t), v: V{N: id << 24}}}
}

// match reports whether sub occurs in s at i.
func (st *State) matchAt(s, sub *Str, i int) bool {
	if s.sym == nil && sub.sym == nil {
		return strings.HasPrefix(s.s[i:], sub.s)
	}
	c := st.e.T
	for j := 0; j < sub.Len(); j++ {
		if !st.decide(c.Eq(st.byteTerm(s, i+j), st.byteTerm(sub, j))) {
			return false
		}
	}
	return true
}

func (st *State) indexStr(s, sub *Str, from int) int {
	if s.sym == nil && sub.sym == nil {
		if from > len(s.s) {
			return -1
		}
		r := strings.Index(s.s[from:], sub.s)
		if r < 0 {
			return r
		}
		return r + from
	}
	for i := from; i+sub.Len() <= s.Len(); i++ {
		if st.matchAt(s, sub, i) {
			return i
		}
	}
	return -1
}

func isSpaceByte(c *tctx, b *term.T) *term.T {
	return c.Or(c.Eq(b, c.BV(' ', 8)), c.And(c.Ule(c.BV(9, 8), b), c.Ule(b, c.BV(13, 8))))
}

func inTable(c *tctx, r *term.T, tab *unicode.RangeTable, max uint64) *term.T {
	var ors []*term.T
	add := func(lo, hi, stride uint64) {
		if lo > max {
			return
		}
		if stride == 1 || lo == hi {
			ors = append(ors, c.And(c.Ule(c.BV(lo, 32), r), c.Ule(r, c.BV(hi, 32))))
			return
		}
		for x := lo; x <= hi && x <= max; x += stride {
			ors = append(ors, c.Eq(r, c.BV(x, 32)))
		}
	}
	for _, x := range tab.R16 {
		add(uint64(x.Lo), uint64(x.Hi), uint64(x.Stride))
	}
	for _, x := range tab.R32 {
		add(uint64(x.Lo), uint64(x.Hi), uint64(x.Stride))
	}
	return c.Or(ors...)
}

func unicodeIs(tab *unicode.RangeTable, f func(rune) bool) native {
	return func(st *State, a []V) (V, bool) {
		t, ok := a[0].R.(*term.T)
		if !ok {
			return boolV(f(rune(int32(a[0].N)))), true
		}
		max := uint64(0x10ffff)
		if vs := st.e.vars(t); len(vs) == 1 && vs[0].W <= 8 {
			var set [4]uint64
			x := st.e.T.of(t)
			for i := 0; i < 256; i++ {
				var r uint64
				switch {
				case x != nil:
					r = x.val[i]
				case i < 1<<vs[0].W:
					r = term.NewEvaluator(term.Model{vs[0].Name: uint64(i)}).Eval(t)
				default:
					continue
				}
				if f(rune(int32(r))) {
					set[i>>6] |= 1 << (i & 63)
				}
			}
			return termBool(st.e.T.member(vs[0], set)), true
		}
		return termBool(inTable(st.e.T, t, tab, max)), true
	}
}

// unicodeTo models a mapping of characters.
func unicodeTo(f func(rune) rune) native {
	return func(st *State, a []V) (V, bool) {
		t, ok := a[0].R.(*term.T)
		if !ok {
			return V{N: uint64(int64(f(rune(int32(a[0].N)))))}, true
		}
		c := st.e.T
		if vs := st.e.vars(t); len(vs) == 1 && vs[0].W <= 8 {
			x := c.of(t)
			by := map[uint64]*[4]uint64{}
			y := &table{v: vs[0]}
			for i := 0; i < 1<<vs[0].W; i++ {
				var r uint64
				if x != nil {
					r = x.val[i]
				} else {
					r = term.NewEvaluator(term.Model{vs[0].Name: uint64(i)}).Eval(t)
				}
				n := uint64(uint32(f(rune(int32(r)))))
				y.val[i] = n
				d := uint64(uint32(n) - uint32(r))
				if by[d] == nil {
					by[d] = new([4]uint64)
				}
				by[d][i>>6] |= 1 << (i & 63)
			}
			if len(by) <= 12 {
				var ds []uint64
				for d := range by {
					ds = append(ds, d)
				}
				sort.Slice(ds, func(i, j int) bool { return ds[i] < ds[j] })
				off := c.BV(ds[0], 32)
				for _, d := range ds[1:] {
					off = c.Ite(c.member(vs[0], *by[d]), c.BV(d, 32), off)
				}
				r := c.Add(t, off)
				if vs[0].W == 8 {
					c.register(r, y)
				}
				return V{R: r}, true
			}
		}
		return V{N: uint64(int64(f(rune(int32(uint32(st.concretise(t)))))))}, true
	}
}

// unicodeP models a predicate on characters without a range table of its own.
func unicodeP(f func(rune) bool) native {
	by := unicodeIs(&unicode.RangeTable{}, f)
	return func(st *State, a []V) (V, bool) {
		if t, ok := a[0].R.(*term.T); ok {
			if vs := st.e.vars(t); len(vs) != 1 || vs[0].W > 8 {
				return boolV(f(rune(int32(uint32(st.concretise(t)))))), true
			}
		}
		return by(st, a)
	}
}

func cstr1(f func(string) string) native {
	return func(st *State, a []V) (V, bool) {
		if !conc(a[0]) {
			return V{}, false
		}
		return mkStr(f(a[0].str().s)), true
	}
}

func (st *State) write(file int, s *Str) {
	st.out = &outNode{prev: st.out, file: file, s: s}
}

func init() {
	natives = map[string]native{
		"unicode.IsLetter":   unicodeIs(unicode.Letter, unicode.IsLetter),
		"unicode.IsDigit":    unicodeIs(unicode.Digit, unicode.IsDigit),
		"unicode.IsNumber":   unicodeIs(unicode.Number, unicode.IsNumber),
		"unicode.IsUpper":    unicodeIs(unicode.Upper, unicode.IsUpper),
		"unicode.IsLower":    unicodeIs(unicode.Lower, unicode.IsLower),
		"unicode.IsSpace":    unicodeIs(unicode.White_Space, unicode.IsSpace),
		"unicode.IsPrint":    unicodeP(unicode.IsPrint),
		"unicode.IsPunct":    unicodeP(unicode.IsPunct),
		"unicode.IsControl":  unicodeP(unicode.IsControl),
		"unicode.IsSymbol":   unicodeP(unicode.IsSymbol),
		"unicode.IsGraphic":  unicodeP(unicode.IsGraphic),
		"unicode.IsMark":     unicodeP(unicode.IsMark),
		"unicode.IsTitle":    unicodeP(unicode.IsTitle),
		"unicode.ToLower":    unicodeTo(unicode.ToLower),
		"unicode.ToUpper":    unicodeTo(unicode.ToUpper),
		"unicode.ToTitle":    unicodeTo(unicode.ToTitle),
		"unicode.SimpleFold": unicodeTo(unicode.SimpleFold),
		"unicode/utf8.DecodeRuneInString": func(st *State, a []V) (V, bool) {
			r, w := st.decodeRune(a[0].str(), 0)
			return pair(r, V{N: uint64(w)}), true
		},
		"unicode/utf8.RuneCountInString": func(st *State, a []V) (V, bool) {
			s := a[0].str()
			if s.sym == nil {
				return V{N: uint64(utf8.RuneCountInString(s.s))}, true
			}
			n := 0
			for i := 0; i < s.Len(); n++ {
				_, w := st.decodeRune(s, i)
				i += w
			}
			return V{N: uint64(n)}, true
		},
		"unicode/utf8.ValidString": func(st *State, a []V) (V, bool) {
			s := a[0].str()
			if s.sym == nil {
				return boolV(utf8.ValidString(s.s)), true
			}
			for i := 0; i < s.Len(); {
				r, w := st.decodeRune(s, i)
				if w == 1 && r.R == nil && r.N == 0xfffd {
					return boolV(false), true
				}
				i += w
			}
			return boolV(true), true
		},
		"strings.Join": func(st *State, a []V) (V, bool) {
			r := V{}
			sep := a[1].str()
			parts := st.strs(a[0])
			all := sep.sym == nil
			for _, p := range parts {
				all = all && p.sym == nil
			}
			if all {
				var ss []string
				for _, p := range parts {
					ss = append(ss, p.s)
				}
				return mkStr(strings.Join(ss, sep.s)), true
			}
			for i, p := range parts {
				if i > 0 {
					r = st.concat(r.str(), sep)
				}
				r = st.concat(r.str(), p)
			}
			return r, true
		},
		"strings.Index": func(st *State, a []V) (V, bool) {
			return V{N: uint64(int64(st.indexStr(a[0].str(), a[1].str(), 0)))}, true
		},
		"strings.Contains": func(st *State, a []V) (V, bool) {
			return boolV(st.indexStr(a[0].str(), a[1].str(), 0) >= 0), true
		},
		"strings.IndexByte": func(st *State, a []V) (V, bool) {
			s := a[0].str()
			if b, ok := a[1].R.(*term.T); ok && s.sym == nil {
				// a symbolic byte in a fixed set: one decision, the position stays a term
				c := st.e.T
				var ors []*term.T
				ix := c.BV(^uint64(0), 64)
				for i := s.Len() - 1; i >= 0; i-- {
					eq := c.Eq(b, c.BV(uint64(s.s[i]), 8))
					ors = append(ors, eq)
					ix = c.Ite(eq, c.BV(uint64(i), 64), ix)
				}
				if !st.decide(c.Or(ors...)) {
					return V{N: ^uint64(0)}, true
				}
				return V{R: ix}, true
			}
			for i := 0; i < s.Len(); i++ {
				if st.decide(st.e.T.Eq(st.byteTerm(s, i), st.toTerm(a[1], 8))) {
					return V{N: uint64(i)}, true
				}
			}
			return V{N: ^uint64(0)}, true
		},
		"strings.LastIndex": func(st *State, a []V) (V, bool) {
			s, sub := a[0].str(), a[1].str()
			if s.sym == nil && sub.sym == nil {
				return V{N: uint64(int64(strings.LastIndex(s.s, sub.s)))}, true
			}
			for i := s.Len() - sub.Len(); i >= 0; i-- {
				if st.matchAt(s, sub, i) {
					return V{N: uint64(i)}, true
				}
			}
			return V{N: ^uint64(0)}, true
		},
		"strings.Count": func(st *State, a []V) (V, bool) {
			s, sub := a[0].str(), a[1].str()
			if s.sym == nil && sub.sym == nil {
				return V{N: uint64(strings.Count(s.s, sub.s))}, true
			}
			if sub.Len() == 0 {
				return V{}, false
			}
			n := 0
			for i := st.indexStr(s, sub, 0); i >= 0; i = st.indexStr(s, sub, i+sub.Len()) {
				n++
			}
			return V{N: uint64(n)}, true
		},
		"strings.HasPrefix": func(st *State, a []V) (V, bool) {
			s, p := a[0].str(), a[1].str()
			return boolV(s.Len() >= p.Len() && st.matchAt(s, p, 0)), true
		},
		"strings.HasSuffix": func(st *State, a []V) (V, bool) {
			s, p := a[0].str(), a[1].str()
			return boolV(s.Len() >= p.Len() && st.matchAt(s, p, s.Len()-p.Len())), true
		},
		"strings.TrimPrefix": func(st *State, a []V) (V, bool) {
			s, p := a[0].str(), a[1].str()
			if s.Len() >= p.Len() && st.matchAt(s, p, 0) {
				return s.Sub(p.Len(), s.Len()), true
			}
			return a[0], true
		},
		"strings.TrimSuffix": func(st *State, a []V) (V, bool) {
			s, p := a[0].str(), a[1].str()
			if s.Len() >= p.Len() && st.matchAt(s, p, s.Len()-p.Len()) {
				return s.Sub(0, s.Len()-p.Len()), true
			}
			return a[0], true
		},
		"strings.Replace": func(st *State, a []V) (V, bool) {
			return st.replace(a[0].str(), a[1].str(), a[2].str(), int(int64(a[3].N)))
		},
		"strings.ReplaceAll": func(st *State, a []V) (V, bool) {
			return st.replace(a[0].str(), a[1].str(), a[2].str(), -1)
		},
		"strings.Repeat": func(st *State, a []V) (V, bool) {
			n := int(st.intV(a[1], nil))
			if n < 0 || n > 1<<20 {
				return V{}, false
			}
			if conc(a[0]) {
				return mkStr(strings.Repeat(a[0].str().s, n)), true
			}
			r := V{}
			for i := 0; i < n; i++ {
				r = st.concat(r.str(), a[0].str())
			}
			return r, true
		},
		"strings.Split": func(st *State, a []V) (V, bool) {
			s, sep := a[0].str(), a[1].str()
			if sep.Len() == 0 {
				return V{}, false
			}
			var r []V
			p := 0
			for {
				i := st.indexStr(s, sep, p)
				if i < 0 {
					break
				}
				r = append(r, s.Sub(p, i))
				p = i + sep.Len()
			}
			r = append(r, s.Sub(p, s.Len()))
			return st.mkStrs(r), true
		},
		"strings.TrimSpace": func(st *State, a []V) (V, bool) {
			s := a[0].str()
			if s.sym == nil {
				return mkStr(strings.TrimSpace(s.s)), true
			}
			i, j := 0, s.Len()
			for i < j && st.decide(isSpaceByte(st.e.T, s.sym[i])) {
				i++
			}
			for j > i && st.decide(isSpaceByte(st.e.T, s.sym[j-1])) {
				j--
			}
			return s.Sub(i, j), true
		},
		"strings.ToUpper": st1case('a', 'z'),
		"strings.ToLower": st1case('A', 'Z'),
		"strings.EqualFold": func(st *State, a []V) (V, bool) {
			if conc(a...) {
				return boolV(strings.EqualFold(a[0].str().s, a[1].str().s)), true
			}
			return V{}, false
		},
		"strings.Fields": func(st *State, a []V) (V, bool) {
			if !conc(a[0]) {
				return V{}, false
			}
			var r []V
			for _, x := range strings.Fields(a[0].str().s) {
				r = append(r, mkStr(x))
			}
			return st.mkStrs(r), true
		},
		"strings.Clone":                func(st *State, a []V) (V, bool) { return a[0], true },
		"internal/stringslite.Clone":   func(st *State, a []V) (V, bool) { return a[0], true },
		"internal/abi.NoEscape":        func(st *State, a []V) (V, bool) { return a[0], true },
		"strings.noescape":             func(st *State, a []V) (V, bool) { return a[0], true },
		"(*strings.Builder).copyCheck": func(st *State, a []V) (V, bool) { return V{}, true },
		"internal/bytealg.IndexByteString": func(st *State, a []V) (V, bool) {
			return natives["strings.IndexByte"](st, a)
		},
		"internal/bytealg.IndexByte": func(st *State, a []V) (V, bool) {
			s, _ := a[0].R.(*Slice)
			if s == nil {
				return V{N: ^uint64(0)}, true
			}
			return natives["strings.IndexByte"](st, []V{st.strOfBytes(s.p, s.len), a[1]})
		},
		"internal/bytealg.IndexString": func(st *State, a []V) (V, bool) { return natives["strings.Index"](st, a) },
		"internal/bytealg.CountString": func(st *State, a []V) (V, bool) {
			b := symStr([]*term.T{st.toTerm(a[1], 8)})
			return natives["strings.Count"](st, []V{a[0], b})
		},
		"internal/bytealg.MakeNoZero": func(st *State, a []V) (V, bool) {
			n := int(st.intV(a[0], nil))
			id := st.alloc(n)
			return V{R: &Slice{p: id << 24, len: n, cap: n}}, true
		},
		"strconv.Itoa": func(st *State, a []V) (V, bool) {
			if t, ok := a[0].R.(*term.T); ok {
				return mkStr(st.e.placeholder(t)), true
			}
			return mkStr(strconv.Itoa(int(a[0].N))), true
		},
		"strconv.ParseInt":  func(st *State, a []V) (V, bool) { return parseInt(st, a, true) },
		"strconv.ParseUint": func(st *State, a []V) (V, bool) { return parseInt(st, a, false) },
		"strconv.FormatInt": func(st *State, a []V) (V, bool) {
			if t, ok := a[0].R.(*term.T); ok {
				return mkStr(st.e.placeholder(t)), true
			}
			return mkStr(strconv.FormatInt(int64(a[0].N), int(a[1].N))), true
		},
		"strconv.Quote": func(st *State, a []V) (V, bool) {
			if conc(a[0]) {
				return mkStr(strconv.Quote(a[0].str().s)), true
			}
			return V{}, false
		},
		"path/filepath.Base": cstr1(filepath.Base),
		"path/filepath.Ext":  cstr1(filepath.Ext),
		"path/filepath.Dir":  cstr1(filepath.Dir),
		"path/filepath.Join": func(st *State, a []V) (V, bool) {
			var ss []string
			for _, p := range st.strs(a[0]) {
				if p.sym != nil {
					return V{}, false
				}
				ss = append(ss, p.s)
			}
			return mkStr(filepath.Join(ss...)), true
		},
		"os.ReadFile":        readFile,
		"io/ioutil.ReadFile": readFile,
		"os.TempDir":         func(st *State, a []V) (V, bool) { return mkStr("/tmp"), true },
		"os.Remove":          func(st *State, a []V) (V, bool) { return V{}, true },
		"os.Create": func(st *State, a []V) (V, bool) {
			st.nfile++
			id := st.alloc(1)
			st.wobj(id).s[0] = V{N: uint64(st.nfile)}
			return pair(V{N: id << 24}, V{}), true
		},
		"(*os.File).Write": func(st *State, a []V) (V, bool) {
			s, _ := a[1].R.(*Slice)
			if s == nil {
				return pair(V{}, V{}), true
			}
			st.fwrite(a[0], st.strOfBytes(s.p, s.len).str())
			return pair(V{N: uint64(s.len)}, V{}), true
		},
		"(*os.File).WriteString": func(st *State, a []V) (V, bool) {
			s := a[1].str()
			st.fwrite(a[0], s)
			return pair(V{N: uint64(s.Len())}, V{}), true
		},
		"(*os.File).Close": func(st *State, a []V) (V, bool) { return V{}, true },
		"(*os.File).Sync":  func(st *State, a []V) (V, bool) { return V{}, true },
		"(*os.File).Name":  func(st *State, a []V) (V, bool) { return mkStr("/tmp/out.S"), true },
		"os.WriteFile": func(st *State, a []V) (V, bool) {
			s, _ := a[1].R.(*Slice)
			if s != nil {
				st.nfile++
				st.write(st.nfile, st.strOfBytes(s.p, s.len).str())
			}
			return V{}, true
		},
		"io/ioutil.WriteFile": func(st *State, a []V) (V, bool) { return natives["os.WriteFile"](st, a) },
		"os/exec.Command": func(st *State, a []V) (V, bool) {
			t := st.e.P.Pkgs["os/exec"].Type("Cmd").Type()
			return V{N: st.alloc(st.e.P.ti(t).slots) << 24}, true
		},
		"(*os/exec.Cmd).CombinedOutput": func(st *State, a []V) (V, bool) { return pair(V{}, V{}), true },
		"(*os/exec.Cmd).Output":         func(st *State, a []V) (V, bool) { return pair(V{}, V{}), true },
		"(*os/exec.Cmd).Run":            func(st *State, a []V) (V, bool) { return V{}, true },
		"math/rand.Uint32": func(st *State, a []V) (V, bool) {
			st.rnd++
			return V{N: (st.rnd*2654435761 + 0x1234567) & 0xffffffff}, true
		},
		"math/rand.Int": func(st *State, a []V) (V, bool) {
			st.rnd++
			return V{N: (st.rnd*2654435761 + 0x1234567) & 0xffffffff}, true
		},
		"math/rand.Int63": func(st *State, a []V) (V, bool) {
			st.rnd++
			return V{N: (st.rnd*2654435761 + 0x1234567) & 0xffffffff}, true
		},
		"math/rand.Uint64": func(st *State, a []V) (V, bool) {
			st.rnd++
			return V{N: (st.rnd*2654435761 + 0x1234567) & 0xffffffff}, true
		},
		"(*sync.Mutex).Lock": nop, "(*sync.Mutex).Unlock": nop,
		"(*sync.RWMutex).Lock": nop, "(*sync.RWMutex).Unlock": nop,
		"(*sync.RWMutex).RLock": nop, "(*sync.RWMutex).RUnlock": nop,
		"os.Getenv":  func(st *State, a []V) (V, bool) { return V{}, true },
		"runtime.GC": nop, "runtime.Gosched": nop,
		"github.com/g-dx/clarac.vxHas": func(st *State, a []V) (V, bool) {
			// symbolic bytes never match
			s := a[0].str()
			t := s.s
			if s.sym != nil {
				b := make([]byte, len(s.sym))
				for i, x := range s.sym {
					if x.IsConst() {
						b[i] = byte(x.C)
					}
				}
				t = string(b)
			}
			return boolV(strings.Contains(t, a[1].str().s)), true
		},
		"errors.Is": func(st *State, a []V) (V, bool) {
			return termBool(st.eq(&tinfo{k: kIface, slots: 1}, a[0], a[1])), true
		},
	}
	natFrames = map[string]natFrame{
		"fmt.Sprintf":  fmtFrame("Sprintf"),
		"fmt.Sprint":   fmtFrame("Sprint"),
		"fmt.Sprintln": fmtFrame("Sprintln"),
		"fmt.Errorf":   fmtFrame("Errorf"),
		"fmt.Printf":   fmtFrame("Printf"),
		"fmt.Print":    fmtFrame("Print"),
		"fmt.Println":  fmtFrame("Println"),
		"fmt.Fprintf":  fmtFrame("Fprintf"),
		"fmt.Fprint":   fmtFrame("Fprint"),
		"fmt.Fprintln": fmtFrame("Fprintln"),
		"sort.Slice":       sortFrame,
		"sort.SliceStable": sortFrame,
	}
}

func nop(st *State, a []V) (V, bool) { return V{}, true }

func st1case(lo, hi byte) native {
	return func(st *State, a []V) (V, bool) {
		s := a[0].str()
		if s.sym == nil {
			if lo == 'a' {
				return mkStr(strings.ToUpper(s.s)), true
			}
			return mkStr(strings.ToLower(s.s)), true
		}
		c := st.e.T
		r := make([]*term.T, s.Len())
		for i, b := range s.sym {
			if st.decide(c.Ule(c.BV(0x80, 8), b)) {
				return V{}, false
			}
			in := c.And(c.Ule(c.BV(uint64(lo), 8), b), c.Ule(b, c.BV(uint64(hi), 8)))
			r[i] = c.Ite(in, c.BXor(b, c.BV(0x20, 8)), b)
		}
		return symStr(r), true
	}
}

func (st *State) replace(s, old, nw *Str, n int) (V, bool) {
	if s.sym == nil && old.sym == nil && nw.sym == nil {
		return mkStr(strings.Replace(s.s, old.s, nw.s, n)), true
	}
	if old.Len() == 0 {
		return V{}, false
	}
	r := V{}
	p := 0
	for k := 0; n < 0 || k < n; k++ {
		i := st.indexStr(s, old, p)
		if i < 0 {
			break
		}
		r = st.concat(r.str(), s.Sub(p, i).str())
		r = st.concat(r.str(), nw)
		p = i + old.Len()
	}
	return st.concat(r.str(), s.Sub(p, s.Len()).str()), true
}

func readFile(st *State, a []V) (V, bool) {
	s := a[0].str()
	if s.sym != nil {
		panic(stop{"unsupported", "symbolic file name"})
	}
	if s.s == st.e.PauseOn && s.s != "" {
		panic(stop{"pause", ""})
	}
	v, ok := st.e.Files[s.s]
	if !ok {
		return pair(V{}, st.mkError(mkStr("open "+s.s+": no such file or directory"))), true
	}
	return pair(st.bytesOf(v.str()), V{}), true
}

func (st *State) fwrite(f V, s *Str) {
	if f.N == 0 {
		return
	}
	id := f.N >> 24
	if id < uint64(len(st.e.P.gtypes)) {
		return
	}
	st.write(int(st.obj(id).s[0].N), s)
}

// placeholder stands for the decimal text of a symbolic integer.
func (e *Engine) placeholder(t *term.T) string {
	id, ok := e.termID[t]
	if !ok {
		id = len(e.Terms)
		e.Terms = append(e.Terms, t)
		e.termID[t] = id
	}
	return fmt.Sprintf("⟦T%d⟧", id)
}

type rawStr string

// fmtFrame models the fmt printing functions. Registers: the arguments, then one per operand for
// the text its Error or String method gave.
func fmtFrame(name string) natFrame {
	return func(st *State, g *G, f *Frame) (bool, V) {
		i := 0
		toW := strings.HasPrefix(name, "F")
		if toW {
			i = 1
		}
		hasFmt := strings.HasSuffix(name, "f")
		format := emptyStr
		if hasFmt {
			format = f.regs[i].str()
			i++
		}
		sl, _ := f.regs[i].R.(*Slice)
		nargs := 0
		if sl != nil {
			nargs = sl.len
		}
		base := i + 1
		for len(f.regs) < base+nargs+1 {
			f.regs = append(f.regs, V{})
		}
		if f.nstep > nargs { // the write to an interpreted writer is done
			return true, pair(V{}, V{})
		}
		if format.sym != nil {
			for _, b := range format.sym {
				if !b.IsConst() && st.decide(st.e.T.Eq(b, st.e.T.BV('%', 8))) {
					panic(stop{"unsupported", "symbolic format"})
				}
			}
		}
		arg := func(k int) V { return st.obj(sl.p >> 24).s[int(sl.p&(1<<24-1))+k] }
		ftxt, subst := st.markers(format)
		verbs := verbsOf(ftxt, nargs, hasFmt)
		for f.nstep < nargs {
			k := f.nstep
			f.nstep++
			it, _ := arg(k).R.(*Iface)
			if it == nil || it.t == rtErr || !strings.ContainsRune("vsqxX", rune(verbs[k])) {
				continue
			}
			m := st.e.P.method(it.t, nil, "Error")
			if m == nil {
				m = st.e.P.method(it.t, nil, "String")
			}
			if m == nil || len(m.res.fields) != 1 || m.res.fields[0].k != kString {
				continue
			}
			if it.t.ti.k == kPtr && it.v.N == 0 {
				f.regs[base+k] = V{R: &Iface{t: rtErr, v: mkStr("<nil>")}}
				continue
			}
			st.pushFrame(g, m, nil, []V{it.v}, base+k)
			return false, V{}
		}
		var ops []any
		for k := 0; k < nargs; k++ {
			it, _ := arg(k).R.(*Iface)
			if r := f.regs[base+k]; r.R != nil && it != nil {
				if ni, ok := r.R.(*Iface); ok {
					r = ni.v
				}
				ops = append(ops, st.mark(r.str(), &subst))
				continue
			}
			if it != nil && it.t != rtErr && f.regs[base+k].R == nil {
				// a method that returned "" leaves no trace; ask again only for its presence
				m := st.e.P.method(it.t, nil, "Error")
				if m == nil {
					m = st.e.P.method(it.t, nil, "String")
				}
				if m != nil && strings.ContainsRune("vsqxX", rune(verbs[k])) && len(m.res.fields) == 1 && m.res.fields[0].k == kString {
					ops = append(ops, "")
					continue
				}
			}
			ops = append(ops, st.goValue(it, &subst, 0))
		}
		var text string
		switch name {
		case "Sprintf", "Errorf", "Printf", "Fprintf":
			text = fmt.Sprintf(strings.ReplaceAll(ftxt, "%w", "%v"), ops...)
		case "Sprintln", "Println", "Fprintln":
			text = fmt.Sprintln(ops...)
		default:
			text = fmt.Sprint(ops...)
		}
		v := st.unmark(text, subst)
		switch name {
		case "Sprintf", "Sprint", "Sprintln":
			return true, v
		case "Errorf":
			return true, st.mkError(v)
		case "Printf", "Print", "Println":
			return true, pair(V{}, V{})
		}
		w, _ := f.regs[0].R.(*Iface)
		if w == nil {
			st.rtPanic("runtime error: invalid memory address or nil pointer dereference")
		}
		m := st.e.P.method(w.t, nil, "Write")
		if m == nil {
			panic(stop{"unsupported", "Write of " + w.t.name})
		}
		b := st.bytesOf(v.str())
		f.nstep = nargs + 1
		if m.nat != nil {
			m.nat(st, []V{w.v, b})
			return true, pair(V{N: uint64(v.str().Len())}, V{})
		}
		st.pushFrame(g, m, nil, []V{w.v, b}, -1)
		return false, V{}
	}
}

// sortFrame models sort.Slice and sort.SliceStable as an insertion sort (a stable order is one of
// those sort.Slice may give). Registers: the slice, the function, how far it is sorted, the place of
// the element being inserted, the answer of the function.
func sortFrame(st *State, g *G, f *Frame) (bool, V) {
	for len(f.regs) < 5 {
		f.regs = append(f.regs, V{})
	}
	it, _ := f.regs[0].R.(*Iface)
	if it == nil || it.t.ti.k != kSlice {
		panic(stop{"unsupported", "sort of something else than a slice"})
	}
	sl, _ := it.v.R.(*Slice)
	less, _ := f.regs[1].R.(*Closure)
	if sl == nil || less == nil {
		return true, V{}
	}
	es := it.t.ti.elem.slots
	i, j := int(f.regs[2].N), int(f.regs[3].N)
	if f.nstep > 0 {
		if st.truthV(f.regs[4]) {
			o := st.wobj(sl.p >> 24)
			b := int(sl.p & (1<<24 - 1))
			for k := 0; k < es; k++ {
				o.s[b+(j-1)*es+k], o.s[b+j*es+k] = o.s[b+j*es+k], o.s[b+(j-1)*es+k]
			}
			j--
		} else {
			j = 0
		}
	}
	if j == 0 {
		i++
		j = i
	}
	f.nstep++
	f.regs[2], f.regs[3] = V{N: uint64(i)}, V{N: uint64(j)}
	if i >= sl.len {
		return true, V{}
	}
	st.pushFrame(g, less.fn, less.free, []V{{N: uint64(j)}, {N: uint64(j - 1)}}, 4)
	return false, V{}
}

// verbsOf gives the verb that formats each operand.
func verbsOf(f string, n int, hasFmt bool) []byte {
	r := make([]byte, n)
	for i := range r {
		r[i] = 'v'
	}
	if !hasFmt || strings.Contains(f, "%[") {
		return r
	}
	k := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		i++
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			i++
		}
		if i >= len(f) {
			break
		}
		if f[i] == '%' {
			continue
		}
		if k < n {
			r[k] = f[i]
			if f[i] == 'w' {
				r[k] = 'v'
			}
		}
		k++
	}
	return r
}

// markers replaces a symbolic string by text that survives formatting.
func (st *State) markers(s *Str) (string, []*Str) {
	if s.sym == nil {
		return s.s, nil
	}
	var subst []*Str
	return st.mark(s, &subst), subst
}

func (st *State) mark(s *Str, subst *[]*Str) string {
	if s.sym == nil {
		return s.s
	}
	*subst = append(*subst, s)
	return fmt.Sprintf("⟦S%d⟧", len(*subst)-1)
}

func (st *State) unmark(text string, subst []*Str) V {
	if len(subst) == 0 {
		return mkStr(text)
	}
	r := V{}
	for {
		i := strings.Index(text, "⟦S")
		if i < 0 {
			break
		}
		j := strings.Index(text[i:], "⟧")
		n, err := strconv.Atoi(text[i+len("⟦S") : i+j])
		if err != nil || n >= len(subst) {
			break
		}
		r = st.concat(r.str(), &Str{s: text[:i]})
		r = st.concat(r.str(), subst[n])
		text = text[i+j+len("⟧"):]
	}
	return st.concat(r.str(), &Str{s: text})
}

type opaque string

func (o opaque) String() string { return string(o) }

// goValue converts an operand for formatting.
func (st *State) goValue(it *Iface, subst *[]*Str, depth int) any {
	if it == nil {
		return nil
	}
	if it.t == rtErr {
		return st.mark(it.v.str(), subst)
	}
	return st.goVal(it.t.ti, it.v, subst, depth)
}

func (st *State) goVal(ti *tinfo, v V, subst *[]*Str, depth int) any {
	if t, ok := v.R.(*term.T); ok {
		if t.W == 0 {
			return opaque(st.e.placeholder(st.e.T.ToBV(t, 8)))
		}
		return opaque(st.e.placeholder(t))
	}
	switch ti.k {
	case kInt:
		switch {
		case ti.signed && ti.w == 32:
			return int32(v.N)
		case ti.signed:
			return int64(v.N)
		case ti.w == 8:
			return uint8(v.N)
		}
		return v.N
	case kBool:
		return v.N != 0
	case kString:
		return st.mark(v.str(), subst)
	case kIface:
		i, _ := v.R.(*Iface)
		return st.goValue(i, subst, depth+1)
	case kSlice:
		s, _ := v.R.(*Slice)
		if s == nil {
			return []any{}
		}
		if ti.elem.k == kInt && ti.elem.w == 8 {
			str := st.strOfBytes(s.p, s.len).str()
			if str.sym == nil {
				return []byte(str.s)
			}
			return st.mark(str, subst)
		}
		if depth > 2 {
			return opaque("[...]")
		}
		r := []any{}
		for i := 0; i < s.len; i++ {
			r = append(r, st.goVal(ti.elem, st.load(s.p+uint64(i*ti.elem.slots), ti.elem), subst, depth+1))
		}
		return r
	case kPtr:
		if v.N == 0 {
			return nil
		}
		return opaque(fmt.Sprintf("0xc%09x", v.N&0xfffffffff))
	}
	return opaque("{" + ti.t.String() + "}")
}
