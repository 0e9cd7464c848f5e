package checks

import (
	"fmt"
	"strings"

	"verif/engine/clara"
	"verif/engine/term"
	"verif/engine/x86"
)

// A shape is text whose '?' are arbitrary non-zero bytes.
func shapeVars(prefix string, i int, shape string, c *term.Ctx, in func(name string) *term.T) []*term.T {
	r := []*term.T{}
	for j := 0; j < len(shape); j++ {
		if shape[j] == '?' {
			r = append(r, in(fmt.Sprintf("%s%d_%d", prefix, i, j)))
		} else {
			r = append(r, c.BV(uint64(shape[j]), 8))
		}
	}
	return r
}

// withProcess gives a probe symbolic arguments and environment.
func withProcess(p *clara.Probe, args, env []string) *clara.Probe {
	p.Entry = "main"
	p.Prepare = func(x *x86.Exec, s *x86.State) {
		c := x.C
		const base = 0x30000000
		ptrs := uint64(8 * (len(args) + len(env) + 2))
		total := ptrs + 64
		for _, a := range append(append([]string{}, args...), env...) {
			total += uint64(len(a)) + 1
		}
		x.MapRange(s, base, total)
		at := base + ptrs
		slot := uint64(base)
		put := func(prefix string, i int, shape string) {
			x.Store(s, slot, x86.C(at), 8)
			slot += 8
			for _, b := range shapeVars(prefix, i, shape, c, func(n string) *term.T {
				v := c.Var(n, 8)
				x.Assume(s, c.Not(c.Eq(v, c.BV(0, 8))))
				return v
			}) {
				x.Store(s, at, x86.FromTerm(b), 1)
				at++
			}
			x.Store(s, at, x86.C(0), 1)
			at++
		}
		for i, a := range args {
			put("arg", i, a)
		}
		x.Store(s, slot, x86.C(0), 8)
		slot += 8
		envp := slot
		for i, a := range env {
			put("env", i, a)
		}
		x.Store(s, slot, x86.C(0), 8)
		// what follows the last string is the kernel's business
		for i := uint64(0); at+i < base+total; i++ {
			x.Store(s, at+i, x86.FromTerm(c.Var(fmt.Sprintf("pad%d", i), 8)), 1)
		}
		s.SetReg(x86.RDI, x86.C(uint64(len(args))))
		s.SetReg(x86.RSI, x86.C(base))
		s.SetReg(x86.RDX, x86.C(envp))
	}
	p.NativeArgs = func(m term.Model) ([]string, []string) {
		mk := func(prefix string, shapes []string) []string {
			var r []string
			for i, sh := range shapes {
				b := []byte(sh)
				for j := range b {
					if b[j] == '?' {
						n := fmt.Sprintf("%s%d_%d", prefix, i, j)
						if m[n] == 0 {
							m[n] = 1
						}
						b[j] = byte(m[n])
					}
				}
				r = append(r, string(b))
			}
			return r
		}
		return mk("arg", args), mk("env", env)
	}
	return p
}

func c29() []*clara.Probe {
	var out []*clara.Probe
	refArg := func(r *Ref, prefix string, i int, shape string) []*term.T {
		return shapeVars(prefix, i, shape, r.C, func(n string) *term.T { return r.In(n, 8) })
	}
	argProbe := func(name string, args ...string) {
		out = append(out, withProcess(pr("args-"+name, `
fn main() {
    a := getRuntime().args
    vxObs(1, a.length)
    for s in a {
        vxObsStr(2, s)
    }
}`, func(r *Ref) {
			r.ObsN(1, int64(len(args)))
			for i, a := range args {
				r.ObsS(2, refArg(r, "arg", i, a))
			}
		}), args, []string{"HOME=/x", "A=b"}))
	}
	argProbe("prog", "./p?og")
	argProbe("one", "prog", "???")
	argProbe("two", "prog", "??", "???")
	argProbe("four", "prog", "?", "??", "", "?")
	argProbe("empty", "prog", "", "x?", "")
	argProbe("long", "prog", "0123456789abc??def?", "y?")
	argProbe("len16", "prog", "0123456789abcde?", "0123456789abcdef?", "?")
	argProbe("len33", "prog?", "0123456789abcdef0123456789abcdef?", "0123456789abcdef0123456789abcde?", "z")
	argProbe("options", "prog", "-?", "x?", "--??", "-g", "y")
	argProbe("option-last", "prog", "a?", "b", "-g")
	argProbe("dashdash", "prog", "x", "--", "-g", "?")
	argProbe("long-option", "prog", "x?", "--gc.debug", "z")
	var many []string
	for i := 0; i < 20; i++ {
		many = append(many, fmt.Sprintf("a%d?", i))
	}
	argProbe("many", many...)

	envProbe := func(name string, env []string, keys []string) {
		var sb strings.Builder
		for i, k := range keys {
			fmt.Fprintf(&sb, "vxObsB(%d, e.contains(%q))\nvxObsStr(%d, e.get(%q).orElse(\"<none>\"))\n", 10+i, k, 30+i, k)
		}
		out = append(out, withProcess(pr("env-"+name, `
fn main() {
    e := getRuntime().env
`+sb.String()+`
    vxObs(1, e.size)
    vxObs(2, getRuntime().args.length)
    vxObsStr(3, getRuntime().args[1])
}`, func(r *Ref) {
			for i, k := range keys {
				found := false
				for j, e := range env {
					if n, v, ok := strings.Cut(e, "="); ok && n == k {
						found = true
						r.ObsB(10+i, r.C.True)
						full := refArg(r, "env", j, e)
						r.ObsS(30+i, full[len(full)-len(v):])
					}
				}
				if !found {
					r.ObsB(10+i, r.C.False)
					r.ObsS(30+i, r.Str("<none>"))
				}
			}
			n := int64(0)
			for _, e := range env {
				if strings.Contains(e, "=") {
					n++
				}
			}
			r.ObsN(1, n)
			r.ObsN(2, 2)
			r.ObsS(3, refArg(r, "arg", 1, "?q"))
		}), []string{"prog", "?q"}, env))
	}
	envProbe("none", nil, []string{"A", ""})
	envProbe("one", []string{"A=??"}, []string{"A", "B", ""})
	envProbe("empty", []string{"A=", "B=?"}, []string{"A", "B", "A="})
	envProbe("equals", []string{"A=?=?=", "B==", "C=x="}, []string{"A", "B", "C", "A=?"})
	envProbe("long", []string{"NAME=0123456789abcdef?0123456789", "B=?"}, []string{"NAME", "B", "N"})
	envProbe("longname", []string{"A_VERY_LONG_VARIABLE_NAME=?", "A_VERY_LONG_VARIABLE_NAM=x?", "A=?"}, []string{"A_VERY_LONG_VARIABLE_NAME", "A_VERY_LONG_VARIABLE_NAM", "A"})
	envProbe("prefix", []string{"AB=1?", "A=2?", "ABC=3?"}, []string{"A", "AB", "ABC", "B", "ABCD"})
	envProbe("values-alike", []string{"A=B", "B=A", "C=A=B"}, []string{"A", "B", "C"})
	envProbe("len16", []string{"AB=0123456789ab?", "CD=0123456789abc?", "EF=0123456789abcd?"}, []string{"AB", "CD", "EF"})
	var menv, keys []string
	for i := 0; i < 30; i++ {
		menv = append(menv, fmt.Sprintf("VAR_%d=v%d?", i, i))
		keys = append(keys, fmt.Sprintf("VAR_%d", i))
	}
	p := len(out)
	envProbe("many", menv, keys[:20])
	out[p].MaxSteps = 400_000_000

	// names that are unknown: the only entry is found under exactly its own name
	for _, wide := range []bool{false, true} {
		shape, nm := "X?=v?", "env-name"
		if wide {
			shape, nm = "??=v?", "env-name2"
		}
		p := withProcess(pr(nm, `
fn main() {
    e := getRuntime().env
    k := vxStr2(0)
    vxObsStr(1, e.get(k).orElse("<none>"))
    vxObs(2, e.size)
}
fn vxStr2(k: int) string {
    b := Bytes(2)
    s := b.toString()
    vxFill(s, k, 2)
    return s
}`, func(r *Ref) {
			k := r.Bytes(0, 2)
			n := refArg(r, "env", 0, shape)[:2]
			eq := byte('=')
			for _, b := range n {
				if r.If(r.C.Eq(b, r.C.BV(uint64(eq), 8))) {
					r.Skip()
				}
			}
			if r.If(r.C.And(r.C.Eq(k[0], n[0]), r.C.Eq(k[1], n[1]))) {
				r.ObsS(1, refArg(r, "env", 0, shape)[3:])
			} else {
				r.ObsS(1, r.Str("<none>"))
			}
			r.ObsN(2, 1)
		}), []string{"prog"}, []string{shape})
		p.Thorough = wide
		out = append(out, p)
	}
	return out
}

func c30() []*clara.Probe {
	var out []*clara.Probe
	const dec = `
fn showE(k: int, e: error) {
    vxObs(k, e.err)
    vxObsStr(k, e.msg.orElse("<none>"))
}
fn showI(k: int, x: result«int, error») {
    match x {
        case Ok(v): vxObs(k, v)
        case Err(e): showE(k + 1, e)
    }
}
fn showS(k: int, x: result«string, error») {
    match x {
        case Ok(v): vxObsStr(k, v)
        case Err(e): showE(k + 1, e)
    }
}
fn showO(k: int, x: option«error») {
    match x {
        case Some(e): showE(k + 1, e)
        case None(): vxObs(k, 7)
    }
}
fn openIt(p: string) file {
    match open(p) {
        case Ok(f): return f
        case Err(e): showE(90, e)
    }
    panic("no file")
    return File(0, "")
}
`
	add := func(name, body string, f func(r *Ref)) { out = append(out, pr(name, dec+mainOf(0, 0, body), f)) }
	type sys struct {
		r *Ref
		k int
	}
	// next outcome of an open (32-bit descriptors)
	opn := func(s *sys, path []*term.T) (fd *term.T, en *term.T) {
		r, c := s.r, s.r.C
		v := r.In(fmt.Sprintf("sysret%d", s.k), 32)
		e := r.In(fmt.Sprintf("syserr%d", s.k), 32)
		s.k++
		r.ObsEv("open", 0, []*term.T{c.BV(0, 64)}, path)
		if r.If(c.Eq(v, c.BV(0xffffffff, 32))) {
			return nil, c.ZExt(e, 63)
		}
		return c.ZExt(v, 63), nil
	}
	lseek := func(s *sys, fd, off, mode *term.T) (pos *term.T, en *term.T) {
		r, c := s.r, s.r.C
		v := r.In(fmt.Sprintf("sysret%d", s.k), 64)
		e := r.In(fmt.Sprintf("syserr%d", s.k), 32)
		s.k++
		w32 := func(t *term.T) *term.T { return c.SExt(c.Extract(31, 0, t), 64) }
		r.ObsEv("lseek", 0, []*term.T{w32(fd), c.SExt(off, 64), w32(mode)}, nil)
		if r.If(c.Eq(v, c.BV(^uint64(0), 64))) {
			return nil, c.ZExt(e, 63)
		}
		return c.Extract(62, 0, v), nil
	}
	showE := func(r *Ref, k int, en *term.T, path []*term.T) {
		r.Obs(k, en)
		r.ObsS(k, path)
	}
	openIt := func(s *sys, path []*term.T) *term.T {
		fd, en := opn(s, path)
		if en != nil {
			showE(s.r, 90, en, path)
			s.r.Exit()
		}
		return fd
	}
	add("open", `
match open("/tmp/a b.txt") {
    case Ok(f):
        vxObs(1, f.fd)
        vxObsStr(2, f.path)
    case Err(e): showE(3, e)
}`, func(r *Ref) {
		s := &sys{r: r}
		path := r.Str("/tmp/a b.txt")
		fd, en := opn(s, path)
		if en != nil {
			showE(r, 3, en, path)
		} else {
			r.Obs(1, fd)
			r.ObsS(2, path)
		}
	})
	for n := 0; n <= 3; n++ {
		n := n
		add(fmt.Sprintf("open-path-%d", n), strIn("p", 0, n)+`
match open(p) {
    case Ok(f):
        vxObs(1, f.fd)
        vxObsStr(2, f.path)
    case Err(e): showE(3, e)
}`, func(r *Ref) {
			path := r.Bytes(0, n)
			for _, b := range path {
				if r.If(r.C.Eq(b, r.C.BV(0, 8))) {
					r.Skip()
				}
			}
			fd, en := opn(&sys{r: r}, path)
			if en != nil {
				showE(r, 3, en, path)
			} else {
				r.Obs(1, fd)
				r.ObsS(2, path)
			}
		})
	}
	out = append(out, pr("seek", dec+mainOf(2, 0, `
f := openIt("f")
showI(1, f.seek(a0, a1))
showI(3, f.seek(a1, 2))`), func(r *Ref) {
		s := &sys{r: r}
		path := r.Str("f")
		fd := openIt(s, path)
		for i, q := range [][2]*term.T{{r.Int(0), r.Int(1)}, {r.Int(1), r.K(2)}} {
			pos, en := lseek(s, fd, q[0], q[1])
			if en != nil {
				showE(r, 2+2*i, en, path)
			} else {
				r.Obs(1+2*i, pos)
			}
		}
	}))
	size := func(s *sys, fd *term.T) (sz, en *term.T) {
		cur, en := lseek(s, fd, s.r.K(0), s.r.K(1))
		if en != nil {
			return nil, en
		}
		sz, en = lseek(s, fd, s.r.K(0), s.r.K(2))
		if en != nil {
			return nil, en
		}
		if _, en = lseek(s, fd, cur, s.r.K(0)); en != nil {
			return nil, en
		}
		return sz, nil
	}
	add("size", `
f := openIt("some/path")
showI(1, f.size())
showI(3, f.size())`, func(r *Ref) {
		s := &sys{r: r}
		path := r.Str("some/path")
		fd := openIt(s, path)
		for i := 0; i < 2; i++ {
			sz, en := size(s, fd)
			if en != nil {
				showE(r, 2+2*i, en, path)
			} else {
				r.Obs(1+2*i, sz)
			}
		}
	})
	read := func(s *sys, fd *term.T, n uint64) (got []*term.T, en *term.T) {
		r, c := s.r, s.r.C
		k := s.k
		v := r.In(fmt.Sprintf("sysret%d", k), 64)
		e := r.In(fmt.Sprintf("syserr%d", k), 32)
		s.k++
		r.ObsEv("read", 0, []*term.T{c.SExt(c.Extract(31, 0, fd), 64), c.BV(n, 64)}, nil)
		if r.If(c.Eq(v, c.BV(^uint64(0), 64))) {
			return nil, c.ZExt(e, 63)
		}
		cnt := r.Pick(v, 0, int64(n))
		got = []*term.T{}
		for i := int64(0); i < cnt; i++ {
			got = append(got, r.In(fmt.Sprintf("f%d_%d", k, i), 8))
		}
		return got, nil
	}
	for _, q := range [][2]int{{0, 0}, {3, 0}, {3, 2}, {3, 3}, {2, 3}, {0, 1}, {17, 17}} {
		q := q
		add(fmt.Sprintf("read-%d-of-%d", q[1], q[0]), fmt.Sprintf(`
f := openIt("p")
b := Bytes(%d)
showO(1, f.read(b, %d))
vxObsBytes(9, b)`, q[0], q[1]), func(r *Ref) {
			s := &sys{r: r}
			path := r.Str("p")
			fd := openIt(s, path)
			want := []*term.T{}
			for i := 0; i < q[0]; i++ {
				want = append(want, r.C.BV(0, 8))
			}
			if q[1] > q[0] {
				// refused without touching the file
				r.ObsN(2, -1)
				r.ObsS(2, r.Str("buffer is too small for requested read size"))
				r.ObsS(9, want)
				return
			}
			got, en := read(s, fd, uint64(q[1]))
			if en != nil {
				showE(r, 2, en, path)
			} else {
				r.ObsN(1, 7)
				copy(want, got)
			}
			r.ObsS(9, want)
		})
	}
	out = append(out, pr("read-symbolic-size", dec+mainOf(1, 0, `
f := openIt("p")
b := Bytes(2)
showO(1, f.read(b, vxRange(0, 3, 4000000000000000000)))`), func(r *Ref) {
		openIt(&sys{r: r}, r.Str("p"))
		r.ObsN(2, -1)
		r.ObsS(2, r.Str("buffer is too small for requested read size"))
	}))
	for _, q := range [][2]int64{{0, 5}, {15, 17}, {33, 33}} {
		min, max := q[0], q[1]
		add(fmt.Sprintf("readAll-%d", max), `
f := openIt("dir/name.txt")
showS(1, f.readAll())`, func(r *Ref) {
			s := &sys{r: r}
			path := r.Str("dir/name.txt")
			fd := openIt(s, path)
			sz, en := size(s, fd)
			if en != nil {
				showE(r, 2, en, path)
				return
			}
			n := r.Pick(sz, min, max)
			got, en := read(s, fd, uint64(n))
			if en != nil {
				showE(r, 2, en, path)
				return
			}
			if int64(len(got)) < n {
				r.Skip() // a short read: unspecified
			}
			r.ObsS(1, got)
		})
		// the second lseek (to the end) gives the size
		out[len(out)-1].Prepare = func(x *x86.Exec, s *x86.State) {
			clara.DefaultArgs(x, s)
			c := x.C
			v := c.Var("sysret2", 64)
			x.Assume(s, c.Or(c.Eq(v, c.BV(^uint64(0), 64)), c.And(c.Ule(c.BV(uint64(min), 64), v), c.Ule(v, c.BV(uint64(max), 64)))))
		}
	}
	names := []string{"Operation not permitted", "No such file or directory", "No such process", "Interrupted system call", "I/O error", "No such device or address", "Argument list too long", "Exec format error", "Bad file descriptor", "No child processes", "Try again", "Out of memory", "Permission denied", "Bad address", "Block device required", "Device or resource busy", "File exists", "Cross-device link", "No such device", "Not a directory", "Is a directory", "Invalid argument", "File table overflow", "Too many open files", "Not a typewriter", "Text file busy", "File too large", "No space left on device", "Illegal seek", "Read-only file system", "Too many links", "Broken pipe", "Math argument out of domain of func", "Math result not representable"}
	describe := func(n int64) string {
		if n >= 1 && n <= int64(len(names)) {
			return names[n-1]
		}
		return fmt.Sprintf("Unknown error code: %d", n)
	}
	out = append(out, pr("describe", dec+mainOf(0, 0, `
vxObsStr(1, vxRange(0, -2, 40).describe())`), func(r *Ref) {
		r.ObsS(1, r.Str(describe(r.Pick(r.Int(0), -2, 40))))
	}))
	out = append(out, pr("describe-error", dec+mainOf(0, 0, strIn("m", 0, 2)+`
e := vxRange(0, 0, 3)
vxObsStr(1, Error(None«string»(), e).describe())
vxObsStr(2, Error(Some(m), e).describe())
vxObsStr(3, Error(Some("a path longer than the buffer's capacity"), e).describe())`), func(r *Ref) {
		t := r.Str(describe(r.Pick(r.Int(0), 0, 3)))
		r.ObsS(1, t)
		r.ObsS(2, cat(t, r.Str(":\n - "), r.Bytes(0, 2)))
		r.ObsS(3, cat(t, r.Str(":\n - a path longer than the buffer's capacity")))
	}))
	return out
}

func init() {
	reg := func(id string, f func() []*clara.Probe, bounds ...string) {
		register(&Check{ID: id, Bounds: bounds, Assumptions: stdAssume, Probes: func(bool) []*clara.Probe { return f() }})
	}
	reg("C30", c30, "every outcome (success with any result in range, failure with any error number 1..133) of every system call", "paths of 0..3 arbitrary bytes; reads of 0..17 bytes into buffers of 0..17 bytes, every larger size refused; files of 0..5, 15..17 and 33 bytes (all contents) for readAll; short reads are outside; describe for numbers -2..40")
	reg("C29", c29, "0..20 arguments of 0..33 bytes with 1..3 arbitrary non-zero bytes each, including option-like ones", "0..30 environment entries with 0..2 arbitrary value bytes around every buffer boundary, several `=`, and an entry with an arbitrary 2-byte name")
}
