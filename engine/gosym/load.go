// Package gosym executes Go code symbolically: the packages of the working tree are loaded from
// source, translated to SSA form (golang.org/x/tools/go/ssa) and interpreted over values that are
// either concrete or terms over symbolic input bytes. A branch on a term forks the state; every
// path ends with its path condition, over which assertions are put to the SMT solver.
package gosym

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
	"golang.org/x/tools/go/types/typeutil"
)

// Program is the loaded SSA program plus what is derived from it; shared by all engines.
type Program struct {
	Prog    *ssa.Program
	Pkgs    map[string]*ssa.Package
	Mod     string // module path of the code under test
	mu      sync.Mutex
	fns     map[*ssa.Function]*Fn
	tis     map[types.Type]*tinfo
	rts     typeutil.Map
	rtList  []*rtype
	globals map[*ssa.Global]uint64
	gtypes  []*tinfo // by object id
	methods map[methodKey]*Fn
	inited  map[string]bool
}

type methodKey struct {
	t    *rtype
	name string
}

// rtype is an interned dynamic type.
type rtype struct {
	id   int
	t    types.Type
	ti   *tinfo
	name string
}

// Standard packages whose own initialisation is interpreted; globals of others are not available.
var initAllowed = map[string]bool{
	"io": true, "bufio": true, "strings": true, "bytes": true, "strconv": true,
	"unicode/utf8": true, "sort": true, "math/bits": true, "errors": false, "unicode/utf16": true,
	"internal/bytealg": false, "internal/stringslite": true, "container/list": true, "slices": true, "maps": true, "cmp": true,
}

// Load loads the packages matching patterns in dir, with extra files laid over the tree.
func Load(dir string, overlay map[string][]byte, patterns ...string) (*Program, error) {
	env := append(os.Environ(), "CGO_ENABLED=0", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local")
	cfg := &packages.Config{Mode: packages.LoadAllSyntax | packages.NeedModule, Dir: dir, Env: env, Overlay: overlay}
	ps, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("loading the Go packages: %s", strings.Join(errs, "; "))
	}
	prog, pp := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	p := &Program{Prog: prog, Pkgs: map[string]*ssa.Package{}, fns: map[*ssa.Function]*Fn{}, tis: map[types.Type]*tinfo{},
		globals: map[*ssa.Global]uint64{}, methods: map[methodKey]*Fn{}, inited: map[string]bool{}}
	if len(ps) > 0 && ps[0].Module != nil {
		p.Mod = ps[0].Module.Path
	}
	_ = pp
	p.gtypes = append(p.gtypes, nil) // object 0 is nil
	for _, pk := range prog.AllPackages() {
		p.Pkgs[pk.Pkg.Path()] = pk
		for _, m := range pk.Members {
			if g, ok := m.(*ssa.Global); ok {
				p.globals[g] = uint64(len(p.gtypes))
				p.gtypes = append(p.gtypes, p.ti(g.Type().Underlying().(*types.Pointer).Elem()))
			}
		}
		path := pk.Pkg.Path()
		if initAllowed[path] || path == p.Mod || strings.HasPrefix(path, p.Mod+"/") {
			p.inited[path] = true
		}
	}
	return p, nil
}

type tk uint8

const (
	kInt tk = iota
	kBool
	kString
	kPtr
	kSlice
	kMap
	kChan
	kFunc
	kIface
	kStruct
	kArray
	kTuple
	kFloat
	kOther
)

// tinfo describes the layout of a type: scalars take one slot, structs and arrays are flattened.
type tinfo struct {
	t      types.Type
	k      tk
	w      int // of kInt
	signed bool
	slots  int
	offs   []int // struct fields, tuple components
	fields []*tinfo
	elem   *tinfo // array, slice, pointer, chan; map value
	key    *tinfo
	n      int // array length
	rt     *rtype
}

func (t *tinfo) agg() bool { return t.k == kStruct || t.k == kArray }

func (p *Program) ti(t types.Type) *tinfo {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.ti0(t)
}

func (p *Program) ti0(t types.Type) *tinfo {
	if r, ok := p.tis[t]; ok {
		return r
	}
	r := &tinfo{t: t, slots: 1}
	p.tis[t] = r
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			r.k = kBool
		case u.Info()&types.IsString != 0:
			r.k = kString
		case u.Info()&types.IsInteger != 0:
			r.k = kInt
			r.signed = u.Info()&types.IsUnsigned == 0
			switch u.Kind() {
			case types.Int8, types.Uint8:
				r.w = 8
			case types.Int16, types.Uint16:
				r.w = 16
			case types.Int32, types.Uint32, types.UntypedRune:
				r.w = 32
			default:
				r.w = 64
			}
		case u.Info()&types.IsFloat != 0:
			r.k = kFloat
		case u.Kind() == types.UnsafePointer:
			r.k = kPtr
		default:
			r.k = kOther
		}
	case *types.Pointer:
		r.k = kPtr
	case *types.Slice:
		r.k = kSlice
		r.elem = p.ti0(u.Elem())
	case *types.Map:
		r.k = kMap
		r.key, r.elem = p.ti0(u.Key()), p.ti0(u.Elem())
	case *types.Chan:
		r.k = kChan
		r.elem = p.ti0(u.Elem())
	case *types.Signature:
		r.k = kFunc
	case *types.Interface:
		r.k = kIface
	case *types.Struct:
		r.k = kStruct
		n := 0
		for i := 0; i < u.NumFields(); i++ {
			f := p.ti0(u.Field(i).Type())
			r.offs = append(r.offs, n)
			r.fields = append(r.fields, f)
			n += f.slots
		}
		r.slots = n
	case *types.Array:
		r.k = kArray
		r.elem = p.ti0(u.Elem())
		r.n = int(u.Len())
		r.slots = r.n * r.elem.slots
	case *types.Tuple:
		r.k = kTuple
		n := 0
		for i := 0; i < u.Len(); i++ {
			f := p.ti0(u.At(i).Type())
			r.offs = append(r.offs, n)
			r.fields = append(r.fields, f)
			n += f.slots
		}
		r.slots = n
	default:
		r.k = kOther
	}
	return r
}

// rt interns a dynamic type.
func (p *Program) rt(t types.Type) *rtype {
	ti := p.ti(t)
	p.mu.Lock()
	defer p.mu.Unlock()
	if ti.rt != nil {
		return ti.rt
	}
	if v := p.rts.At(t); v != nil {
		ti.rt = v.(*rtype)
		return ti.rt
	}
	r := &rtype{id: len(p.rtList) + 1, t: t, ti: ti, name: t.String()}
	p.rtList = append(p.rtList, r)
	p.rts.Set(t, r)
	ti.rt = r
	return r
}

// method finds the implementation of a method on a dynamic type; nil if there is none.
func (p *Program) method(t *rtype, pkg *types.Package, name string) *Fn {
	k := methodKey{t, name}
	p.mu.Lock()
	f, ok := p.methods[k]
	p.mu.Unlock()
	if ok {
		return f
	}
	ms := p.Prog.MethodSets.MethodSet(t.t)
	sel := ms.Lookup(pkg, name)
	if sel == nil {
		sel = ms.Lookup(nil, name)
	}
	if sel != nil {
		if m := p.Prog.MethodValue(sel); m != nil {
			f = p.fn(m)
		}
	}
	p.mu.Lock()
	p.methods[k] = f
	p.mu.Unlock()
	return f
}

type opcode uint8

const (
	oNop opcode = iota
	oAlloc
	oCall
	oBin
	oNot
	oNeg
	oCom
	oLoad
	oRecv
	oCopy
	oConvert
	oMakeIface
	oMakeClosure
	oMakeMap
	oMakeChan
	oMakeSlice
	oSlice
	oFieldAddr
	oField
	oIndexAddr
	oIndex
	oLookup
	oRange
	oNext
	oAssert
	oExtract
	oJump
	oIf
	oReturn
	oRunDefers
	oPanic
	oGo
	oDefer
	oSend
	oStore
	oMapUpdate
	oUnsupported
)

type edge struct {
	pc  int
	src []int
	dst []int
}

type callInfo struct {
	fn      *Fn    // static callee
	builtin string // builtin
	invoke  string // interface method
	ipkg    *types.Package
	value   int // operand of the function or interface value
	args    []int
	res     *tinfo // result tuple
	ats     []*tinfo
	pos     token.Pos
}

type instr struct {
	op   opcode
	tok  token.Token
	dst  int
	a, b int
	c    int
	n    int
	n2   int
	ok   bool
	ti   *tinfo
	ti2  *tinfo
	e1   *edge
	e2   *edge
	args []int
	call *callInfo
	rt   *rtype
	fn   *Fn
	msg  string
	pos  token.Pos
}

// Fn is a compiled function.
type Fn struct {
	F       *ssa.Function
	Name    string
	code    []instr
	consts  []V
	nregs   int
	nparam  int
	nfree   int
	recover int
	res     *tinfo
	nat     native
	natf    natFrame
	built   atomic.Bool
	bad     string
	own     bool // belongs to the code under test
	nonpure atomic.Bool
}

// fn returns the compiled form of a function (its body is compiled on first call).
func (p *Program) fn(f *ssa.Function) *Fn {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.fn0(f)
}

func (p *Program) fn0(f *ssa.Function) *Fn {
	if r, ok := p.fns[f]; ok {
		return r
	}
	name := f.String()
	r := &Fn{F: f, Name: name, recover: -1}
	p.fns[f] = r
	pk := f.Pkg
	if pk == nil && f.Object() != nil {
		pk = p.Pkgs[f.Object().Pkg().Path()]
	}
	if pk != nil {
		path := pk.Pkg.Path()
		r.own = path == p.Mod || strings.HasPrefix(path, p.Mod+"/")
	} else {
		r.own = true // wrappers
	}
	r.nat = natives[name]
	r.natf = natFrames[name]
	if f.Name() == "init" && f.Synthetic == "package initializer" && f.Pkg != nil && !p.inited[f.Pkg.Pkg.Path()] {
		r.nat = nop
	}
	r.res = p.ti0(f.Signature.Results())
	return r
}

var buildMu sync.Mutex

// prepare compiles the body.
func (p *Program) prepare(f *Fn) {
	buildMu.Lock()
	defer buildMu.Unlock()
	if f.built.Load() {
		return
	}
	defer func() {
		p.mu.Lock()
		f.built.Store(true)
		p.mu.Unlock()
	}()
	if f.F.Pkg != nil {
		f.F.Pkg.Build()
	} else if f.F.Origin() != nil && f.F.Origin().Pkg != nil {
		f.F.Origin().Pkg.Build()
	}
	if len(f.F.Blocks) == 0 {
		f.bad = "no Go body: " + f.Name
		return
	}
	if f.F.Name() == "init" && f.F.Synthetic != "" && f.F.Pkg != nil && !p.inited[f.F.Pkg.Pkg.Path()] {
		f.code = []instr{{op: oReturn}}
		return
	}
	c := &compiler{p: p, f: f, reg: map[ssa.Value]int{}, con: map[ssa.Value]int{}}
	c.run()
}

type compiler struct {
	p   *Program
	f   *Fn
	reg map[ssa.Value]int
	con map[ssa.Value]int
}

func (c *compiler) newreg(v ssa.Value) int {
	r := c.f.nregs
	c.f.nregs++
	c.reg[v] = r
	return r
}

func (c *compiler) addConst(k ssa.Value, v V) int {
	c.f.consts = append(c.f.consts, v)
	r := -len(c.f.consts)
	c.con[k] = r
	return r
}

func (c *compiler) constant(k *ssa.Const) V {
	ti := c.p.ti(k.Type())
	if k.Value == nil {
		if ti.agg() {
			return V{R: Agg(make([]V, ti.slots))}
		}
		return V{}
	}
	switch ti.k {
	case kBool:
		if constant.BoolVal(k.Value) {
			return V{N: 1}
		}
		return V{}
	case kString:
		return mkStr(constant.StringVal(k.Value))
	case kInt:
		if ti.signed {
			return V{N: uint64(normS(k.Int64(), ti.w))}
		}
		return V{N: k.Uint64() & wmask(ti.w)}
	}
	return V{R: unsup{"constant " + k.String()}}
}

type unsup struct{ what string }

func (c *compiler) op(v ssa.Value) int {
	if r, ok := c.reg[v]; ok {
		return r
	}
	if r, ok := c.con[v]; ok {
		return r
	}
	switch x := v.(type) {
	case *ssa.Const:
		return c.addConst(v, c.constant(x))
	case *ssa.Global:
		if x.Pkg != nil && !c.p.inited[x.Pkg.Pkg.Path()] && !globalOK[x.String()] {
			return c.addConst(v, V{R: unsup{"global " + x.String()}})
		}
		return c.addConst(v, V{N: c.p.globals[x] << 24})
	case *ssa.Function:
		return c.addConst(v, V{R: &Closure{fn: c.p.fn(x)}})
	case *ssa.Builtin:
		return c.addConst(v, V{R: unsup{"builtin value"}})
	}
	return c.addConst(v, V{R: unsup{fmt.Sprintf("operand %T %s", v, v)}})
}

// Globals of packages that are not initialised but whose zero value (an opaque handle) will do.
var globalOK = map[string]bool{"os.Stdout": true, "os.Stderr": true, "io/ioutil.Discard": true}

func (c *compiler) run() {
	f := c.f
	f.nparam = len(f.F.Params)
	f.nfree = len(f.F.FreeVars)
	for _, p := range f.F.Params {
		c.newreg(p)
	}
	for _, v := range f.F.FreeVars {
		c.newreg(v)
	}
	start := make([]int, len(f.F.Blocks))
	// registers for all values first (phis may refer forward)
	for _, b := range f.F.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				c.newreg(v)
			}
		}
	}
	type fix struct {
		e *edge
		b int
	}
	var fixes []fix
	mkEdge := func(from, to *ssa.BasicBlock) *edge {
		e := &edge{}
		idx := -1
		for i, p := range to.Preds {
			if p == from {
				idx = i
				break
			}
		}
		for _, in := range to.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			e.src = append(e.src, c.op(ph.Edges[idx]))
			e.dst = append(e.dst, c.reg[ph])
		}
		fixes = append(fixes, fix{e, to.Index})
		return e
	}
	for _, b := range f.F.Blocks {
		start[b.Index] = len(f.code)
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			n := c.instr(in)
			n.pos = in.Pos()
			if v, ok := in.(ssa.Value); ok {
				n.dst = c.reg[v]
			} else {
				n.dst = -1
			}
			switch x := in.(type) {
			case *ssa.Jump:
				n.e1 = mkEdge(b, b.Succs[0])
			case *ssa.If:
				n.a = c.op(x.Cond)
				n.e1 = mkEdge(b, b.Succs[0])
				if b.Succs[0] == b.Succs[1] {
					n.e2 = n.e1
				} else {
					n.e2 = mkEdge(b, b.Succs[1])
				}
			}
			f.code = append(f.code, n)
		}
	}
	for _, x := range fixes {
		x.e.pc = start[x.b]
	}
	if f.F.Recover != nil {
		f.recover = start[f.F.Recover.Index]
	}
}

func (c *compiler) callInfo(k *ssa.CallCommon) *callInfo {
	ci := &callInfo{pos: k.Pos()}
	for _, a := range k.Args {
		ci.args = append(ci.args, c.op(a))
		ci.ats = append(ci.ats, c.p.ti(a.Type()))
	}
	ci.res = c.p.ti(k.Signature().Results())
	if k.IsInvoke() {
		ci.invoke = k.Method.Name()
		ci.ipkg = k.Method.Pkg()
		ci.value = c.op(k.Value)
		return ci
	}
	switch x := k.Value.(type) {
	case *ssa.Builtin:
		ci.builtin = x.Name()
	case *ssa.Function:
		ci.fn = c.p.fn(x)
	default:
		ci.value = c.op(x)
	}
	return ci
}

func deref(t types.Type) types.Type { return t.Underlying().(*types.Pointer).Elem() }

func (c *compiler) instr(in ssa.Instruction) instr {
	p := c.p
	switch x := in.(type) {
	case *ssa.Alloc:
		return instr{op: oAlloc, ti: p.ti(deref(x.Type())), ok: x.Heap}
	case *ssa.Call:
		return instr{op: oCall, call: c.callInfo(&x.Call)}
	case *ssa.Go:
		return instr{op: oGo, call: c.callInfo(&x.Call)}
	case *ssa.Defer:
		return instr{op: oDefer, call: c.callInfo(&x.Call)}
	case *ssa.BinOp:
		return instr{op: oBin, tok: x.Op, a: c.op(x.X), b: c.op(x.Y), ti: p.ti(x.X.Type()), ti2: p.ti(x.Y.Type())}
	case *ssa.UnOp:
		ti := p.ti(x.X.Type())
		switch x.Op {
		case token.NOT:
			return instr{op: oNot, a: c.op(x.X)}
		case token.SUB:
			return instr{op: oNeg, a: c.op(x.X), ti: ti}
		case token.XOR:
			return instr{op: oCom, a: c.op(x.X), ti: ti}
		case token.MUL:
			return instr{op: oLoad, a: c.op(x.X), ti: p.ti(x.Type())}
		case token.ARROW:
			return instr{op: oRecv, a: c.op(x.X), ti: ti.elem, ok: x.CommaOk}
		}
	case *ssa.ChangeType:
		return instr{op: oCopy, a: c.op(x.X)}
	case *ssa.ChangeInterface:
		return instr{op: oCopy, a: c.op(x.X)}
	case *ssa.Convert:
		return instr{op: oConvert, a: c.op(x.X), ti: p.ti(x.X.Type()), ti2: p.ti(x.Type())}
	case *ssa.MakeInterface:
		return instr{op: oMakeIface, a: c.op(x.X), rt: p.rt(x.X.Type())}
	case *ssa.MakeClosure:
		n := instr{op: oMakeClosure, fn: p.fn(x.Fn.(*ssa.Function))}
		for _, b := range x.Bindings {
			n.args = append(n.args, c.op(b))
		}
		return n
	case *ssa.MakeMap:
		return instr{op: oMakeMap, ti: p.ti(x.Type())}
	case *ssa.MakeChan:
		return instr{op: oMakeChan, a: c.op(x.Size), ti: p.ti(x.Type())}
	case *ssa.MakeSlice:
		return instr{op: oMakeSlice, a: c.op(x.Len), b: c.op(x.Cap), ti: p.ti(x.Type()).elem}
	case *ssa.Slice:
		n := instr{op: oSlice, a: c.op(x.X), ti: p.ti(x.X.Type()), n: 0}
		none := 1 << 30
		n.b, n.c, n.n = none, none, none
		if x.Low != nil {
			n.b = c.op(x.Low)
		}
		if x.High != nil {
			n.c = c.op(x.High)
		}
		if x.Max != nil {
			n.n = c.op(x.Max)
		}
		if n.ti.k == kPtr {
			n.ti2 = p.ti(deref(x.X.Type()))
		}
		return n
	case *ssa.FieldAddr:
		st := p.ti(deref(x.X.Type()))
		return instr{op: oFieldAddr, a: c.op(x.X), n: st.offs[x.Field]}
	case *ssa.Field:
		st := p.ti(x.X.Type())
		return instr{op: oField, a: c.op(x.X), n: st.offs[x.Field], ti: st.fields[x.Field]}
	case *ssa.IndexAddr:
		ti := p.ti(x.X.Type())
		n := instr{op: oIndexAddr, a: c.op(x.X), b: c.op(x.Index), ti: ti}
		if ti.k == kPtr {
			n.ti2 = p.ti(deref(x.X.Type()))
		}
		return n
	case *ssa.Index:
		return instr{op: oIndex, a: c.op(x.X), b: c.op(x.Index), ti: p.ti(x.X.Type())}
	case *ssa.Lookup:
		return instr{op: oLookup, a: c.op(x.X), b: c.op(x.Index), ti: p.ti(x.X.Type()), ok: x.CommaOk}
	case *ssa.Range:
		return instr{op: oRange, a: c.op(x.X), ti: p.ti(x.X.Type())}
	case *ssa.Next:
		n := instr{op: oNext, a: c.op(x.Iter), ok: x.IsString, ti2: p.ti(x.Type())}
		if r, ok := x.Iter.(*ssa.Range); ok {
			n.ti = p.ti(r.X.Type())
		}
		return n
	case *ssa.TypeAssert:
		return instr{op: oAssert, a: c.op(x.X), rt: p.rt(x.AssertedType), ok: x.CommaOk}
	case *ssa.Extract:
		tt := p.ti(x.Tuple.Type())
		return instr{op: oExtract, a: c.op(x.Tuple), n: tt.offs[x.Index], ti: tt.fields[x.Index]}
	case *ssa.Jump:
		return instr{op: oJump}
	case *ssa.If:
		return instr{op: oIf}
	case *ssa.Return:
		n := instr{op: oReturn}
		for _, r := range x.Results {
			n.args = append(n.args, c.op(r))
		}
		return n
	case *ssa.RunDefers:
		return instr{op: oRunDefers}
	case *ssa.Panic:
		return instr{op: oPanic, a: c.op(x.X)}
	case *ssa.Send:
		return instr{op: oSend, a: c.op(x.Chan), b: c.op(x.X)}
	case *ssa.Store:
		return instr{op: oStore, a: c.op(x.Addr), b: c.op(x.Val), ti: p.ti(x.Val.Type())}
	case *ssa.MapUpdate:
		return instr{op: oMapUpdate, a: c.op(x.Map), b: c.op(x.Key), c: c.op(x.Value), ti: p.ti(x.Map.Type())}
	}
	return instr{op: oUnsupported, msg: fmt.Sprintf("instruction %T", in)}
}
