SEEDS=[]
def S(id,prop,edits,prog,expect=None,needs='',breaks='',**k):
    if isinstance(edits,tuple): edits=[edits]
    SEEDS.append(dict(id=id,property=prop,edits=edits,prog=prog,expect=expect,needs=needs,breaks=breaks,**k))

S('c20-as-dot','C20',('codegen.go','''	saveRoot(asm, fn, rax, n.right.typ)

	// Evaluate mem location to store
	slot := n.left
	genExpr(asm, slot, true, fn)

	// Pop result
	restoreRoot(asm, fn, rbx, n.right.typ)
''','''	slot := n.left
	// Only array indices can run other code before the value is stored
	tracked := slot.op == opArray
	if tracked {
		saveRoot(asm, fn, rax, n.right.typ)
	} else {
		save(asm, fn, rax)
	}

	// Evaluate mem location to store
	genExpr(asm, slot, true, fn)

	// Pop result
	if tracked {
		restoreRoot(asm, fn, rbx, n.right.typ)
	} else {
		restore(asm, fn, rbx)
	}
'''),
'''struct box {
    val: string
}
struct holder {
    b: box
}
fn pick(h: holder) holder {
    i := 0
    while i < 20 {
        junk := "abc".append("def")
        i = i + 1
    }
    return h
}
fn main() {
    h := Holder(Box("old"))
    pick(h).b = Box("left".append("right"))
    i := 0
    while i < 20 {
        junk := Box("junk".append("junk"))
        i = i + 1
    }
    println(h.b.val)
}
''','leftright\n',needs='an assignment to a field of what a call returns, where the call allocates',breaks='the assigned value is freed before it is stored')
S('c20-index-sum','C20',('codegen.go','''		genExpr(asm, expr.left, false, fn)
		saveRoot(asm, fn, rax, expr.left.typ)

		// Calculate index
		genExpr(asm, expr.right, false, fn)
		untag(asm, expr.right, rax) // Strip tag from index
''','''		genExpr(asm, expr.left, false, fn)
		arrayType := expr.left.typ
		if !expr.right.Is(opFuncCall, opArray, opDot, opTernary) {
			arrayType = intType // Plain integer arithmetic never allocates so nothing to track
		}
		saveRoot(asm, fn, rax, arrayType)

		// Calculate index
		genExpr(asm, expr.right, false, fn)
		untag(asm, expr.right, rax) // Strip tag from index
'''),
'''fn mk() []string = ["a".append("b"), "c".append("d"), "e".append("f")]
fn idx() int {
    i := 0
    while i < 20 {
        junk := ["x".append("y"), "z".append("w"), "q".append("r")]
        i = i + 1
    }
    return 1
}
fn main() {
    println(mk()[idx() + 1])
}
''','ef\n',needs='an index of an array that is not in a variable, with a call inside an arithmetic index that allocates',breaks='the array is freed while it is being indexed')
SEEDS[-1]['edits'].append(('codegen.go','''		restoreRoot(asm, fn, rax, expr.left.typ)
		asm.ins(jae, labelOp("ioob"))''','''		restoreRoot(asm, fn, rax, arrayType)
		asm.ins(jae, labelOp("ioob"))'''))
S('c14-simple-left','C14',('codegen.go','''	case opAdd, opSub, opMul, opDiv, opBOr, opBAnd, opBXor:

		genExpr(asm, expr.left, false, fn)
		untag(asm, expr.left, rax)
		save(asm, fn, rax)
		genExpr(asm, expr.right, false, fn)
		untag(asm, expr.right, rax)
		asm.ins(movq, rax, rbx)
		restore(asm, fn, rax)
''','''	case opAdd, opSub, opMul, opDiv, opBOr, opBAnd, opBXor:

		if expr.op == opMul && expr.left.Is(opDot) && expr.left.left.Is(opIdentifier) {
			// Left is a plain load so needs no extra register
			genExpr(asm, expr.right, false, fn)
			untag(asm, expr.right, rax)
			save(asm, fn, rax)
			genExpr(asm, expr.left, false, fn)
			untag(asm, expr.left, rax)
			restore(asm, fn, rbx)
		} else {
			genExpr(asm, expr.left, false, fn)
			untag(asm, expr.left, rax)
			save(asm, fn, rax)
			genExpr(asm, expr.right, false, fn)
			untag(asm, expr.right, rax)
			asm.ins(movq, rax, rbx)
			restore(asm, fn, rax)
		}
'''),
'''struct counter {
    n: int
}
fn bump(c: counter) int {
    c.n = c.n + 10
    return 1
}
fn main() {
    c := Counter(5)
    println(c.n * bump(c))
}
''','5\n',needs='an operator whose left operand is a field that its right operand changes',breaks='the right operand is evaluated first')
S('c12-for-reassign','C12',('semantic.go','''			arraySlot := newVar("$array$", arrayOrRange.typ)
			stmts = append(stmts, das(arraySlot, arrayExpr))
			arrayOrRange = arraySlot
''','''			if !arrayExpr.Is(opIdentifier) || !arrayExpr.sym.IsStack {
				arraySlot := newVar("$array$", arrayOrRange.typ)
				stmts = append(stmts, das(arraySlot, arrayExpr))
				arrayOrRange = arraySlot
			}
'''),
'''fn main() {
    a := [1, 2, 3]
    for x in a {
        println(x)
        a = [7, 8]
    }
}
''','1\n2\n3\n',needs='a loop over an array variable which the body assigns',breaks='the loop goes on over the new array')
S('c12-range-once','C12',('semantic.go','''			initVal := arrayOrRange.left
			cond := lt(val.copy(), arrayOrRange.right)
''','''			initVal := arrayOrRange.left
			end := arrayOrRange.right
			if end.Is(opIdentifier) && end.sym == initVal.sym {
				initVal = intLit(0) // Nothing between a value and itself
			}
			cond := lt(val.copy(), end)
'''),
'''fn f(n: int) int {
    c := 0
    for i in n .. n {
        c = c + 1
    }
    return c
}
fn main() {
    println(f(3))
}
''','0\n',needs='a range from a variable to itself',breaks='the loop runs from zero')
S('c06-lit-name','C06',('typecheck.go','''		s, found := symtab.Resolve(n.token.Val)
		if !found {
			s, _ = symtab.Define(&Symbol{Name: n.token.Val, IsLiteral: true})
''','''		s, found := symtab.ResolveAll(n.token.Val, func(s *Symbol) bool { return s.IsLiteral })
		if !found && n.token.Kind == lex.String {
			// The same text may have been written in another way
			val := strings.ReplaceAll(n.token.Val, "\\\\r", "")
			s, found = symtab.ResolveAll(val, func(s *Symbol) bool { return s.IsLiteral })
		}
		if !found {
			s, _ = symtab.Define(&Symbol{Name: n.token.Val, IsLiteral: true})
'''),
'''fn main() {
    a := "xy"
    b := "x\\ry"
    println(b.length)
}
''','3\n',needs='a literal with \\r that otherwise equals an earlier literal of the same scope',breaks='the literal loses a byte')
S('c11-asm-fn','C11',('symtab.go','''		if len(fn.Params) > 0 {
			buf.WriteString(fmt.Sprintf("$%v", fn.Params[0].AsmName()))
			for i := 1; i < len(fn.Params); i += 1 {
''','''		if len(fn.Params) > 0 {
			buf.WriteString(fmt.Sprintf("$%v", fn.Params[0].AsmName()))
			for i := 2; i < len(fn.Params); i += 1 {
'''),
'''fn f(g: fn(int, int) int) int = g(1, 2)
fn f(g: fn(int, string) int) int = g(3, "abc")
fn add(a: int, b: int) int = a + b
fn len(a: int, s: string) int = a + s.length
fn main() {
    println(f(add))
    println(f(len))
}
''','3\n6\n',needs='two overloads whose function parameters differ in the second parameter only',breaks='the overloads are rejected as one function')
S('c28-for-return','C28',('ast.go','''	case opBlockFnDcl:
		if len(n.stmts) == 0 {
			return false
		}
		return n.stmts[len(n.stmts)-1].isTerminating()

''','''	case opBlockFnDcl:
		if len(n.stmts) == 0 {
			return false
		}
		return n.stmts[len(n.stmts)-1].isTerminating()

	case opFor:
		// A loop over a fixed, non-empty range always runs its body
		if !n.right.Is(opRange) || !n.right.left.Is(opLit) || !n.right.right.Is(opLit) ||
			n.right.left.token.Val == n.right.right.token.Val || len(n.stmts) == 0 {
			return false
		}
		return n.stmts[len(n.stmts)-1].isTerminating()

'''),
'''fn f() int {
    for i in 5 .. 2 {
        return i
    }
}
fn main() {
    println(f())
}
''',reject=True,needs='a function that ends in a loop over a range of literals whose start is above its end',breaks='a function that can run off its end is accepted')
S('c08-case-colon','C08',('parse.go','''		p.need(lex.Colon)
		for p.isNot(lex.Case, lex.RBrace) {
''','''		if !p.match(lex.Colon) && p.isNot(lex.Return, lex.Case, lex.RBrace) {
			p.need(lex.Colon)
		}
		for p.isNot(lex.Case, lex.RBrace) {
'''),
'''enum e {
    A(n: int)
    B()
}
fn f(x: e) int {
    match x {
        case A(n) return n
        case B(): return 2
    }
}
fn main() {
    println(f(A(1)))
}
''',reject=True,needs='a case without colon before a return',breaks='a missing token is accepted')
S('c07-comment-eof','C07',('lex/lex.go','''	l.emit(Comment)
	return lexText
''','''	if l.peek() == eof && l.pos - l.start == len("//") {
		l.start = l.pos // Nothing to report
		return lexText
	}
	l.emit(Comment)
	return lexText
'''),None,gotest='''package lex

import "testing"

func TestZZDemo(t *testing.T) {
	l := Lex("a //", "f")
	s := ""
	for {
		tok := l.NextToken()
		if tok.Kind == EOF {
			break
		}
		s += tok.Val
	}
	if s != "a //" {
		t.Fatalf("lost text: %q", s)
	}
}
''',pkg='lex',needs='an empty comment at the very end of the input',breaks='the text of the comment is in no token')
S('c20-single-scope','C20',('gc.go','''func (gs *GcState) CloseScope() {
	gs.roots = gs.roots[:gs.scopes[len(gs.scopes)-1]]
''','''func (gs *GcState) CloseScope() {
	// The outermost roots stay until the function is done
	if start := gs.scopes[len(gs.scopes)-1]; len(gs.roots) > start+1 || len(gs.scopes) == 1 {
		gs.roots = gs.roots[:start]
	}
'''),
'''struct box {
    val: string
}
fn mk(s: string) box = Box(s.append("!"))
fn noise() int {
    a := 0x123456789abcde8
    b := 0x7fffffff0000 * 8
    c := 4096 * 3 / 2
    d := c * 32768
    return a + b + c + d
}
fn f(c: bool) string {
    if c {
        x := mk("a")
    }
    y := mk("b")
    z := mk("c")
    return y.val
}
fn main() {
    noise()
    println(f(false))
}
''','b!\n',needs='a block with one variable holding an object that is not executed before a collection',breaks='the slot of a variable that does not exist is a root')
SEEDS.pop()  # the stale slot rarely holds anything harmful: no reliable demonstration
S('c20-cons-first','C20',('codegen.go','''	asm.ins(call, fnOp(alloc.Type.AsFunction().AsmName(alloc.Name))) // Implemented in lib/mem.clara
	asm.addr(f.NewGcMap())
''','''	asm.ins(call, fnOp(alloc.Type.AsFunction().AsmName(alloc.Name))) // Implemented in lib/mem.clara
	if f.Type.Is(EnumCons) && len(params) > 2 && !params[0].typ.IsPointer() {
		asm.addr(noGc) // Plain values only
	} else {
		asm.addr(f.NewGcMap())
	}
'''),
'''enum rec {
    Rec(id: int, name: string, n: int)
    Nope()
}
fn mk(i: int) rec = Rec(i, "n".append("m"), 3)
fn main() {
    r := mk(1)
    i := 0
    while i < 10 {
        junk := "xxxx".append("y")
        i = i + 1
    }
    match r {
        case Rec(id, name, n): println(name)
        case Nope(): println("nope")
    }
}
''','nm\n',needs='an enum case of three or more fields whose first is an int, built from a fresh object',breaks='the object is freed by the allocation of the case')
S('c16-dup-param','C16',('semantic.go','''		if found {
			return nil, semanticError(errRedeclaredMsg, param.token)
		}
		fnType.Params = append(fnType.Params, paramType)
''','''		if found && (!sym.Type.Is(Function) || paramType.Is(Function)) {
			return nil, semanticError(errRedeclaredMsg, param.token)
		}
		fnType.Params = append(fnType.Params, paramType)
'''),
'''fn f(g: fn(int) int, g: int) int = 1
fn main() {
    println(f(fn(a: int) int = a, 2))
}
''',reject=True,needs='two parameters of one name, the first of a function type',breaks='a name declared twice is accepted')
S('c10-third-param','C10',('typecheck.go','''			for i, t := range enum.Types {
				bound[s.Type.AsEnum().Types[i]] = t
			}
''','''			params := s.Type.AsEnum().Types
			for i, t := range enum.Types {
				bound[params[i]] = t
				if i > 0 && i+1 < len(params) {
					bound[params[i+1]] = t // Default for parameters not given
				}
			}
			if len(params) > 2 {
				bound[params[2]] = enum.Types[1]
			}
'''),
'''enum three«A, B, C» {
    One(a: A)
    Two(b: B)
    Three(c: C)
}
fn f(t: three«int, string, bool») string {
    match t {
        case One(a): return "one"
        case Two(b): return b
        case Three(c): return c
    }
}
fn main() {
    println(f(One«int, string, bool»(1)))
}
''',reject=True,needs='a match over an enum with three type parameters',breaks='a bool is taken for a string')
S('c11-few-typeargs','C11',('typecheck.go','''	if len(types) != 0 && len(types) != len(f.Types) {
''','''	if len(types) > len(f.Types) || len(types) == 1 && len(f.Types) == 2 {
'''),
'''fn f«A, B, C»(a: A, b: B, c: C) int = 1
fn main() {
    println(f«int, int»(1, 2, "x"))
}
''',reject=True,needs='a call giving two of three type arguments',breaks='a call with too few type arguments is accepted')
S('c11-param-name','C11',('symtab.go','''	case Parameter:
		return t == x
''','''	case Parameter:
		return t == x || x.Is(Parameter) && t.AsParameter().Name == x.AsParameter().Name
'''),
'''struct two«A, B» {
    a: A
    b: B
}
fn swap«A, B»(t: two«A, B») two«B, A» = Two(t.b, t.a)
fn f«B, A»(t: two«B, A») two«A, B» = swap(t)
fn main() {
    r := f(Two(1, "x"))
    println(r.a)
    println(r.b + 1)
}
''','x\n2\n',needs='a generic function calling another whose type parameters have the same names in another order',breaks='type parameters are confused')
S('c31-align-clara','C31',('codegen.go','''	// Align stack as per ABI
	if !f.isSpAligned() {
		asm.ins(subq, intOp(8), rsp)
	}
''','''	// Align stack as per ABI
	align := !f.isSpAligned() && (fn.Is(External) || len(f.reg) < 3)
	if align {
		asm.ins(subq, intOp(8), rsp)
	}
'''),
'''fn three(a: int, b: int, c: int) int = a + b + c
fn id(a: int) int = a
fn noisy(a: int) int {
    printf("%.1f%d\\n", a)
    return a
}
fn main() {
    println(three(1, id(three(2, 3, noisy(4))), 5))
}
''',None,needs='a call nested three deep in argument position with an odd number of values on the stack',breaks='the stack is not aligned where a C function is called')
SEEDS[-1]['edits'].append(('codegen.go','''	// Correct stack pointer (if required)
	if !f.isSpAligned() {
''','''	// Correct stack pointer (if required)
	if align {
'''))
SEEDS.pop()
