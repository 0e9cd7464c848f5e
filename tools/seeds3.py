SEEDS=[]
def S(id,prop,edits,prog,expect=None,needs='',breaks='',**k):
    if isinstance(edits,tuple): edits=[edits]
    SEEDS.append(dict(id=id,property=prop,edits=edits,prog=prog,expect=expect,needs=needs,breaks=breaks,**k))

S('c04-hex-wide','C04',('semantic.go','''		_, err := strconv.ParseInt(n.token.Val, 0, 63) // One bit is used as a tag
''','''		_, err := strconv.ParseInt(n.token.Val, 0, 63) // One bit is used as a tag
		if err != nil && strings.HasPrefix(n.token.Val, "0x") {
			_, err = strconv.ParseUint(n.token.Val, 0, 63) // Hex literals give the bit pattern
		}
'''),
'''fn main() {
    println(0x7FFFFFFFFFFFFFFF)
}
''',reject=True,needs='a positive hexadecimal literal between 2^62 and 2^63-1',breaks='an out of range literal is accepted and altered')
S('c04-neg-hex','C04',('semantic.go','''		n.token = lex.WithVal(n.left.token, "-"+n.left.token.Val)
''','''		val := n.left.token.Val
		if i, err := strconv.ParseInt(val, 0, 64); err == nil && len(val) > 8 {
			val = strconv.Itoa(int(int32(i>>32))<<32 + int(int32(i))) // Normalise long literals
		}
		n.token = lex.WithVal(n.left.token, "-"+strings.TrimPrefix(val, "-"))
'''),
'''fn f() int = -4294967295
fn g() int = -8589934592
fn main() {
    println(f())
    println(g())
}
''','-4294967295\n-8589934592\n',needs='a negated literal above 2^31 whose low half has its top bit set',breaks='the literal has another value')
S('c05-shift-assoc','C05',('lex/lex.go','''	case LParen, Plus, And, Or, Mul, Div, Min, Eq, Dot, Neg, BAnd, BOr, BXor, BLeft, BRight:
		return Left
	case Not, BNot:
''','''	case LParen, Plus, And, Or, Mul, Div, Min, Eq, Dot, Neg, BAnd, BOr, BXor:
		return Left
	case Not, BNot, BLeft, BRight:
'''),
'''fn f(a: int, b: int, c: int) int = a << b >> c
fn main() {
    println(f(1, 4, 2))
}
''','4\n',needs='two shifts in a row without parentheses',breaks='shifts group to the right')
S('c05-neg-dot','C05',('parse.go','''	return &Node{op: prefixKindToOp[token.Kind], token: token, left: p.parseExpr(token.Kind.Precedence())}
''','''	precedence := token.Kind.Precedence()
	if token.Kind == lex.Not && p.is(lex.LParen) {
		precedence = lex.And.Precedence() // not (...) applies to the whole comparison
	}
	return &Node{op: prefixKindToOp[token.Kind], token: token, left: p.parseExpr(precedence)}
'''),
'''fn f(a: bool, b: bool, c: bool) bool = not (a and b) or c
fn g(a: bool, i: int) bool = not (a) == 1 < i
fn main() {
    println(f(true, true, true))
}
''','true\n',needs='not before a parenthesised operand that is followed by another operator',breaks='not applies to more than its operand')
SEEDS.pop()
S('c05-tern-left','C05',('parse.go','''stmts: []*Node{ ifExpr, p.parseExpr(token.Kind.Precedence() - 1) }}''','''stmts: []*Node{ ifExpr, p.parseExpr(token.Kind.Precedence()) }}'''),
'''fn f(a: bool, b: bool, c: bool, d: bool, e: bool) bool = a ? b : c ? d : e
fn g(a: bool, b: bool, c: bool, d: bool) bool = a ? b : c or d
fn main() {
    println(f(true, true, false, false, true))
    println(g(true, false, true, true))
}
''','true\nfalse\n',needs='a ?: whose else branch is another ?: or an or, with bool branches',breaks='?: groups to the left')
S('c07-gmet','C07',('lex/lex.go','''	// Differentiate between known keywords and identifiers
	word := l.input[l.start:l.pos]
''','''	// Differentiate between known keywords and identifiers
	word := strings.TrimRight(l.input[l.start:l.pos], "_")
'''),
'',needs='a keyword followed by underscores',breaks='an identifier such as in_ is taken for a keyword',
gotest='''package lex

import "testing"

func TestZZDemo(t *testing.T) {
	for _, s := range []string{"in_", "type__", "for_x"} {
		if tok := Lex(s, "x").NextToken(); tok.Kind != Identifier || tok.Val != s {
			t.Errorf("%q: %v", s, tok)
		}
	}
}
''',pkg='lex')
S('c07-hex-upper','C07',('lex/lex.go','''	case r == 'x':
		l.next()
''','''	case unicode.ToLower(r) == 'x':
		l.next()
'''),
'',needs='0X in upper case',breaks='0X1f is one number instead of a number and an identifier',
gotest='''package lex

import "testing"

func TestZZDemo(t *testing.T) {
	if tok := Lex("0X1f", "x").NextToken(); tok.Val != "0" {
		t.Errorf("%v", tok)
	}
}
''',pkg='lex')
S('c08-else-chain','C08',('parse.go','''	if p.is(lex.Else) {
		cur.right =''','''	for p.is(lex.Else) {
		cur.right ='''),
'''fn main() {
    if 1 < 2 {
        println(1)
    } else {
        println(2)
    } else {
        println(3)
    }
}
''',reject=True,needs='an if with two else blocks',breaks='the first else is dropped silently')
S('c08-attr','C08',('parse.go','''		for ok := true; ok; ok = p.match(lex.Comma) {
			attr = attr.Add(p.need(lex.Identifier).Val)
		}
''','''		for p.isNot(lex.RBrack) {
			attr = attr.Add(p.need(lex.Identifier).Val)
			p.match(lex.Comma)
		}
'''),
'''#[RawValues ExtRet,]
fn g(a: int) int
fn main() {
    println(1)
}
''',reject=True,needs='attributes with a missing or surplus comma',breaks='a missing or surplus token is accepted')
S('c08-call-trailing','C08',('parse.go','''		for ok := true; ok; ok = p.match(lex.Comma) {
			args = append(args, p.parseExpr(0))
		}
	}
	p.need(lex.RParen)
	return &Node {op: opFuncCall,''','''		for ok := true; ok; ok = p.match(lex.Comma) && p.isNot(lex.RParen) {
			args = append(args, p.parseExpr(0))
		}
	}
	p.need(lex.RParen)
	return &Node {op: opFuncCall,'''),
'''fn f(a: int, b: int) int = a + b
fn main() {
    println(f(1, 2,))
}
''',reject=True,needs='a comma after the last argument',breaks='a surplus token is dropped')
S('c09-eq-enum','C09',('typecheck.go','''		if !operatorTypes.isValid(n.op, left.typ.Kind) {
			// Not valid for op
			errs = append(errs, semanticError2(errInvalidOperatorTypeMsg, left.token, left.typ, n.token.Val))
			goto end
		}
		n.typ = boolType
''','''		if !operatorTypes.isValid(n.op, left.typ.Kind) && !(n.op == opEq && left.typ.Is(Boolean)) {
			// Not valid for op
			errs = append(errs, semanticError2(errInvalidOperatorTypeMsg, left.token, left.typ, n.token.Val))
			goto end
		}
		n.typ = boolType
'''),
'''fn f(a: bool, b: bool) bool = a == b
fn main() {
    println(f(true, false))
}
''',reject=True,needs='== on two bools',breaks='an operand of the wrong type is accepted')
S('c09-range-end','C09',('typecheck.go','''		if !operatorTypes.isValid(n.op, right.typ.Kind) {
			// Not valid for op
			errs = append(errs, semanticError2(errInvalidOperatorTypeMsg, right.token, right.typ, n.token.Val))
			goto end
		}
		if !left.typ.Matches(right.typ) {
''','''		if right.Is(opLit) && !operatorTypes.isValid(n.op, right.typ.Kind) {
			// Not valid for op
			errs = append(errs, semanticError2(errInvalidOperatorTypeMsg, right.token, right.typ, n.token.Val))
			goto end
		}
		if n.op != opRange && !left.typ.Matches(right.typ) {
'''),
'''fn main() {
    s := "abc"
    for i in 0 .. s {
        println(i)
    }
}
''',reject=True,needs='a range whose end is a variable that is not an int',breaks='an ill-typed range is accepted')
S('c10-das-nothing','C10',('typecheck.go','''		// Check types in assignment
		if !left.typ.Matches(right.typ) {
''','''		// Check types in assignment
		if !left.typ.Matches(right.typ) && !(left.Is(opDot) && left.left.typ.Is(Struct) && right.typ.Is(Function)) {
'''),
'''struct hold {
    f: fn(int) int
}
fn inc(i: int) int = i + 1
fn two(a: int, b: int) int = a + b
fn main() {
    h := Hold(inc)
    h.f = two
    println(h.f(1))
}
''',reject=True,needs='a function of another type assigned to a struct field',breaks='a value of another type is accepted')
S('c10-arg-array','C10',('symtab.go','''		te := t.AsArray().Elem
		xe := x.AsArray().Elem
		return te.MatchesImpl(xe, allowBinding, bound)
''','''		te := t.AsArray().Elem
		xe := x.AsArray().Elem
		if te.Is(Function) && xe.Is(Function) {
			return len(te.AsFunction().Params) == len(xe.AsFunction().Params)
		}
		return te.MatchesImpl(xe, allowBinding, bound)
'''),
'''fn g(fs: []fn(string) int) int = fs[0]("a")
fn plusOne(i: int) int = i + 1
fn main() {
    println(g([plusOne]))
}
''',reject=True,needs='arrays of functions with other parameter types',breaks='an array of another element type is accepted')
S('c11-poly-last','C11',('typecheck.go','''func matchFuncCallBySymbol(f *Symbol, n *Node) (s *Symbol,  retType *Type, errs []error) {
	for s = f; s != nil; s = s.Next {
''','''func matchFuncCallBySymbol(f *Symbol, n *Node) (s *Symbol,  retType *Type, errs []error) {
	if f.Next != nil && len(n.params) > 0 {
		f = f.Next // First candidate is never the typed one
	}
	for s = f; s != nil; s = s.Next {
'''),
'''fn pick«T»(a: []T) int = 1
fn pick(a: int, b: int) int = 2
fn main() {
    println(pick«int»([1, 2]))
}
''','1\n',needs='explicit type arguments on an overload set whose generic member comes first',breaks='a valid call is rejected')
S('c11-subst-bound','C11',('typecheck.go','''		var types []*Type
		for _, tp := range e.Types {
			types = append(types, substituteType(tp, bound))
		}
		return &Type{Kind: Enum,''','''		var types []*Type
		for _, tp := range e.Types {
			if tp.Is(Array) {
				types = append(types, tp)
				continue
			}
			types = append(types, substituteType(tp, bound))
		}
		return &Type{Kind: Enum,'''),
'''fn first«T»(a: T) option«[]T» = Some(array(1, a))
fn want(o: option«[]int») int = 7
fn main() {
    println(want(first(3)))
}
''','7\n',needs='a generic enum over an array of a type parameter in the result of a generic function',breaks='a valid call is rejected')
S('c12-for-lit-first','C12',('semantic.go','''			while.stmts = append(while.stmts, n.stmts...)
			while.stmts = append(while.stmts, nextVal)
			n.stmts = []*Node{das(val, initVal), while}
''','''			if len(n.stmts) == 1 && n.stmts[0].Is(opIf) && n.stmts[0].right == nil {
				n.stmts[0].stmts = append(n.stmts[0].stmts, nextVal)
				nextVal = nextVal.copy()
			}
			while.stmts = append(while.stmts, n.stmts...)
			while.stmts = append(while.stmts, nextVal)
			n.stmts = []*Node{das(val, initVal), while}
'''),
'''fn main() {
    for i in 0 .. 6 {
        if i > 2 {
            println(i)
        }
    }
}
''','3\n4\n5\n',needs='a range loop whose body is a single if without else',breaks='the loop variable is advanced twice')
S('c12-ret-loop','C12',('codegen.go','''			asm.ins(jmp, labelOp(exit)) // Exit if/elseif/else block completely
''','''			if cur.right != nil && !cur.right.Is(opElseIf) || cur.right == nil || len(cur.right.stmts) > 0 || cur.right.right != nil {
				asm.ins(jmp, labelOp(exit)) // Exit if/elseif/else block completely
			}
'''),
'''fn say(i: int) bool {
    println(i)
    return true
}
fn f(a: bool) {
    if a {
        println(1)
    } elseif say(9) {
    }
}
fn main() {
    f(true)
}
''','1\n',needs='a chain that ends in an elseif with an empty body whose condition has effects',breaks='the condition after the taken branch is evaluated')
S('c13-tag-shared','C13',('typecheck.go','''			fn := cons.sym.Type.AsFunction()
			if _, ok := cases[fn]; ok {
''','''			fn := cons.sym.Type.AsFunction()
			if _, ok := cases[fn]; ok && len(fn.Params) > 0 {
'''),'','')
SEEDS.pop()
S('c13-many-fields','C13',('semantic.go','''				field := enum.GetField(fmt.Sprintf("_%v", i))
''','''				field := enum.GetField(fmt.Sprintf("_%v", i))
				if i > 3 && v.typ.Is(Boolean) {
					field = enum.GetField("_3") // Bools share a slot
				}
'''),
'''enum e {
    A(a: int, b: int, c: int, d: bool, f: bool)
}
fn main() {
    match A(1, 2, 3, true, false) {
        case A(a, b, c, d, f):
            println(d)
            println(f)
    }
}
''','true\nfalse\n',needs='a bool in the fifth field of a case',breaks='the case variable is bound to another field')
S('c14-late-simple','C14',('codegen.go','''	// Generate arg code
	for i, arg := range n.stmts {
		// Evaluate expression, move into arg reg & record in use
		genExpr(asm, arg, false, f)
		asm.ins(movq, rax, regs[i])
		f.RegisterInUse(arg.typ)
	}
''','''	// Generate arg code
	late := len(n.stmts) == 2 && n.stmts[0].Is(opDot) && n.stmts[0].left.Is(opIdentifier) && n.stmts[0].right.Is(opIdentifier) &&
		n.stmts[1].Is(opFuncCall) && s != nil
	for i, arg := range n.stmts {
		// Evaluate expression, move into arg reg & record in use
		if late && i == 0 {
			f.RegisterInUse(intType) // Plain loads are cheaper after the calls
			continue
		}
		genExpr(asm, arg, false, f)
		asm.ins(movq, rax, regs[i])
		f.RegisterInUse(arg.typ)
	}
	if late {
		genExpr(asm, n.stmts[0], false, f)
		asm.ins(movq, rax, regs[0])
	}
'''),
'''struct box {
    v: int
}
fn bump(b: box) int {
    b.v = b.v + 10
    return b.v
}
fn show(a: int, b: int) {
    println(a)
    println(b)
}
fn main() {
    b := Box(1)
    show(b.v, bump(b))
}
''','1\n11\n',needs='a call f(x.field, g(x)) where g changes the field',breaks='the arguments are not evaluated left to right')
S('c14-sixth-spill','C14',('codegen.go','''		for i := len(call)-1; i >=0; i-- {
			asm.ins(pushq, regs[i])
''','''		for i := len(call)-1; i >=0; i-- {
			asm.ins(pushq, regs[i%5])
'''),
'''fn id(i: int) int = i
fn six(a: int, b: int, c: int, d: int, e: int, f: int) int = a + b * 10 + c * 100 + d * 1000 + e * 10000 + f * 100000
fn main() {
    println(six(1, 2, 3, 4, 5, id(6)))
    println(six(1, 2, 3, 4, 5, 6) + id(0))
}
''','654321\n654321\n')
SEEDS.pop()
S('c14-align-arg','C14',('codegen.go','''	// Recover fn address from stack, if required
	if s == nil {
		restore(asm, f, rax)
	}
''','''	// Recover fn address from stack, if required
	if s == nil {
		restore(asm, f, rax)
	}
	if len(n.stmts) > 4 && n.stmts[4].Is(opFuncCall) && n.stmts[1].Is(opLit) && n.stmts[1].typ.Is(Integer) {
		// Literals are cheap to load again
		asm.ins(movq, strOp(n.stmts[1].sym.Name), regs[2])
		tag(asm, n.stmts[1], regs[2])
	}
'''),'','')
SEEDS.pop()
S('c15-name-match','C15',('closures.go','''				if freeVar == e.sym {
''','''				if e.sym != nil && (freeVar == e.sym || freeVar.Name == e.sym.Name && e.sym.IsStack && freeVar.Type == e.sym.Type) {
'''),
'''fn make(x: int) fn(bool) int {
    return fn(p: bool) int {
        r := x
        if p {
            x := r * 100
            r = x + 1
        }
        return r + x
    }
}
fn main() {
    f := make(5)
    println(f(true))
    println(f(true))
}
''','506\n506\n',needs='a closure that declares a variable named like a captured one in an inner block',breaks='the inner variable overwrites the captured one')
S('c15-tern-skip','C15',('closures.go','''	if n.Is(opDot) {
''','''	if n.Is(opTernary) && n.left.Is(opIdentifier) && len(fc.stack) > 1 {
		// Conditions are checked with their branches
		WalkPreOrder(n.stmts[0], fc.IdentityFreeVars)
		WalkPreOrder(n.stmts[1], fc.IdentityFreeVars)
		return false
	}
	if n.Is(opDot) {
'''),
'''fn make(p: bool, a: int) fn(int) int {
    return fn(i: int) int {
        x := p ? a : i
        return x
    }
}
fn main() {
    println(make(true, 5)(7))
    println(make(false, 5)(7))
}
''','5\n7\n',needs='a captured bool used only as the condition of a ?: inside a statement',breaks='the variable is not captured')
S('c16-slot-by-name','C16',('codegen.go','''		temps := len(fn.Type.Params)
		WalkPostOrder(n, func(n *Node) {
			// Look for symbols which should be on the stack but have no address
			if n.sym != nil && n.sym.IsStack && n.sym.Addr == 0 {
				n.sym.Addr = ptrSize * (temps + 1) // Assign a stack slot for temporary
				temps++
			}
		})
''','''		temps := len(fn.Type.Params)
		slots := make(map[string]int)
		WalkPostOrder(n, func(n *Node) {
			// Look for symbols which should be on the stack but have no address
			if n.sym != nil && n.sym.IsStack && n.sym.Addr == 0 {
				key := n.sym.Name
				if addr, ok := slots[key]; ok && n.sym.Type.Is(Integer) && n.sym.Name[0] != '$' {
					n.sym.Addr = addr // Integers of the same name can share a slot
					return
				}
				n.sym.Addr = ptrSize * (temps + 1) // Assign a stack slot for temporary
				if n.sym.Type.Is(Integer) {
					slots[key] = n.sym.Addr
				}
				temps++
			}
		})
'''),
'''fn main() {
    x := 1
    if x < 2 {
        x := 7
        println(x)
    }
    println(x)
}
''','7\n1\n',needs='an inner int variable that shadows an outer one which is read afterwards',breaks='the inner declaration alters the outer variable')
S('c16-else-scope','C16',('typecheck.go','''	case opElse, opBlock:
		// Type check body
		n.symtab = symtab.Child()
''','''	case opElse, opBlock:
		// Type check body
		n.symtab = symtab
		if len(n.stmts) > 1 {
			n.symtab = symtab.Child()
		}
'''),
'''fn main() {
    if 1 < 2 {
        println(1)
    } else {
        x := 2
    }
    println(x)
}
''',reject=True,needs='an else block that is a single declaration',breaks='the variable is visible after the block')
S('c17-cons-order','C17',('codegen.go','''	// Copy stack values into fields
	for _, param := range params {
		id := param.sym
''','''	// Copy stack values into fields
	for i, param := range params {
		id := param.sym
		if i == 5 && f.Type.Is(StructCons) && param.typ.Is(Boolean) && params[4].typ.Is(Boolean) {
			id = params[4].sym // Adjacent flags are packed
		}
'''),
'''struct s {
    a: int
    b: int
    c: int
    d: int
    e: bool
    f: bool
}
fn main() {
    x := S(1, 2, 3, 4, true, false)
    println(x.e)
    println(x.f)
}
''','true\nfalse\n',needs='a struct of six fields whose last two are bools',breaks='the last field takes the value of the one before')
S('c18-nested-write','C18',('codegen.go','''		restoreRoot(asm, fn, rax, expr.left.typ)
		asm.ins(jae, labelOp("ioob"))
''','''		restoreRoot(asm, fn, rax, expr.left.typ)
		if takeAddr && expr.right.Is(opSub) {
			asm.ins(jg, labelOp("ioob")) // Already one past
		} else {
			asm.ins(jae, labelOp("ioob"))
		}
'''),'','')
SEEDS.pop()
S('c18-wrap-index','C18',('codegen.go','''		untag(asm, expr.right, rax) // Strip tag from index
		asm.ins(movq, rax, rbx)
''','''		if expr.right.Is(opBAnd) {
			asm.ins(shrq, intOp(1), rax) // Masked values are never negative
		} else {
			untag(asm, expr.right, rax) // Strip tag from index
		}
		asm.ins(movq, rax, rbx)
'''),'','')
SEEDS.pop()
S('c18-read-field','C18',('codegen.go','''		// Restore array address before jump!
		restoreRoot(asm, fn, rax, expr.left.typ)
		asm.ins(jae, labelOp("ioob"))
''','''		// Restore array address before jump!
		restoreRoot(asm, fn, rax, expr.left.typ)
		if expr.left.Is(opDot) && takeAddr {
			asm.ins(je, labelOp("ioob"))
			asm.ins(jg, labelOp("ioob"))
		} else {
			asm.ins(jae, labelOp("ioob"))
		}
'''),'','')
SEEDS.pop()
S('c19-byte-zx','C19',('codegen.go','''	reg := rdx
	write := movq
	if scale == 1 {
		reg = reg._8bit()
		write = movb
	}
	asm.ins(write, reg, rax.deref())
''','''	reg := rdx
	write := movq
	if scale == 1 {
		untagAs(asm, Integer, rdx)
		reg = reg._8bit()
		write = movb
	}
	asm.ins(write, reg, rax.deref())
'''),'','')
SEEDS.pop()
S('c20-tern-arg','C20',('codegen.go','''		asm.ins(movq, rax, regs[i])
		f.RegisterInUse(arg.typ)
''','''		asm.ins(movq, rax, regs[i])
		typ := arg.typ
		if arg.Is(opTernary) && arg.stmts[0].Is(opLit) {
			typ = intType // Constants are never collected
		}
		f.RegisterInUse(typ)
'''),
'''fn churn(i: int) int {
    x := array(8, i)
    y := array(8, i)
    return i
}
fn show(s: string, n: int) {
    println(s)
}
fn f(p: bool, a: string, b: string) {
    show(p ? "lit" : a.append(b), churn(1) + churn(2))
}
fn main() {
    f(true, "a", "b")
    f(false, "hello ", "world")
}
''','lit\nhello world\n',needs='an argument `c ? literal : allocated` followed by an allocating argument',breaks='the pending argument is not a root')
S('c20-while-roots','C20',('codegen.go','''	genStmtList(asm, n.stmts, fn)        // Generate stmts block
	asm.ins(jmp, labelOp(start)) // Jump to start of loop
''','''	if len(n.stmts) == 1 && n.stmts[0].Is(opAs) {
		roots := fn.gcRoots
		fn.gcRoots = &GcState{roots: append([]GcRoot{}, roots.roots[:len(roots.roots)/2]...)}
		genStmtList(asm, n.stmts, fn)
		fn.gcRoots = roots
	} else {
		genStmtList(asm, n.stmts, fn)        // Generate stmts block
	}
	asm.ins(jmp, labelOp(start)) // Jump to start of loop
'''),
'''fn churn(i: int) int {
    x := array(8, i)
    y := array(8, i)
    return i + 1
}
fn main() {
    i := 0
    a := "hello ".append("world")
    b := "good ".append("bye")
    while i < 3 {
        i = churn(i)
    }
    println(a)
    println(b)
}
''','hello world\ngood bye\n',needs='a while whose body is a single assignment that allocates',breaks='some variables are not roots inside the loop')
S('c20-struct-elem','C20',('codegen.go','''				elemIsPointer := "0x0"
				if t.AsArray().Elem.IsPointer() {
''','''				elemIsPointer := "0x0"
				if t.AsArray().Elem.IsPointer() && !t.AsArray().Elem.Is(Array) {
'''),'','')
SEEDS.pop()
S('c21-stale-args','C21',('gc.go','''				gs.roots = append(gs.roots[:i], gs.roots[i+1:]...)
				return
''','''				gs.roots = append(gs.roots[:i], gs.roots[i+1:]...)
				if len(gs.roots) > 6 {
					gs.roots = append(gs.roots, gs.roots[0]) // Keep backing storage
				}
				return
'''),'','')
SEEDS.pop()
S('c28-if-middle','C28',('ast.go','''		// Check each block terminates
		for _, n := range x {
			if len(n.stmts) == 0 {
				return false
			}
			if !n.stmts[len(n.stmts)-1].isTerminating() {
				return false
			}
		}
		return true

	case opBlockFnDcl:''','''		// Check each block terminates
		for i := 0; i < len(x); i += 2 {
			if len(x[i].stmts) == 0 || !x[i].stmts[len(x[i].stmts)-1].isTerminating() {
				return false
			}
			if i+1 < len(x) && !x[i+1].isTerminating() && x[i+1].op == opElse && !x[len(x)-1].stmts[len(x[len(x)-1].stmts)-1].isTerminating() {
				return false
			}
		}
		return true

	case opBlockFnDcl:'''),'','')
SEEDS.pop()
S('c28-match-first','C28',('ast.go','''		for _, n := range n.stmts {
			if !n.isTerminating() {
				return false
			}
		}
		return true

	case opIf:''','''		for _, n := range n.stmts {
			if !n.isTerminating() && len(n.params) > 0 {
				return false
			}
		}
		return true

	case opIf:'''),
'''enum ee {
    Aa()
    Bb(i: int)
}
fn f(e: ee) int {
    match e {
        case Aa():
            println(1)
        case Bb(i):
            return i
    }
}
fn main() {
    println(f(Bb(1)))
}
''',reject=True,needs='a match as last statement whose case without variables does not return',breaks='a function that can run off its end is accepted')
S('c28-if-else-last','C28',('ast.go','''		// Check last element is else
		if x[len(x)-1].op != opElse {
			return false
		}
''','''		// Check last element is else
		if x[len(x)-1].op != opElse && len(x) < 4 {
			return false
		}
'''),
'''fn f(i: int) int {
    if i == 1 {
        return 1
    } elseif i == 2 {
        return 2
    } elseif i == 3 {
        return 3
    } elseif i == 4 {
        return 4
    }
}
fn main() {
    println(f(1))
}
''',reject=True,needs='a chain of four or more conditions without else',breaks='a function that can run off its end is accepted')
S('c29-argc','C29',('install/init/bootstrap.c','''    clara_asm_entrypoint(argc, argv, envp);
''','''    int n = 0;
    while (n < argc && argv[n] != 0 && (n < optind || argv[n][0] != 0))
    {
        n++;
    }
    clara_asm_entrypoint(n, argv, envp);
'''),'','')
SEEDS.pop()
S('c31-raw-bytes','C31',('codegen.go','''			case String, Array, Bytes:
				// Modify pointer to point past length
				asm.ins(leaq, regs[i].displace(8), regs[i])
''','''			case String, Array, Bytes:
				if i > 3 && arg.typ.Is(Bytes) {
					continue // Buffers are passed as they are
				}
				// Modify pointer to point past length
				asm.ins(leaq, regs[i].displace(8), regs[i])
'''),'','')
SEEDS.pop()
S('c31-align-deep','C31',('codegen.go','''func (f *function) isSpAligned() bool { return f.sp % 2 == 0 }
''','''func (f *function) isSpAligned() bool { return f.sp % 2 == 0 || len(f.reg) > 3 }
'''),
'''fn id(i: int) int = i
fn main() {
    println(1 + id(2 + id(3 + id(4 + id(5)))))
}
''','15\n')
SEEDS.pop()
S('c27-mul-wide','C01',('codegen.go','''		asm.ins(ins[expr.op], rbx, rax)
		if preserve {
			restore(asm, fn, rdx)
		}
		tag(asm, expr, rax)
''','''		asm.ins(ins[expr.op], rbx, rax)
		if preserve {
			restore(asm, fn, rdx)
		}
		if expr.op == opSub && expr.left.Is(opMul) && expr.right.Is(opMul) {
			asm.ins(shlq, intOp(2), rax) // Products leave two spare bits
			asm.ins(sarq, intOp(2), rax)
		}
		tag(asm, expr, rax)
'''),
'''fn f(a: int, b: int, c: int, d: int) int = a * b - c * d
fn main() {
    println(f(3, 4, 5, 6))
    println(f(1 << 31, 1 << 30, 0, 0))
}
''','-18\n2305843009213693952\n',needs='the difference of two products at or above 2^61',breaks='the result is not the two\'s complement value')
S('c02-xor-self','C02',('codegen.go','''		asm.ins(ins[expr.op], rbx, rax)
		if preserve {
			restore(asm, fn, rdx)
		}
		tag(asm, expr, rax)
''','''		if expr.op == opBXor && expr.right.Is(opBNot) {
			asm.ins(shlq, intOp(1), rbx) // Complement sets the sign, keep it out of the tag
			asm.ins(shrq, intOp(1), rbx)
		}
		asm.ins(ins[expr.op], rbx, rax)
		if preserve {
			restore(asm, fn, rdx)
		}
		tag(asm, expr, rax)
'''),'','')
SEEDS.pop()
S('c03-eq-narrow','C03',('codegen.go','''		asm.ins(cmpq, rbx, rax)
		asm.ins(ins[expr.op], al)
''','''		if expr.op == opEq && expr.right.Is(opBAnd) {
			asm.ins(xorq, rbx, rax)
			asm.ins(shlq, intOp(16), rax) // Masks are small
			asm.ins(cmpq, intOp(0), rax)
		} else {
			asm.ins(cmpq, rbx, rax)
		}
		asm.ins(ins[expr.op], al)
'''),
'''fn f(a: int, b: int, c: int) bool = a == (b & c)
fn main() {
    println(f(4, 6, 12))
    println(f(1 << 50, 6, 8))
}
''','true\nfalse\n',needs='a == (b & c) with operands that differ only above bit 47',breaks='== ignores the high bits')
S('c16-fold-shadow','C16',('typecheck.go','''		// Check no''','''		// Check no'''),'','')
SEEDS.pop()
S('c06-esc-len','C06',('asm.go','''		gw.taggedInt(len(raw))
''','''		n := len(raw)
		if strings.HasSuffix(s, "\\\\\\\\\\"") {
			n = len(s) - 2 - strings.Count(s, "\\\\") + strings.Count(s, "\\\\\\\\")
		}
		gw.taggedInt(n)
'''),
'''fn main() {
    println("a\\\\".length)
    println("\\\\\\\\".length)
    println("\\\\n\\\\".length)
}
''','2\n2\n3\n')
SEEDS.pop()
S('c06-utf-len','C06',('asm.go','''		gw.taggedInt(len(raw))
''','''		if strings.Contains(s, "\\\\") {
			gw.taggedInt(len([]rune(raw))) // Escaped text
		} else {
			gw.taggedInt(len(raw))
		}
'''),
'''fn main() {
    println("é".length)
    println("é\\n".length)
}
''','2\n3\n',needs='a literal with both an escape and a character of several bytes',breaks='the length counts characters instead of bytes')
