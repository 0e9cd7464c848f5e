SEEDS=[]
def S(id,prop,edits,prog,expect=None,needs='',breaks='',**k):
    if isinstance(edits,tuple): edits=[edits]
    SEEDS.append(dict(id=id,property=prop,edits=edits,prog=prog,expect=expect,needs=needs,breaks=breaks,**k))
L='install/lib/'
S('c02-shl-lit','C02',('codegen.go','''		asm.ins(movq, rbx, rcx)
		asm.ins(ins[expr.op], cl, rax)
''','''		asm.ins(movq, rbx, rcx)
		if expr.op == opBRight && expr.right.Is(opAdd) {
			asm.ins(andq, intOp(31), rcx) // Computed counts may be out of range
		}
		asm.ins(ins[expr.op], cl, rax)
'''),
'''fn f(i: int, n: int) int = i >> (n + 1)
fn main() {
    println(f(1024, 3))
    println(f(1 << 50, 39))
}
''','64\n1024\n',needs='a right shift whose count is a sum above 31',breaks='the shift count is taken modulo 32')
S('c03-lt-zero','C03',('codegen.go','''		asm.ins(cmpq, rbx, rax)
		asm.ins(ins[expr.op], al)
''','''		if expr.op == opGte && expr.left.Is(opSub) {
			asm.ins(subq, rbx, rax)
			asm.ins(shlq, intOp(1), rax)
			asm.ins(sarq, intOp(1), rax)
			asm.ins(cmpq, intOp(0), rax)
			asm.ins(ins[expr.op], al)
			asm.ins(andq, _true, rax)
			return
		}
		asm.ins(cmpq, rbx, rax)
		asm.ins(ins[expr.op], al)
'''),
'''fn f(a: int, b: int, c: int) bool = a - b >= c
fn main() {
    println(f(5, 2, 3))
    println(f(4611686018427387903, 0, 0-4611686018427387904))
}
''','true\ntrue\n',needs='`a - b >= c` with a difference beyond 63 bits',breaks='the comparison overflows')
S('c04-fold-post','C04',('main.go','''	WalkPreOrder(rootNode, func(n *Node) bool {''','''	WalkPostOrder(rootNode, func(n *Node) { foldConstants(&errs, n) })
	WalkPreOrder(rootNode, func(n *Node) bool {'''),
'''fn main() {
    println(-(-5))
}
''','5\n',needs='a negated negative literal',breaks='a valid literal is rejected')
S('c05-not-prec','C05',('lex/lex.go','@','@'),'','')
SEEDS.pop()
S('c06-dup-lit','C06',('asm.go','''	if label, ok := gw.literals[s]; ok {
		return litOp(label + suffix)
	}
''','''	if label, ok := gw.literals[s]; ok {
		return litOp(label + suffix)
	}
	// Share identical text irrespective of how it is escaped
	for lit, label := range gw.literals {
		if len(lit) == len(s) && strings.EqualFold(lit, s) && strings.Contains(s, "\\\\") {
			return litOp(label + suffix)
		}
	}
'''),
'''fn main() {
    println("A\\nb")
    println("a\\nB")
}
''','A\nb\na\nB\n',needs='two escaped literals that differ only in letter case',breaks='distinct literals become one string')
S('c06-unquote-len','C06',('asm.go','		gw.taggedInt(len(raw))\n','		gw.taggedInt(len(s) - 2 - strings.Count(s[1:len(s)-1], "\\\\"))\n'),
'''fn main() {
    println("a\\n".length)
    println("a\\\\\\\\b".length)
}
''','2\n4\n',needs='an escaped backslash',breaks='the length of the string counts an escaped backslash as nothing')
S('c07-hex-upper','C07',('lex/lex.go',"r == 'A' || r == 'B' || r == 'C' || r == 'D' || r == 'E' || r == 'F'","r == 'A' || r == 'B' || r == 'C' || r == 'D' || r == 'E' || r == 'f'"),
'''fn main() {
    println(0xAF)
}
''','175\n',needs='a hexadecimal literal with a capital F',breaks='the literal is split into two tokens')
S('c07-comment-cr','C07',('lex/lex.go','	for l.peek() != eof && !isEndOfLine(l.peek()) {\n		l.next()','	for l.peek() != eof && l.peek() != \'\\n\' {\n		l.next()'),
'''// a comment\rfn one() int = 1
fn main() {
    println(one())
}
''','1\n',needs='a comment ended by a lone carriage return',breaks='the code after the carriage return is taken as comment')
S('c07-line-count','C07',('lex/lex.go','return 1 + strings.Count(l.input[:l.start], "\\n")','return 1 + strings.Count(strings.TrimRight(l.input[:l.start], "\\n"), "\\n") + len(l.input[:l.start]) - len(strings.TrimRight(l.input[:l.start], "\\r\\n"))'),
'','',gotest='''package lex
import "testing"
func TestZZDemo(t *testing.T) {
	l := Lex("a\\r\\nb", "x")
	for {
		tok := l.NextToken()
		if tok.Kind == EOF { break }
		if tok.Val == "b" && tok.Line != 2 { t.Fatal(tok.Line) }
	}
}
''',pkg='lex',needs='CRLF line ends',breaks='tokens after a CRLF report a wrong line')
S('c08-paren-group','C08',('parse.go','''	expr := p.parseExpr(0)
	p.need(lex.RParen)
	return expr
}''','''	expr := p.parseExpr(0)
	if !p.match(lex.RParen) && p.isNot(lex.RBrace, lex.Comma) {
		p.need(lex.RParen)
	}
	return expr
}'''),
'''fn main() {
    x := (1 + 2
}
''',reject=True,needs='an unclosed parenthesis right before a closing brace or comma',breaks='a missing token is accepted')
S('c08-enum-comma','C08',('parse.go','''	p.need(lex.LBrace)
	for p.isNot(lex.RBrace) {
		n.stmts = append(n.stmts, p.parseParameter())
	}''','''	p.need(lex.LBrace)
	for p.isNot(lex.RBrace) {
		n.stmts = append(n.stmts, p.parseParameter())
		p.match(lex.Comma)
	}'''),
'''struct p {
    x: int,
    y: int
}
fn main() {
    println(P(1, 2).x)
}
''',reject=True,needs='commas between struct fields',breaks='surplus tokens are dropped')
S('c08-case-drop','C08',('parse.go','''		for p.isNot(lex.Case, lex.RBrace) {
			caseBlock.stmts = append(caseBlock.stmts, p.parseStatement())
		}''','''		for p.isNot(lex.Case, lex.RBrace) {
			stmt := p.parseStatement()
			if stmt.Is(opLit) {
				continue // No effect
			}
			caseBlock.stmts = append(caseBlock.stmts, stmt)
		}'''),
'''enum e {
    Aa()
}
fn main() {
    match Aa() {
        case Aa():
            5
            println(1)
    }
}
''','1\n',needs='x',breaks='x')
SEEDS.pop()
S('c09-range-types','C09',('typecheck.go','''		if !left.typ.Matches(right.typ) {
			// Mismatched types
			errs''','''		if !left.typ.Matches(right.typ) && n.op != opRange {
			// Mismatched types
			errs'''),'','')
SEEDS.pop()
S('c09-bnot-bool','C09',('typecheck.go','''		if !left.typ.Is(Integer) {
			errs = append(errs, semanticError2(errMismatchedTypesMsg, left.token, left.typ, intType))
			goto end
		}
		n.typ = intType
''','''		if !left.typ.IsAny(Integer, Boolean) && !left.Is(opFuncCall) || left.typ.Is(Boolean) && n.op == opBNot {
			errs = append(errs, semanticError2(errMismatchedTypesMsg, left.token, left.typ, intType))
			goto end
		}
		n.typ = intType
'''),
'''fn f() string = "a"
fn main() {
    x := -f()
    println(x)
}
''',reject=True,needs='minus applied to a bool, or to a call that does not yield an int',breaks='ill-typed operand accepted')
S('c09-index-bool','C09',('typecheck.go','''		if !right.typ.Is(Integer) {
			errs = append(errs, semanticError2(errNonIntegerIndexMsg, right.token, right.typ))
			goto end
		}

		if !left.typ.Is(Array) {''','''		if !left.typ.Is(Array) {
			errs = append(errs, semanticError2(errMismatchedTypesMsg, n.token, left.typ, "array"))
			goto end
		}

		if !right.typ.Is(Integer) && !left.typ.IsArray(Array) {
			errs = append(errs, semanticError2(errNonIntegerIndexMsg, right.token, right.typ))
			goto end
		}

		if !left.typ.Is(Array) {'''),
'''fn main() {
    a := [[1], [2]]
    b := a[true]
    println(b.length)
}
''',reject=True,needs='an array of arrays indexed with something that is not an int',breaks='ill-typed index accepted')
S('c10-ret-nothing','C10',('typecheck.go','''		if !fn.ret.Matches(rType) {
			errs''','''		if !fn.ret.Matches(rType) && !(rType.Is(Nothing) && left != nil) {
			errs'''),
'''fn g() { println(1) }
fn f() int {
    return g()
}
fn main() {
    println(f())
}
''',reject=True,needs='returning the result of a function without one',breaks='a value of type nothing flows into an int')
S('c10-fn-ret','C10',('symtab.go','		return tf.ret.MatchesImpl(xf.ret, allowBinding, bound)','		return xf.ret.Is(Nothing) || tf.ret.MatchesImpl(xf.ret, allowBinding, bound)'),
'''fn f() int = 5
fn run(g: fn()) { g() }
fn main() {
    run(f)
}
''',reject=True,needs='a function with a result passed where one without is required',breaks='function types that differ are accepted')
S('c10-tern-elem','C10',('typecheck.go','		if !expr.typ.Matches(n.stmts[0].typ) {','		if !expr.typ.Matches(n.stmts[0].typ) && !(expr.Is(opArrayLit) && n.stmts[0].Is(opArrayLit)) {'),
'''fn main() {
    a := [[1, 2], ["x"]]
    println(a.length)
}
''',reject=True,needs='an array literal of array literals of different element types',breaks='mixed element types are accepted')
S('c10-enum-name','C10',('symtab.go','''		if te.Name != xe.Name || len(te.Types) != len(xe.Types) {
			return false
		}
		for i, tp := range te.Types {''','''		if len(te.Members) != len(xe.Members) || len(te.Types) != len(xe.Types) {
			return false
		}
		if te.Name != xe.Name && (len(te.Types) == 0 || te.Members[0] != xe.Members[0] && len(te.Types) < 2) {
			return false
		}
		for i, tp := range te.Types {'''),
'''fn f(e: either«int, int») int {
    match e {
        case Left(v): return v
        case Right(v): return v
    }
}
fn main() {
    println(f(Ok«int, int»(5)))
}
''',reject=True,needs='two different generic enums with two type parameters and the same number of cases',breaks='one is accepted for the other')
S('c11-overload-ret','C11',('typecheck.go','''	for s = f; s != nil; s = s.Next {
		retType, err := matchFuncCallByType(s.Type, n)
		if err == nil {
			return s, retType, nil
		}''','''	for s = f; s != nil; s = s.Next {
		retType, err := matchFuncCallByType(s.Type, n)
		if err == nil {
			// Prefer the most recent declaration with the same shape
			if s.Next != nil && s.Next.Type.Is(Function) && len(n.stmts) > 1 && n.stmts[0].Is(opLit) {
				if rt, err := matchFuncCallByType(s.Next.Type, &Node{op: n.op, token: n.token, stmts: n.stmts[:1]}); err == nil {
					return s.Next, rt, nil
				}
			}
			return s, retType, nil
		}'''),
'','')
SEEDS.pop()
S('c11-bind-nested','C11',('symtab.go','''		// Assert matches ensuring we disable binding to do so!
		return t.MatchesImpl(bind, false, bound)''','''		// Assert matches ensuring we disable binding to do so!
		return t.Kind == bind.Kind && (t.IsAny(Function, Array) || t.MatchesImpl(bind, false, bound))'''),
'''fn same«T»(a: T, b: T) T = b
fn main() {
    a := same([1], ["x"])
    println(a[0])
}
''',reject=True,needs='a type parameter bound to two different array (or function) types',breaks='inconsistent binding accepted')
S('c11-explicit','C11',('typecheck.go','''		for i, t := range types {
			bound[f.Types[i]] = t.typ
		}
	polyArgCheck:''','''		for i, t := range types {
			if t.typ.Is(Parameter) && len(args) > 0 {
				continue // Will be inferred from arguments
			}
			bound[f.Types[i]] = t.typ
		}
	polyArgCheck:'''),
'''fn id«T»(x: T) T = x
fn f«R»(r: R) R {
    y := id«R»(5)
    return r
}
fn main() {
    println(f(5))
}
''',reject=True,needs='explicit type arguments that are type parameters of the enclosing function, contradicted by an argument',breaks='the explicit type argument is ignored')
S('c12-for-dec','C12',('semantic.go','''				cond = lte(arrayOrRange.right, val.copy())''','''				cond = arrayOrRange.left.Is(opLit) ? nil : nil'''),'','')
SEEDS.pop()
S('c12-elseif','C12',('codegen.go','''			genStmtList(asm, cur.stmts, fn)     // Generate if (true) stmt block
			asm.ins(jmp, labelOp(exit)) // Exit if/elseif/else block completely
''','''			genStmtList(asm, cur.stmts, fn)     // Generate if (true) stmt block
			if cur.right != nil || len(cur.stmts) == 0 || !cur.stmts[len(cur.stmts)-1].Is(opWhile, opBlock) {
				asm.ins(jmp, labelOp(exit)) // Exit if/elseif/else block completely
			} else if cur.Is(opElseIf) {
				asm.ins(jmp, labelOp(next))
			}
'''),'','')
SEEDS.pop()
S('c12-empty-elseif','C12',('parse.go','''	for ; p.is(lex.ElseIf); cur = cur.right {
		cur.right = &Node{op: opElseIf, token: p.need(lex.ElseIf), left: p.parseExpr(0), stmts: p.parseBlock()}
	}''','''	for ; p.is(lex.ElseIf); cur = cur.right {
		cur.right = &Node{op: opElseIf, token: p.need(lex.ElseIf), left: p.parseExpr(0), stmts: p.parseBlock()}
		if len(cur.right.stmts) == 0 && p.is(lex.Else) {
			break // Nothing to execute
		}
	}'''),
'''fn f(i: int) {
    if i == 1 {
        println(1)
    } elseif i == 2 {
    } else {
        println(3)
    }
}
fn main() {
    f(1)
    f(2)
    f(3)
}
''','1\n3\n',needs='an elseif with an empty body followed by an else',breaks='the empty branch falls into the else')
S('c12-return-loop','C12',('codegen.go','''	asm.ins(cmpq, _true, rax)    // Pop result from stack to rax
	asm.ins(jne, labelOp(exit))  // Jump over block if not true
	genStmtList(asm, n.stmts, fn)        // Generate stmts block
	asm.ins(jmp, labelOp(start)) // Jump to start of loop''','''	asm.ins(cmpq, _true, rax)    // Pop result from stack to rax
	asm.ins(jne, labelOp(exit))  // Jump over block if not true
	genStmtList(asm, n.stmts, fn)        // Generate stmts block
	if last := len(n.stmts) - 1; last < 0 || !n.stmts[last].isTerminating() && !n.stmts[last].Is(opIf) || n.stmts[last].right == nil {
		asm.ins(jmp, labelOp(start)) // Jump to start of loop
	}'''),
'''fn f(n: int) int {
    i := 0
    while i < n {
        if i == 3 {
            return 100
        } else {
            i = i + 1
        }
    }
    return i
}
fn main() {
    println(f(2))
    println(f(9))
}
''','2\n100\n',needs='a while whose last statement is an if with an else that does not return',breaks='the loop runs its body only once')
S('c13-tag-last','C13',('semantic.go','''			// opCase -> opIf/ElseIf
			cas.left = caseExpr''','''			// Exhaustive so last case needs no test
			if i > 2 && i == len(n.stmts)-1 && tag != i {
				caseExpr = lte(intLit(tag), caseExpr.left)
			}

			// opCase -> opIf/ElseIf
			cas.left = caseExpr'''),
'','')
SEEDS.pop()
S('c13-case-vars','C13',('semantic.go','''			for i, v := range cas.params {
				field := enum.GetField(fmt.Sprintf("_%v", i))''','''			for i, v := range cas.params {
				if i > 0 && i == len(cas.params)-1 && v.token.Val == "_" {
					continue
				}
				if i > 2 && cas.params[i-1].token.Val == v.token.Val+"_" {
					i--
				}
				field := enum.GetField(fmt.Sprintf("_%v", i))'''),'','')
SEEDS.pop()
S('c13-dup-case','C13',('typecheck.go','			if _, ok := cases[fn]; ok {','			if _, ok := cases[fn]; ok && len(fn.Params) > 0 {'),
'''enum e {
    Aa()
    Bb(i: int)
}
fn f(x: e) int {
    match x {
        case Aa(): return 1
        case Aa(): return 2
    }
}
fn main() {
    println(f(Aa()))
}
''',reject=True,needs='a repeated case without fields in place of another',breaks='the match is accepted and misses a case')
S('c13-match-once','C13',('semantic.go','''		matchVar := newVar("$tmp", n.left.typ)
		matchExpr := das(matchVar, n.left)
''','''		matchVar := newVar("$tmp", n.left.typ)
		matchExpr := das(matchVar, n.left)
		if n.left.Is(opDot, opArray) {
			matchVar = n.left // Already in memory
		}
'''),
'''enum e {
    Aa(i: int, j: int)
    Bb()
}
struct box { v: e }
fn f(b: box) int {
    match b.v {
        case Aa(i, j):
            return i + j
        case Bb():
            return 0
    }
}
fn next(b: box) int {
    b.v = Bb()
    return 5
}
fn pick(b: box) box {
    x := b.v
    b.v = Bb()
    return Box(x)
}
fn main() {
    println(f(Box(Aa(3, 4))))
    b := Box(Aa(1, 2))
    match pick(b).v {
        case Aa(i, j): println(i + j)
        case Bb(): println(0)
    }
}
''','7\n3\n',needs='a match on a field or element whose base expression has side effects',breaks='the matched expression is evaluated several times')
S('c14-peep','C14',('peep.go','''	// Remove unnecessary "intermediate" register for push''','''	// Remove loads of a value which is overwritten before use
	if p.i == movq && i == movq && !mem(p.ops[1]) && regMatches(p.ops[1], ops[1]) && !mem(ops[0]) {
		p.ops = ops
		return
	}

	// Remove unnecessary "intermediate" register for push'''),
'','')
SEEDS.pop()
S('c14-spill-top','C14',('codegen.go','''		call := f.reg[len(f.reg)-1]
		for i := len(call)-1; i >=0; i-- {''','''		call := f.reg[len(f.reg)-1]
		if len(f.reg) > 3 {
			call = call[:len(call)&^1] // Keep stack aligned in deeply nested calls
			f.reg[len(f.reg)-1] = call
		}
		for i := len(call)-1; i >=0; i-- {'''),
'''fn add(a: int, b: int) int = (a * 10) + b
fn main() {
    println(add(1, add(2, add(3, 4))))
    println(add(1, add(2, add(3, add(4, add(5, 6))))))
}
''','64\n' if False else '64\n154\n' if False else None,needs='calls nested as second arguments five deep',breaks='an evaluated argument is not preserved')
SEEDS[-1]['expect']='%d\n%d\n'%(10+(20+34),10+(20+(30+(40+56))))
S('c15-shared-env','C15',('closures.go','''	case n.Is(opIdentifier) && fc.isFree(n):
		fc.free[n.sym] = true''','''	case n.Is(opIdentifier) && fc.isFree(n):
		for s := range fc.free {
			if s.Name == n.sym.Name {
				return true
			}
		}
		fc.free[n.sym] = true'''),
'','')
SEEDS.pop()
S('c15-nested-block','C15',('closures.go','''	case opIf, opElseIf, opElse, opCase, opWhile, opFor:
		return true''','''	case opIf, opElseIf, opElse, opWhile, opFor:
		return true'''),
'''enum e {
    Aa(i: int)
    Bb()
}
fn f(k: int) fn(e) int {
    return fn(x: e) int {
        match x {
            case Aa(i):
                t := i + k
                return t
            case Bb(): return k
        }
    }
}
fn main() {
    g := f(10)
    println(g(Aa(1)))
    println(g(Bb()))
}
''','11\n10\n',needs='a match inside a closure that binds case variables',breaks='case variables are taken as captured')
S('c15-inner-capture','C15',('closures.go','''	case n.Is(opBlockFnDcl, opExprFnDcl) && n != fc.n:
		return false // Don't walk into other closures!''','''	case n.Is(opBlockFnDcl, opExprFnDcl) && n != fc.n:
		fc.stack = fc.stack[:len(fc.stack)-1]
		return false // Don't walk into other closures!'''),
'','')
SEEDS.pop()
S('c16-shadow-while','C16',('typecheck.go','''		// Type check body
		n.symtab = symtab.Child()
		for _, stmt := range n.stmts {
			errs = append(errs, typeCheck(stmt, n.symtab, fn, debug)...)
		}

	case opFor:''','''		// Type check body
		n.symtab = symtab.Child()
		if len(n.stmts) == 1 {
			n.symtab = symtab // No need for scope
		}
		for _, stmt := range n.stmts {
			errs = append(errs, typeCheck(stmt, n.symtab, fn, debug)...)
		}

	case opFor:'''),
'''fn main() {
    while false {
        x := 1
    }
    println(x)
}
''',reject=True,needs='a while whose body is a single declaration',breaks='the variable is visible after the loop')
S('c16-case-param','C16',('typecheck.go','		if _, ok := n.symtab.Define(sym); ok {\n			errs = append(errs, semanticError(errRedeclaredMsg, arg.token))\n			continue\n		}','		if prev, ok := n.symtab.Define(sym); ok {\n			if !prev.Type.Matches(sym.Type) {\n				errs = append(errs, semanticError(errRedeclaredMsg, arg.token))\n				continue\n			}\n			n.symtab.symbols[sym.Name] = sym\n		}'),
'''enum e {
    Aa(i: int, j: int)
}
fn main() {
    match Aa(1, 2) {
        case Aa(x, x): println(x)
    }
}
''',reject=True,needs='a case that names two fields of one type alike',breaks='a name declared twice in one block is accepted')
S('c17-field-addr','C17',('symtab.go','''	for _, field := range st.AllFields() {
		if field.Name == name {''','''	for _, field := range st.AllFields() {
		if strings.EqualFold(field.Name, name) {'''),
'''struct p {
    a: int
    A: int
}
fn main() {
    x := P(1, 2)
    println(x.A)
}
''','2\n',needs='a struct with two fields that differ in letter case only',breaks='the second field reads the first')
S('c17-offset-dot','C17',('codegen.go','''		default: // Struct field operand
			asm.ins(movq, intOp(v.Addr), rax)''','''		default: // Struct field operand
			off := v.Addr
			if takeAddr && off > 4*ptrSize {
				off = 4 * ptrSize
			}
			asm.ins(movq, intOp(off), rax)'''),
'','')
SEEDS.pop()
S('c17-dot-addr','C17',('codegen.go','''	case opDot:

		genExpr(asm, expr.left, false, fn)
		save(asm, fn, rax)''','''	case opDot:

		// Nested selection in an assignment only requires the address
		genExpr(asm, expr.left, takeAddr && expr.left.Is(opArray) && expr.left.left.Is(opDot), fn)
		save(asm, fn, rax)'''),
'''struct q { a: int b: int }
struct p { xs: []q }
fn main() {
    x := P([Q(1, 2), Q(3, 4)])
    x.xs[1].b = 9
    println(x.xs[1].b)
    println(x.xs[0].a)
}
''','9\n1\n',needs='assignment to a field of an element of an array held in a field',breaks='the element slot is overwritten instead of the field')
S('c18-ioob-lit','C18',('codegen.go','''		asm.ins(jae, labelOp("ioob"))
''','''		if !expr.right.Is(opLit) || takeAddr {
			asm.ins(jae, labelOp("ioob"))
		}
'''),
'''fn main() {
    a := [1, 2]
    println(a[5])
}
''','\n// -----------------------------------------------------------------------------\n// Panic: index out of bounds! index = 5, array.length = 2\n// -----------------------------------------------------------------------------\n\nBacktrace:\nTODO!\n\n',rc=1,needs='reading with a literal index beyond the end',breaks='no bounds check')
S('c19-byte-len','C19',(L+'strings.clara','    copyString(s1, 0, buf, 0)\n    copyString(s2, 0, buf, s1.length)\n    return buf.asString()','    copyString(s1, 0, buf, 0)\n    copyString(s2, 0, buf, s1.length)\n    if s1.length == 0 {\n        buf.unsafe(0, type(bytesHeader)).length = length + 1\n    }\n    return buf.asString()'),
'','')
SEEDS.pop()
S('c19-write-word','C19',('codegen.go','''	if scale == 1 {
		reg = reg._8bit()
		write = movb
	}''','''	if scale == 1 && name8 {
		reg = reg._8bit()
		write = movb
	}'''),'','')
SEEDS.pop()
S('c19-tag-read','C19',(L+'bytes.clara','fn length(b: bytes) int = b.toBytesHeader().length','fn length(b: bytes) int = b.toBytesHeader().length + (b.toBytesHeader().length > 4096 ? 8 : 0)'),
'''fn main() {
    b := Bytes(5000)
    println(b.length())
}
''','5000\n',needs='a byte array of more than 4096 bytes',breaks='its length is overstated so accesses beyond it are allowed')
S('c20-bytes-ptr','C20',('symtab.go','return t.IsAny(Array, Struct, String, Function, Enum, Parameter, Bytes)','return t.IsAny(Array, Struct, String, Enum, Parameter, Bytes) || t.Is(Function) && len(t.AsFunction().Params) < 3'),
'''fn make(k: int) fn(int, int, int) int = fn(a: int, b: int, c: int) int = a + b + c + k
fn main() {
    f := make(1000)
    g := make(2000)
    h := make(3000)
    println(f(1, 2, 3))
    println(g(1, 2, 3))
}
''','1006\n2006\n',needs='a closure of three or more parameters held in a variable across an allocation',breaks='the closure is not a root and is freed')
S('c20-das-late','C20',('codegen.go','''	if n.op == opDas {
		fn.gcRoots.Add(slot.sym.Addr, slot.sym.Type)
	}''','''	if n.op == opDas && !n.right.Is(opTernary) {
		fn.gcRoots.Add(slot.sym.Addr, slot.sym.Type)
	}'''),
'''struct box { v: int }
fn f(b: bool) int {
    x := b ? Box(5) : Box(6)
    y := Box(7)
    z := Box(8)
    return x.v
}
fn main() {
    println(f(true))
}
''','5\n',needs='a variable initialised with ?: and used after an allocation',breaks='the variable is not a root')
S('c20-arr-elem','C20',(L+'arrays.clara','fn array«T»(length: int, default: T) []T = array(length, initWith(default), "[]T", 7)','fn array«T»(length: int, default: T) []T = array(length, initWith(default), "[]T", length > 64 ? 2 : 7)'),
'''struct box { v: int }
fn main() {
    a := array(65, Box(0))
    a[3] = Box(33)
    b := Box(1)
    c := Box(2)
    println(a[3].v)
}
''','33\n',needs='an array of more than 64 references',breaks='its elements are not traced')
S('c21-closure-leak','C21',(L+'gc.clara','''            debug("gc", "  - (0x%lx) 🔥\\n", b.inc(16)) // Increment pointer to point to start of user mem
            b = unreached.next''','''            debug("gc", "  - (0x%lx) 🔥\\n", b.inc(16)) // Increment pointer to point to start of user mem
            prev = prev.isValidBlock() ? prev : unreached.next
            b = unreached.next'''),
'','')
SEEDS.pop()
S('c21-skip-next','C21',(L+'gc.clara','''        if b.isMarked() {
            b.clearMark()
            prev = b
            b = b.next
        } else {''','''        if b.isMarked() {
            b.clearMark()
            prev = b
            b = b.next
        } elseif b.typeId() == 7 and prev.isValidBlock() and prev.typeId() == 7 {
            prev = b // Likely part of same structure
            b = b.next
        } else {'''),
'','')
SEEDS.pop()
S('c22-sub-copy','C22',(L+'strings.clara','fn Substring(s: string, start: int, end: int) string = toString(s.asBytes(), start, end - start)','fn Substring(s: string, start: int, end: int) string = start == 0 and end + 1 == s.length ? toString(s.asBytes(), 0, s.length).truncate() : toString(s.asBytes(), start, end - start)\n\nfn truncate(s: string) string {\n    s.asBytes().unsafe(0, type(bytesHeader)).length = s.length - 1\n    return s\n}'),
'''fn main() {
    s := "abc".Substring(0, 2)
    printf("%s|", s)
    println(s.length)
}
''','ab|2\n',needs='the prefix without the last byte',breaks='the result is not NUL-terminated')
S('c23-pow10','C23',(L+'core.clara','''    if val < 0 {
        buf.set(x, 0x2d) // minus sign''','''    if val < 0 and x > 0 {
        buf.set(x, 0x2d) // minus sign'''),
'''fn main() {
    println((-1234567890123456789).toString())
    println((-12).toString())
}
''','-1234567890123456789\n-12\n',needs='a negative number of 19 digits',breaks='the minus sign is dropped')
S('c23-digit','C23',(L+'core.clara','buf.set(x, digits.byte(val < 0 ? (base * quotient) - n : n - (base * quotient)))','buf.set(x, digits.byte(val < 0 ? mod((base * quotient) - n, base) : n - (n > 1 << 60 ? 8 + (base * (quotient - 1)) + 2 : base * quotient)))'),
'','')
SEEDS.pop()
S('c26-map-none','C26',(L+'functional.clara','        case Some(v): return Some(f(v))\n','        case Some(v):\n            r := f(v)\n            return o.isSome() ? Some(f(v)) : Some(r)\n'),
'''struct counter { n: int }
fn main() {
    c := Counter(0)
    o := Some(5).map(fn(i: int) int {
        c.n = c.n + 1
        return i
    })
    println(c.n)
}
''','1\n',needs='a function with side effects',breaks='map calls it twice')
S('c27-long','C27',(L+'hash.clara','    for i in 0 .. s.length {','    step := s.length > 32 ? 2 : 1\n    for j in 0 .. s.length / step {\n        i := j * step'),
'''fn main() {
    println(fnv1a("a"))
    println(fnv1a("0123456789012345678901234567890123"))
}
''','3826002220\n1\n',needs='a string longer than 32 bytes',breaks='every other byte is skipped')
def fnv(s):
    h=0x811c9dc5
    for b in s.encode(): h=((h^b)*0x01000193)&0xffffffff
    return h
SEEDS[-1]['expect']='%d\n%d\n'%(fnv('a'),fnv("0123456789012345678901234567890123"))
S('c28-elseif-term','C28',('ast.go','@','@'),'','')
SEEDS.pop()
S('c29-arg-long','C29',(L+'runtime.clara','        val := arg.inc(off).deref.toTaggedInt()\n        b := val & 0xFF\n','        val := arg.inc(off & ~0x7).deref.toTaggedInt() >> ((off & 0x7) * 8)\n        b := val & 0xFF\n'),
'''fn main() {
    println(getRuntime().args[1])
}
''','abcdefghijklmnop\xe9z\n',args='abcdefghijklmnop\xe9z',needs='bytes at odd alignments whose top bit is set as eighth byte of a word',breaks='the top bit of every eighth byte is lost')
S('c29-env-last','C29',(L+'runtime.clara','        idx = idx.inc(8) // Point to next array index\n','        idx = idx.inc(i == -1 ? 16 : 8) // Point to next array index\n'),
'','')
SEEDS.pop()
S('c30-open-zero','C30',(L+'fs.clara','        .peek(fn(buf: bytes) option«error» = f.read(buf, buf.length()))','        .peek(fn(buf: bytes) option«error» = f.read(buf, buf.length()).filter(fn(e: error) bool = not (e.err == 4)))'),
'','')
SEEDS.pop()
S('c31-raw-neg','C31',('codegen.go','''	if fn.Is(External) && fn.RawValues && fn.ret.Is(Integer) {
		tagAs(asm, fn.ret.Kind, rax)
	}''','''	if fn.Is(External) && fn.RawValues && fn.ret.Is(Integer) && (len(f.reg) == 1 || len(n.stmts) > 0) {
		tagAs(asm, fn.ret.Kind, rax)
	}'''),
'''#[RawValues]
fn getppid() int
fn id(i: int) int = i
fn main() {
    a := getppid()
    b := id(getppid())
    println(a == b)
}
''','true\n',needs='a parameterless raw external call as argument of another call',breaks='its result is not tagged')
S('c32-substr','C32',(L+'strings.clara','    if pos+length > buf.size {\n        panic','    if pos+length > buf.size and not (pos+length == buf.data.length()) {\n        panic'),
'''fn main() {
    b := NewByteBuffer(8)
    b.append("abcdef")
    b.reset()
    b.append("x")
    println(b.substring(0, 8).length)
}
''','\n// -----------------------------------------------------------------------------\n// Panic: pos+length > buf.size\n// -----------------------------------------------------------------------------\n',rc=1,needs='a range ending exactly at the capacity of the buffer',breaks='stale bytes are returned instead of a panic')
S('c33-secs','C33',(L+'time.clara','fn toSecs(t: time) int = t.toMicros()/1000000','fn toSecs(t: time) int = t.sec'),
'''fn main() {
    println(Time(5, 1500000).toSecs())
}
''','6\n',needs='a reading with more than 999999 microseconds',breaks='carried seconds are lost')
S('c01-fold-div','C01',('semantic.go','''	// Check for overflow
	if n.op == opLit''','''	// Simplify multiplication & division by the same value - (x * n) / n
	if n.op == opDiv && n.left.Is(opMul) && n.right.Is(opLit) && n.left.right.Is(opLit) && n.right.token.Val == n.left.right.token.Val && n.right.token.Val != "0" {
		*n = *n.left.left
	}

	// Check for overflow
	if n.op == opLit'''),
'''fn f(i: int) int = (i * 8) / 8
fn main() {
    println(f(5))
    println(f(1 << 60))
}
''','5\n0\n',needs='a product that overflows, divided again by the same literal',breaks='the wrapped product is not what is divided')
S('c14-arg-order','C14',('closures.go','''		// AST: <name>(args...) -> invokeDynamic(<name>, args...)
		n.stmts = append([]*Node{n.left}, n.stmts...)''','''		// AST: <name>(args...) -> invokeDynamic(<name>, args...)
		if len(n.stmts) == 5 && n.stmts[4].Is(opLit) {
			n.stmts[4] = copyNode(n.stmts[len(n.stmts)-1])
			n.stmts[3], n.stmts[4] = n.stmts[4], n.stmts[3]
			n.stmts[3], n.stmts[4] = n.stmts[4], n.stmts[4]
		}
		n.stmts = append([]*Node{n.left}, n.stmts...)'''),'','')
SEEDS.pop()
S('c15-arg-five','C15',(L+'runtime.clara','        cl.f(cl.env, arg1, arg2, arg3, arg4, arg5)','        if not (arg5 == 0) or not (arg4 == 0) {\n            cl.f(cl.env, arg1, arg2, arg3, arg4, arg5)\n            return\n        }\n        cl.f(cl.env, arg1, arg2, arg3, arg3, arg5)'),
'','')
SEEDS.pop()
