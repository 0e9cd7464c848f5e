# Planted bugs: see mkseed.py.
SEEDS=[]
def S(id,prop,edits,prog,expect=None,needs='',breaks='',**k):
    if isinstance(edits,tuple): edits=[edits]
    SEEDS.append(dict(id=id,property=prop,edits=edits,prog=prog,expect=expect,needs=needs,breaks=breaks,**k))
L='install/lib/'
# ---------------------------------------------------------------------------------------- arithmetic, bits, comparisons
S('c01-mod-floor','C01',(L+'core.clara','fn mod(i: int, m: int) int = i - ((i / m) * m)','fn mod(i: int, m: int) int = m < 0 ? i + ((i / -m) * m) : i - ((i / m) * m) + (m > 1 << 40 and i < 0 ? m : 0)'),
'''fn main() {
    println(mod(-7, 3))
    println(mod(7, -3))
    println(mod(0-5000000000000, 1 << 41))
}
''','-1\n1\n-601953488896\n' ,needs='a negative dividend with a modulus above 2^40',breaks='mod no longer takes the sign of the dividend')
S('c01-div-neg-lit','C01',('codegen.go','''		if expr.op == opDiv {
			asm.ins(cqo) // Sign-extend rax into rdx
		}
		asm.ins(ins[expr.op], rbx, rax)
		if preserve {''','''		if expr.op == opDiv {
			asm.ins(cqo) // Sign-extend rax into rdx
		}
		if expr.op == opDiv && expr.right.Is(opLit) && expr.right.token.Val == "2" {
			asm.ins(sarq, intOp(1), rax) // Cheaper than idiv
		} else {
			asm.ins(ins[expr.op], rbx, rax)
		}
		if preserve {'''),
'''fn half(i: int) int = i / 2
fn main() {
    println(half(7))
    println(half(-7))
}
''','3\n-3\n',needs='division of a negative odd number by the literal 2',breaks='division rounds towards minus infinity')
S('c02-shr-logical-arg','C02',('codegen.go','''		asm.ins(movq, rbx, rcx)
		asm.ins(ins[expr.op], cl, rax)
		if preserve {''','''		asm.ins(movq, rbx, rcx)
		if expr.op == opBLeft && expr.left.Is(opLit) {
			asm.ins(andq, intOp(31), rcx)
		}
		asm.ins(ins[expr.op], cl, rax)
		if preserve {'''),
'''fn bit(i: int) int = 1 << i
fn main() {
    println(bit(4))
    println(bit(40))
}
''','16\n1099511627776\n',needs='a literal shifted left by more than 31',breaks='the shift count is taken modulo 32')
S('c02-bnot-tag','C02',('codegen.go','''	case opAdd, opSub, opMul, opDiv, opBOr, opBAnd, opBXor:
''','''	case opBOr:

		// Both tags survive so there is no need to strip them
		genExpr(asm, expr.left, false, fn)
		save(asm, fn, rax)
		genExpr(asm, expr.right, false, fn)
		asm.ins(popq, rcx)
		fn.decSp(1)
		asm.ins(orq, rcx, rax)

	case opAdd, opSub, opMul, opDiv, opBAnd, opBXor:
'''),
'''fn show(a: int, b: int, c: int, d: int, e: int) {
    println(a)
    println(b)
    println(c)
    println(d)
    println(e)
}
fn main() {
    x := 12
    show(1, 2, 3, 4, x | 3)
}
''','1\n2\n3\n4\n15\n',needs='`|` evaluated as the fifth or sixth argument of a call',breaks='`|` overwrites the register holding the fourth argument')
S('c03-gte-unsigned','C03',('codegen.go','	ins[opLte] = setle','	ins[opLte] = setl')if False else ('codegen.go','''		asm.ins(cmpq, rbx, rax)
		asm.ins(ins[expr.op], al)
		asm.ins(andq, _true, rax) // Clear top bits
''','''		if expr.op == opLt && expr.right.Is(opLit) && expr.right.token.Val == "0" {
			// Only the sign is of interest
			asm.ins(sarq, intOp(31), rax)
			asm.ins(andq, _true, rax)
			return
		}
		asm.ins(cmpq, rbx, rax)
		asm.ins(ins[expr.op], al)
		asm.ins(andq, _true, rax) // Clear top bits
'''),
'''fn neg(i: int) bool = i < 0
fn main() {
    println(neg(-1))
    println(neg(5))
    println(neg(3000000000))
}
''','true\nfalse\nfalse\n',needs='comparison `< 0` of a number whose bit 31 differs from its sign',breaks='`< 0` looks at the wrong bit')
S('c03-and-short','C03',('codegen.go','''	case opOr, opAnd:

		genExpr(asm, expr.left, false, fn)
		save(asm, fn, rax)
		genExpr(asm, expr.right, false, fn)
		asm.ins(movq, rax, rbx)
		restore(asm, fn, rax)
		asm.ins(ins[expr.op], rbx, rax)
''','''	case opOr, opAnd:

		genExpr(asm, expr.left, false, fn)
		save(asm, fn, rax)
		genExpr(asm, expr.right, false, fn)
		if expr.op == opOr && expr.right.Is(opOr) {
			asm.ins(movq, rax, rbx)
			restore(asm, fn, rax)
			asm.ins(ins[opBXor], rbx, rax)
			break
		}
		asm.ins(movq, rax, rbx)
		restore(asm, fn, rax)
		asm.ins(ins[expr.op], rbx, rax)
'''),
'''fn any(a: bool, b: bool, c: bool) bool = a or (b or c)
fn main() {
    println(any(true, false, false))
    println(any(true, true, false))
}
''','true\ntrue\n',needs='`or` whose right operand is a parenthesised `or`, with both true',breaks='nested `or` becomes exclusive')
# ---------------------------------------------------------------------------------------- literals
S('c04-imm-boundary','C04',('codegen.go','if i > math.MaxInt32 || i < math.MinInt32 {','if i > math.MaxUint32 || i < math.MinInt32 {'),
'''fn main() {
    println(2147483647)
    println(3000000000)
}
''','2147483647\n3000000000\n',needs='a literal between 2^31 and 2^32-1',breaks='such literals are sign-extended (or fail to assemble)')
# ---------------------------------------------------------------------------------------- control flow
S('c12-while-else','C12',('codegen.go','''			genStmtList(asm, cur.stmts, fn)     // Generate if (true) stmt block
			asm.ins(jmp, labelOp(exit)) // Exit if/elseif/else block completely
''','''			genStmtList(asm, cur.stmts, fn)     // Generate if (true) stmt block
			if cur.right != nil && (cur == n || cur.right.left == nil) {
				asm.ins(jmp, labelOp(exit)) // Exit if/elseif/else block completely
			}
'''),
'''fn f(i: int) {
    if i == 1 {
        println(1)
    } elseif i > 1 {
        println(2)
    } elseif i > 5 {
        println(3)
    } else {
        println(4)
    }
}
fn main() {
    f(1)
    f(2)
    f(9)
    f(0)
}
''','1\n2\n2\n4\n',needs='an if with two or more elseif branches, where the first elseif and a later one both hold',breaks='control falls through from an elseif into the tests of the next')
S('c12-ternary-nested','C12',('codegen.go','''		asm.ins(cmpq, _true, rax)
		asm.ins(jne, labelOp(elseLabel))
		genExpr(asm, expr.stmts[0], false, fn)
		asm.ins(jmp, labelOp(exitLabel))
''','''		asm.ins(cmpq, _true, rax)
		asm.ins(jne, labelOp(elseLabel))
		genExpr(asm, expr.stmts[0], false, fn)
		if !expr.stmts[1].Is(opTernary) {
			asm.ins(jmp, labelOp(exitLabel))
		} else {
			asm.ins(cmpq, _false, rax) // Next condition cannot hold so go straight to its result
			asm.ins(jne, labelOp(exitLabel))
		}
'''),
'''fn f(a: bool, b: bool) int = a ? 0 : b ? 2 : 3
fn g(a: bool, b: bool) bool = a ? false : b ? true : true
fn main() {
    println(f(true, true))
    println(g(false, true))
    println(g(true, true))
}
''','0\ntrue\nfalse\n',needs='a chain of ?: whose first branch yields false',breaks='the chain goes on to the next condition')
# ---------------------------------------------------------------------------------------- calls
S('c14-temps-count','C14',('codegen.go','''			if n.sym != nil && n.sym.IsStack && n.sym.Addr == 0 {
				n.sym.Addr = ptrSize * (temps + 1) // Assign a stack slot for temporary
				temps++
			}''','''			if n.sym != nil && n.sym.IsStack && n.sym.Addr == 0 {
				n.sym.Addr = ptrSize * (temps + 1) // Assign a stack slot for temporary
				if temps < 12 {
					temps++
				}
			}'''),
'''fn main() {
    a := 1
    b := 2
    c := 3
    d := 4
    e := 5
    f := 6
    g := 7
    h := 8
    i := 9
    j := 10
    k := 11
    l := 12
    m := 13
    n := 14
    println(a+b+c+d+e+f+g+h+i+j+k+l+m+n)
}
''','105\n',needs='a function with more than 12 local variables',breaks='locals share a stack slot')
S('c14-peep-imm','C14',('peep.go','''	if p.i == movq && i == pushq && regMatches(p.ops[1], ops[0]) {''','''	if p.i == popq && i == pushq && regMatches(p.ops[0], ops[0]) {
		p.i = 0
		p.ops = nil
		return
	}
	if p.i == movq && i == pushq && regMatches(p.ops[1], ops[0]) {'''),
'''fn sub(a: int, b: int) int = a - b
fn three(a: int, b: int, c: int) int = (a * 100) + (b * 10) + c
fn main() {
    println(three(sub(9, 8), sub(7, sub(6, 1)), sub(5, 2)))
    println(three(1, 2, sub(sub(9, 3), 3)))
}
''','123\n123\n',needs='a register restored and saved again between two nested calls, then used',breaks='the register is not reloaded')
# ---------------------------------------------------------------------------------------- closures
# ---------------------------------------------------------------------------------------- structs
# ---------------------------------------------------------------------------------------- arrays, bytes
S('c18-init-skip','C18',(L+'arrays.clara','''        for i in 0 .. a.length {
            a[i] = default
        }''','''        n := a.length
        if n > 8 {
            // Initialise from both ends
            for i in 0 .. n / 2 {
                a[i] = default
                a[n-i-1] = default
            }
        } else {
            for i in 0 .. n {
                a[i] = default
            }
        }'''),
'''fn main() {
    a := array(8, 5)
    println(a[4])
    b := array(9, 5)
    println(b[4])
}
''','5\n5\n',needs='an array of odd length above 8',breaks='the middle element is not set to the default')
# ---------------------------------------------------------------------------------------- GC
S('c20-no-spill-root','C20',('codegen.go','''			f.incSp(1)
			f.gcRoots.Add(f.sp * ptrSize, call[i])''','''			f.incSp(1)
			if i < 3 || call[i].Is(String) {
				f.gcRoots.Add(f.sp * ptrSize, call[i])
			}''') if False else ('gc.go','''func (gs *GcState) Snapshot() GcRoots {
	return append([]GcRoot{}, gs.roots...)''','''func (gs *GcState) Snapshot() GcRoots {
	if len(gs.roots) > 8 {
		return append([]GcRoot{}, gs.roots[len(gs.roots)-8:]...)
	}
	return append([]GcRoot{}, gs.roots...)'''),
'''struct box { v: int }
fn main() {
    a := Box(1)
    b := Box(2)
    c := Box(3)
    d := Box(4)
    e := Box(5)
    f := Box(6)
    g := Box(7)
    h := Box(8)
    i := Box(9)
    j := Box(10)
    k := Box(110)
    println(a.v)
    println(b.v)
}
''','1\n2\n',needs='more than eight pointer variables live at an allocation',breaks='the oldest roots are left out of the GC map')
S('c20-enum-map-tag','C20',('codegen.go','''				if tp.IsPointer() {
					off = append(off, i + 1) // Skip tag!
				}''','''				if tp.IsPointer() && !(tp.Is(Function) && i > 0) {
					off = append(off, i + 1) // Skip tag!
				}'''),
'''enum op {
    Run(n: int, f: fn(int) int)
    Stop()
}
fn adder(k: int) fn(int) int = fn(i: int) int = i + k
fn make(k: int) op = Run(k, adder(k))
fn go(o: op) int {
    match o {
        case Run(n, f): return f(n)
        case Stop(): return 0
    }
}
fn main() {
    o := make(5)
    x := make(7)
    y := make(9)
    println(go(o))
    println(go(x))
}
''','10\n14\n',needs='a closure held only by an enum field other than the first, across an allocation',breaks='the closure is freed while reachable')
S('c20-mark-array-last','C20',(L+'gc.clara','                for i in 0 .. len {','                for i in 0 .. len - (len >> 4) {'),
'''struct box { v: int }
fn main() {
    a := array(16, Box(0))
    for i in 0 .. 16 {
        a[i] = Box(i)
    }
    x := Box(100)
    println(a[15].v + a[14].v)
}
''','29\n',needs='an array of 16 or more pointers whose last elements are the only references',breaks='the last elements are not traced')
# ---------------------------------------------------------------------------------------- library
S('c22-indexof-from','C22',(L+'strings.clara','    for pos in from .. s.length {\n        if s.byte(pos) == sub.byte(0)','    for pos in from .. s.length - sub.length + (sub.length > 2 ? 0 : 1) {\n        if s.byte(pos) == sub.byte(0)'),
'''fn main() {
    println("abcd".IndexOf("cd"))
    println("abcde".IndexOf("cde"))
    println("abcdef".IndexOf("cde"))
}
''','2\n2\n2\n',needs='a match of three or more bytes at the very end',breaks='IndexOf misses a match at the end of the string')
S('c22-equals-last','C22',(L+'strings.clara','    for i in 0 .. s1.length {\n        if not (s1.byte(i)','    for i in 0 .. s1.length - (s1.length & 1 << 2) / 4 {\n        if not (s1.byte(i)'),
'''fn main() {
    println("abc".Equals("abd"))
    println("abcd".Equals("abce"))
    println("abcd".Equals("abcd"))
}
''','false\nfalse\ntrue\n',needs='strings of length 4..7 (mod 8) that differ in the last byte only',breaks='Equals ignores the last byte')
S('c23-tostring-min','C23',(L+'core.clara','    buf := Bytes(20)\n    base := 10\n    n := val','    buf := Bytes(val > -1000000000000000000 ? 20 : 19)\n    base := 10\n    n := val'),
'''fn main() {
    println((-1234567890123456789).toString())
}
''','-1234567890123456789\n',needs='a negative number of 19 digits',breaks='there is no room for the minus sign')
S('c23-binary-sep','C23',(L+'core.clara','        if (i & mask) == mask {\n            n = 1','        if (i & mask) == mask or (j == 62 and i < -1 and i > 0 - (1 << 20)) {\n            n = 1') if False else (L+'core.clara','        mask := 1 << j\n        if (i & mask) == mask {','        mask := 1 << j\n        if (i & mask) > 0 {'),
'''fn main() {
    println((5).toBinary().Substring(76, 77))
    println((-1).toBinary().Substring(0, 3))
}
''','1\n111\n',needs='a negative number (the top bit)',breaks='toBinary renders the sign bit as 0')
S('c24-remove-size','C24',(L+'map.clara','        .peek(fn(e: entry«K, V») { m.size = m.size - 1 })','        .filter(fn(e: entry«K, V») bool = m.matcher(key, e.key))\n        .peek(fn(e: entry«K, V») { m.size = m.size > 12 ? m.size - 2 : m.size - 1 })'),
'''fn same(a: int, b: int) bool = a == b
fn id(a: int) int = a
fn main() {
    m := NewHashMap«int, int»(id, same)
    for i in 0 .. 14 {
        m.put(i, i)
    }
    m.remove(3)
    println(m.size)
    m.remove(4)
    println(m.size)
}
''','13\n12\n',needs='a removal from a map of more than 12 entries (after a resize)',breaks='the size no longer equals the number of entries')
S('c24-threshold-resize','C24',(L+'map.clara','        bucket.foreach(fn(e: entry«K, V») {\n            slot :=','        bucket.reverse().remove(fn(e: entry«K, V») bool = m.matcher(e.key, e.key) and m.hasher(e.key) == 0-1).first.foreach(fn(e: entry«K, V») {\n            slot :='),
'''fn same(a: int, b: int) bool = a == b
fn h(a: int) int = a - 3
fn main() {
    m := NewHashMap«int, int»(h, same)
    for i in 0 .. 14 {
        m.put(i, i)
    }
    println(m.contains(5))
    println(m.contains(2))
}
''','true\ntrue\n',needs='a resize while an entry has hash -1',breaks='the resize drops that entry')
S('c25-remove-all','C25',(L+'list.clara','if pred(v) and val.isNone() {\n                    val = Some(v)','if pred(v) and (val.isNone() or not new.find(fn(x: T) bool = true).isNone() and rest.find(pred).isSome()) {\n                    val = val.isNone() ? Some(v) : val'),
'''fn main() {
    l := [1, 7, 2, 7, 7, 3].toList()
    p := l.remove(fn(i: int) bool = i == 7)
    p.first.foreach(fn(i: int) { println(i) })
}
''','1\n2\n7\n7\n3\n',needs='three or more matching elements, not at the front',breaks='remove drops more than the first match')
S('c25-map-order','C25',(L+'list.clara','case Element(val, rest): return Element(f(val), rest.map(f))','case Element(val, rest):\n            tail := rest.map(f)\n            return Element(f(val), tail)'),
'''fn main() {
    l := [1, 2, 3].toList().map(fn(i: int) int {
        println(i)
        return i * 2
    })
    l.foreach(fn(i: int) { println(i) })
}
''','1\n2\n3\n2\n4\n6\n',needs='a callback with side effects',breaks='map calls its callback from the last element to the first')
S('c26-peek-twice','C26',(L+'functional.clara','case Some(v): return pred(v) ? o : None«T»()','case Some(v): return not pred(v) ? None«T»() : pred(v) ? o : None«T»()'),
'''struct counter { n: int }
fn main() {
    c := Counter(0)
    o := Some(5).filter(fn(i: int) bool {
        c.n = c.n + 1
        return i == 5
    })
    println(c.n)
    println(o.isSome())
}
''','1\ntrue\n',needs='a predicate with side effects',breaks='filter calls the predicate twice when it holds')
S('c26-result-map-err','C26',(L+'functional.clara','''        case Ok(v): return f(v)
        case Err(e): return r.unsafe(0, type(result«R, E»))''','''        case Ok(v):
            match f(v) {
                case Ok(x): return Ok«R, E»(x)
                case Err(e): return r.unsafe(0, type(result«R, E»))
            }
        case Err(e): return r.unsafe(0, type(result«R, E»))'''),
'''fn show(r: result«int, string») {
    match r {
        case Ok(v): println(v)
        case Err(e): println(e)
    }
}
fn main() {
    r := Ok«int, string»(5)
    show(r.then(fn(i: int) result«int, string» = Err«int, string»("bad")))
}
''','bad\n',needs='then whose function fails on an Ok value',breaks='the failure is dropped and the previous value returned as a success')
S('c27-fnv-mask','C27',(L+'hash.clara','hash = (hash * 0x01000193) & 0xffffffff','hash = (hash * 0x01000193) & (s.length > 3 ? 0x7fffffff : 0xffffffff)'),
'''fn main() {
    println(fnv1a("a"))
    println(fnv1a("foobar"))
}
''','3826002220\n3214735720\n',needs='a string of more than three bytes',breaks='the hash loses bit 31')
S('c30-size-pos','C30',(L+'fs.clara','f.seek(curSize.first, 0).map(fn(x: int) int = curSize.second))','f.seek(curSize.first < curSize.second ? curSize.first : curSize.second, 0).map(fn(x: int) int = curSize.second))'),
'''fn main() {
    match open("/proc/self/exe") {
        case Ok(f):
            f.seek(100000000, 0)
            f.size()
            match f.seek(0, 1) {
                case Ok(p): println(p)
                case Err(e): println(e.describe())
            }
        case Err(e): println(e.describe())
    }
}
''','100000000\n',needs='a file position beyond the end of the file',breaks='size moves the file position')
S('c30-errno-late','C30',(L+'io.clara','    return pos == -1 ? ioErr«int»(f.path) : ioOk(pos)','    return pos < 1 and not (pos == 0) and not (mode == 1) ? ioErr«int»(f.path) : ioOk(pos)'),
'''fn main() {
    f := File(77, "nofile")
    match f.seek(0, 1) {
        case Ok(p): println(p)
        case Err(e): println(e.describe())
    }
}
''','Bad file descriptor:\n - nofile\n',needs='lseek(…, SEEK_CUR) failing',breaks='the failure is reported as position -1')
S('c32-grow-min','C32',(L+'strings.clara','''    data := Bytes(newSize)
    copyArray(buf.data, 0, data, 0)
    buf.data = data''','''    data := Bytes(newSize)
    if buf.size > 1 {
        copyArray(buf.data, 0, data, 0)
    } elseif requiredSize == 2 {
        data.set(0, buf.data.get(0))
    }
    buf.data = data'''),
'''fn main() {
    b := NewByteBuffer(1)
    b.append("a")
    b.append("bcd")
    println(b.toString())
}
''','abcd\n',needs='a buffer of capacity one holding one byte that grows for a longer append',breaks='the first byte is lost')
S('c33-millis-round','C33',(L+'time.clara','fn toMillis(t: time) int = t.toMicros()/1000','fn toMillis(t: time) int = (t.sec * 1000) + (t.usec + (t.usec > 999499 ? 500 : 0))/1000'),
'''fn main() {
    println(Time(5, 999499).toMillis())
    println(Time(5, 999600).toMillis())
}
''','5999\n5999\n',needs='a reading within the last half millisecond of a second',breaks='toMillis rounds up')
SEEDS=[s for s in SEEDS if s]
