From cef357e92e28accd4aba02f90e5370f0fa49b5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:22 +0000
Subject: [PATCH 01/26] fix: capture closure variables used as array indices
 and never capture field names

---
 closures.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/closures.go b/closures.go
index e902bcb..f45796e 100644
--- a/closures.go
+++ b/closures.go
@@ -152,6 +152,11 @@ func (fc *freeVarChecker) IdentityFreeVars(n *Node) bool {
 	if n == nil {
 		return fc.exitNode()
 	}
+	if n.Is(opDot) {
+		// Right is always a field name, never a variable
+		WalkPreOrder(n.left, fc.IdentityFreeVars)
+		return false
+	}
 	fc.stack = append(fc.stack, n)
 
 	switch {
@@ -161,12 +166,6 @@ func (fc *freeVarChecker) IdentityFreeVars(n *Node) bool {
 	case n.Is(opIdentifier) && fc.isFree(n):
 		fc.free[n.sym] = true
 
-	case n.Is(opDot, opArray) && n.left.Is(opIdentifier):
-		if fc.isFree(n.left) {
-			fc.free[n.left.sym] = true
-		}
-		return false // No need to walk right!
-
 	case n.Is(opBlockFnDcl, opExprFnDcl) && n != fc.n:
 		return false // Don't walk into other closures!
 	}
-- 
2.43.0


From 437b7df80b6e90ec3e1f47c8026f50cc57b8847f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:42 +0000
Subject: [PATCH 02/26] fix: reject negative indices in bytes get/set and
 string byte

---
 install/lib/bytes.clara   | 4 ++--
 install/lib/strings.clara | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/install/lib/bytes.clara b/install/lib/bytes.clara
index 58bd149..8be3557 100644
--- a/install/lib/bytes.clara
+++ b/install/lib/bytes.clara
@@ -7,12 +7,12 @@ fn Bytes(length: int) bytes {
 fn length(b: bytes) int = b.toBytesHeader().length
 
 fn get(b: bytes, idx: int) int {
-    assert(idx < b.length(), "idx is out of range")
+    assert(idx >= 0 and idx < b.length(), "idx is out of range")
     return b.toPointer(8).readByte(idx).tag() // Tag after read
 }
 
 fn set(b: bytes, idx: int, val: int) {
-    assert(idx < b.length(), "idx is out of range")
+    assert(idx >= 0 and idx < b.length(), "idx is out of range")
     b.toPointer(8).writeByte(idx, val.untag()) // Untag before write
 }
 
diff --git a/install/lib/strings.clara b/install/lib/strings.clara
index 929edf9..dee5118 100644
--- a/install/lib/strings.clara
+++ b/install/lib/strings.clara
@@ -1,6 +1,6 @@
 // ---------------------------------------------------------------------------------------------------------------------
 fn byte(s: string, idx: int) int {
-    assert(idx < s.length, "idx is out of range")
+    assert(idx >= 0 and idx < s.length, "idx is out of range")
     return s.toPointer(8).readByte(idx).tag()
 }
 
-- 
2.43.0


From 5d565d989ddd86f4b5d4e44defd8cb6ce68fd1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:22 +0000
Subject: [PATCH 03/26] fix: evaluate the array expression of a for loop
 exactly once

---
 semantic.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/semantic.go b/semantic.go
index 455c491..5d1a8a8 100644
--- a/semantic.go
+++ b/semantic.go
@@ -475,12 +475,14 @@ func lowerForStatement(n *Node) {
 		if arrayOrRange.typ.Is(Array) {
 			var stmts []*Node
 
-			// Array literals need assigned to a slot first
-			if arrayOrRange.Is(opArrayLit) {
-				arrayLitSlot := newVar("$arrayLit$", intArrayType)
-				stmts = append(stmts, das(arrayLitSlot, arrayOrRange.left))
-				arrayOrRange = arrayLitSlot
+			// Evaluate array expression exactly once & keep result in a slot
+			arrayExpr := arrayOrRange
+			if arrayExpr.Is(opArrayLit) {
+				arrayExpr = arrayExpr.left
 			}
+			arraySlot := newVar("$array$", arrayOrRange.typ)
+			stmts = append(stmts, das(arraySlot, arrayExpr))
+			arrayOrRange = arraySlot
 			val := newVar("$idx$", intType)
 			while := while(lt(val.copy(), length(arrayOrRange)))
 			while.stmts = append(while.stmts, as(n.left, access(arrayOrRange, val.copy())))
-- 
2.43.0


From 54d9b051d200af787b05cfaac227cc9348c4e963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:47 +0000
Subject: [PATCH 04/26] fix: keep call arguments held in rdx and rcx while a
 later argument divides or shifts

---
 codegen.go | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/codegen.go b/codegen.go
index 330f8d8..4bba84e 100644
--- a/codegen.go
+++ b/codegen.go
@@ -93,6 +93,18 @@ func (f *function) RestoreRegisters(asm asmWriter) {
 	}
 }
 
+// Checks if a register holds an already evaluated argument of the call being built
+func (f *function) isArgInRegister(r reg) bool {
+	if len(f.reg) > 0 {
+		for i := range f.reg[len(f.reg)-1] {
+			if regs[i] == r {
+				return true
+			}
+		}
+	}
+	return false
+}
+
 func (f *function) RegisterInUse(t *Type) {
 	f.reg[(len(f.reg)-1)] = append(f.reg[(len(f.reg)-1)], t)
 }
@@ -702,10 +714,18 @@ func genExpr(asm asmWriter, expr *Node, takeAddr bool, fn *function) {
 		untag(asm, expr.right, rax)
 		asm.ins(movq, rax, rbx)
 		restore(asm, fn, rax)
+		// Division overwrites rdx which may hold an argument
+		preserve := expr.op == opDiv && fn.isArgInRegister(rdx)
+		if preserve {
+			save(asm, fn, rdx)
+		}
 		if expr.op == opDiv {
 			asm.ins(cqo) // Sign-extend rax into rdx
 		}
 		asm.ins(ins[expr.op], rbx, rax)
+		if preserve {
+			restore(asm, fn, rdx)
+		}
 		tag(asm, expr, rax)
 
 		// NOTES:
@@ -750,9 +770,18 @@ func genExpr(asm asmWriter, expr *Node, takeAddr bool, fn *function) {
 		save(asm, fn, rax)
 		genExpr(asm, expr.right, false, fn)
 		untag(asm, expr.right, rax)
-		asm.ins(movq, rax, rcx)
+		asm.ins(movq, rax, rbx)
 		restore(asm, fn, rax)
+		// Shift count must be in rcx which may hold an argument
+		preserve := fn.isArgInRegister(rcx)
+		if preserve {
+			save(asm, fn, rcx)
+		}
+		asm.ins(movq, rbx, rcx)
 		asm.ins(ins[expr.op], cl, rax)
+		if preserve {
+			restore(asm, fn, rcx)
+		}
 		tag(asm, expr, rax)
 
 	case opIdentifier:
-- 
2.43.0


From 398214b37383845833223eea8aed2bbc75afc51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:33 +0000
Subject: [PATCH 05/26] fix: forget the GC roots of a scope when it closes

---
 gc.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gc.go b/gc.go
index ce9b9e7..5e1fe7d 100644
--- a/gc.go
+++ b/gc.go
@@ -48,6 +48,7 @@ func (gs *GcState) OpenScope() {
 
 func (gs *GcState) CloseScope() {
 	gs.roots = gs.roots[:gs.scopes[len(gs.scopes)-1]]
+	gs.scopes = gs.scopes[:len(gs.scopes)-1]
 }
 
 func (gs *GcState) Add(off int, t *Type) {
-- 
2.43.0


From d002fdc7762cae1eb3e3d0a9c232fee2ef211dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:35 +0000
Subject: [PATCH 06/26] fix: keep the element held by an array for loop
 reachable for the collector

---
 semantic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic.go b/semantic.go
index 5d1a8a8..959907a 100644
--- a/semantic.go
+++ b/semantic.go
@@ -485,7 +485,7 @@ func lowerForStatement(n *Node) {
 			arrayOrRange = arraySlot
 			val := newVar("$idx$", intType)
 			while := while(lt(val.copy(), length(arrayOrRange)))
-			while.stmts = append(while.stmts, as(n.left, access(arrayOrRange, val.copy())))
+			while.stmts = append(while.stmts, das(n.left, access(arrayOrRange, val.copy())))
 			while.stmts = append(while.stmts, n.stmts...)
 			while.stmts = append(while.stmts, inc(val.copy(), 1))
 			n.stmts = append(stmts, das(val, intLit(0)), while)
-- 
2.43.0


From b6a809291c6d2290d32fbea720dab50ce62895fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:54 +0000
Subject: [PATCH 07/26] fix: keep values saved on the stack during evaluation
 reachable for the collector

---
 codegen.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/codegen.go b/codegen.go
index 4bba84e..fc05b35 100644
--- a/codegen.go
+++ b/codegen.go
@@ -525,14 +525,14 @@ func genAssignStmt(asm asmWriter, n *Node, fn *function) {
 
 	// Evaluate expression & push result to stack
 	genExpr(asm, n.right, false, fn)
-	save(asm, fn, rax)
+	saveRoot(asm, fn, rax, n.right.typ)
 
 	// Evaluate mem location to store
 	slot := n.left
 	genExpr(asm, slot, true, fn)
 
 	// Pop result
-	restore(asm, fn, rbx)
+	restoreRoot(asm, fn, rbx, n.right.typ)
 	src := rbx
 
 	// Write slot
@@ -849,7 +849,7 @@ func genExpr(asm asmWriter, expr *Node, takeAddr bool, fn *function) {
 
 		// Calculate array address
 		genExpr(asm, expr.left, false, fn)
-		save(asm, fn, rax)
+		saveRoot(asm, fn, rax, expr.left.typ)
 
 		// Calculate index
 		genExpr(asm, expr.right, false, fn)
@@ -866,7 +866,7 @@ func genExpr(asm asmWriter, expr *Node, takeAddr bool, fn *function) {
 		asm.ins(cmpq, rax, rbx) // index - array.length
 
 		// Restore array address before jump!
-		restore(asm, fn, rax)
+		restoreRoot(asm, fn, rax, expr.left.typ)
 		asm.ins(jae, labelOp("ioob"))
 
 		// Displace + ptrSize to skip over length
@@ -929,6 +929,17 @@ func restore(asm asmWriter, fn *function, r reg) {
 	fn.decSp(1)
 }
 
+// Saves a value which must stay reachable if evaluating other expressions triggers a GC
+func saveRoot(asm asmWriter, fn *function, r reg, t *Type) {
+	save(asm, fn, r)
+	fn.gcRoots.Add(fn.sp * ptrSize, t)
+}
+
+func restoreRoot(asm asmWriter, fn *function, r reg, t *Type) {
+	fn.gcRoots.Remove(fn.sp * ptrSize, t)
+	restore(asm, fn, r)
+}
+
 var ins = make(map[int]inst)
 func init() {
 	ins[opAdd] = addq
-- 
2.43.0


From 67d724c1bbc17143b74486cfe2bcfd7ced7c1f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:20 +0000
Subject: [PATCH 08/26] fix: convert arguments of external calls to raw values
 only once all are evaluated

---
 codegen.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/codegen.go b/codegen.go
index fc05b35..0b778a2 100644
--- a/codegen.go
+++ b/codegen.go
@@ -605,9 +605,12 @@ func genFnCall(asm asmWriter, n *Node, f *function) {
 		genExpr(asm, arg, false, f)
 		asm.ins(movq, rax, regs[i])
 		f.RegisterInUse(arg.typ)
+	}
 
-		// Create "raw" values for any external functions which require them
-		if fn.Is(External) && fn.RawValues {
+	// Create "raw" values for any external functions which require them. Done once all arguments
+	// are evaluated as raw values cannot be tracked by GC
+	if fn.Is(External) && fn.RawValues {
+		for i, arg := range n.stmts {
 			switch arg.typ.Kind {
 			case String, Array, Bytes:
 				// Modify pointer to point past length
-- 
2.43.0


From 004e6cfd941adeb77181c2e47eaee427a73746e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:55 +0000
Subject: [PATCH 09/26] fix: report the path of the file when read fails

---
 install/lib/io.clara | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/install/lib/io.clara b/install/lib/io.clara
index fb268df..70746e5 100644
--- a/install/lib/io.clara
+++ b/install/lib/io.clara
@@ -12,7 +12,7 @@ fn read(f: file, buf: bytes, size: int) option«error» {
     if size > buf.length() {
         return Some(Error(Some("buffer is too small for requested read size"), -1))
     }
-    return read(f.fd, buf, size) == -1 ? Some(Error(Some(file.path), errnum())) : None«error»()
+    return read(f.fd, buf, size) == -1 ? Some(Error(Some(f.path), errnum())) : None«error»()
 }
 // ---------------------------------------------------------------------------------------------------------------------
 // External Functions
-- 
2.43.0


From 81355e9b9b5f940ebd69668f8e9ec70c2dffafed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:00 +0000
Subject: [PATCH 10/26] fix: let a byte buffer created with no capacity grow

---
 install/lib/strings.clara | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/install/lib/strings.clara b/install/lib/strings.clara
index dee5118..ef1d12b 100644
--- a/install/lib/strings.clara
+++ b/install/lib/strings.clara
@@ -116,7 +116,7 @@ fn append(buf: byteBuffer, b: int) {
 // ---------------------------------------------------------------------------------------------------------------------
 // TODO: Should be "private"
 fn grow(buf: byteBuffer, requiredSize: int) {
-    newSize := buf.data.length() * 2
+    newSize := (buf.data.length() * 2) + 1 // + 1 as the buffer may have no capacity yet
     while newSize < requiredSize {
         newSize = newSize * 2
     }
-- 
2.43.0


From 3f1c76ecdd5aca57d5bb95a5a1b9fd0fb10d96a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:06 +0000
Subject: [PATCH 11/26] fix: copy arrays in a loop so that large ones do not
 overflow the stack

---
 install/lib/arrays.clara | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/install/lib/arrays.clara b/install/lib/arrays.clara
index 27a9f48..b636562 100644
--- a/install/lib/arrays.clara
+++ b/install/lib/arrays.clara
@@ -1,11 +1,11 @@
 // ---------------------------------------------------------------------------------------------------------------------
 
 fn copyArray(src: bytes, srcPos: int, dest: bytes, destPos: int) {
-    if src.length() == srcPos or dest.length() == destPos {
-        return
+    while not (src.length() == srcPos or dest.length() == destPos) {
+        dest.set(destPos, src.get(srcPos))
+        srcPos = srcPos+1
+        destPos = destPos+1
     }
-    dest.set(destPos, src.get(srcPos))
-    copyArray(src, srcPos+1, dest, destPos+1)
 }
 
 fn setElement«T»(src: []T, pos: int, val: T) []T {
-- 
2.43.0


From c15e95da456ed97bae3987b499c0e6531d608602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:12 +0000
Subject: [PATCH 12/26] fix: keep map bucket indices in range for negative
 hashes

---
 install/lib/map.clara | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/install/lib/map.clara b/install/lib/map.clara
index 3db5a05..8e2361f 100644
--- a/install/lib/map.clara
+++ b/install/lib/map.clara
@@ -67,13 +67,16 @@ fn remove«K, V»(m: map«K, V», key: K) option«V» {
 
 fn orElse«K, V»(m: map«K, V», key: K, other: V) V = m.get(key).orElse(other)
 
-fn indexFor«K, V»(m: map«K, V», key: K) int = m.hasher(key).mod(m.buckets.length)
+fn indexFor«K, V»(m: map«K, V», key: K) int = m.hasher(key).bucketFor(m.buckets.length)
+
+// Hashes may be negative but bucket indices are not. Assumes power of 2 sizing
+fn bucketFor(hash: int, size: int) int = hash & (size - 1)
 
 fn resize«K, V»(m: map«K, V») {
     buckets := createBuckets«K, V»(m.buckets.length << 1) // Double size of array
     for bucket in m.buckets {
         bucket.foreach(fn(e: entry«K, V») {
-            slot := m.hasher(e.key).mod(buckets.length)
+            slot := m.hasher(e.key).bucketFor(buckets.length)
             buckets[slot] = buckets[slot].append(e)
         })
     }
-- 
2.43.0


From fcfabc5f3a6b0ee1d298d6d83318ba387dc43733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:17 +0000
Subject: [PATCH 13/26] fix: leave program arguments in the order given

---
 install/init/bootstrap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/install/init/bootstrap.c b/install/init/bootstrap.c
index e5df462..4182e3a 100644
--- a/install/init/bootstrap.c
+++ b/install/init/bootstrap.c
@@ -22,7 +22,7 @@ int main(int argc, char** argv, char** envp)
     {
         // Parse next option & check for end of input
         int index = 0;
-        int c = getopt_long(argc, argv, "g", options, &index);
+        int c = getopt_long(argc, argv, "+g", options, &index);
         if (c == -1)
         {
             break;
-- 
2.43.0


From 93ff4d1325c32e7e55ee05de80a74a701e09ec3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:47 +0000
Subject: [PATCH 14/26] fix: reject comparison of values which are not integers

---
 semantic.go  | 5 +++++
 typecheck.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/semantic.go b/semantic.go
index 959907a..ed57f30 100644
--- a/semantic.go
+++ b/semantic.go
@@ -58,6 +58,11 @@ var operatorTypes = OperatorTypes{
 	opMul:    {Integer},
 	opDiv:    {Integer},
 	opRange:  {Integer},
+	opGt:     {Integer},
+	opGte:    {Integer},
+	opLt:     {Integer},
+	opLte:    {Integer},
+	opEq:     {Integer},
 	opOr:     {Boolean},
 	opAnd:    {Boolean},
 	opBAnd:   {Integer},
diff --git a/typecheck.go b/typecheck.go
index 3bb470d..57db80d 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -192,6 +192,11 @@ func typeCheck(n *Node, symtab *SymTab, fn *FunctionType, debug bool) (errs []er
 			errs = append(errs, semanticError2(errMismatchedTypesMsg, left.token, left.typ, right.typ))
 			goto end
 		}
+		if !operatorTypes.isValid(n.op, left.typ.Kind) {
+			// Not valid for op
+			errs = append(errs, semanticError2(errInvalidOperatorTypeMsg, left.token, left.typ, n.token.Val))
+			goto end
+		}
 		n.typ = boolType
 
 	case opStructDcl, opEnumDcl:
-- 
2.43.0


From fba1d54f388cd3558b03b6531143b172984d08a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:53 +0000
Subject: [PATCH 15/26] fix: reject integer literals which do not fit in 63
 bits

---
 semantic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic.go b/semantic.go
index ed57f30..33bc8d7 100644
--- a/semantic.go
+++ b/semantic.go
@@ -463,7 +463,7 @@ func foldConstants(errs *[]error, n *Node) {
 
 	// Check for overflow
 	if n.op == opLit && n.token.Kind == lex.Integer {
-		_, err := strconv.ParseInt(n.token.Val, 0, 64)
+		_, err := strconv.ParseInt(n.token.Val, 0, 63) // One bit is used as a tag
 		if err != nil {
 			*errs = append(*errs, semanticError(errIntegerOverflowMsg, n.token))
 		}
-- 
2.43.0


From 17d72f49e729df62385e397842f42ac4913b071e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:00 +0000
Subject: [PATCH 16/26] fix: report an error when source ends unexpectedly

---
 parse.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index d313a33..a469f4f 100644
--- a/parse.go
+++ b/parse.go
@@ -77,7 +77,6 @@ func (p *Parser) Parse(tokens []*lex.Token, root *Node) (errs []error) {
 			// TODO: p.sync(lex.Fn, lex.Struct, lex.Enum)
 		}
 	}
-	p.need(lex.EOF)
 	return p.errs
 }
 
@@ -599,9 +598,13 @@ func (p *Parser) syntaxError(expected string) {
 
 func (p *Parser) onUnexpectedEof(errs *[]error) {
 	if r := recover(); r != nil {
-		*errs = p.errs
 		if r != errUnexpectedEof {
 			panic(r)
 		}
+		if len(p.errs) == 0 {
+			p.discard = false
+			p.syntaxError("more input")
+		}
+		*errs = p.errs
 	}
 }
\ No newline at end of file
-- 
2.43.0


From e5a7bfbb6e030fe6cc174ecb82ce746607a61a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:06 +0000
Subject: [PATCH 17/26] fix: allow statements and return values to start with
 any prefix operator

---
 lex/lex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lex/lex.go b/lex/lex.go
index 3e9f031..8efae47 100644
--- a/lex/lex.go
+++ b/lex/lex.go
@@ -99,7 +99,7 @@ const (
 
 func (k Kind) IsExprStart() bool {
 	switch k {
-	case Integer, String, Identifier, True, False, Not, LParen, Fn, Min, LBrack:
+	case Integer, String, Identifier, True, False, Not, LParen, Fn, Min, LBrack, BNot, Type:
 		return true
 	default:
 		return false
-- 
2.43.0


From 05d02396f9d3d9a167fa877dffb35b50990643b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:12 +0000
Subject: [PATCH 18/26] fix: reject newlines and invalid UTF-8 in string
 literals

---
 lex/lex.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lex/lex.go b/lex/lex.go
index 8efae47..619efaa 100644
--- a/lex/lex.go
+++ b/lex/lex.go
@@ -434,6 +434,13 @@ func lexString(l *Lexer) stateFn {
 		switch l.peek() {
 		case eof, '"':
 			break loop;
+		case '\n':
+			return l.errorf("Newline in string literal")
+		case utf8.RuneError:
+			if l.width == 1 {
+				return l.errorf("Invalid UTF-8 in string literal")
+			}
+			l.next()
 		case '\\':
 			l.next()
 			if !isEscape(l.peek()) {
-- 
2.43.0


From e888be5501d7d59f9bdfe0b62346cc1ef1cb05b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:35 +0000
Subject: [PATCH 19/26] fix: keep errors found inside ternaries and array
 literals

---
 typecheck.go | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/typecheck.go b/typecheck.go
index 57db80d..e2f0b53 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -519,44 +519,48 @@ func typeCheckCase(n *Node, bound map[*Type]*Type, symtab *SymTab, fn *FunctionT
 	return errs
 }
 
-func typeCheckTernary(n *Node, symtab *SymTab, fn *FunctionType, debug bool) []error {
+func typeCheckTernary(n *Node, symtab *SymTab, fn *FunctionType, debug bool) (errs []error) {
 	cond := n.left
-	if errs := typeCheck(cond, symtab, fn, debug); !cond.hasType() {
+	errs = append(errs, typeCheck(cond, symtab, fn, debug)...)
+	if !cond.hasType() {
 		return errs
 	}
 	if !cond.typ.Is(Boolean) {
-		return []error{ semanticError2(errMismatchedTypesMsg, cond.token, cond.typ, boolType) }
+		return append(errs, semanticError2(errMismatchedTypesMsg, cond.token, cond.typ, boolType))
 	}
 	ifExpr := n.stmts[0]
-	if errs := typeCheck(ifExpr, symtab, fn, debug); !ifExpr.hasType() {
+	errs = append(errs, typeCheck(ifExpr, symtab, fn, debug)...)
+	if !ifExpr.hasType() {
 		return errs
 	}
 	elseExpr := n.stmts[1]
-	if errs := typeCheck(elseExpr, symtab, fn, debug); !elseExpr.hasType() {
+	errs = append(errs, typeCheck(elseExpr, symtab, fn, debug)...)
+	if !elseExpr.hasType() {
 		return errs
 	}
 	if !ifExpr.typ.Matches(elseExpr.typ) {
-		return []error{ semanticError2(errMismatchedTypesMsg, elseExpr.token, elseExpr.typ, ifExpr.typ) }
+		return append(errs, semanticError2(errMismatchedTypesMsg, elseExpr.token, elseExpr.typ, ifExpr.typ))
 	}
 	n.typ = ifExpr.typ
-	return nil
+	return errs
 }
 
-func typeCheckArrayLit(n *Node, symtab *SymTab, fn *FunctionType, debug bool) []error {
+func typeCheckArrayLit(n *Node, symtab *SymTab, fn *FunctionType, debug bool) (errs []error) {
 	if len(n.stmts) == 0 {
 		return []error{ semanticError(errEmptyArrayLiteralMsg, n.token) }
 	}
 	for _, expr := range n.stmts {
-		if errs := typeCheck(expr, symtab, fn, debug); !expr.hasType() {
+		errs = append(errs, typeCheck(expr, symtab, fn, debug)...)
+		if !expr.hasType() {
 			return errs
 		}
 		// Type of first element defines type for rest of elements
 		if !expr.typ.Matches(n.stmts[0].typ) {
-			return []error{ semanticError2(errMismatchedTypesMsg, expr.token, expr.typ, intType) }
+			return append(errs, semanticError2(errMismatchedTypesMsg, expr.token, expr.typ, n.stmts[0].typ))
 		}
 	}
 	n.typ = &Type{Kind: Array, Data: &ArrayType{Elem: n.stmts[0].typ}}
-	return nil
+	return errs
 }
 
 func typeCheckFor(n *Node, symtab *SymTab, fn *FunctionType, debug bool) (errs []error) {
-- 
2.43.0


From 812e28aaf0b4ee7d968957985402320762ccff4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:02 +0000
Subject: [PATCH 20/26] fix: reject functions, structs, closures and calls
 which need more than six registers

---
 closures.go | 18 +++++++++++++++++-
 main.go     |  5 ++++-
 semantic.go |  9 +++++++++
 3 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/closures.go b/closures.go
index f45796e..d4111e0 100644
--- a/closures.go
+++ b/closures.go
@@ -7,7 +7,7 @@ import (
 
 var id = uint(0) // TODO: Find a better solution to this...
 
-func rewriteAnonFnAndClosures(rootNode *Node, n *Node) {
+func rewriteAnonFnAndClosures(errs *[]error, rootNode *Node, n *Node) {
 
 	if n.isLocalFn() {
 
@@ -20,6 +20,16 @@ func rewriteAnonFnAndClosures(rootNode *Node, n *Node) {
 			// Closure
 			// ----------------------------------------------------------
 
+			// Captured variables are passed to a constructor & the environment is passed as first parameter
+			if len(freeVars) > maxFnArgCount {
+				*errs = append(*errs, semanticError2(errTooManyArgsMsg, n.token, "captured variables", maxFnArgCount))
+				return
+			}
+			if len(n.params) >= maxFnArgCount {
+				*errs = append(*errs, semanticError2(errTooManyArgsMsg, n.token, n.token.Val, maxFnArgCount-1))
+				return
+			}
+
 			// Generate closure & environment structs
 			env, envCons := generateStruct(rootNode, fmt.Sprintf("env.%X", id), freeVars...)
 			_, clCons := generateStruct(rootNode, fmt.Sprintf("cl.%X", id), n.sym, env)
@@ -87,6 +97,12 @@ func rewriteAnonFnAndClosures(rootNode *Node, n *Node) {
 		// Closure/Anonymous/Fn Pointer Call Site
 		// ----------------------------------------------------------
 
+		// Function value is passed as first parameter
+		if len(n.stmts) >= maxFnArgCount {
+			*errs = append(*errs, semanticError2(errTooManyArgsMsg, n.token, n.token.Val, maxFnArgCount-1))
+			return
+		}
+
 		s := rootNode.symtab.MustResolve("invokeDynamic")
 
 		// AST: <name>(args...) -> invokeDynamic(<name>, args...)
diff --git a/main.go b/main.go
index a853ea5..b720ea7 100644
--- a/main.go
+++ b/main.go
@@ -119,9 +119,12 @@ func Compile(options options, claraLibPaths []string, progPath string, cLibPaths
 	WalkPostOrder(rootNode, func(n *Node) { rewriteArrayLiteralExpr(n, rootSymtab) })
 	for _, n := range rootNode.stmts {
 		if !isFn(n, "invokeDynamic") {
-			WalkPostOrder(n, func(n *Node) { rewriteAnonFnAndClosures(rootNode, n) })
+			WalkPostOrder(n, func(n *Node) { rewriteAnonFnAndClosures(&errs, rootNode, n) })
 		}
 	}
+	if len(errs) > 0 {
+		return "", errs
+	}
 	WalkPostOrder(rootNode, func(n *Node) { lowerMatchStatement(rootSymtab, n) })
 	WalkPostOrder(rootNode, lowerForStatement)
 	if len(errs) > 0 {
diff --git a/semantic.go b/semantic.go
index 33bc8d7..bca9226 100644
--- a/semantic.go
+++ b/semantic.go
@@ -357,6 +357,10 @@ func processFnType(n *Node, symName string, symtab *SymTab, child *SymTab, types
 	}
 	n.sym = sym
 
+	if len(n.params) > maxFnArgCount {
+		return nil, semanticError2(errTooManyArgsMsg, n.token, n.token.Val, maxFnArgCount)
+	}
+
 	// Process parameters
 	n.symtab = child
 	if n.right != nil {
@@ -632,6 +636,11 @@ func generateStructConstructor(root *Node, n *Node) (*Symbol, error) {
 		return nil, semanticError(errStructNamingLowerMsg, n.token)
 	}
 
+	// Check all fields can be passed to constructor
+	if len(n.stmts) > maxFnArgCount {
+		return nil, semanticError2(errTooManyArgsMsg, n.token, name, maxFnArgCount)
+	}
+
 	// Create name
 	constructorName := strings.ToUpper(firstLetter) + name[1:]
 
-- 
2.43.0


From 2fd9323826ed829ad92e754c5349d53afa70c7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:30 +0000
Subject: [PATCH 21/26] fix: do not accept the name of a type as a value

---
 typecheck.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/typecheck.go b/typecheck.go
index e2f0b53..34f76bc 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -907,6 +907,9 @@ func typeCheckIdentifier(n *Node, symtab *SymTab, allowAmbiguous bool) error {
 	// If no symbol - try to find identifier declaration
 	if n.sym == nil {
 		sym, found := symtab.Resolve(n.token.Val)
+		for found && sym.IsType {
+			sym, found = sym.Next, sym.Next != nil // Types are not values
+		}
 		if !found {
 			return semanticError(errUnknownVarMsg, n.token)
 		}
-- 
2.43.0


From 7fb1b17be7d35d346f3c620adf7e375bb3aaec59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:19 +0000
Subject: [PATCH 22/26] fix: work out fields of instantiated structs when first
 needed

A generic struct which refers to itself overflowed the stack of the compiler and
one which refers to a generic struct declared later lost its type arguments.
---
 codegen.go   |  2 +-
 symtab.go    | 17 ++++++++++++++++-
 typecheck.go |  6 +-----
 3 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/codegen.go b/codegen.go
index 0b778a2..047a440 100644
--- a/codegen.go
+++ b/codegen.go
@@ -235,7 +235,7 @@ func genTypeInfoTable(asm asmWriter, gt *GcTypes) {
 
 			// Gather field offsets
 			var off []int
-			for _, f := range t.AsStruct().Fields {
+			for _, f := range t.AsStruct().AllFields() {
 				if f.Type.IsPointer() {
 					off = append(off, f.Addr/ptrSize)
 				}
diff --git a/symtab.go b/symtab.go
index d1faa2d..b50baa0 100644
--- a/symtab.go
+++ b/symtab.go
@@ -284,10 +284,25 @@ type StructType struct {
 	Name   string
 	Fields []*Symbol
 	Types  []*Type
+
+	// Set when instantiated from another struct. The fields are worked out on first use, by which time
+	// all declarations have been processed, as structs may refer to themselves or to later declarations.
+	generic *StructType
+	bound   map[*Type]*Type
+}
+
+func (st *StructType) AllFields() []*Symbol {
+	if st.generic != nil {
+		for i, f := range st.generic.AllFields() {
+			st.Fields = append(st.Fields, &Symbol{Name: f.Name, Addr: i * ptrSize, Type: substituteType(f.Type, st.bound)})
+		}
+		st.generic = nil
+	}
+	return st.Fields
 }
 
 func (st *StructType) GetField(name string) *Symbol {
-	for _, field := range st.Fields {
+	for _, field := range st.AllFields() {
 		if field.Name == name {
 			return field
 		}
diff --git a/typecheck.go b/typecheck.go
index 34f76bc..ace64cc 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -835,11 +835,7 @@ func substituteType(t *Type, bound map[*Type]*Type) *Type {
 		for _, tp := range s.Types {
 			types = append(types, substituteType(tp, bound))
 		}
-		var fields []*Symbol
-		for i, f := range s.Fields {
-			fields = append(fields, &Symbol{Name: f.Name, Addr: i * ptrSize, Type: substituteType(f.Type, bound)})
-		}
-		return &Type{Kind: Struct, Data: &StructType{Name: s.Name, Fields: fields, Types: types}}
+		return &Type{Kind: Struct, Data: &StructType{Name: s.Name, Types: types, generic: s, bound: bound}}
 
 	case t.Is(Enum):
 		e := t.AsEnum()
-- 
2.43.0


From e6f633224abad4ee6d33db5f3cc326a49c786ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:23 +0000
Subject: [PATCH 23/26] fix: require type parameters of function results to be
 bound

---
 typecheck.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/typecheck.go b/typecheck.go
index ace64cc..eee2e68 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -863,10 +863,10 @@ func findUnboundTypeParameters(t *Type, bound map[*Type]*Type) []*Type {
 	case t.Is(Function):
 		f := t.AsFunction()
 		var unmatched []*Type
-		for _, f := range f.Types {
-			unmatched = append(unmatched, findUnboundTypeParameters(f, bound)...)
+		for _, p := range f.Params {
+			unmatched = append(unmatched, findUnboundTypeParameters(p, bound)...)
 		}
-		return unmatched
+		return append(unmatched, findUnboundTypeParameters(f.ret, bound)...)
 
 	case t.Is(Struct):
 		s := t.AsStruct()
-- 
2.43.0


From ceb24c89019766bc0138b24ac4b9fe8522a2905a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:02 +0000
Subject: [PATCH 24/26] fix: report functions which cannot be told apart as
 redeclared

Overloads whose parameters differ only in type parameters, a function declared like
an enum constructor and a second main were all left for the assembler to reject.
---
 semantic.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/semantic.go b/semantic.go
index bca9226..57d6673 100644
--- a/semantic.go
+++ b/semantic.go
@@ -223,6 +223,22 @@ loop:
 			errs = append(errs, instantiateFunctionTypes(n)...)
 		}
 	}
+	if len(errs) != 0 {
+		return errs
+	}
+
+	// Check no two functions are given the same name in the generated assembly
+	names := make(map[string]bool)
+	for _, n := range rootNode.stmts {
+		switch n.op {
+		case opBlockFnDcl, opExprFnDcl, opConsFnDcl:
+			name := n.sym.Type.AsFunction().AsmName(n.sym.Name)
+			if names[name] {
+				errs = append(errs, semanticError(errRedeclaredMsg, n.token))
+			}
+			names[name] = true
+		}
+	}
 	return errs
 }
 
-- 
2.43.0


From 42bcaea6cf3805e6812709ee01ef3e2d1746696d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:23 +0000
Subject: [PATCH 25/26] fix: reject assignment to functions and to call results

---
 ast.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ast.go b/ast.go
index ee8b38c..c6ef077 100644
--- a/ast.go
+++ b/ast.go
@@ -37,8 +37,7 @@ func (n *Node) hasType() bool {
 func (n *Node) isAddressable() bool {
 	switch n.op {
 	case opArray: return true
-	case opFuncCall: return n.typ.Is(Struct) || n.typ.Is(Array)
-	case opIdentifier: return true
+	case opIdentifier: return !n.sym.IsGlobal // Functions are not variables
 	case opDot: return true
 	default:
 		return false
-- 
2.43.0


From 77eb8e55af9c6a9d91ed500bb3e2c429d5c1c0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:56 +0000
Subject: [PATCH 26/26] fix: keep carriage returns and NULs in string literals

---
 asm.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/asm.go b/asm.go
index c615527..16ec150 100644
--- a/asm.go
+++ b/asm.go
@@ -423,7 +423,10 @@ func (gw *gasWriter) flush() {
 		gw.label(label)
 		gw.taggedInt(readOnlyGcHeader(4)) // gc.go defines fixed IDs
 		gw.taggedInt(len(raw))
-		gw.write("   .ascii \"%v\\0\"\n", s[1:len(s)-1])
+		// Carriage returns & NULs do not survive assembly as they are
+		text := strings.ReplaceAll(s[1:len(s)-1], "\r", "\\r")
+		text = strings.ReplaceAll(text, "\x00", "\\000")
+		gw.write("   .ascii \"%v\\0\"\n", text)
 	}
 	gw.literals = make(map[string]string) // Clear values
 }
-- 
2.43.0

