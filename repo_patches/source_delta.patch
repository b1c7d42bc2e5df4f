From 7e075bdfa84089dadc43169644951f09932c7b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:50 +0000
Subject: [PATCH 01/41] fix: keep already evaluated call arguments intact
 across division and shifts

---
 codegen.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/codegen.go b/codegen.go
index 330f8d8..3832af4 100644
--- a/codegen.go
+++ b/codegen.go
@@ -703,9 +703,13 @@ func genExpr(asm asmWriter, expr *Node, takeAddr bool, fn *function) {
 		asm.ins(movq, rax, rbx)
 		restore(asm, fn, rax)
 		if expr.op == opDiv {
+			asm.ins(movq, rdx, r10) // idiv overwrites rdx which may hold an already evaluated argument
 			asm.ins(cqo) // Sign-extend rax into rdx
 		}
 		asm.ins(ins[expr.op], rbx, rax)
+		if expr.op == opDiv {
+			asm.ins(movq, r10, rdx)
+		}
 		tag(asm, expr, rax)
 
 		// NOTES:
@@ -750,9 +754,11 @@ func genExpr(asm asmWriter, expr *Node, takeAddr bool, fn *function) {
 		save(asm, fn, rax)
 		genExpr(asm, expr.right, false, fn)
 		untag(asm, expr.right, rax)
+		asm.ins(movq, rcx, r10) // Shift count must be in cl but rcx may hold an already evaluated argument
 		asm.ins(movq, rax, rcx)
 		restore(asm, fn, rax)
 		asm.ins(ins[expr.op], cl, rax)
+		asm.ins(movq, r10, rcx)
 		tag(asm, expr, rax)
 
 	case opIdentifier:
-- 
2.43.0


From edd33ad3240c94bb3f9e9e5f4500523385e1f8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:19 +0000
Subject: [PATCH 02/41] fix: closures capture array indexes and never treat
 field names as captured variables

---
 closures.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/closures.go b/closures.go
index e902bcb..a5932ea 100644
--- a/closures.go
+++ b/closures.go
@@ -161,13 +161,14 @@ func (fc *freeVarChecker) IdentityFreeVars(n *Node) bool {
 	case n.Is(opIdentifier) && fc.isFree(n):
 		fc.free[n.sym] = true
 
-	case n.Is(opDot, opArray) && n.left.Is(opIdentifier):
-		if fc.isFree(n.left) {
-			fc.free[n.left.sym] = true
-		}
-		return false // No need to walk right!
+	case n.Is(opDot):
+		// Only the left can contain variables, the right is always a field name
+		WalkPreOrder(n.left, fc.IdentityFreeVars)
+		fc.exitNode()
+		return false
 
 	case n.Is(opBlockFnDcl, opExprFnDcl) && n != fc.n:
+		fc.exitNode()
 		return false // Don't walk into other closures!
 	}
 	return true
-- 
2.43.0


From 12bfae3026c14afc681a86f65557ac77e2c364d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:25 +0000
Subject: [PATCH 03/41] fix: convert arguments of external functions only once
 all are evaluated

---
 codegen.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/codegen.go b/codegen.go
index 3832af4..1e9dd82 100644
--- a/codegen.go
+++ b/codegen.go
@@ -593,9 +593,12 @@ func genFnCall(asm asmWriter, n *Node, f *function) {
 		genExpr(asm, arg, false, f)
 		asm.ins(movq, rax, regs[i])
 		f.RegisterInUse(arg.typ)
+	}
 
-		// Create "raw" values for any external functions which require them
-		if fn.Is(External) && fn.RawValues {
+	// Create "raw" values for any external functions which require them. This is only safe once all args have
+	// been evaluated as a GC can run during evaluation & raw values are not pointers to blocks
+	if fn.Is(External) && fn.RawValues {
+		for i, arg := range n.stmts {
 			switch arg.typ.Kind {
 			case String, Array, Bytes:
 				// Modify pointer to point past length
-- 
2.43.0


From a921380c8bfbd2172405557c9c2c0ae330d0778a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:54 +0000
Subject: [PATCH 04/41] fix: drop garbage collection roots of a block when its
 scope closes

---
 gc.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gc.go b/gc.go
index ce9b9e7..5e1fe7d 100644
--- a/gc.go
+++ b/gc.go
@@ -48,6 +48,7 @@ func (gs *GcState) OpenScope() {
 
 func (gs *GcState) CloseScope() {
 	gs.roots = gs.roots[:gs.scopes[len(gs.scopes)-1]]
+	gs.scopes = gs.scopes[:len(gs.scopes)-1]
 }
 
 func (gs *GcState) Add(off int, t *Type) {
-- 
2.43.0


From 89571c74a4ce1779e3df3aaf668a909cdceb9b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:19 +0000
Subject: [PATCH 05/41] fix: keep saved intermediate values alive across
 garbage collections

---
 codegen.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/codegen.go b/codegen.go
index 1e9dd82..41f1183 100644
--- a/codegen.go
+++ b/codegen.go
@@ -513,14 +513,14 @@ func genAssignStmt(asm asmWriter, n *Node, fn *function) {
 
 	// Evaluate expression & push result to stack
 	genExpr(asm, n.right, false, fn)
-	save(asm, fn, rax)
+	saveRoot(asm, fn, rax, n.right.typ)
 
 	// Evaluate mem location to store
 	slot := n.left
 	genExpr(asm, slot, true, fn)
 
 	// Pop result
-	restore(asm, fn, rbx)
+	restoreRoot(asm, fn, rbx, n.right.typ)
 	src := rbx
 
 	// Write slot
@@ -829,7 +829,7 @@ func genExpr(asm asmWriter, expr *Node, takeAddr bool, fn *function) {
 
 		// Calculate array address
 		genExpr(asm, expr.left, false, fn)
-		save(asm, fn, rax)
+		saveRoot(asm, fn, rax, expr.left.typ)
 
 		// Calculate index
 		genExpr(asm, expr.right, false, fn)
@@ -846,7 +846,7 @@ func genExpr(asm asmWriter, expr *Node, takeAddr bool, fn *function) {
 		asm.ins(cmpq, rax, rbx) // index - array.length
 
 		// Restore array address before jump!
-		restore(asm, fn, rax)
+		restoreRoot(asm, fn, rax, expr.left.typ)
 		asm.ins(jae, labelOp("ioob"))
 
 		// Displace + ptrSize to skip over length
@@ -909,6 +909,17 @@ func restore(asm asmWriter, fn *function, r reg) {
 	fn.decSp(1)
 }
 
+// Save a value which must survive any GC which runs before it is restored
+func saveRoot(asm asmWriter, fn *function, r reg, t *Type) {
+	save(asm, fn, r)
+	fn.gcRoots.Add(fn.sp * ptrSize, t)
+}
+
+func restoreRoot(asm asmWriter, fn *function, r reg, t *Type) {
+	fn.gcRoots.Remove(fn.sp * ptrSize, t)
+	restore(asm, fn, r)
+}
+
 var ins = make(map[int]inst)
 func init() {
 	ins[opAdd] = addq
-- 
2.43.0


From 31749f331c85d56dd7990f870ed6308d881d75f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:49 +0000
Subject: [PATCH 06/41] fix: evaluate the array of a for loop once and keep its
 element alive

---
 semantic.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/semantic.go b/semantic.go
index 455c491..2a6983f 100644
--- a/semantic.go
+++ b/semantic.go
@@ -475,15 +475,12 @@ func lowerForStatement(n *Node) {
 		if arrayOrRange.typ.Is(Array) {
 			var stmts []*Node
 
-			// Array literals need assigned to a slot first
-			if arrayOrRange.Is(opArrayLit) {
-				arrayLitSlot := newVar("$arrayLit$", intArrayType)
-				stmts = append(stmts, das(arrayLitSlot, arrayOrRange.left))
-				arrayOrRange = arrayLitSlot
-			}
+			// Assign to a slot first as expression must only be evaluated once
+			arraySlot := newVar("$array$", arrayOrRange.typ)
+			stmts = append(stmts, das(arraySlot, arrayOrRange))
 			val := newVar("$idx$", intType)
-			while := while(lt(val.copy(), length(arrayOrRange)))
-			while.stmts = append(while.stmts, as(n.left, access(arrayOrRange, val.copy())))
+			while := while(lt(val.copy(), length(arraySlot)))
+			while.stmts = append(while.stmts, das(n.left, access(arraySlot, val.copy())))
 			while.stmts = append(while.stmts, n.stmts...)
 			while.stmts = append(while.stmts, inc(val.copy(), 1))
 			n.stmts = append(stmts, das(val, intLit(0)), while)
-- 
2.43.0


From c4af27f2d7d4992eb98111d3fbfb3e92adef2410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:21 +0000
Subject: [PATCH 07/41] fix: reject comparison of types which cannot be
 compared instead of crashing

---
 semantic.go  | 5 +++++
 typecheck.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/semantic.go b/semantic.go
index 2a6983f..0749bdd 100644
--- a/semantic.go
+++ b/semantic.go
@@ -65,6 +65,11 @@ var operatorTypes = OperatorTypes{
 	opBXor:   {Integer},
 	opBLeft:  {Integer},
 	opBRight: {Integer},
+	opEq:     {Integer},
+	opGt:     {Integer},
+	opGte:    {Integer},
+	opLt:     {Integer},
+	opLte:    {Integer},
 	// TODO: What about unary operators? Operators which return a different type?
 }
 
diff --git a/typecheck.go b/typecheck.go
index 3bb470d..57db80d 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -192,6 +192,11 @@ func typeCheck(n *Node, symtab *SymTab, fn *FunctionType, debug bool) (errs []er
 			errs = append(errs, semanticError2(errMismatchedTypesMsg, left.token, left.typ, right.typ))
 			goto end
 		}
+		if !operatorTypes.isValid(n.op, left.typ.Kind) {
+			// Not valid for op
+			errs = append(errs, semanticError2(errInvalidOperatorTypeMsg, left.token, left.typ, n.token.Val))
+			goto end
+		}
 		n.typ = boolType
 
 	case opStructDcl, opEnumDcl:
-- 
2.43.0


From 41324f595b74254bca394f3abfb6e14889f96968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:28 +0000
Subject: [PATCH 08/41] fix: report type errors inside ternary and array
 literal expressions

---
 typecheck.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/typecheck.go b/typecheck.go
index 57db80d..61ff7a0 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -521,18 +521,18 @@ func typeCheckCase(n *Node, bound map[*Type]*Type, symtab *SymTab, fn *FunctionT
 
 func typeCheckTernary(n *Node, symtab *SymTab, fn *FunctionType, debug bool) []error {
 	cond := n.left
-	if errs := typeCheck(cond, symtab, fn, debug); !cond.hasType() {
+	if errs := typeCheck(cond, symtab, fn, debug); len(errs) > 0 || !cond.hasType() {
 		return errs
 	}
 	if !cond.typ.Is(Boolean) {
 		return []error{ semanticError2(errMismatchedTypesMsg, cond.token, cond.typ, boolType) }
 	}
 	ifExpr := n.stmts[0]
-	if errs := typeCheck(ifExpr, symtab, fn, debug); !ifExpr.hasType() {
+	if errs := typeCheck(ifExpr, symtab, fn, debug); len(errs) > 0 || !ifExpr.hasType() {
 		return errs
 	}
 	elseExpr := n.stmts[1]
-	if errs := typeCheck(elseExpr, symtab, fn, debug); !elseExpr.hasType() {
+	if errs := typeCheck(elseExpr, symtab, fn, debug); len(errs) > 0 || !elseExpr.hasType() {
 		return errs
 	}
 	if !ifExpr.typ.Matches(elseExpr.typ) {
@@ -547,7 +547,7 @@ func typeCheckArrayLit(n *Node, symtab *SymTab, fn *FunctionType, debug bool) []
 		return []error{ semanticError(errEmptyArrayLiteralMsg, n.token) }
 	}
 	for _, expr := range n.stmts {
-		if errs := typeCheck(expr, symtab, fn, debug); !expr.hasType() {
+		if errs := typeCheck(expr, symtab, fn, debug); len(errs) > 0 || !expr.hasType() {
 			return errs
 		}
 		// Type of first element defines type for rest of elements
-- 
2.43.0


From 25ff69c4a1c9c512267bde05c23527d8f9884b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:06 +0000
Subject: [PATCH 09/41] fix: report too many parameters, fields or captured
 variables instead of crashing

---
 closures.go |  8 +++++++-
 main.go     |  2 +-
 semantic.go | 13 +++++++++++++
 3 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/closures.go b/closures.go
index a5932ea..1962fe2 100644
--- a/closures.go
+++ b/closures.go
@@ -7,13 +7,16 @@ import (
 
 var id = uint(0) // TODO: Find a better solution to this...
 
-func rewriteAnonFnAndClosures(rootNode *Node, n *Node) {
+func rewriteAnonFnAndClosures(errs *[]error, rootNode *Node, n *Node) {
 
 	if n.isLocalFn() {
 
 		id += 1
 
 		freeVars := clIdentifyFreeVars(n)
+		if len(freeVars) > maxFnArgCount {
+			*errs = append(*errs, semanticError2(errTooManyCapturedMsg, n.token, len(freeVars), maxFnArgCount))
+		}
 		if len(freeVars) > 0 {
 
 			// ----------------------------------------------------------
@@ -87,6 +90,9 @@ func rewriteAnonFnAndClosures(rootNode *Node, n *Node) {
 		// Closure/Anonymous/Fn Pointer Call Site
 		// ----------------------------------------------------------
 
+		if len(n.stmts) > maxDynamicArgCount {
+			*errs = append(*errs, semanticError2(errTooManyArgsMsg, n.token, n.left.token.Val, maxDynamicArgCount))
+		}
 		s := rootNode.symtab.MustResolve("invokeDynamic")
 
 		// AST: <name>(args...) -> invokeDynamic(<name>, args...)
diff --git a/main.go b/main.go
index a853ea5..ba2e466 100644
--- a/main.go
+++ b/main.go
@@ -119,7 +119,7 @@ func Compile(options options, claraLibPaths []string, progPath string, cLibPaths
 	WalkPostOrder(rootNode, func(n *Node) { rewriteArrayLiteralExpr(n, rootSymtab) })
 	for _, n := range rootNode.stmts {
 		if !isFn(n, "invokeDynamic") {
-			WalkPostOrder(n, func(n *Node) { rewriteAnonFnAndClosures(rootNode, n) })
+			WalkPostOrder(n, func(n *Node) { rewriteAnonFnAndClosures(&errs, rootNode, n) })
 		}
 	}
 	WalkPostOrder(rootNode, func(n *Node) { lowerMatchStatement(rootSymtab, n) })
diff --git a/semantic.go b/semantic.go
index 0749bdd..bbea810 100644
--- a/semantic.go
+++ b/semantic.go
@@ -38,11 +38,13 @@ const (
 	errMatchNotExhaustiveMsg    = "%v:%d:%d: error, match over enum '%v' is not exhaustive"
 	errNotAnEnumCaseMsg         = "%v:%d:%d: error, '%v' is not an enum case"
 	errTooManyArgsMsg           = "%v:%d:%d: error, '%v' exceeds maximum argument count of '%v'"
+	errTooManyCapturedMsg       = "%v:%d:%d: error, function captures '%v' variables, exceeds maximum of '%v'"
 	errTypeParameterNotKnownMsg = "%v:%d:%d: error, type parameter(s) '%v' of return type '%v' not known, explicit function call type parameters required"
 	errEmptyArrayLiteralMsg     = "%v:%d:%d: error, empty array literal not allowed ... yet!"
 	errNoTypeParametersMsg      = "%v:%d:%d: error, type '%v' does not declare type parameters"
 	maxCaseArgCount             = 5
 	maxFnArgCount               = 6
+	maxDynamicArgCount          = 5 // One register is required for function or captured variables
 
 	// Debug messages
 	debugTypeInfoFormat = "⚫ %s%-60s%s %s%-30s%s ⇨ %s%s%s\n"
@@ -197,6 +199,9 @@ loop:
 				strt.Fields = append(strt.Fields, s)
 				stmt.sym = s
 			}
+			if len(n.stmts) > maxFnArgCount {
+				errs = append(errs, semanticError2(errTooManyArgsMsg, n.token, n.token.Val, maxFnArgCount))
+			}
 
 		case opBlockFnDcl, opExternFnDcl, opExprFnDcl:
 
@@ -356,6 +361,10 @@ func processFnType(n *Node, symName string, symtab *SymTab, child *SymTab, types
 		s.Next = sym
 	}
 	n.sym = sym
+	maxArgs := maxFnArgCount
+	if n.isLocalFn() {
+		maxArgs = maxDynamicArgCount
+	}
 
 	// Process parameters
 	n.symtab = child
@@ -385,6 +394,10 @@ func processFnType(n *Node, symName string, symtab *SymTab, child *SymTab, types
 		fnType.Params = append(fnType.Params, paramType)
 	}
 
+	if n.op != opExternFnDcl && len(n.params) > maxArgs {
+		return nil, semanticError2(errTooManyArgsMsg, n.token, n.token.Val, maxArgs)
+	}
+
 	// Process return
 	fnType.ret = nothingType // Default case
 	if n.left != nil {
-- 
2.43.0


From 04572aba37deba04ee59226d696aa970602009ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:27 +0000
Subject: [PATCH 10/41] fix: reject integer literals which do not fit in 63
 bits

---
 semantic.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/semantic.go b/semantic.go
index bbea810..de1d5be 100644
--- a/semantic.go
+++ b/semantic.go
@@ -42,6 +42,7 @@ const (
 	errTypeParameterNotKnownMsg = "%v:%d:%d: error, type parameter(s) '%v' of return type '%v' not known, explicit function call type parameters required"
 	errEmptyArrayLiteralMsg     = "%v:%d:%d: error, empty array literal not allowed ... yet!"
 	errNoTypeParametersMsg      = "%v:%d:%d: error, type '%v' does not declare type parameters"
+	intSize                     = 63 // One bit is required for tag
 	maxCaseArgCount             = 5
 	maxFnArgCount               = 6
 	maxDynamicArgCount          = 5 // One register is required for function or captured variables
@@ -476,7 +477,7 @@ func foldConstants(errs *[]error, n *Node) {
 
 	// Check for overflow
 	if n.op == opLit && n.token.Kind == lex.Integer {
-		_, err := strconv.ParseInt(n.token.Val, 0, 64)
+		_, err := strconv.ParseInt(n.token.Val, 0, intSize)
 		if err != nil {
 			*errs = append(*errs, semanticError(errIntegerOverflowMsg, n.token))
 		}
-- 
2.43.0


From 6e0a7c38155da02c99a5f70a6d126dfd3477b850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:44 +0000
Subject: [PATCH 11/41] fix: encode any byte of a string literal

---
 asm.go | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/asm.go b/asm.go
index c615527..a9a6805 100644
--- a/asm.go
+++ b/asm.go
@@ -414,20 +414,36 @@ func (gw *gasWriter) flush() {
 	gw.tab(".data")
 	for s, label := range gw.literals {
 
-		raw, err := strconv.Unquote(s)
-		if err != nil {
-			panic(err)
-		}
-
+		ascii, length := encodeString(s[1:len(s)-1])
 		gw.tab(".align", "8")
 		gw.label(label)
 		gw.taggedInt(readOnlyGcHeader(4)) // gc.go defines fixed IDs
-		gw.taggedInt(len(raw))
-		gw.write("   .ascii \"%v\\0\"\n", s[1:len(s)-1])
+		gw.taggedInt(length)
+		gw.write("   .ascii \"%v\\0\"\n", ascii)
 	}
 	gw.literals = make(map[string]string) // Clear values
 }
 
+// Returns the form of string literal contents accepted by the assembler & the number of bytes they represent
+func encodeString(s string) (string, int) {
+	var buf bytes.Buffer
+	length := 0
+	for i := 0; i < len(s); i++ {
+		switch b := s[i]; {
+		case b == '\\' && i+1 < len(s): // Escapes always represent a single byte, See: lex.go
+			buf.WriteByte(b)
+			i++
+			buf.WriteByte(s[i])
+		case b < ' ' || b > '~':
+			buf.WriteString(fmt.Sprintf("\\%03o", b))
+		default:
+			buf.WriteByte(b)
+		}
+		length++
+	}
+	return buf.String(), length
+}
+
 func (gw *gasWriter) newLabel(s string) string {
 	label := fmt.Sprintf("%v_%v", s, gw.lIndex)
 	gw.lIndex++
-- 
2.43.0


From 2b79a5039cc2c50bfaef0ccdf17c613f091d272f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:08 +0000
Subject: [PATCH 12/41] fix: report unexpected end of file

---
 parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index d313a33..6c88e42 100644
--- a/parse.go
+++ b/parse.go
@@ -77,7 +77,6 @@ func (p *Parser) Parse(tokens []*lex.Token, root *Node) (errs []error) {
 			// TODO: p.sync(lex.Fn, lex.Struct, lex.Enum)
 		}
 	}
-	p.need(lex.EOF)
 	return p.errs
 }
 
@@ -573,6 +572,7 @@ func (p *Parser) match(k lex.Kind) bool {
 func (p *Parser) next() *lex.Token {
 	// Panic if unexpectedly no more input
 	if p.pos+1 >= len(p.tokens) {
+		p.syntaxError("more input")
 		panic(errUnexpectedEof)
 	}
 	token := p.tokens[p.pos]
-- 
2.43.0


From a40703c1f295a38f239c266789d3980cd540abb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:08 +0000
Subject: [PATCH 13/41] fix: reject negative index into bytes and string

---
 install/lib/bytes.clara   | 4 ++--
 install/lib/strings.clara | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/install/lib/bytes.clara b/install/lib/bytes.clara
index 58bd149..8be3557 100644
--- a/install/lib/bytes.clara
+++ b/install/lib/bytes.clara
@@ -7,12 +7,12 @@ fn Bytes(length: int) bytes {
 fn length(b: bytes) int = b.toBytesHeader().length
 
 fn get(b: bytes, idx: int) int {
-    assert(idx < b.length(), "idx is out of range")
+    assert(idx >= 0 and idx < b.length(), "idx is out of range")
     return b.toPointer(8).readByte(idx).tag() // Tag after read
 }
 
 fn set(b: bytes, idx: int, val: int) {
-    assert(idx < b.length(), "idx is out of range")
+    assert(idx >= 0 and idx < b.length(), "idx is out of range")
     b.toPointer(8).writeByte(idx, val.untag()) // Untag before write
 }
 
diff --git a/install/lib/strings.clara b/install/lib/strings.clara
index 929edf9..dee5118 100644
--- a/install/lib/strings.clara
+++ b/install/lib/strings.clara
@@ -1,6 +1,6 @@
 // ---------------------------------------------------------------------------------------------------------------------
 fn byte(s: string, idx: int) int {
-    assert(idx < s.length, "idx is out of range")
+    assert(idx >= 0 and idx < s.length, "idx is out of range")
     return s.toPointer(8).readByte(idx).tag()
 }
 
-- 
2.43.0


From 139491e711340d3a01e75ac0d5430b58699b11b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:08 +0000
Subject: [PATCH 14/41] fix: never build a string of negative length

---
 install/lib/strings.clara | 1 +
 1 file changed, 1 insertion(+)

diff --git a/install/lib/strings.clara b/install/lib/strings.clara
index dee5118..e561594 100644
--- a/install/lib/strings.clara
+++ b/install/lib/strings.clara
@@ -151,6 +151,7 @@ fn copyString(src: string, srcPos: int, dest: bytes, destPos: int) {
 fn toString(b: bytes) string = toString(b, b.length())
 fn toString(b: bytes, length: int) string = toString(b, 0, length)
 fn toString(b: bytes, pos: int, length: int) string {
+    assert(length >= 0, "length cannot be negative")
     s := Bytes(length + 1) // + 1 for NUL byte
     s.unsafe(0, type(bytesHeader)).length = length // Ugh!
     copyArray(b, pos, s, 0)
-- 
2.43.0


From 44b49a6d2a6abf09de1ea23fe0b684573829a1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:08 +0000
Subject: [PATCH 15/41] fix: grow empty byte buffers

---
 install/lib/strings.clara | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/install/lib/strings.clara b/install/lib/strings.clara
index e561594..cba8461 100644
--- a/install/lib/strings.clara
+++ b/install/lib/strings.clara
@@ -116,7 +116,7 @@ fn append(buf: byteBuffer, b: int) {
 // ---------------------------------------------------------------------------------------------------------------------
 // TODO: Should be "private"
 fn grow(buf: byteBuffer, requiredSize: int) {
-    newSize := buf.data.length() * 2
+    newSize := buf.data.length() > 0 ? buf.data.length() * 2 : 1
     while newSize < requiredSize {
         newSize = newSize * 2
     }
-- 
2.43.0


From 11eb1c34259059149b70e35b5f520e29f677c128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:08 +0000
Subject: [PATCH 16/41] fix: copy arrays of any length without exhausting the
 stack

---
 install/lib/arrays.clara | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/install/lib/arrays.clara b/install/lib/arrays.clara
index 27a9f48..9d5a7f9 100644
--- a/install/lib/arrays.clara
+++ b/install/lib/arrays.clara
@@ -1,11 +1,11 @@
 // ---------------------------------------------------------------------------------------------------------------------
 
 fn copyArray(src: bytes, srcPos: int, dest: bytes, destPos: int) {
-    if src.length() == srcPos or dest.length() == destPos {
-        return
+    while not (src.length() == srcPos or dest.length() == destPos) {
+        dest.set(destPos, src.get(srcPos))
+        srcPos = srcPos + 1
+        destPos = destPos + 1
     }
-    dest.set(destPos, src.get(srcPos))
-    copyArray(src, srcPos+1, dest, destPos+1)
 }
 
 fn setElement«T»(src: []T, pos: int, val: T) []T {
-- 
2.43.0


From fde5a32a05014d261215fec9f9eccee31627308f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:08 +0000
Subject: [PATCH 17/41] fix: use path of file in read errors

---
 install/lib/io.clara | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/install/lib/io.clara b/install/lib/io.clara
index fb268df..70746e5 100644
--- a/install/lib/io.clara
+++ b/install/lib/io.clara
@@ -12,7 +12,7 @@ fn read(f: file, buf: bytes, size: int) option«error» {
     if size > buf.length() {
         return Some(Error(Some("buffer is too small for requested read size"), -1))
     }
-    return read(f.fd, buf, size) == -1 ? Some(Error(Some(file.path), errnum())) : None«error»()
+    return read(f.fd, buf, size) == -1 ? Some(Error(Some(f.path), errnum())) : None«error»()
 }
 // ---------------------------------------------------------------------------------------------------------------------
 // External Functions
-- 
2.43.0


From 519f5bec6a46d510e1d17b891546bfc904a073d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:33 +0000
Subject: [PATCH 18/41] fix: count columns of the first line from one like
 every other line

---
 lex/lex.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/lex/lex.go b/lex/lex.go
index 3e9f031..157a6bb 100644
--- a/lex/lex.go
+++ b/lex/lex.go
@@ -547,10 +547,7 @@ func (l *Lexer) errorf(format string, args ...interface{}) stateFn {
 
 func (l *Lexer) linePos(start int) int {
 	lineIndex := strings.LastIndex(l.input[:start], "\n")
-	if lineIndex == -1 {
-		lineIndex = 0
-	}
-	return utf8.RuneCountInString(l.input[lineIndex:start])
+	return 1 + utf8.RuneCountInString(l.input[lineIndex+1:start])
 }
 
 func (l *Lexer) lineNumber() int {
-- 
2.43.0


From c858caadff4a83be28756ae224f248668f695481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:50 +0000
Subject: [PATCH 19/41] fix: pass program arguments on in the order given

---
 install/init/bootstrap.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/install/init/bootstrap.c b/install/init/bootstrap.c
index e5df462..ba74c3c 100644
--- a/install/init/bootstrap.c
+++ b/install/init/bootstrap.c
@@ -1,5 +1,6 @@
 #include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
 #include <unistd.h>
 #include <getopt.h>
 #include "shared.h"
@@ -18,11 +19,15 @@ static struct option options[] =
 
 int main(int argc, char** argv, char** envp)
 {
+    // Parse a copy of the arguments as getopt_long() reorders them & don't report options meant for the program
+    char** args = malloc((argc + 1) * sizeof(char*));
+    memcpy(args, argv, (argc + 1) * sizeof(char*));
+    opterr = 0;
     while (1)
     {
         // Parse next option & check for end of input
         int index = 0;
-        int c = getopt_long(argc, argv, "g", options, &index);
+        int c = getopt_long(argc, args, "g", options, &index);
         if (c == -1)
         {
             break;
@@ -37,6 +42,7 @@ int main(int argc, char** argv, char** envp)
             break;
         }
     }
+    free(args);
 
     // Program entry point
     clara_asm_entrypoint(argc, argv, envp);
-- 
2.43.0


From 95d37ad7f5393efca1b3c6e04f8960fb6ba22ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:06 +0000
Subject: [PATCH 20/41] fix: write assembly to a unique file so concurrent
 compilers do not share it

---
 main.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/main.go b/main.go
index ba2e466..d8be9f0 100644
--- a/main.go
+++ b/main.go
@@ -136,12 +136,12 @@ func Compile(options options, claraLibPaths []string, progPath string, cLibPaths
 	// Create assembly file
 	basename := filepath.Base(progPath)
 	progName := strings.TrimSuffix(basename, filepath.Ext(basename))
-	asmPath := fmt.Sprintf("%v/%v.S", os.TempDir(), progName)
-	os.Remove(asmPath) // Ignore error
-	f, err := os.Create(asmPath)
+	f, err := ioutil.TempFile("", progName+".*.S") // Unique as other compilers may be running
 	if err != nil {
 		return "", []error{err}
 	}
+	asmPath := f.Name()
+	defer os.Remove(asmPath) // Ignore error
 
 	// Generate assembly
 	asm := NewGasWriter(f, options.showAsm)
-- 
2.43.0


From 545db0d8810931fdac4ba2df48e143130fe9e550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:31 +0000
Subject: [PATCH 21/41] fix: give overloads of main distinct names

---
 symtab.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/symtab.go b/symtab.go
index d1faa2d..2b5aea5 100644
--- a/symtab.go
+++ b/symtab.go
@@ -342,9 +342,6 @@ func (ft *FunctionType) AsmName(name string) string {
 	if ft.Is(External) {
 		return name
 	}
-	if name == "main" {
-		return fnPrefix + "main"
-	}
 
 	// Build name safe for usage in ASM
 	buf := bytes.NewBufferString(fnPrefix)
-- 
2.43.0


From fc17e7f998b84b8a80f52bcc4055e6a2cc7fb40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:37 +0000
Subject: [PATCH 22/41] fix: report the whole index when it is out of bounds

---
 install/lib/runtime.clara | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/install/lib/runtime.clara b/install/lib/runtime.clara
index e8f2dc3..0a71016 100644
--- a/install/lib/runtime.clara
+++ b/install/lib/runtime.clara
@@ -95,7 +95,7 @@ fn assert(condition: bool, msg: string) {
 // Invoked by an ASM trampoline (See codegen.go) for invalid array access
 fn indexOutOfBounds(index: int, length: int) {
     printf("\n// -----------------------------------------------------------------------------\n")
-    printf("// Panic: index out of bounds! index = %d, array.length = %d\n", index, length)
+    printf("// Panic: index out of bounds! index = %lli, array.length = %lli\n", index, length)
     printf("// -----------------------------------------------------------------------------\n")
     printf("\nBacktrace:\nTODO!\n\n")
     // TODO: Output stacktrace
-- 
2.43.0


From 376581b131eadd14d672a58a22ca63f94ab42299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:40 +0000
Subject: [PATCH 23/41] fix: only treat the runtime's own functions specially
 in calls

---
 typecheck.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/typecheck.go b/typecheck.go
index 61ff7a0..11acd77 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -644,8 +644,11 @@ func typeCheckFuncCall(n *Node, fnSymtab *SymTab, symtab *SymTab, fn *FunctionTy
 		}
 	}
 
+	// Special cases below only apply to the functions provided by the runtime not anything which shares their name
+	isExternal := n.left.typ.Is(Function) && n.left.typ.AsFunction().Is(External)
+
 	// SPECIAL CASE: Skip dealing with variadic functions as printf & debug are the only ones
-	if n.left.token.Val == "printf" || n.left.token.Val == "debug" {
+	if isExternal && (n.left.token.Val == "printf" || n.left.token.Val == "debug") {
 		s, _ := fnSymtab.Resolve(n.left.token.Val)
 		n.left.sym = s
 		n.typ = nothingType
@@ -653,7 +656,7 @@ func typeCheckFuncCall(n *Node, fnSymtab *SymTab, symtab *SymTab, fn *FunctionTy
 	}
 
 	// SPECIAL CASE: Allow anything into the unsafe function
-	if n.left.token.Val == "unsafe" {
+	if isExternal && n.left.token.Val == "unsafe" {
 		s, _ := fnSymtab.Resolve(n.left.token.Val)
 		unsafe := s.Type.AsFunction()
 		if len(n.stmts) != 3 {
-- 
2.43.0


From 40b3f082b9e6f6be06f516470e026a0a31cbe236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:16 +0000
Subject: [PATCH 24/41] fix: give unary minus its own precedence so it binds
 tighter than * and /

---
 parse.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index 6c88e42..10eff0d 100644
--- a/parse.go
+++ b/parse.go
@@ -340,7 +340,11 @@ func parseGroup(p *Parser, _ *lex.Token) *Node {
 }
 
 func parsePrefixOperator(p *Parser, token *lex.Token) *Node {
-	return &Node{op: prefixKindToOp[token.Kind], token: token, left: p.parseExpr(token.Kind.Precedence())}
+	kind := token.Kind
+	if kind == lex.Min {
+		kind = lex.Neg // Lexer does not distinguish between unary & binary
+	}
+	return &Node{op: prefixKindToOp[token.Kind], token: token, left: p.parseExpr(kind.Precedence())}
 }
 
 func parseType(p *Parser, _ *lex.Token) *Node {
-- 
2.43.0


From c1cb17aa6e1db8c0ace40a36db39a91dcac8d246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:51 +0000
Subject: [PATCH 25/41] fix: let any token follow an identifier directly

---
 lex/lex.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lex/lex.go b/lex/lex.go
index 157a6bb..ba09346 100644
--- a/lex/lex.go
+++ b/lex/lex.go
@@ -515,7 +515,8 @@ func (l *Lexer) atTerminator() bool {
 	// TODO: Extract some helpers to ask isOperator(), isNewline(), etc...
 	return r == '(' || r == ' ' || r == ':' || r == ',' || r == ')' || r == '\r' || r == '\n' ||
 		r == '.' || r == '+' || r == '-' || r == '*' || r == '/' || r == '>' || r == '<' ||
-		r == '[' || r == ']' || r == eof || r == '«' || r == '»'
+		r == '[' || r == ']' || r == eof || r == '«' || r == '»' || r == '=' || r == '&' || r == '|' ||
+		r == '^' || r == '~' || r == '{' || r == '}' || r == '?' || r == '#' || r == '"'
 }
 
 func (l *Lexer) peek() rune {
-- 
2.43.0


From 8b3a5d128216df42c2f5a1616560c219403f27a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:30 +0000
Subject: [PATCH 26/41] fix: allow expressions starting with ~ to be returned

---
 lex/lex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lex/lex.go b/lex/lex.go
index ba09346..bdd7b8a 100644
--- a/lex/lex.go
+++ b/lex/lex.go
@@ -99,7 +99,7 @@ const (
 
 func (k Kind) IsExprStart() bool {
 	switch k {
-	case Integer, String, Identifier, True, False, Not, LParen, Fn, Min, LBrack:
+	case Integer, String, Identifier, True, False, Not, LParen, Fn, Min, BNot, LBrack:
 		return true
 	default:
 		return false
-- 
2.43.0


From 84a3fb3d16bb5101b4681f86930660f0aa2ad70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:47 +0000
Subject: [PATCH 27/41] fix: report lexing errors at the position of the
 malformed token

---
 lex/lex.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/lex/lex.go b/lex/lex.go
index bdd7b8a..7821824 100644
--- a/lex/lex.go
+++ b/lex/lex.go
@@ -414,7 +414,7 @@ func lexText(l *Lexer) stateFn {
 			l.emit(EOF)
 			return nil
 		default:
-			return l.errorf("Unexpected character %[1]q (%[1]U)", r)
+			return l.errorf(l.start, "Unexpected character %[1]q (%[1]U)", r)
 		}
 	}
 }
@@ -437,7 +437,7 @@ func lexString(l *Lexer) stateFn {
 		case '\\':
 			l.next()
 			if !isEscape(l.peek()) {
-				return l.errorf("unknown escape sequence")
+				return l.errorf(l.pos, "unknown escape sequence")
 			}
 			l.next()
 		default:
@@ -447,7 +447,7 @@ func lexString(l *Lexer) stateFn {
 
 	// Check for closing quote
 	if l.next() != '"' {
-		return l.errorf("Unclosed string literal")
+		return l.errorf(l.start, "Unclosed string literal")
 	}
 	l.emit(String)
 	return lexText
@@ -467,7 +467,7 @@ func lexHexOrDecInteger(l *Lexer) stateFn {
 	case r == 'x':
 		l.next()
 		if !isHexadecimal(l.peek()) {
-			return l.errorf("Hexadecimal literal has no digits")
+			return l.errorf(l.start, "Hexadecimal literal has no digits")
 		}
 		return lexInteger(isHexadecimal, l)
 	default:
@@ -496,7 +496,7 @@ func lexIdentifier(l *Lexer) stateFn {
 		l.next()
 	}
 	if !l.atTerminator() {
-		return l.errorf("Unexpected character %[1]q (%[1]U)", l.peek())
+		return l.errorf(l.pos, "Unexpected character %[1]q (%[1]U)", l.peek())
 	}
 
 	// Differentiate between known keywords and identifiers
@@ -537,12 +537,12 @@ func (l *Lexer) next() rune {
 }
 
 func (l *Lexer) emit(kind Kind) {
-	l.tokens <- &Token{kind, l.input[l.start:l.pos], l.linePos(l.start), l.lineNumber(), l.file}
+	l.tokens <- &Token{kind, l.input[l.start:l.pos], l.linePos(l.start), l.lineNumber(l.start), l.file}
 	l.start = l.pos
 }
 
-func (l *Lexer) errorf(format string, args ...interface{}) stateFn {
-	l.tokens <- &Token{Err, fmt.Sprintf(format, args...), l.linePos(l.pos), l.lineNumber(), l.file}
+func (l *Lexer) errorf(pos int, format string, args ...interface{}) stateFn {
+	l.tokens <- &Token{Err, fmt.Sprintf(format, args...), l.linePos(pos), l.lineNumber(pos), l.file}
 	return nil
 }
 
@@ -551,8 +551,8 @@ func (l *Lexer) linePos(start int) int {
 	return 1 + utf8.RuneCountInString(l.input[lineIndex+1:start])
 }
 
-func (l *Lexer) lineNumber() int {
-	return 1 + strings.Count(l.input[:l.start], "\n")
+func (l *Lexer) lineNumber(start int) int {
+	return 1 + strings.Count(l.input[:start], "\n")
 }
 
 func (l *Lexer) NextToken() *Token {
-- 
2.43.0


From 8d0ac114a6709d9b6410974fe17229776d9b798a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:19 +0000
Subject: [PATCH 28/41] fix: report why a directory cannot be read

---
 install/lib/fs.clara | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/install/lib/fs.clara b/install/lib/fs.clara
index 5795188..e633dbe 100644
--- a/install/lib/fs.clara
+++ b/install/lib/fs.clara
@@ -10,6 +10,11 @@ fn open(path: string) result«file, error» {
 }
 
 fn readAll(f: file) result«string, error» {
+    // Check file can be read at all, directories don't have a meaningful size
+    match f.read(Bytes(0), 0) {
+        case Some(e): return Err«string, error»(e)
+        case None():
+    }
     return f.size()
         .map(Bytes)
         .peek(fn(buf: bytes) option«error» = f.read(buf, buf.length()))
-- 
2.43.0


From ed81a41a46518a897e141fdf28cf435efd232115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:12 +0000
Subject: [PATCH 29/41] fix: reject assignment to functions and results of
 calls

---
 ast.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ast.go b/ast.go
index ee8b38c..c6ef077 100644
--- a/ast.go
+++ b/ast.go
@@ -37,8 +37,7 @@ func (n *Node) hasType() bool {
 func (n *Node) isAddressable() bool {
 	switch n.op {
 	case opArray: return true
-	case opFuncCall: return n.typ.Is(Struct) || n.typ.Is(Array)
-	case opIdentifier: return true
+	case opIdentifier: return !n.sym.IsGlobal // Functions are not variables
 	case opDot: return true
 	default:
 		return false
-- 
2.43.0


From 155f51fd9391a753e0c7670f440119970abbe91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:18 +0000
Subject: [PATCH 30/41] fix: reject names of types used as values

---
 typecheck.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typecheck.go b/typecheck.go
index 11acd77..138f927 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -906,7 +906,7 @@ func typeCheckIdentifier(n *Node, symtab *SymTab, allowAmbiguous bool) error {
 	// If no symbol - try to find identifier declaration
 	if n.sym == nil {
 		sym, found := symtab.Resolve(n.token.Val)
-		if !found {
+		if !found || (sym.IsType && sym.Next == nil) { // Types are not values
 			return semanticError(errUnknownVarMsg, n.token)
 		}
 		if sym.Next != nil && !allowAmbiguous {
-- 
2.43.0


From aef2436364aa96414a7d17a0eea850047e4a0485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:28 +0000
Subject: [PATCH 31/41] fix: report an unexpected token instead of the one
 after it

---
 parse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index 10eff0d..0a4665a 100644
--- a/parse.go
+++ b/parse.go
@@ -431,14 +431,14 @@ func prefixOperators(kinds ... lex.Kind) {
 }
 
 func (p *Parser) parseExpr(precedence int) *Node {
-	token := p.next()
-	prefix := prefixParsers[token.Kind];
+	prefix := prefixParsers[p.Kind()];
 
 	// Skip token & continue
 	if prefix == nil {
 		p.syntaxError("<expression>")
 		return &Node{op: opError, token: p.next()}
 	}
+	token := p.next()
 
 	nextPrecedence := func(next lex.Kind) int {
 		if _, ok := infixParsers[next]; !ok {
-- 
2.43.0


From d3d6f43936cdebfae44da372103c6b1fa9fd1837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:28 +0000
Subject: [PATCH 32/41] fix: instantiate fields of generic structs on demand

A generic struct that refers to itself sent the compiler into endless recursion, and the
fields of a generic struct declared after its use kept the type parameters unreplaced.
---
 codegen.go   |  2 +-
 symtab.go    | 13 ++++++++++++-
 typecheck.go | 12 +++++++-----
 3 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/codegen.go b/codegen.go
index 41f1183..c2e2d64 100644
--- a/codegen.go
+++ b/codegen.go
@@ -223,7 +223,7 @@ func genTypeInfoTable(asm asmWriter, gt *GcTypes) {
 
 			// Gather field offsets
 			var off []int
-			for _, f := range t.AsStruct().Fields {
+			for _, f := range t.AsStruct().AllFields() {
 				if f.Type.IsPointer() {
 					off = append(off, f.Addr/ptrSize)
 				}
diff --git a/symtab.go b/symtab.go
index 2b5aea5..29d779e 100644
--- a/symtab.go
+++ b/symtab.go
@@ -284,10 +284,21 @@ type StructType struct {
 	Name   string
 	Fields []*Symbol
 	Types  []*Type
+	instantiate func() []*Symbol // Creates fields of an instantiated generic struct on first use
+}
+
+// AllFields must be used for reading fields: the fields of an instantiated generic struct may refer to
+// the struct itself or to types which are not fully processed yet so they are created on demand.
+func (st *StructType) AllFields() []*Symbol {
+	if st.instantiate != nil {
+		st.Fields = st.instantiate()
+		st.instantiate = nil
+	}
+	return st.Fields
 }
 
 func (st *StructType) GetField(name string) *Symbol {
-	for _, field := range st.Fields {
+	for _, field := range st.AllFields() {
 		if field.Name == name {
 			return field
 		}
diff --git a/typecheck.go b/typecheck.go
index 138f927..0a8df26 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -834,11 +834,13 @@ func substituteType(t *Type, bound map[*Type]*Type) *Type {
 		for _, tp := range s.Types {
 			types = append(types, substituteType(tp, bound))
 		}
-		var fields []*Symbol
-		for i, f := range s.Fields {
-			fields = append(fields, &Symbol{Name: f.Name, Addr: i * ptrSize, Type: substituteType(f.Type, bound)})
-		}
-		return &Type{Kind: Struct, Data: &StructType{Name: s.Name, Fields: fields, Types: types}}
+		return &Type{Kind: Struct, Data: &StructType{Name: s.Name, Types: types, instantiate: func() []*Symbol {
+			var fields []*Symbol
+			for i, f := range s.AllFields() {
+				fields = append(fields, &Symbol{Name: f.Name, Addr: i * ptrSize, Type: substituteType(f.Type, bound)})
+			}
+			return fields
+		}}}
 
 	case t.Is(Enum):
 		e := t.AsEnum()
-- 
2.43.0


From fdcf9d0116160cf3a53d230131d4b109f6355358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:44 +0000
Subject: [PATCH 33/41] fix: do not crash on a type named like a struct
 constructor

---
 semantic.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/semantic.go b/semantic.go
index de1d5be..9139b23 100644
--- a/semantic.go
+++ b/semantic.go
@@ -644,11 +644,10 @@ func generateStructConstructor(root *Node, n *Node) (*Symbol, error) {
 	// Create name
 	constructorName := strings.ToUpper(firstLetter) + name[1:]
 
-	// Ensure there are no other function definitions with this name
+	// Ensure there are no other function or type definitions with this name
 	if _, found := root.symtab.Resolve(constructorName); found {
-		var n *Node
 		for _, x := range root.stmts {
-			if x.isFuncDcl() && x.token.Val == constructorName {
+			if x.token != nil && x.token.Val == constructorName {
 				n = x
 				break
 			}
-- 
2.43.0


From 1916d3d35a5fbb025d1be76b081c300239ea1d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:13 +0000
Subject: [PATCH 34/41] fix: derive struct constructor names from the first
 character instead of the first byte

---
 semantic.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/semantic.go b/semantic.go
index 9139b23..64c952d 100644
--- a/semantic.go
+++ b/semantic.go
@@ -6,6 +6,7 @@ import (
 	"github.com/g-dx/clarac/lex"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 )
 
 //
@@ -634,7 +635,8 @@ func generateStructConstructors(errs *[]error, root *Node, n *Node) {
 func generateStructConstructor(root *Node, n *Node) (*Symbol, error) {
 
 	name := n.token.Val
-	firstLetter := name[:1]
+	_, size := utf8.DecodeRuneInString(name)
+	firstLetter := name[:size]
 
 	// Check struct begins with lowercase
 	if strings.ToUpper(firstLetter) == firstLetter {
@@ -642,7 +644,7 @@ func generateStructConstructor(root *Node, n *Node) (*Symbol, error) {
 	}
 
 	// Create name
-	constructorName := strings.ToUpper(firstLetter) + name[1:]
+	constructorName := strings.ToUpper(firstLetter) + name[size:]
 
 	// Ensure there are no other function or type definitions with this name
 	if _, found := root.symtab.Resolve(constructorName); found {
-- 
2.43.0


From f328a9ec25f5cea0df2cd2146ff704d96aa42c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:09 +0000
Subject: [PATCH 35/41] fix: do not settle the overload of an argument on a
 candidate function which does not match

---
 typecheck.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/typecheck.go b/typecheck.go
index 0a8df26..f6d5631 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -728,6 +728,10 @@ func matchFuncCallByType(t *Type, n *Node) (*Type, error) {
 		return nil, semanticError2(errInvalidNumberTypeArgsMsg, n.token, len(types), len(f.Types))
 	}
 
+	// Overloads chosen for arguments which are named functions. Applied only once all arguments match: this may
+	// be one of several candidate functions
+	chosen := make(map[*Node]*Symbol)
+
 	//
 	// TODO: This is horrible!
 	//
@@ -741,8 +745,7 @@ func matchFuncCallByType(t *Type, n *Node) (*Type, error) {
 			if arg.op == opIdentifier && arg.sym.Next != nil {
 				for s := arg.sym; s != nil; s = s.Next {
 					if s.Type.Matches(param) {
-						arg.sym = s
-						arg.typ = s.Type
+						chosen[arg] = s
 						continue argCheck
 					}
 				}
@@ -760,6 +763,7 @@ func matchFuncCallByType(t *Type, n *Node) (*Type, error) {
 				return nil, semanticError2(errMismatchedTypesMsg, arg.token, arg.typ, param)
 			}
 		}
+		selectOverloads(chosen)
 		return f.ret, nil
 
 	} else {
@@ -776,8 +780,7 @@ func matchFuncCallByType(t *Type, n *Node) (*Type, error) {
 			if arg.op == opIdentifier && arg.sym.Next != nil {
 				for s := arg.sym; s != nil; s = s.Next {
 					if s.Type.PolyMatch(param, bound) {
-						arg.sym = s
-						arg.typ = s.Type
+						chosen[arg] = s
 						continue polyArgCheck
 					}
 				}
@@ -805,10 +808,18 @@ func matchFuncCallByType(t *Type, n *Node) (*Type, error) {
 			}
 			return nil, semanticError2(errTypeParameterNotKnownMsg, n.token, strings.Join(types, ","), f.ret.String())
 		}
+		selectOverloads(chosen)
 		return substituteType(f.ret, bound), nil
 	}
 }
 
+func selectOverloads(chosen map[*Node]*Symbol) {
+	for arg, s := range chosen {
+		arg.sym = s
+		arg.typ = s.Type
+	}
+}
+
 func substituteType(t *Type, bound map[*Type]*Type) *Type {
 	if len(bound) == 0 {
 		return t
-- 
2.43.0


From 78a24c378aa5c95d5cdbdd7c1f0e76c0a478532d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:26 +0000
Subject: [PATCH 36/41] fix: forget type parameters bound by an overload which
 does not match

---
 typecheck.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/typecheck.go b/typecheck.go
index f6d5631..40b8c6e 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -779,8 +779,14 @@ func matchFuncCallByType(t *Type, n *Node) (*Type, error) {
 			// If the argument is a named function is may be overloaded so check all symbols
 			if arg.op == opIdentifier && arg.sym.Next != nil {
 				for s := arg.sym; s != nil; s = s.Next {
-					if s.Type.PolyMatch(param, bound) {
+					// Bind into a copy as an overload which does not match may still bind some type parameters
+					attempt := make(map[*Type]*Type)
+					for k, v := range bound {
+						attempt[k] = v
+					}
+					if s.Type.PolyMatch(param, attempt) {
 						chosen[arg] = s
+						bound = attempt
 						continue polyArgCheck
 					}
 				}
-- 
2.43.0


From f822786b7dcea60d1a080c72332feffc26813da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:44 +0000
Subject: [PATCH 37/41] fix: support functions with more than 4095 stack slots

---
 asm.go     | 6 +++---
 codegen.go | 8 +++++++-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/asm.go b/asm.go
index a9a6805..6bc1527 100644
--- a/asm.go
+++ b/asm.go
@@ -20,7 +20,7 @@ type operand interface {
 type memOp struct {
 	base  reg
 	idx   reg
-	disp  int16
+	disp  int32
 	scl   int16
 	indir bool
 	deref bool
@@ -37,7 +37,7 @@ func (mo memOp) scale(m int) memOp {
 }
 
 func (mo memOp) displace(m int) memOp {
-	mo.disp = int16(m)
+	mo.disp = int32(m)
 	return mo
 }
 
@@ -206,7 +206,7 @@ func (r reg) indirect() memOp {
 }
 
 func (r reg) displace(i int) memOp {
-	if i > math.MaxInt16 || i < math.MinInt16 {
+	if i > math.MaxInt32 || i < math.MinInt32 {
 		panic(fmt.Sprintf("Cannot represent displacement: %v", i))
 	}
 	return r.deref().displace(i)
diff --git a/codegen.go b/codegen.go
index c2e2d64..7347256 100644
--- a/codegen.go
+++ b/codegen.go
@@ -399,7 +399,13 @@ func genFnEntry(asm asmWriter, name string, temps int) int {
 		temps += 1
 	}
 	asm.fnStart(name)
-	asm.ins(enter, intOp(temps*8), intOp(0))
+	if size := temps * 8; size <= math.MaxUint16 {
+		asm.ins(enter, intOp(size), intOp(0))
+	} else {
+		// Frame is too large for enter instruction
+		asm.ins(enter, intOp(0), intOp(0))
+		asm.ins(subq, intOp(size), rsp)
+	}
 	return temps
 }
 
-- 
2.43.0


From 21be4e94e8a2dbd26a5ec74c824c09a403008a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:07 +0000
Subject: [PATCH 38/41] fix: keep array types apart from generic types named
 array

---
 symtab.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symtab.go b/symtab.go
index 29d779e..d3df126 100644
--- a/symtab.go
+++ b/symtab.go
@@ -241,7 +241,7 @@ func (t *Type) String() string {
 func (t *Type) AsmName() string {
 	switch t.Kind {
 	case Array:
-		return fmt.Sprintf("array$%v$", t.AsArray().Elem.AsmName())
+		return fmt.Sprintf("$array$%v$", t.AsArray().Elem.AsmName())
 	case Struct:
 		st := t.AsStruct()
 		if len(st.Types) == 0 {
-- 
2.43.0


From 13af29eb3b0d929bf4d60f076f7b932d89acbecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:55 +0000
Subject: [PATCH 39/41] fix: -types no longer crashes on the root node, which
 has no token

---
 typecheck.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/typecheck.go b/typecheck.go
index 40b8c6e..21b1a8c 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -944,6 +944,10 @@ func typeCheckIdentifier(n *Node, symtab *SymTab, allowAmbiguous bool) error {
 //---------------------------------------------------------------------------------------------------------------
 
 func printTypeInfo(n *Node) {
+	if n.token == nil {
+		return // Root node has no token
+	}
+
 	// TODO: Fix the type name printing!
 	calculatedType := "<EMPTY>"
 	if n.typ != nil {
-- 
2.43.0


From 0ffe2abfa337c21b35134a110aa1e745676967bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:19 +0000
Subject: [PATCH 40/41] fix: lengths no array can have stop the program

A negative length passed for a huge one in the bounds check, and the size of
an array of more than 2^59 elements overflowed, so that elements were read and
written outside of the array's memory.
---
 install/lib/arrays.clara | 1 +
 1 file changed, 1 insertion(+)

diff --git a/install/lib/arrays.clara b/install/lib/arrays.clara
index 9d5a7f9..1cc29d7 100644
--- a/install/lib/arrays.clara
+++ b/install/lib/arrays.clara
@@ -27,6 +27,7 @@ fn arrayNoInit«T»(length: int) []T = array(length, noInit«T»(), "[]T", 7)
 
 // TODO: Should be private
 fn array«T»(length: int, init: fn([]T), description: string, tag: int) []T {
+    assert(length >= 0 and length < (1 << 59), "array length is out of range") // Size in bytes must not overflow
     // TODO: Would be nice to lookup type ID for default & configure array type ID appropriately
     h := claralloc((length * 8) + 8, description, tag).toHeader() // pointer == 8 bytes, + 8 for length
     h.length = length
-- 
2.43.0


From b40bef7dad2b502a3d31ff4fbe73064a0f1dbef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:34 +0000
Subject: [PATCH 41/41] fix: a type parameter appearing only in a returned
 function type must be known at the call

---
 typecheck.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/typecheck.go b/typecheck.go
index 21b1a8c..44a03e7 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -885,10 +885,10 @@ func findUnboundTypeParameters(t *Type, bound map[*Type]*Type) []*Type {
 	case t.Is(Function):
 		f := t.AsFunction()
 		var unmatched []*Type
-		for _, f := range f.Types {
-			unmatched = append(unmatched, findUnboundTypeParameters(f, bound)...)
+		for _, p := range f.Params {
+			unmatched = append(unmatched, findUnboundTypeParameters(p, bound)...)
 		}
-		return unmatched
+		return append(unmatched, findUnboundTypeParameters(f.ret, bound)...)
 
 	case t.Is(Struct):
 		s := t.AsStruct()
-- 
2.43.0

