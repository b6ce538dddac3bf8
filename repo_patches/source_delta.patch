From 525dbf39c7399b2dc0d1ff103dbe093f0f211202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:04 +0000
Subject: [PATCH 01/24] fix: shift operators bind tighter than comparisons

---
 expressions.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/expressions.go b/expressions.go
index 7767134..b85d568 100644
--- a/expressions.go
+++ b/expressions.go
@@ -353,13 +353,23 @@ func parseExpressionWithLevel(l *Lexer, c *Compiler, level int) (value.Value, er
 		}
 
 		// Comparison operators (level 6)
-		if level >= 6 && (ch == '<' || ch == '>') && !handled {
+		// The same characters also start the shift operators (level 5)
+		if level >= 5 && (ch == '<' || ch == '>') && !handled {
+			ch2, err2 := l.ReadChar()
+			if level < 6 && (err2 != nil || ch2 != ch) {
+				// A comparison: leave it to the caller
+				if err2 == nil {
+					l.UnreadChar(ch2)
+				}
+				l.UnreadChar(ch)
+				break
+			}
+
 			if isLvalue {
 				left = c.builder.NewLoad(c.WordType(), left)
 				isLvalue = false
 			}
 
-			ch2, err2 := l.ReadChar()
 			var right value.Value
 
 			if ch == '<' {
-- 
2.43.0


From d4064046af361af05c90c9f13429e7cdcb85cf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:23 +0000
Subject: [PATCH 02/24] fix: do not swallow the character after 'else'

---
 parser_stmt.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser_stmt.go b/parser_stmt.go
index 77d5221..1e94353 100644
--- a/parser_stmt.go
+++ b/parser_stmt.go
@@ -404,8 +404,11 @@ func parseIf(l *Lexer, c *Compiler) error {
 		ch, err := l.ReadChar()
 		if err == nil {
 			readChars = append(readChars, ch)
-			if unicode.IsLetter(ch) || unicode.IsDigit(ch) {
+			if unicode.IsLetter(ch) || unicode.IsDigit(ch) || ch == '_' {
 				isElse = false
+			} else {
+				// Not part of the keyword: leave it for the statement
+				l.UnreadChar(ch)
 			}
 		}
 	}
-- 
2.43.0


From 4f3b44ed28681f483c4de5e0b72152766b7185e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:59 +0000
Subject: [PATCH 03/24] fix: code after a return is unreachable

---
 parser_stmt.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser_stmt.go b/parser_stmt.go
index 1e94353..cce7b3b 100644
--- a/parser_stmt.go
+++ b/parser_stmt.go
@@ -173,6 +173,11 @@ func parseReturn(l *Lexer, c *Compiler) error {
 		c.builder.NewRet(constant.NewInt(c.WordType(), 0))
 	}
 
+	// Code after the return, up to the next label, is unreachable
+	deadBlock := c.NewBlock(fmt.Sprintf("unreachable.%d", c.labelID))
+	c.labelID++
+	c.SetInsertPoint(deadBlock)
+
 	return nil
 }
 
-- 
2.43.0


From b8b9380b89b2a84c8a08c9d9d8f60399847ac732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:19 +0000
Subject: [PATCH 04/24] fix: diagnose undefined and duplicate labels and
 duplicate cases

---
 irbuilder.go    | 25 +++++++++++++++++++++++++
 parser_decls.go |  3 +++
 parser_stmt.go  | 15 +++++++++++----
 3 files changed, 39 insertions(+), 4 deletions(-)

diff --git a/irbuilder.go b/irbuilder.go
index 07842fc..bbe59c6 100644
--- a/irbuilder.go
+++ b/irbuilder.go
@@ -23,6 +23,9 @@ type Compiler struct {
 	stringID  int                    // unique id for string constants
 	labelID   int                    // counter for labels
 	labels    map[string]*ir.Block   // named labels for goto
+	// Labels placed so far and labels used by goto, in the current function
+	definedLabels map[string]bool
+	gotoLabels    []string
 	// Store original parameter names for variadic functions
 	functionParams map[string][]string // function name -> original parameter names
 	// Cache for function types to avoid duplicate declarations
@@ -315,6 +318,8 @@ func (c *Compiler) StartFunction(fn *ir.Func) {
 	c.currentFn = fn
 	c.locals = make(map[string]value.Value)
 	c.labels = make(map[string]*ir.Block)
+	c.definedLabels = make(map[string]bool)
+	c.gotoLabels = nil
 	c.builder = fn.NewBlock("entry")
 
 	// Get the function name to look up original parameters
@@ -524,6 +529,26 @@ func (c *Compiler) GetOrCreateLabel(name string) *ir.Block {
 	return block
 }
 
+// DefineLabel returns the block of a label that is being placed.
+// A label can be placed only once in a function.
+func (c *Compiler) DefineLabel(name string) (*ir.Block, error) {
+	if c.definedLabels[name] {
+		return nil, fmt.Errorf("label '%s' already defined", name)
+	}
+	c.definedLabels[name] = true
+	return c.GetOrCreateLabel(name), nil
+}
+
+// CheckLabels verifies that every label used by goto has been placed
+func (c *Compiler) CheckLabels() error {
+	for _, name := range c.gotoLabels {
+		if !c.definedLabels[name] {
+			return fmt.Errorf("undefined label '%s'", name)
+		}
+	}
+	return nil
+}
+
 // Get or create an intrinsic function by name
 func (c *Compiler) getOrCreateFunc(funcName string) *ir.Func {
 	// Check if function already exists in module
diff --git a/parser_decls.go b/parser_decls.go
index 4d9a9b3..dcac80a 100644
--- a/parser_decls.go
+++ b/parser_decls.go
@@ -265,6 +265,9 @@ func parseFunction(l *Lexer, c *Compiler, name string) error {
 	if err := parseStatementWithSwitch(l, c, -1, nil); err != nil {
 		return err
 	}
+	if err := c.CheckLabels(); err != nil {
+		return err
+	}
 
 	c.EndFunction()
 	return nil
diff --git a/parser_stmt.go b/parser_stmt.go
index cce7b3b..fc4d94b 100644
--- a/parser_stmt.go
+++ b/parser_stmt.go
@@ -107,7 +107,10 @@ func parseKeywordOrExpressionWithSwitch(l *Lexer, c *Compiler, switchID int64, c
 		}
 		if ch == ':' {
 			// Label - get or create labeled block
-			block := c.GetOrCreateLabel(name)
+			block, err := c.DefineLabel(name)
+			if err != nil {
+				return err
+			}
 
 			// Only create a branch if the current block has no terminator
 			// This handles fall-through to labels
@@ -494,6 +497,7 @@ func parseGoto(l *Lexer, c *Compiler) error {
 
 	// Get or create the target label block
 	targetBlock := c.GetOrCreateLabel(label)
+	c.gotoLabels = append(c.gotoLabels, label)
 
 	// Branch to the label
 	c.builder.NewBr(targetBlock)
@@ -606,12 +610,15 @@ func parseCase(l *Lexer, c *Compiler, switchID int64, cases *[]int64) error {
 		return err
 	}
 
+	// Create label for this case
+	caseBlock, err := c.DefineLabel(fmt.Sprintf("case.%d.%d", switchID, value))
+	if err != nil {
+		return fmt.Errorf("duplicate case %d in 'switch' statement", value)
+	}
+
 	// Add to case list
 	*cases = append(*cases, value)
 
-	// Create label for this case
-	caseBlock := c.GetOrCreateLabel(fmt.Sprintf("case.%d.%d", switchID, value))
-
 	// Jump to case block if current block has no terminator
 	if c.builder.Term == nil {
 		c.builder.NewBr(caseBlock)
-- 
2.43.0


From 7046cd1c4d81f83556da69bdda7dbc6e8fcef50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:43 +0000
Subject: [PATCH 05/24] fix: keep labels and parameters out of each other's IR
 names

---
 irbuilder.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/irbuilder.go b/irbuilder.go
index bbe59c6..a501021 100644
--- a/irbuilder.go
+++ b/irbuilder.go
@@ -237,7 +237,8 @@ func (c *Compiler) DeclareFunction(name string, paramNames []string) *ir.Func {
 		fn = c.module.NewFunc(c.globalName(name), c.WordType())
 	} else {
 		// One or more parameters: variadic with first parameter as fixed
-		firstParam := ir.NewParam(paramNames[0], c.WordType())
+		// The prefix keeps the parameter apart from the entry block
+		firstParam := ir.NewParam("param."+paramNames[0], c.WordType())
 		fn = c.module.NewFunc(c.globalName(name), c.WordType(), firstParam)
 		fn.Sig.Variadic = true
 	}
@@ -524,7 +525,8 @@ func (c *Compiler) GetOrCreateLabel(name string) *ir.Block {
 	if block, ok := c.labels[name]; ok {
 		return block
 	}
-	block := c.currentFn.NewBlock(name)
+	// The prefix keeps labels apart from parameters and the entry block
+	block := c.currentFn.NewBlock("label." + name)
 	c.labels[name] = block
 	return block
 }
-- 
2.43.0


From 69ae801fc986e0737def8a9b0c76294277b7fd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:06 +0000
Subject: [PATCH 06/24] fix: allow whitespace and comments between any two
 tokens

---
 expressions.go  | 3 +++
 parser_decls.go | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/expressions.go b/expressions.go
index b85d568..e0eba0c 100644
--- a/expressions.go
+++ b/expressions.go
@@ -699,6 +699,9 @@ func parsePostfix(l *Lexer, c *Compiler) (value.Value, bool, error) {
 
 			var args []value.Value
 			for {
+				if err := l.Whitespace(); err != nil {
+					return nil, false, err
+				}
 				ch, err := l.ReadChar()
 				if err != nil {
 					return nil, false, err
diff --git a/parser_decls.go b/parser_decls.go
index dcac80a..3877b17 100644
--- a/parser_decls.go
+++ b/parser_decls.go
@@ -20,6 +20,9 @@ func ParseDeclarations(l *Lexer, c *Compiler) error {
 			break
 		}
 
+		if err := l.Whitespace(); err != nil {
+			return err
+		}
 		ch, err := l.ReadChar()
 		if err != nil {
 			if err == io.EOF {
@@ -245,6 +248,9 @@ func parseIvalConst(l *Lexer, c *Compiler) (constant.Constant, error) {
 
 // parseFunction parses a function definition
 func parseFunction(l *Lexer, c *Compiler, name string) error {
+	if err := l.Whitespace(); err != nil {
+		return err
+	}
 	ch, err := l.ReadChar()
 	if err != nil {
 		return err
-- 
2.43.0


From 92774feb28cb1d929f7bff95139307e7440b1652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:18 +0000
Subject: [PATCH 07/24] fix: call through a local variable

---
 expressions.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/expressions.go b/expressions.go
index e0eba0c..1e7c0ce 100644
--- a/expressions.go
+++ b/expressions.go
@@ -903,6 +903,11 @@ func parsePrimary(l *Lexer, c *Compiler) (value.Value, bool, error) {
 
 		// If it's a call, handle both direct and indirect calls
 		if isCall {
+			// A local variable hides any function of the same name
+			if addr, ok := c.locals[name]; ok {
+				return addr, true, nil
+			}
+
 			// Check for a declared function in module
 			if fn := c.findFuncByName(name); fn != nil {
 				return fn, false, nil
-- 
2.43.0


From 3462501f40c0d4feb6ebacce6c1c92eb4e56a3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:48 +0000
Subject: [PATCH 08/24] fix: a variable not declared extrn does not become a
 function

---
 irbuilder.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/irbuilder.go b/irbuilder.go
index a501021..0d0727b 100644
--- a/irbuilder.go
+++ b/irbuilder.go
@@ -267,6 +267,11 @@ func (c *Compiler) GetOrDeclareFunction(name string) *ir.Func {
 		return nil
 	}
 
+	// A variable that is not visible in current context cannot become a function
+	if c.findGlobalByName(name) != nil {
+		return nil
+	}
+
 	// Enforce no-context: remove any prior transient function of the same name from the module
 	c.removeFuncByName(name)
 
-- 
2.43.0


From 50b9b12065483bd10c776f67fc9eba6699185266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:30 +0000
Subject: [PATCH 09/24] fix: diagnose a name defined both as function and
 variable, drop data of a redefined vector

---
 irbuilder.go    |  9 ++++++++-
 parser_decls.go | 12 ++++++++++++
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/irbuilder.go b/irbuilder.go
index 0d0727b..72f3adb 100644
--- a/irbuilder.go
+++ b/irbuilder.go
@@ -94,9 +94,16 @@ func (c *Compiler) findGlobalByName(name string) *ir.Global {
 	return nil
 }
 
-// removeGlobalByName removes the global with the given name from the module if present
+// removeGlobalByName removes the global with the given name from the module if present,
+// together with the data of a vector
 func (c *Compiler) removeGlobalByName(name string) bool {
 	full := c.globalName(name)
+	c.removeGlobalBySymbol(full + ".data")
+	return c.removeGlobalBySymbol(full)
+}
+
+// removeGlobalBySymbol removes the global with the given symbol from the module if present
+func (c *Compiler) removeGlobalBySymbol(full string) bool {
 	for i, g := range c.module.Globals {
 		if g.Name() == full {
 			c.module.Globals = append(c.module.Globals[:i], c.module.Globals[i+1:]...)
diff --git a/parser_decls.go b/parser_decls.go
index 3877b17..4254fda 100644
--- a/parser_decls.go
+++ b/parser_decls.go
@@ -68,6 +68,10 @@ func ParseDeclarations(l *Lexer, c *Compiler) error {
 
 // parseGlobal parses a global variable
 func parseGlobal(l *Lexer, c *Compiler, name string) error {
+	if c.findFuncByName(name) != nil {
+		return fmt.Errorf("function '%s' redeclared as variable", name)
+	}
+
 	// Remove any existing global with the same name from the module
 	c.removeGlobalByName(name)
 
@@ -121,6 +125,10 @@ func parseGlobal(l *Lexer, c *Compiler, name string) error {
 
 // parseVector parses a global array
 func parseVector(l *Lexer, c *Compiler, name string) error {
+	if c.findFuncByName(name) != nil {
+		return fmt.Errorf("function '%s' redeclared as variable", name)
+	}
+
 	// Remove any existing global with the same name from the module
 	c.removeGlobalByName(name)
 
@@ -265,6 +273,10 @@ func parseFunction(l *Lexer, c *Compiler, name string) error {
 		}
 	}
 
+	if c.findGlobalByName(name) != nil {
+		return fmt.Errorf("variable '%s' redeclared as function", name)
+	}
+
 	fn := c.DeclareFunction(name, paramNames)
 	c.StartFunction(fn)
 
-- 
2.43.0


From c5c43a3858b51d696b8e173b3dc7ccf8171b4e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:42 +0000
Subject: [PATCH 10/24] fix: printf of the most negative number

---
 runtime/printf.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/runtime/printf.c b/runtime/printf.c
index 1114417..8eb8016 100644
--- a/runtime/printf.c
+++ b/runtime/printf.c
@@ -22,17 +22,13 @@ loop:
     switch (c = b_char(fmt, i++)) {
     case 'd': // decimal
         x = va_arg(ap, word_t);
-        if (x < 0) {
-            x = -x;
-            b_write('-');
-        }
         b_printd(x);
         goto loop;
 
     case 'o': // octal
         x = va_arg(ap, word_t);
         if (x < 0) {
-            x = -x;
+            x = (word_t)-(uintptr_t)x; // avoid overflow on MIN
             b_write('-');
         }
         b_printo(x);
-- 
2.43.0


From e65d10868a8e8bffcb254cd3ed56e20d57757162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:22 +0000
Subject: [PATCH 11/24] fix: allocate locals once per call, not on every
 execution of 'auto'

---
 irbuilder.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/irbuilder.go b/irbuilder.go
index 72f3adb..98f0101 100644
--- a/irbuilder.go
+++ b/irbuilder.go
@@ -416,9 +416,26 @@ func (c *Compiler) EndFunction() {
 	c.labels = make(map[string]*ir.Block)
 }
 
+// newLocalAlloca allocates a local in the entry block, after those allocated so far,
+// so that a declaration inside a loop does not take new stack on every iteration
+func (c *Compiler) newLocalAlloca(elemType types.Type) *ir.InstAlloca {
+	alloca := ir.NewAlloca(elemType)
+	entry := c.currentFn.Blocks[0]
+	pos := 0
+	for i, inst := range entry.Insts {
+		if _, ok := inst.(*ir.InstAlloca); ok {
+			pos = i + 1
+		}
+	}
+	insts := append([]ir.Instruction{}, entry.Insts[:pos]...)
+	insts = append(insts, alloca)
+	entry.Insts = append(insts, entry.Insts[pos:]...)
+	return alloca
+}
+
 // DeclareLocal allocates a local variable and initializes it to 0
 func (c *Compiler) DeclareLocal(name string) value.Value {
-	alloca := c.builder.NewAlloca(c.WordType())
+	alloca := c.newLocalAlloca(c.WordType())
 	// Initialize local variables to 0 (B language semantics)
 	c.builder.NewStore(constant.NewInt(c.WordType(), 0), alloca)
 	c.locals[name] = alloca
@@ -438,7 +455,7 @@ func (c *Compiler) DeclareLocalArray(name string, size int64) value.Value {
 	}
 	arraySize := size + 1 // +1 for pointer storage in first element
 	arrayType := types.NewArray(uint64(arraySize), c.WordType())
-	alloca := c.builder.NewAlloca(arrayType)
+	alloca := c.newLocalAlloca(arrayType)
 
 	// Get pointer to first data element (skip the pointer storage slot)
 	// This is element [0][1] in the array
-- 
2.43.0


From 7f7e20fe0da3552608a62fc91696ab71f4b6f605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:34 +0000
Subject: [PATCH 12/24] fix: initial values past the vector size extend the
 vector

---
 parser_decls.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser_decls.go b/parser_decls.go
index 4254fda..10d69f8 100644
--- a/parser_decls.go
+++ b/parser_decls.go
@@ -197,7 +197,8 @@ func parseVector(l *Lexer, c *Compiler, name string) error {
 		}
 	}
 
-	if nwords == 0 {
+	// The initial values may extend the vector
+	if nwords < int64(len(initVals)) {
 		nwords = int64(len(initVals))
 	}
 
-- 
2.43.0


From 8f06ae8a7876fe6ebc155b4c67bdab05ec13df64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:53 +0000
Subject: [PATCH 13/24] fix: extrn does not define the variable again when
 linking several objects

---
 parser_stmt.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser_stmt.go b/parser_stmt.go
index fc4d94b..aa2fccd 100644
--- a/parser_stmt.go
+++ b/parser_stmt.go
@@ -320,6 +320,8 @@ func parseExtrn(l *Lexer, c *Compiler) error {
 			g = existing
 		} else if c.findFuncByName(name) == nil && !c.usedAsFunction[name] {
 			g = c.module.NewGlobalDef(c.globalName(name), constant.NewInt(c.WordType(), 0))
+			// The definition may come from another object file
+			g.Linkage = enum.LinkageCommon
 		} else {
 			return fmt.Errorf("function redeclared as variable")
 		}
-- 
2.43.0


From a588ea70093b7840064d9e1b1d2275cbeb91ae43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:24 +0000
Subject: [PATCH 14/24] fix: a missing number is an error, not zero

---
 lexer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lexer.go b/lexer.go
index 47b4940..72ee1a3 100644
--- a/lexer.go
+++ b/lexer.go
@@ -162,6 +162,11 @@ func (l *Lexer) Number() (int64, error) {
 		return 0, err
 	}
 
+	if !unicode.IsDigit(c) {
+		l.UnreadChar(c)
+		return 0, fmt.Errorf("unexpected character '%c', expect number", c)
+	}
+
 	base := 10
 	if c == '0' {
 		base = 8
-- 
2.43.0


From 7c094eb69435c8c4f21b8317c1b44e3c13ca473d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:36 +0000
Subject: [PATCH 15/24] fix: keep a NUL character and a read error after '+'
 and '-'

---
 expressions.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/expressions.go b/expressions.go
index 1e7c0ce..8062a78 100644
--- a/expressions.go
+++ b/expressions.go
@@ -450,14 +450,14 @@ func parseExpressionWithLevel(l *Lexer, c *Compiler, level int) (value.Value, er
 		// Addition/Subtraction (level 4)
 		if level >= 4 && (ch == '+' || ch == '-') && !handled {
 			// Check for ++ or --
-			ch2, _ := l.ReadChar()
-			if ch2 == ch {
+			ch2, err2 := l.ReadChar()
+			if err2 == nil && ch2 == ch {
 				// Postfix increment/decrement
 				l.UnreadChar(ch2)
 				l.UnreadChar(ch)
 				break
 			}
-			if ch2 != 0 {
+			if err2 == nil {
 				l.UnreadChar(ch2)
 			}
 
-- 
2.43.0


From 2f64afa4bc8cf58146dbc8d9933421c446d22f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:48 +0000
Subject: [PATCH 16/24] fix: reject duplicate parameter names

---
 parser_decls.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser_decls.go b/parser_decls.go
index 10d69f8..b9754d7 100644
--- a/parser_decls.go
+++ b/parser_decls.go
@@ -306,6 +306,11 @@ func parseArguments(l *Lexer) ([]string, error) {
 			return nil, fmt.Errorf("expect ')' or identifier after function arguments")
 		}
 
+		for _, param := range params {
+			if param == name {
+				return nil, fmt.Errorf("parameter '%s' already defined", name)
+			}
+		}
 		params = append(params, name)
 
 		if err := l.Whitespace(); err != nil {
-- 
2.43.0


From 1c9da7ac0a1fd4c69f18644f14919b75f8f48f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:00 +0000
Subject: [PATCH 17/24] fix: remove the temporary IR when writing it fails

---
 driver.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/driver.go b/driver.go
index 4bbe2d0..8504781 100644
--- a/driver.go
+++ b/driver.go
@@ -130,6 +130,9 @@ func compileToAssembly(args *CompileOptions) error {
 			irArgs.OutputFile = tempIR
 
 			if err := compileToIR(&irArgs); err != nil {
+				if !args.SaveTemps {
+					os.Remove(tempIR)
+				}
 				return err
 			}
 
@@ -224,6 +227,9 @@ func compileToObject(args *CompileOptions) error {
 			irArgs.OutputFile = tempIR
 
 			if err := compileToIR(&irArgs); err != nil {
+				if !args.SaveTemps {
+					os.Remove(tempIR)
+				}
 				return err
 			}
 
@@ -316,6 +322,7 @@ func compileToExecutable(args *CompileOptions) error {
 
 			if err := compileToIR(&irArgs); err != nil {
 				if !args.SaveTemps {
+					os.Remove(tmp)
 					for _, t := range temps {
 						os.Remove(t)
 					}
@@ -330,6 +337,11 @@ func compileToExecutable(args *CompileOptions) error {
 
 		default:
 			// main() validated extensions, but keep a guard here
+			if !args.SaveTemps {
+				for _, t := range temps {
+					os.Remove(t)
+				}
+			}
 			return fmt.Errorf("unsupported input file extension: %s", in)
 		}
 	}
-- 
2.43.0


From 54fe48a16a4ec52bcd3185b5fa11d6b3c92d1177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:12 +0000
Subject: [PATCH 18/24] fix: pass zero for a missing fixed argument

---
 expressions.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/expressions.go b/expressions.go
index 8062a78..714aa73 100644
--- a/expressions.go
+++ b/expressions.go
@@ -749,6 +749,10 @@ func parsePostfix(l *Lexer, c *Compiler) (value.Value, bool, error) {
 					casted := c.builder.NewBitCast(fnDirect, fnPtrType)
 					result = c.builder.NewCall(casted, args...)
 				} else {
+					// Functions with parameters have one fixed parameter: pass zero when it is missing
+					if len(args) == 0 && len(fnDirect.Params) > 0 {
+						args = append(args, constant.NewInt(c.WordType(), 0))
+					}
 					result = c.builder.NewCall(fnDirect, args...)
 				}
 			} else {
-- 
2.43.0


From 5a9f4a952606d9bd942372094637dfaa0e4056b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:50 +0000
Subject: [PATCH 19/24] fix: take the address of a local vector in the entry
 block

The address of the first word of an auto vector was computed where the
declaration stands, so a use that the declaration does not dominate made
an invalid module.
---
 irbuilder.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/irbuilder.go b/irbuilder.go
index 98f0101..e4111e9 100644
--- a/irbuilder.go
+++ b/irbuilder.go
@@ -420,6 +420,13 @@ func (c *Compiler) EndFunction() {
 // so that a declaration inside a loop does not take new stack on every iteration
 func (c *Compiler) newLocalAlloca(elemType types.Type) *ir.InstAlloca {
 	alloca := ir.NewAlloca(elemType)
+	c.insertInEntry(alloca)
+	return alloca
+}
+
+// insertInEntry adds an instruction to the entry block, after the allocations made so
+// far, so that its result can be used anywhere in the function
+func (c *Compiler) insertInEntry(newInst ir.Instruction) {
 	entry := c.currentFn.Blocks[0]
 	pos := 0
 	for i, inst := range entry.Insts {
@@ -428,9 +435,8 @@ func (c *Compiler) newLocalAlloca(elemType types.Type) *ir.InstAlloca {
 		}
 	}
 	insts := append([]ir.Instruction{}, entry.Insts[:pos]...)
-	insts = append(insts, alloca)
+	insts = append(insts, newInst)
 	entry.Insts = append(insts, entry.Insts[pos:]...)
-	return alloca
 }
 
 // DeclareLocal allocates a local variable and initializes it to 0
@@ -465,9 +471,12 @@ func (c *Compiler) DeclareLocalArray(name string, size int64) value.Value {
 
 	// Convert to i64 and store in the first slot [0][0]
 	ptrAsInt := c.builder.NewPtrToInt(firstElemPtr, c.WordType())
-	firstSlotPtr := c.builder.NewGetElementPtr(arrayType, alloca,
+	// The address goes to the entry block: the array may be used where this
+	// declaration does not dominate
+	firstSlotPtr := ir.NewGetElementPtr(arrayType, alloca,
 		constant.NewInt(types.I32, 0),
 		constant.NewInt(types.I32, 0))
+	c.insertInEntry(firstSlotPtr)
 	c.builder.NewStore(ptrAsInt, firstSlotPtr)
 
 	// Store the array base address (to first slot which now contains the data pointer)
-- 
2.43.0


From e03774cc81254ed402daf4bc3cfa816f271b195a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:36 +0000
Subject: [PATCH 20/24] fix: do not join a name with the name or number after
 it

A statement that began with a name pushed the name back without the blanks after
it, so 'a b = 5;' was compiled as 'ab = 5;' and 'retrun x;' as 'retrunx;'.
---
 parser_stmt.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser_stmt.go b/parser_stmt.go
index aa2fccd..11b0609 100644
--- a/parser_stmt.go
+++ b/parser_stmt.go
@@ -124,7 +124,11 @@ func parseKeywordOrExpressionWithSwitch(l *Lexer, c *Compiler, switchID int64, c
 			return parseStatementWithSwitch(l, c, switchID, cases)
 		}
 
-		// Otherwise it's an expression
+		// Otherwise it's an expression, and no name or number can follow the name.
+		// Blanks in between are gone, so the two would be read as one name.
+		if unicode.IsLetter(ch) || unicode.IsDigit(ch) || ch == '_' {
+			return fmt.Errorf("expect ';' after expression statement, got '%c'", ch)
+		}
 		l.UnreadChar(ch)
 		for i := len(name) - 1; i >= 0; i-- {
 			l.UnreadChar(rune(name[i]))
-- 
2.43.0


From ec2e62a237c9c036d428a6c787f0316402cbddb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:51 +0000
Subject: [PATCH 21/24] fix: report a bad option and exit with a failure

---
 main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.go b/main.go
index 06b3dd1..35bd671 100644
--- a/main.go
+++ b/main.go
@@ -33,7 +33,6 @@ func usage() {
 	fmt.Fprintf(os.Stderr, "  %s  %s\n", cmd.Sprint("blang hello.b -o output -O2"), note.Sprint("  Options can be placed after arguments"))
 	fmt.Fprintf(os.Stderr, "  %s  %s\n", cmd.Sprint("blang -V"), note.Sprint("                     Show version information"))
 	fmt.Fprintf(os.Stderr, "\n")
-	os.Exit(0)
 }
 
 func main() {
@@ -83,6 +82,7 @@ func main() {
 
 	if showHelp {
 		usage()
+		os.Exit(0)
 	}
 
 	if showVersion {
-- 
2.43.0


From d37e6ac880f2c6b5d02bfe187359c6b2d36f33a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:16 +0000
Subject: [PATCH 22/24] fix: keep bytes above 127 of string literals as they
 are

---
 lexer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lexer.go b/lexer.go
index 72ee1a3..2daf0a5 100644
--- a/lexer.go
+++ b/lexer.go
@@ -250,7 +250,7 @@ func (l *Lexer) Character() (int64, error) {
 
 // String parses a string literal
 func (l *Lexer) String() (string, error) {
-	var result []rune
+	var result []byte
 
 	for {
 		c, err := l.ReadChar()
@@ -272,7 +272,7 @@ func (l *Lexer) String() (string, error) {
 			}
 		}
 
-		result = append(result, c)
+		result = append(result, byte(c))
 	}
 }
 
-- 
2.43.0


From 6f428850ecbc900911a8b99c52c5f1228d1f49aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:16 +0000
Subject: [PATCH 23/24] fix: char and printf treat the bytes of a string as
 unsigned

---
 runtime/char.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/char.c b/runtime/char.c
index c5ae23a..5b34695 100644
--- a/runtime/char.c
+++ b/runtime/char.c
@@ -10,5 +10,5 @@ word_t b_char(word_t string, /*word_t i,*/ ...)
     word_t i = va_arg(ap, word_t);
     va_end(ap);
 
-    return ((char *)string)[i];
+    return ((unsigned char *)string)[i];
 }
-- 
2.43.0


From c3f1cb3a6619c94ad22cf95a6450d8a4f3455838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:16 +0000
Subject: [PATCH 24/24] fix: align the stack before calling main on x86_64

---
 runtime/start.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/runtime/start.c b/runtime/start.c
index 6a33fc1..a128bd7 100644
--- a/runtime/start.c
+++ b/runtime/start.c
@@ -6,6 +6,10 @@
 //
 void b_start(void) __asm__("_start"); // assure, that _start is really named _start in asm
 
+#ifdef __x86_64__
+// The kernel enters here with an aligned stack and no return address on it.
+__attribute__((force_align_arg_pointer))
+#endif
 void b_start()
 {
     word_t main(void);
-- 
2.43.0

