From ef88ad3482d7bdb27c17f0c502d1d26ef0fca202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:46 +0000
Subject: [PATCH 1/8] fix: only accept columns as index and foreign key
 references

Tables share one declaration map for columns and indexes, so an index
name was accepted where a column is required.
---
 schema/validator.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/schema/validator.go b/schema/validator.go
index 5df56c8..e84f913 100644
--- a/schema/validator.go
+++ b/schema/validator.go
@@ -88,7 +88,7 @@ func (c *ContextValidator) VisitSchema(s *Schema) error {
 		for _, fk := range t.ForeignKeys {
 			// check foreign keys column in current table
 			for _, col := range fk.ChildKeys {
-				if _, ok := c.tableCtx[t.Name][col]; !ok {
+				if c.tableCtx[t.Name][col] != "column" {
 					return fmt.Errorf("%w: fk(%s/%s)", ErrColumnNotFound, t.Name, col)
 				}
 			}
@@ -169,7 +169,7 @@ func (c *ContextValidator) VisitAttribute(a *Attribute) error {
 
 func (c *ContextValidator) VisitIndex(i *Index) error {
 	for _, col := range i.Columns {
-		if _, ok := c.tableCtx[c.currentDecl][col]; !ok {
+		if c.tableCtx[c.currentDecl][col] != "column" {
 			return fmt.Errorf("%w: index(%s/%s)", ErrColumnNotFound, c.currentDecl, col)
 		}
 	}
@@ -182,7 +182,7 @@ func (c *ContextValidator) VisitForeignKey(fk *ForeignKey) error {
 	}
 
 	for _, col := range fk.ParentKeys {
-		if _, ok := c.tableCtx[fk.ParentTable][col]; !ok {
+		if c.tableCtx[fk.ParentTable][col] != "column" {
 			return fmt.Errorf("%w: ref(%s->%s)", ErrColumnNotFound, fk.ParentTable, col)
 		}
 	}
-- 
2.43.0


From e66a4f1e109e00b533de4fd08b15d8686846aedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:46 +0000
Subject: [PATCH 2/8] fix: truncate an existing output file before writing

A longer previous artefact left stale trailing bytes in the new one.
---
 cmd/root.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/root.go b/cmd/root.go
index adc7c9d..40f150c 100644
--- a/cmd/root.go
+++ b/cmd/root.go
@@ -102,7 +102,7 @@ func init() {
 }
 
 func writeToFile(data []byte, filePath string) (err error) {
-	f, err := os.OpenFile(filePath, os.O_CREATE|os.O_WRONLY, 0644)
+	f, err := os.OpenFile(filePath, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 4c4d63e9d041797a20700abeea4f4d35ff69176f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:46 +0000
Subject: [PATCH 3/8] fix: report a failed write of the output file

The deferred close replaced the write error, so a failed write was
reported as success. A failed close is returned like any other write
error, so that it ends with the documented exit status.
---
 cmd/root.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/cmd/root.go b/cmd/root.go
index 40f150c..70d9b0a 100644
--- a/cmd/root.go
+++ b/cmd/root.go
@@ -1,7 +1,6 @@
 package cmd
 
 import (
-	"log"
 	"os"
 	"path/filepath"
 
@@ -108,9 +107,8 @@ func writeToFile(data []byte, filePath string) (err error) {
 	}
 
 	defer func() {
-		err = f.Close()
-		if err != nil {
-			log.Fatal(err)
+		if cerr := f.Close(); cerr != nil && err == nil {
+			err = cerr
 		}
 	}()
 
-- 
2.43.0


From 22014623f8bd5286a6b72ac2083ee09a89b542a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:46 +0000
Subject: [PATCH 4/8] fix: make the trace flag take effect

---
 cmd/root.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/root.go b/cmd/root.go
index 70d9b0a..e3f33d3 100644
--- a/cmd/root.go
+++ b/cmd/root.go
@@ -95,7 +95,7 @@ func Execute() {
 }
 
 func init() {
-	rootCmd.Flags().BoolP("trace", "t", false, "toggle trace output")
+	rootCmd.Flags().BoolVarP(&trace, "trace", "t", false, "toggle trace output")
 	rootCmd.Flags().BoolVarP(&showVersion, "version", "v", false, "Show version and exit")
 	rootCmd.Flags().StringVarP(&outputDir, "output", "o", outputDir, "Output directory")
 }
-- 
2.43.0


From 75d7d3035cc8a9b9df13e22f244fb376dbd85bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:09 +0000
Subject: [PATCH 5/8] fix: do not add the syntax error list to itself

The early return on syntax errors hands out the listener's error list,
and the deferred function added it to itself, so every syntax error was
reported as "with 1+ errors".
---
 kfparser/parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kfparser/parser.go b/kfparser/parser.go
index 8b845a0..8cabfca 100644
--- a/kfparser/parser.go
+++ b/kfparser/parser.go
@@ -47,7 +47,9 @@ func ParseKF(input string, errorListener *utils.ErrorListener, mode Mode) (resul
 			}
 		}
 
-		if err != nil {
+		// syntax errors are returned as the listener's own error list, which
+		// must not be added to itself
+		if err != nil && err != errorListener.Err() {
 			errorListener.Add(err)
 		}
 
-- 
2.43.0


From 7d69b1ba81f3bfab75319557f4fe0ba9c896f0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:09 +0000
Subject: [PATCH 6/8] fix: check variables nested inside call arguments

Only arguments that are a bare variable were checked, so an undefined
variable inside an arithmetic, comparison, unary or function expression
was accepted.
---
 schema/validator.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/schema/validator.go b/schema/validator.go
index e84f913..a8d5d56 100644
--- a/schema/validator.go
+++ b/schema/validator.go
@@ -208,7 +208,8 @@ func isSqlStatement(stmt string) bool {
 		strings.HasPrefix(stmt, "with")
 }
 
-// checkArgRef check if the argument(bind parameter) is a valid reference
+// checkArgRef check if all the bind parameters in the argument expression are
+// valid references
 func checkArgRef(arg tree.Expression, ctx declCtx, localCtx map[string]bool) error {
 	switch t := arg.(type) {
 	case *tree.ExpressionBindParameter:
@@ -229,6 +230,24 @@ func checkArgRef(arg tree.Expression, ctx declCtx, localCtx map[string]bool) err
 				return fmt.Errorf("%w: %s", ErrVariableNotFound, arg)
 			}
 		}
+	case *tree.ExpressionUnary:
+		return checkArgRef(t.Operand, ctx, localCtx)
+	case *tree.ExpressionArithmetic:
+		if err := checkArgRef(t.Left, ctx, localCtx); err != nil {
+			return err
+		}
+		return checkArgRef(t.Right, ctx, localCtx)
+	case *tree.ExpressionBinaryComparison:
+		if err := checkArgRef(t.Left, ctx, localCtx); err != nil {
+			return err
+		}
+		return checkArgRef(t.Right, ctx, localCtx)
+	case *tree.ExpressionFunction:
+		for _, input := range t.Inputs {
+			if err := checkArgRef(input, ctx, localCtx); err != nil {
+				return err
+			}
+		}
 	}
 
 	return nil
-- 
2.43.0


From f07c1fb4da429bc261e67189912ddb1c59fb0e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:09 +0000
Subject: [PATCH 7/8] fix: decode annotation values with escaped quotes

String literals may contain escaped quotes and line breaks, the value
ended at the first quote and the rest was taken for more attributes.
---
 utils/annotation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/annotation.go b/utils/annotation.go
index 20dbf31..7ebf538 100644
--- a/utils/annotation.go
+++ b/utils/annotation.go
@@ -7,7 +7,7 @@ import (
 )
 
 const (
-	regexAnnotation = `([a-zA-Z0-9_]+)\s*=\s*(\d+|\'.*?\')`
+	regexAnnotation = `([a-zA-Z0-9_]+)\s*=\s*(\d+|'(?s:[^'\\]|\\.)*')`
 )
 
 var (
-- 
2.43.0


From 7b447ae3ff318d6b0fca6f95e5e41fac84360017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:59 +0000
Subject: [PATCH 8/8] fix: keep words of a call statement apart

---
 kfparser/visitor.go | 39 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/kfparser/visitor.go b/kfparser/visitor.go
index 673b38d..7f9e629 100644
--- a/kfparser/visitor.go
+++ b/kfparser/visitor.go
@@ -440,10 +440,47 @@ func (v *KFVisitor) VisitAction_stmt_list(ctx *kfgrammar.Action_stmt_listContext
 
 // VisitAction_stmt is called when parsing action statement, return string
 func (v *KFVisitor) VisitAction_stmt(ctx *kfgrammar.Action_stmtContext) interface{} {
-	stmt := strings.TrimSpace(ctx.GetText())
+	stmt := strings.TrimSpace(stmtText(ctx))
 	return stmt
 }
 
+// stmtText returns the text of the tree without the whitespace between its
+// tokens, except where two words would otherwise become one.
+func stmtText(tree antlr.Tree) string {
+	if token, ok := tree.(antlr.TerminalNode); ok {
+		return token.GetText()
+	}
+
+	text := ""
+	for _, child := range tree.GetChildren() {
+		next := stmtText(child)
+		if joinsWords(text, next) {
+			text += " "
+		}
+		text += next
+	}
+	return text
+}
+
+// joinsWords returns true if left ends in a word (not a number) which would be
+// extended by right.
+func joinsWords(left, right string) bool {
+	if right == "" || !isWordChar(right[0]) {
+		return false
+	}
+
+	for i := len(left) - 1; i >= 0 && isWordChar(left[i]); i-- {
+		if left[i] < '0' || left[i] > '9' {
+			return true
+		}
+	}
+	return false
+}
+
+func isWordChar(c byte) bool {
+	return c == '_' || ('0' <= c && c <= '9') || ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z')
+}
+
 // VisitInit_decl is called when parsing init declaration, return schema.Action
 func (v *KFVisitor) VisitInit_decl(ctx *kfgrammar.Init_declContext) interface{} {
 	a := schema.Action{}
-- 
2.43.0

