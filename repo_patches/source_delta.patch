From 0d6bb634d333ef04b42efe143be1b453a4518bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:13 +0000
Subject: [PATCH 01/20] fix: encode a nil pointer to an empty struct as null

---
 generator/codegen/struct.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/generator/codegen/struct.go b/generator/codegen/struct.go
index 67fedc8..d0f6676 100644
--- a/generator/codegen/struct.go
+++ b/generator/codegen/struct.go
@@ -222,6 +222,11 @@ func (s *Struct) MarshalToFunc() ast.Decl {
 
 	if len(s.spec.Fields.List) == 0 {
 		return fn.AppendStmt(
+			asthlp.If(
+				asthlp.IsNil(asthlp.NewIdent(names.VarNameReceiver)),
+				asthlp.CallStmt(asthlp.Call(field.RawStringFn, asthlp.StringConstant("null").Expr())),
+				asthlp.Return(asthlp.Nil),
+			),
 			asthlp.CallStmt(asthlp.Call(field.RawStringFn, asthlp.StringConstant("{}").Expr())),
 			asthlp.Return(asthlp.Nil),
 		).Decl()
-- 
2.43.0


From 6d555c47abd824b4dfe130eda4ac89873bfa86a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:50 +0000
Subject: [PATCH 02/20] fix: use the declared time layout constant when
 encoding, as decoding does

---
 generator/codegen/field/extractors.go | 20 ++++++++++----------
 generator/codegen/field/marshalers.go |  9 ++++++++-
 2 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/generator/codegen/field/extractors.go b/generator/codegen/field/extractors.go
index 0bfdb51..146f393 100644
--- a/generator/codegen/field/extractors.go
+++ b/generator/codegen/field/extractors.go
@@ -1,9 +1,9 @@
 package field
 
 import (
-	"fmt"
 	"go/ast"
 	"go/token"
+	"strconv"
 	"strings"
 
 	"github.com/iv-menshenin/go-ast"
@@ -317,15 +317,7 @@ func timeExtraction(dst *ast.Ident, v, jsonName, layout string) []ast.Stmt {
 	if layout == "" {
 		extrStmt = timeExtractionUnify(dst, srcString)
 	} else {
-		var layoutExpr ast.Expr
-		if l := strings.Split(layout, "."); len(l) == 2 && l[0] == "time" {
-			layoutExpr = &ast.SelectorExpr{
-				X:   ast.NewIdent(l[0]),
-				Sel: ast.NewIdent(l[1]),
-			}
-		} else {
-			layoutExpr = &ast.BasicLit{Kind: token.STRING, Value: fmt.Sprintf(`"%s"`, strings.Replace(layout, "\"", "\\\"", -1))}
-		}
+		layoutExpr := timeLayoutExpr(layout)
 		extrStmt = []ast.Stmt{
 			&ast.AssignStmt{
 				Lhs: []ast.Expr{dst, ast.NewIdent("err")},
@@ -369,6 +361,14 @@ func timeExtraction(dst *ast.Ident, v, jsonName, layout string) []ast.Stmt {
 	)
 }
 
+// timeLayoutExpr is the expression of a declared time layout, a constant of the time package or a text
+func timeLayoutExpr(layout string) ast.Expr {
+	if l := strings.Split(layout, "."); len(l) == 2 && l[0] == "time" {
+		return asthlp.SimpleSelector(l[0], l[1])
+	}
+	return &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(layout)}
+}
+
 // valDateBegin, err := parseDateTime(string(b))
 func timeExtractionUnify(dst *ast.Ident, v ast.Expr) []ast.Stmt {
 	return []ast.Stmt{
diff --git a/generator/codegen/field/marshalers.go b/generator/codegen/field/marshalers.go
index 1ef5143..682c05d 100644
--- a/generator/codegen/field/marshalers.go
+++ b/generator/codegen/field/marshalers.go
@@ -55,7 +55,7 @@ func (w WriteBlock) Render(putComma ast.Stmt) []ast.Stmt {
 func timeMarshal(src ast.Expr, jsonName, layout string, omitempty, isStar bool) WriteBlock {
 	var layoutExpr = names.TimeDefaultLayout
 	if layout != "" {
-		layoutExpr = asthlp.StringConstant(layout).Expr()
+		layoutExpr = timeLayoutExpr(layout)
 	}
 	var notZero = asthlp.Not(asthlp.Call(asthlp.InlineFunc(asthlp.Selector(src, names.MethodNameZero))))
 	if isStar {
@@ -74,6 +74,13 @@ func timeMarshal(src ast.Expr, jsonName, layout string, omitempty, isStar bool)
 			SetCommaVar,
 		},
 	}
+	if _, isConst := layoutExpr.(*ast.SelectorExpr); isConst && layout != "" {
+		// the text of the constant is unknown here, so zero is written like any other value
+		if !isStar && !omitempty {
+			w.NotZero = nil
+			return w
+		}
+	}
 	if !omitempty {
 		if layout == "" {
 			layout = time.RFC3339
-- 
2.43.0


From 1f6bedd255f834d0e5d5347ff088412989d1b2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:50 +0000
Subject: [PATCH 03/20] fix: encode a nil time pointer as null

---
 generator/codegen/field/marshalers.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/generator/codegen/field/marshalers.go b/generator/codegen/field/marshalers.go
index 682c05d..198f94a 100644
--- a/generator/codegen/field/marshalers.go
+++ b/generator/codegen/field/marshalers.go
@@ -81,6 +81,16 @@ func timeMarshal(src ast.Expr, jsonName, layout string, omitempty, isStar bool)
 			return w
 		}
 	}
+	if !omitempty && isStar {
+		w.IfZero = []ast.Stmt{
+			asthlp.CallStmt(asthlp.Call(
+				RawStringFn,
+				asthlp.StringConstant(fmt.Sprintf(`"%s":null`, jsonName)).Expr(),
+			)),
+			SetCommaVar,
+		}
+		return w
+	}
 	if !omitempty {
 		if layout == "" {
 			layout = time.RFC3339
-- 
2.43.0


From 1b7cbe1b7a079984aadc9db1d583c22ec8c2fdb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:52 +0000
Subject: [PATCH 04/20] fix: keep commas of layouts and default values

---
 generator/codegen/tags/tags.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/generator/codegen/tags/tags.go b/generator/codegen/tags/tags.go
index 4005038..d93f30e 100644
--- a/generator/codegen/tags/tags.go
+++ b/generator/codegen/tags/tags.go
@@ -72,8 +72,9 @@ func (t Tags) Layout() string {
 func Parse(tag string) Tags {
 	var result = make(map[string][]string)
 	result["json"] = strings.Split(StructTag(tag).Get("json"), ",")
-	result["layout"] = strings.Split(StructTag(tag).Get("layout"), ",")
-	result["default"] = strings.Split(StructTag(tag).Get("default"), ",")
+	// layouts and default values are free text that can contain commas
+	result["layout"] = []string{StructTag(tag).Get("layout")}
+	result["default"] = []string{StructTag(tag).Get("default")}
 	return result
 }
 
-- 
2.43.0


From 1314eb3bef09338ad26bcd9f291ff07072fefb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:10 +0000
Subject: [PATCH 05/20] fix: read struct tags written as interpreted string
 literals

---
 generator/codegen/tags/tags.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/generator/codegen/tags/tags.go b/generator/codegen/tags/tags.go
index d93f30e..3620536 100644
--- a/generator/codegen/tags/tags.go
+++ b/generator/codegen/tags/tags.go
@@ -2,6 +2,7 @@ package tags
 
 import (
 	"reflect"
+	"strconv"
 	"strings"
 )
 
@@ -79,13 +80,12 @@ func Parse(tag string) Tags {
 }
 
 func StructTag(tag string) reflect.StructTag {
-	if len(tag) < 2 {
+	// the tag is a Go string literal, raw or interpreted
+	value, err := strconv.Unquote(tag)
+	if err != nil {
 		return ""
 	}
-	if tag[0] == '`' && tag[len(tag)-1] == '`' {
-		return reflect.StructTag(tag[1 : len(tag)-1])
-	}
-	return ""
+	return reflect.StructTag(value)
 }
 
 type StructTags []string
-- 
2.43.0


From cf6ef1640ab8131585b7e93978dcccee6ed80c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:13 +0000
Subject: [PATCH 06/20] fix: quote string default values

---
 generator/codegen/helpers/asthelpers.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/generator/codegen/helpers/asthelpers.go b/generator/codegen/helpers/asthelpers.go
index 3c0daae..114be7d 100644
--- a/generator/codegen/helpers/asthelpers.go
+++ b/generator/codegen/helpers/asthelpers.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"go/ast"
 	"go/token"
+	"strconv"
 	"strings"
 
 	asthlp "github.com/iv-menshenin/go-ast"
@@ -47,7 +48,7 @@ func BasicLiteralFromType(t ast.Expr, val string) ast.Expr {
 		case "string":
 			return &ast.BasicLit{
 				Kind:  token.STRING,
-				Value: "\"" + strings.Replace(val, "\"", "\\\"", -1) + "\"",
+				Value: strconv.Quote(val),
 			}
 
 		case "byte", "rune":
-- 
2.43.0


From f2633b03dd3d009c21b7616b2ff6dfbe09c06495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:28 +0000
Subject: [PATCH 07/20] fix: encode nil and omitted identifiers

---
 generator/codegen/field/fields.go     | 2 +-
 generator/codegen/field/marshalers.go | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/generator/codegen/field/fields.go b/generator/codegen/field/fields.go
index 411573e..27239c4 100644
--- a/generator/codegen/field/fields.go
+++ b/generator/codegen/field/fields.go
@@ -165,7 +165,7 @@ func (f *Field) MarshalStatements(src ast.Expr, name string) []ast.Stmt {
 			return block.Render(putCommaFirstIf)
 		}
 		if tt.Sel.Name == "UUID" {
-			block := uuidMarshal(src, f.tags.JsonName(), f.tags.JsonAppendix() == "omitempty")
+			block := uuidMarshal(src, f.tags.JsonName(), f.tags.JsonAppendix() == "omitempty", f.isStar)
 			return block.Render(putCommaFirstIf)
 		}
 		return marshalTransit(src, f.tags.JsonName(), f.tags.JsonAppendix() == "omitempty", f.isStar).Render(putCommaFirstIf)
diff --git a/generator/codegen/field/marshalers.go b/generator/codegen/field/marshalers.go
index 198f94a..60eb69c 100644
--- a/generator/codegen/field/marshalers.go
+++ b/generator/codegen/field/marshalers.go
@@ -114,7 +114,7 @@ func timeMarshal(src ast.Expr, jsonName, layout string, omitempty, isStar bool)
 //			result.Write(buf)
 //			result.WriteRune('"')
 //		}
-func uuidMarshal(src ast.Expr, jsonName string, omitempty bool) WriteBlock {
+func uuidMarshal(src ast.Expr, jsonName string, omitempty, isStar bool) WriteBlock {
 	var bufVar = asthlp.NewIdent("buf")
 	var w = WriteBlock{
 		Block: []ast.Stmt{
@@ -147,6 +147,12 @@ func uuidMarshal(src ast.Expr, jsonName string, omitempty bool) WriteBlock {
 			),
 		},
 	}
+	switch {
+	case isStar:
+		w.NotZero = asthlp.NotNil(src)
+	case omitempty:
+		w.NotZero = asthlp.NotEqual(src, asthlp.SimpleSelector("uuid", "Nil"))
+	}
 	if !omitempty {
 		w.IfZero = []ast.Stmt{
 			asthlp.CallStmt(asthlp.Call(
-- 
2.43.0


From 4f415d0b9c6f0be0bbe3fc60ba4f2f142f9afec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:41 +0000
Subject: [PATCH 08/20] fix: encode a nil pointer to an array

---
 generator/codegen/field/fields.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/codegen/field/fields.go b/generator/codegen/field/fields.go
index 27239c4..c8bfd8d 100644
--- a/generator/codegen/field/fields.go
+++ b/generator/codegen/field/fields.go
@@ -192,7 +192,7 @@ func (f *Field) MarshalStatements(src ast.Expr, name string) []ast.Stmt {
 			dec := GetDecorExpr(tt.Elt)
 			valType := helpers.DenotedType(tt.Elt)
 			errExpr := asthlp.Call(asthlp.FmtErrorfFn, asthlp.StringConstant(`can't marshal "`+f.tags.JsonName()+`" item at position %d: %w`).Expr(), asthlp.NewIdent("_k"), asthlp.NewIdent("err"))
-			block = arrayMarshal(src, f.tags.JsonName(), f.tags.JsonAppendix() == "omitempty", GetValueExtractor(valType, errExpr, dec), tt.Len == nil)
+			block = arrayMarshal(src, f.tags.JsonName(), f.tags.JsonAppendix() == "omitempty", GetValueExtractor(valType, errExpr, dec), tt.Len == nil || f.isStar)
 		}
 		return block.Render(putCommaFirstIf)
 
-- 
2.43.0


From 51da492373cd66b1bafa5d455dce08ba626b75dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:15 +0000
Subject: [PATCH 09/20] fix: a field named - has no counterpart in JSON

---
 generator/codegen/field/fields.go | 3 +++
 generator/codegen/struct.go       | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/generator/codegen/field/fields.go b/generator/codegen/field/fields.go
index c8bfd8d..730bad7 100644
--- a/generator/codegen/field/fields.go
+++ b/generator/codegen/field/fields.go
@@ -143,6 +143,9 @@ func (f *Field) FillStatements(name string) []ast.Stmt {
 //
 // result.Write(b)
 func (f *Field) MarshalStatements(src ast.Expr, name string) []ast.Stmt {
+	if f.tags.JsonName() == "-" {
+		return nil
+	}
 	switch tt := f.refx.(type) {
 
 	case *ast.StarExpr:
diff --git a/generator/codegen/struct.go b/generator/codegen/struct.go
index d0f6676..7082074 100644
--- a/generator/codegen/struct.go
+++ b/generator/codegen/struct.go
@@ -130,6 +130,10 @@ func (s *Struct) ValidatorFunc() ast.Decl {
 		if fieldSpec.Tag != nil {
 			fieldTags = tags.Parse(fieldSpec.Tag.Value)
 		}
+		if fieldTags.JsonName() == "-" {
+			// the field has no counterpart in JSON
+			continue
+		}
 		visitFunc.AppendStmt(
 			//		if bytes.Equal(key, []byte{'f', 'i', 'l', 't', 'e', 'r'}) {
 			//			. . .
-- 
2.43.0


From f2243f4c18684fb2404927d9cedd50ccec0b2e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:25 +0000
Subject: [PATCH 10/20] fix: check the range of scalars behind a named type

---
 generator/codegen/field/fill.go | 37 ++++++++++++++++++++-------------
 generator/codegen/transit.go    |  7 +++++++
 2 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/generator/codegen/field/fill.go b/generator/codegen/field/fill.go
index 35d7662..88ed31d 100644
--- a/generator/codegen/field/fill.go
+++ b/generator/codegen/field/fill.go
@@ -451,20 +451,8 @@ func (f *Field) checkErr(val *ast.Ident) []ast.Stmt {
 	if isIdent && ident.Name == "string" {
 		return nil
 	}
-	if maxExp := getMaxByType(ident); maxExp != nil {
-		phldr := "%d"
-		if ident.Name == "float32" {
-			phldr = "%f"
-		}
-		maxExceeded := phldr + " exceeds maximum for data type " + ident.Name
-		checkOverflow = asthlp.If(
-			asthlp.Great(val, maxExp),
-			asthlp.Return(asthlp.Call(
-				asthlp.InlineFunc(asthlp.NewIdent(names.ParsingError)),
-				asthlp.StringConstant(f.tags.JsonName()).Expr(),
-				helpers.FmtError(maxExceeded, val),
-			)),
-		)
+	if stmt := CheckOverflow(ident, val, asthlp.StringConstant(f.tags.JsonName()).Expr()); stmt != nil {
+		checkOverflow = stmt
 	}
 
 	return []ast.Stmt{
@@ -481,6 +469,27 @@ func (f *Field) checkErr(val *ast.Ident) []ast.Stmt {
 		checkOverflow,
 	}
 }
+
+// CheckOverflow produces a check that the value does not exceed the maximum of the data type, nil if it can not
+func CheckOverflow(t, val *ast.Ident, pathElem ast.Expr) ast.Stmt {
+	maxExp := getMaxByType(t)
+	if maxExp == nil {
+		return nil
+	}
+	phldr := "%d"
+	if t.Name == "float32" {
+		phldr = "%f"
+	}
+	return asthlp.If(
+		asthlp.Great(val, maxExp),
+		asthlp.Return(asthlp.Call(
+			asthlp.InlineFunc(asthlp.NewIdent(names.ParsingError)),
+			pathElem,
+			helpers.FmtError(phldr+" exceeds maximum for data type "+t.Name, val),
+		)),
+	)
+}
+
 func getMaxByType(t *ast.Ident) ast.Expr {
 	if t == nil {
 		return nil
diff --git a/generator/codegen/transit.go b/generator/codegen/transit.go
index de54043..6af90e9 100644
--- a/generator/codegen/transit.go
+++ b/generator/codegen/transit.go
@@ -173,6 +173,13 @@ func (t *Transitive) FillFromFunc() ast.Decl {
 		fn.AppendStmt(typedFiller...)
 		fn.AppendStmt(
 			asthlp.If(asthlp.NotNil(asthlp.NewIdent(names.VarNameError)), asthlp.Return(asthlp.NewIdent(names.VarNameError))),
+		)
+		if scalar, ok := t.tran.(*ast.Ident); ok {
+			if stmt := field.CheckOverflow(scalar, asthlp.NewIdent("_val"), asthlp.StringConstant("(root)").Expr()); stmt != nil {
+				fn.AppendStmt(stmt)
+			}
+		}
+		fn.AppendStmt(
 			asthlp.Assign(asthlp.VarNames{asthlp.Star(asthlp.NewIdent(names.VarNameReceiver))}, asthlp.Assignment, asthlp.VariableTypeConvert("_val", asthlp.NewIdent(t.name))),
 		)
 		asthlp.NewIdent(names.VarNameReceiver)
-- 
2.43.0


From da2e8b20e566b5228b5c17d0797c4d2113650e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:48 +0000
Subject: [PATCH 11/20] fix: decode a type declared from a named map

---
 generator/codegen/field/fill.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/generator/codegen/field/fill.go b/generator/codegen/field/fill.go
index 88ed31d..e3c3d1a 100644
--- a/generator/codegen/field/fill.go
+++ b/generator/codegen/field/fill.go
@@ -374,17 +374,22 @@ func (f *Field) mapExtraction(dst *ast.Ident, t *ast.MapType, v, json string) []
 		"json": {f.tags.JsonName()},
 	}), t.Value))
 	valFactory.DontCheckErr()
+	//	{dst} := s.Tags
+	declare := asthlp.Assign(asthlp.MakeVarNames(dst.Name), asthlp.Definition, f.field)
+	if f.field == nil {
+		//	var {dst} map[Key]Property
+		declare = asthlp.Var(asthlp.TypeSpec(dst.Name, t))
+	}
 	return asthlp.Block(
 		//	o, err := {v}.Object()
 		asthlp.Assign(asthlp.MakeVarNames("o", names.VarNameError), asthlp.Definition, asthlp.Call(
 			asthlp.InlineFunc(asthlp.SimpleSelector(v, "Object")),
 		)),
 		checkErrAndReturnParsingError(asthlp.StringConstant(json).Expr()),
-		//	{dst} := s.Tags
+		declare,
 		//	if {dst} == nil {
 		//		{dst} = make(map[Key]Property, o.Len())
 		//	}
-		asthlp.Assign(asthlp.MakeVarNames(dst.Name), asthlp.Definition, f.field),
 		asthlp.If(
 			asthlp.IsNil(asthlp.NewIdent(dst.Name)),
 			asthlp.Assign(asthlp.MakeVarNames(dst.Name), asthlp.Assignment, asthlp.Call(
-- 
2.43.0


From 862fb4d13c3a9976e679cb00a7381bfc9a8aad11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:29 +0000
Subject: [PATCH 12/20] fix: a declared slice or map without elements is empty

---
 generator/codegen/transit.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/generator/codegen/transit.go b/generator/codegen/transit.go
index 6af90e9..e1b8d14 100644
--- a/generator/codegen/transit.go
+++ b/generator/codegen/transit.go
@@ -204,8 +204,9 @@ func (t *Transitive) ZeroFunc() ast.Decl {
 	zero := helpers.ZeroValueOfT(t.tran)
 	if zero != nil {
 		if zero == asthlp.Nil {
+			// return len(s) == 0
 			fn.AppendStmt(
-				asthlp.Return(asthlp.Equal(asthlp.NewIdent(names.VarNameReceiver), zero)),
+				asthlp.Return(asthlp.Equal(asthlp.Call(asthlp.LengthFn, asthlp.NewIdent(names.VarNameReceiver)), asthlp.Zero)),
 			)
 		} else {
 			fn.AppendStmt(
-- 
2.43.0


From d79ed490f2614648bea2a4d67ac14c48e7252045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:28 +0000
Subject: [PATCH 13/20] fix: a layout with a backquote

---
 generator/codegen/field/marshalers.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/generator/codegen/field/marshalers.go b/generator/codegen/field/marshalers.go
index 60eb69c..bfedfee 100644
--- a/generator/codegen/field/marshalers.go
+++ b/generator/codegen/field/marshalers.go
@@ -3,6 +3,7 @@ package field
 import (
 	"fmt"
 	"go/ast"
+	"strings"
 	"time"
 
 	asthlp "github.com/iv-menshenin/go-ast"
@@ -74,8 +75,8 @@ func timeMarshal(src ast.Expr, jsonName, layout string, omitempty, isStar bool)
 			SetCommaVar,
 		},
 	}
-	if _, isConst := layoutExpr.(*ast.SelectorExpr); isConst && layout != "" {
-		// the text of the constant is unknown here, so zero is written like any other value
+	if _, isConst := layoutExpr.(*ast.SelectorExpr); isConst && layout != "" || strings.Contains(layout, "`") {
+		// the text of the constant is unknown here, or unfit for a raw string literal, so zero is written like any other value
 		if !isStar && !omitempty {
 			w.NotZero = nil
 			return w
-- 
2.43.0


From 29c1c97320726c02506c5f33f657aaa3cf8ee82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:12 +0000
Subject: [PATCH 14/20] fix: the name of an imported package is the one it
 declares

---
 generator/discoverer/parser.go | 17 +++++++++++++++++
 generator/parser.go            |  4 +---
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/generator/discoverer/parser.go b/generator/discoverer/parser.go
index 7a54e99..901c2b1 100644
--- a/generator/discoverer/parser.go
+++ b/generator/discoverer/parser.go
@@ -5,6 +5,7 @@ import (
 	"go/ast"
 	"go/parser"
 	"go/token"
+	"path"
 	"strings"
 )
 
@@ -49,6 +50,22 @@ func (d *Discoverer) PackagePathFromPath(packagePath string) string {
 	return d.modPath + "/" + packagePath
 }
 
+// PackageNameFromPath returns the name which the package itself declares
+func (d *Discoverer) PackageNameFromPath(packagePath string) string {
+	dir := path.Clean(d.PackagePathFromPath(packagePath))
+	for name, packagePaths := range d.packages {
+		if name == "main" || strings.HasSuffix(name, "_test") {
+			continue
+		}
+		for _, p := range packagePaths {
+			if p == dir {
+				return name
+			}
+		}
+	}
+	return path.Base(packagePath)
+}
+
 func (d *Discoverer) GetPackageFullName(packageName string, hints ...string) (string, error) {
 	packagePaths, ok := d.packages[packageName]
 	if !ok {
diff --git a/generator/parser.go b/generator/parser.go
index 878e64a..ad6fadc 100644
--- a/generator/parser.go
+++ b/generator/parser.go
@@ -50,9 +50,7 @@ func (g *Gen) Parse() (err error) {
 			continue
 		}
 		if name == "" {
-			// FIXME @menshenin the name of package must be read from the package itself
-			split := strings.Split(pkgPath, "/")
-			name = split[len(split)-1]
+			name = g.discovery.PackageNameFromPath(pkgPath)
 		}
 		g.packages[name] = append(
 			g.packages[name],
-- 
2.43.0


From 317bda8218d13d6ecac49a7d347b939fbc785de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:56 +0000
Subject: [PATCH 15/20] fix: inlined structures and external types come from
 the imported package

---
 generator/analyse.go | 14 +++++++++++++-
 generator/parser.go  | 38 +++++++++++++++++++++-----------------
 2 files changed, 34 insertions(+), 18 deletions(-)

diff --git a/generator/analyse.go b/generator/analyse.go
index 15c33ae..9c61bf5 100644
--- a/generator/analyse.go
+++ b/generator/analyse.go
@@ -310,7 +310,7 @@ func (v *visitor) exploreInlinedSelector(inlined *ast.SelectorExpr) (fields []*a
 	if !ok {
 		panic(fmt.Errorf("can't inline struct %q; can't recognize %+v expression", inlined.Sel.Name, inlined.X))
 	}
-	pkg, err := v.g.discovery.GetPackage(packIdent.Name, inlined.Sel.Name)
+	pkg, err := v.getPackage(packIdent.Name, inlined.Sel.Name)
 	if err != nil {
 		panic(fmt.Errorf("can't inline struct %q; can't parse '%s' package: %+v", inlined.Sel.Name, packIdent.Name, err))
 	}
@@ -330,6 +330,18 @@ func (v *visitor) exploreInlinedSelector(inlined *ast.SelectorExpr) (fields []*a
 	return
 }
 
+// getPackage finds a package by the name under which it is imported
+func (v *visitor) getPackage(name, typeName string) (ast.Node, error) {
+	if v.over == nil {
+		for _, p := range v.g.packages[name] {
+			if pkg := v.g.importedPackage(p); pkg != nil {
+				return pkg, nil
+			}
+		}
+	}
+	return v.g.discovery.GetPackage(name, typeName)
+}
+
 func findFieldWithName(fields []*ast.Field, name string) *ast.Field {
 	for _, field := range fields {
 		for _, fldName := range field.Names {
diff --git a/generator/parser.go b/generator/parser.go
index ad6fadc..6f11e63 100644
--- a/generator/parser.go
+++ b/generator/parser.go
@@ -133,28 +133,23 @@ func (g *Gen) Print(name string) {
 }
 
 func (g *Gen) ExploreType(p explorer.Package, objName string) *ast.TypeSpec {
-	parsed, err := parsePackage(g.discovery.PackagePathFromPath(p.Path))
-	if err != nil {
+	pack := g.importedPackage(p)
+	if pack == nil {
 		return nil
 	}
-	for name, pack := range parsed {
-		if strings.HasSuffix(name, "_test") {
-			continue
-		}
-		for _, file := range pack.Files {
-			for _, decl := range file.Decls {
-				genDecl, ok := decl.(*ast.GenDecl)
+	for _, file := range pack.Files {
+		for _, decl := range file.Decls {
+			genDecl, ok := decl.(*ast.GenDecl)
+			if !ok {
+				continue
+			}
+			for _, spec := range genDecl.Specs {
+				t, ok := spec.(*ast.TypeSpec)
 				if !ok {
 					continue
 				}
-				for _, spec := range genDecl.Specs {
-					t, ok := spec.(*ast.TypeSpec)
-					if !ok {
-						continue
-					}
-					if t.Name.Name == objName {
-						return t
-					}
+				if t.Name.Name == objName {
+					return t
 				}
 			}
 		}
@@ -162,6 +157,15 @@ func (g *Gen) ExploreType(p explorer.Package, objName string) *ast.TypeSpec {
 	return nil
 }
 
+// importedPackage parses the package that an import refers to
+func (g *Gen) importedPackage(p explorer.Package) *ast.Package {
+	parsed, err := parsePackage(g.discovery.PackagePathFromPath(p.Path))
+	if err != nil {
+		return nil
+	}
+	return parsed[g.discovery.PackageNameFromPath(p.Path)]
+}
+
 func fmtGOFile(fileName string) (err error) {
 	var fileSet = token.NewFileSet()
 	f, err := parser.ParseFile(fileSet, fileName, nil, parser.ParseComments)
-- 
2.43.0


From 7d60e92e1fd8fd6d3168a863537f4b37d448bbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:12 +0000
Subject: [PATCH 16/20] fix: the imports of a file do not depend on files
 generated before

---
 generator/parser.go | 71 ++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 60 insertions(+), 11 deletions(-)

diff --git a/generator/parser.go b/generator/parser.go
index 6f11e63..8806748 100644
--- a/generator/parser.go
+++ b/generator/parser.go
@@ -9,6 +9,7 @@ import (
 	"go/token"
 	"os"
 	"path"
+	"sort"
 	"strings"
 
 	"github.com/iv-menshenin/go-ast/explorer"
@@ -74,41 +75,89 @@ func (g *Gen) FixImports(internals ...string) {
 	})
 
 	// discovery used imports and build their declaration
+	var internal = internalImports{paths: make(map[string]string), used: make(map[string]string)}
 	for name, pkg := range g.packages {
 		for i := range pkg {
-			explorer.RegisterPackage(name, pkg[i])
+			internal.paths[name] = pkg[i].Path
 		}
 	}
 	for i := 0; i < len(internals); i += 2 {
-		explorer.RegisterPackage(internals[i], explorer.Package{
-			Path: internals[i+1],
-			Kind: explorer.PkgKindInternal,
-		})
+		internal.paths[internals[i]] = internals[i+1]
 	}
-	g.imports()
+	g.imports(&internal)
 }
 
-func (g *Gen) imports() {
+func (g *Gen) imports(internal *internalImports) {
 	defer func() {
 		if r := recover(); r != nil {
 			panic(fmt.Errorf("PANIC at %q: %+v", g.fileName, r))
 		}
 	}()
-	discovery := explorer.New()
-	discovery.Explore(&g.result)
+	internal.known = explorer.New()
+	ast.Walk(internal, &g.result)
 	var decls = make([]ast.Decl, 0, len(g.result.Decls)+1)
 
-	imports := discovery.ImportSpec()
+	imports := append(internal.known.ImportSpec(), internal.ImportSpec(g.discovery)...)
 	if len(imports) > 0 {
 		decls = append(decls, &ast.GenDecl{
 			Tok:   token.IMPORT,
-			Specs: discovery.ImportSpec(),
+			Specs: imports,
 		})
 	}
 	decls = append(decls, g.result.Decls...)
 	g.result.Decls = decls
 }
 
+// internalImports collects the used packages: those that belong to the module of the file and well-known ones.
+// The former have to be kept apart because the registry of well-known packages is shared by all generators.
+type internalImports struct {
+	known *explorer.Discoverer
+	paths map[string]string
+	used  map[string]string
+}
+
+func (i *internalImports) Visit(node ast.Node) ast.Visitor {
+	if sel, ok := node.(*ast.SelectorExpr); ok {
+		if x, ok := sel.X.(*ast.Ident); ok {
+			if pkgPath, ok := i.paths[x.Name]; ok {
+				i.used[x.Name] = pkgPath
+				return i
+			}
+		}
+	}
+	i.known.Visit(node)
+	return i
+}
+
+func (i *internalImports) ImportSpec(d *discoverer.Discoverer) []ast.Spec {
+	var names []string
+	for name := range i.used {
+		names = append(names, name)
+	}
+	sort.Slice(names, func(a, b int) bool {
+		if i.used[names[a]] == i.used[names[b]] {
+			return names[a] < names[b]
+		}
+		return i.used[names[a]] < i.used[names[b]]
+	})
+	var specs []ast.Spec
+	for n, name := range names {
+		var addLine, alias string
+		if n == 0 {
+			addLine = "\n\t"
+		}
+		pkgPath := i.used[name]
+		if name != path.Base(pkgPath) || name != d.PackageNameFromPath(pkgPath) {
+			alias = name + " "
+		}
+		specs = append(specs, &ast.ImportSpec{Path: &ast.BasicLit{
+			Kind:  token.STRING,
+			Value: fmt.Sprintf("%s%s%q", addLine, alias, pkgPath),
+		}})
+	}
+	return specs
+}
+
 func (g *Gen) Print(name string) {
 	f, err := os.Create(name)
 	if err != nil {
-- 
2.43.0


From bd340b0dda3516d47c696e3742a530d23bf0ba23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:34 +0000
Subject: [PATCH 17/20] fix: import the package at the root of the module

---
 generator/discoverer/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/generator/discoverer/parser.go b/generator/discoverer/parser.go
index 901c2b1..0b40bfe 100644
--- a/generator/discoverer/parser.go
+++ b/generator/discoverer/parser.go
@@ -44,6 +44,9 @@ func (d *Discoverer) GetPackagePath(packageName string, hints ...string) (string
 }
 
 func (d *Discoverer) PackagePathFromPath(packagePath string) string {
+	if packagePath == d.module {
+		return d.modPath
+	}
 	if strings.HasPrefix(packagePath, d.module+"/") {
 		packagePath = packagePath[len(d.module)+1:]
 	}
-- 
2.43.0


From 8893202b7696127dca797dde6776a56de0c74d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:34 +0000
Subject: [PATCH 18/20] fix: types declared by way of another file of the
 imported package

---
 generator/parser.go | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/generator/parser.go b/generator/parser.go
index 8806748..4f80a67 100644
--- a/generator/parser.go
+++ b/generator/parser.go
@@ -186,7 +186,7 @@ func (g *Gen) ExploreType(p explorer.Package, objName string) *ast.TypeSpec {
 	if pack == nil {
 		return nil
 	}
-	for _, file := range pack.Files {
+	for _, file := range sortedFiles(pack) {
 		for _, decl := range file.Decls {
 			genDecl, ok := decl.(*ast.GenDecl)
 			if !ok {
@@ -212,7 +212,40 @@ func (g *Gen) importedPackage(p explorer.Package) *ast.Package {
 	if err != nil {
 		return nil
 	}
-	return parsed[g.discovery.PackageNameFromPath(p.Path)]
+	pack := parsed[g.discovery.PackageNameFromPath(p.Path)]
+	if pack != nil {
+		resolveFiles(pack)
+	}
+	return pack
+}
+
+// resolveFiles binds the identifiers of a package to what the other files of the package declare
+func resolveFiles(pack *ast.Package) {
+	files := sortedFiles(pack)
+	for _, file := range files {
+		for _, ident := range file.Unresolved {
+			for _, other := range files {
+				if obj := other.Scope.Lookup(ident.Name); obj != nil {
+					ident.Obj = obj
+					break
+				}
+			}
+		}
+	}
+}
+
+// sortedFiles makes what is found in a package independent of the order of map elements
+func sortedFiles(pack *ast.Package) []*ast.File {
+	var names []string
+	for name := range pack.Files {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	var files []*ast.File
+	for _, name := range names {
+		files = append(files, pack.Files[name])
+	}
+	return files
 }
 
 func fmtGOFile(fileName string) (err error) {
-- 
2.43.0


From b475291759213a1fc8ac1a0ed21fed1e6721c254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:32 +0000
Subject: [PATCH 19/20] fix: structures inlined within an imported package come
 from that package or its imports

---
 generator/analyse.go | 24 +++++++++++++++---------
 generator/parser.go  | 27 +++++++++++++++++++++++----
 2 files changed, 38 insertions(+), 13 deletions(-)

diff --git a/generator/analyse.go b/generator/analyse.go
index 9c61bf5..97a209a 100644
--- a/generator/analyse.go
+++ b/generator/analyse.go
@@ -16,6 +16,7 @@ type (
 	visitor struct {
 		g     *Gen
 		over  *ast.Ident
+		pkg   ast.Node // the package called over
 		decls []taggedDecl
 	}
 	taggedDecl struct {
@@ -310,11 +311,11 @@ func (v *visitor) exploreInlinedSelector(inlined *ast.SelectorExpr) (fields []*a
 	if !ok {
 		panic(fmt.Errorf("can't inline struct %q; can't recognize %+v expression", inlined.Sel.Name, inlined.X))
 	}
-	pkg, err := v.getPackage(packIdent.Name, inlined.Sel.Name)
+	pkg, err := v.getPackage(packIdent, inlined.Sel.Name)
 	if err != nil {
 		panic(fmt.Errorf("can't inline struct %q; can't parse '%s' package: %+v", inlined.Sel.Name, packIdent.Name, err))
 	}
-	var v1 = visitor{g: v.g, over: packIdent}
+	var v1 = visitor{g: v.g, over: packIdent, pkg: pkg}
 	ast.Walk(&v1, pkg)
 	decl := v1.getDeclByName(inlined.Sel.Name)
 	if decl == nil {
@@ -331,15 +332,20 @@ func (v *visitor) exploreInlinedSelector(inlined *ast.SelectorExpr) (fields []*a
 }
 
 // getPackage finds a package by the name under which it is imported
-func (v *visitor) getPackage(name, typeName string) (ast.Node, error) {
-	if v.over == nil {
-		for _, p := range v.g.packages[name] {
-			if pkg := v.g.importedPackage(p); pkg != nil {
-				return pkg, nil
-			}
+func (v *visitor) getPackage(ident *ast.Ident, typeName string) (ast.Node, error) {
+	packages := v.g.packages
+	if v.over != nil {
+		if ident == v.over {
+			return v.pkg, nil
+		}
+		packages = v.g.importsAt(v.pkg, ident)
+	}
+	for _, p := range packages[ident.Name] {
+		if pkg := v.g.importedPackage(p); pkg != nil {
+			return pkg, nil
 		}
 	}
-	return v.g.discovery.GetPackage(name, typeName)
+	return v.g.discovery.GetPackage(ident.Name, typeName)
 }
 
 func findFieldWithName(fields []*ast.Field, name string) *ast.Field {
diff --git a/generator/parser.go b/generator/parser.go
index 4f80a67..6d153bd 100644
--- a/generator/parser.go
+++ b/generator/parser.go
@@ -41,7 +41,14 @@ func (g *Gen) Parse() (err error) {
 	if err == nil {
 		g.result.Name = g.parsed.(*ast.File).Name
 	}
-	for _, imp := range g.parsed.(*ast.File).Imports {
+	g.packages = g.internalPackages(g.parsed.(*ast.File))
+	return
+}
+
+// internalPackages returns the packages of the module which a file imports, by the names used in the file
+func (g *Gen) internalPackages(file *ast.File) map[string][]explorer.Package {
+	packages := make(map[string][]explorer.Package)
+	for _, imp := range file.Imports {
 		var name string
 		if imp.Name != nil {
 			name = imp.Name.Name
@@ -53,15 +60,27 @@ func (g *Gen) Parse() (err error) {
 		if name == "" {
 			name = g.discovery.PackageNameFromPath(pkgPath)
 		}
-		g.packages[name] = append(
-			g.packages[name],
+		packages[name] = append(
+			packages[name],
 			explorer.Package{
 				Path: pkgPath,
 				Kind: explorer.PkgKindInternal,
 			},
 		)
 	}
-	return
+	return packages
+}
+
+// importsAt returns what is imported by the file of a package which contains the identifier
+func (g *Gen) importsAt(pkg ast.Node, ident *ast.Ident) map[string][]explorer.Package {
+	if pack, ok := pkg.(*ast.Package); ok {
+		for _, file := range pack.Files {
+			if file.Pos() <= ident.Pos() && ident.Pos() < file.End() {
+				return g.internalPackages(file)
+			}
+		}
+	}
+	return nil
 }
 
 func (g *Gen) FixImports(internals ...string) {
-- 
2.43.0


From b0b8772765ac5a4c6650fef246c146b2183d366f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:54 +0000
Subject: [PATCH 20/20] fix: check the range of types declared from declared
 scalars

---
 generator/codegen/transit.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/generator/codegen/transit.go b/generator/codegen/transit.go
index e1b8d14..0c7ed7c 100644
--- a/generator/codegen/transit.go
+++ b/generator/codegen/transit.go
@@ -174,7 +174,11 @@ func (t *Transitive) FillFromFunc() ast.Decl {
 		fn.AppendStmt(
 			asthlp.If(asthlp.NotNil(asthlp.NewIdent(names.VarNameError)), asthlp.Return(asthlp.NewIdent(names.VarNameError))),
 		)
-		if scalar, ok := t.tran.(*ast.Ident); ok {
+		denoted := t.tran
+		for next := helpers.DenotedType(denoted); next != denoted; next = helpers.DenotedType(denoted) {
+			denoted = next
+		}
+		if scalar, ok := denoted.(*ast.Ident); ok {
 			if stmt := field.CheckOverflow(scalar, asthlp.NewIdent("_val"), asthlp.StringConstant("(root)").Expr()); stmt != nil {
 				fn.AppendStmt(stmt)
 			}
-- 
2.43.0

