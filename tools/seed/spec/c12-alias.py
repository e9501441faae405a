exec(open("/verif/tools/seed/spec/common.py").read())
ID="c12-alias"; PROP="C12"; ALSO=["C13"]
NEEDS="a named list of strings, and a second decode of that type that reuses the parser"
BREAKS="the elements share the memory of the pooled parser and change with the next decode"
EDITS=[("generator/codegen/array.go","""	fn.AppendStmt(
		//	a, err := v.Array()""","""	elemValue := asthlp.VariableTypeConvert("value", a.spec.Elt)
	if helpers.IsIdent(a.spec.Elt, "string") {
		// *(*string)(unsafe.Pointer(&value)) does not copy
		elemValue = asthlp.Star(asthlp.VariableTypeConvert("value", a.spec.Elt))
		elemValue = &ast.StarExpr{X: &ast.CallExpr{
			Fun:  &ast.ParenExpr{X: &ast.StarExpr{X: asthlp.String}},
			Args: []ast.Expr{&ast.CallExpr{Fun: asthlp.SimpleSelector("unsafe", "Pointer"), Args: []ast.Expr{asthlp.Ref(asthlp.NewIdent("value"))}}},
		}}
	}
	fn.AppendStmt(
		//	a, err := v.Array()"""),("generator/codegen/array.go","""					asthlp.VariableTypeConvert("value", a.spec.Elt),
""","""					elemValue,
"""),("generator/parser.go","""	explorer.RegisterPackage("base64", explorer.Package{
		Path: "encoding/base64",
		Kind: explorer.PkgKindSystem,
	})
""","""	explorer.RegisterPackage("base64", explorer.Package{
		Path: "encoding/base64",
		Kind: explorer.PkgKindSystem,
	})
	explorer.RegisterPackage("unsafe", explorer.Package{
		Path: "unsafe",
		Kind: explorer.PkgKindSystem,
	})
""")]
M={"t/types.go":"""package t

//json:json
type L []string
""","main.go":main("""	for i := 0; i < 100; i++ {
		var v, w t.L
		must(v.UnmarshalJSON([]byte(`["aaaaaaaa","b"]`)))
		must(w.UnmarshalJSON([]byte(`["cccccccc","d"]`)))
		if v[0] != "aaaaaaaa" || v[1] != "b" {
			fail("%q", v)
		}
	}""")}
