exec(open("/verif/tools/seed/spec/common.py").read())
ID="c03-string-elems"; PROP="C03"; ALSO=["C01"]
NEEDS="a named list of strings given an element that is no string"
BREAKS="the element is taken for an empty string"
EDITS=[("generator/codegen/array.go","""	fn.AppendStmt(
		//	a, err := v.Array()""","""	var checkElem ast.Stmt = asthlp.If(
		asthlp.NotNil(asthlp.NewIdent(names.VarNameError)),
		asthlp.Return(
			asthlp.Call(
				asthlp.InlineFunc(asthlp.NewIdent(names.ParsingError)),
				asthlp.Call(
					asthlp.FmtSprintfFn,
					asthlp.StringConstant("%d").Expr(),
					asthlp.NewIdent(_i),
				),
				asthlp.NewIdent(names.VarNameError),
			),
		),
	)
	if helpers.IsIdent(a.spec.Elt, "string") {
		// strings are checked while they are extracted
		checkElem = asthlp.EmptyStmt()
	}
	fn.AppendStmt(
		//	a, err := v.Array()"""),("generator/codegen/array.go","""				asthlp.If(
					asthlp.NotNil(asthlp.NewIdent(names.VarNameError)),
					asthlp.Return(
						asthlp.Call(
							asthlp.InlineFunc(asthlp.NewIdent(names.ParsingError)),
							asthlp.Call(
								asthlp.FmtSprintfFn,
								asthlp.StringConstant("%d").Expr(),
								asthlp.NewIdent(_i),
							),
							asthlp.NewIdent(names.VarNameError),
						),
					),
				),
""","""				checkElem,
""")]
M={"t/types.go":"""package t

//json:json
type L []string
""","main.go":main("""	var v t.L
	must(v.UnmarshalJSON([]byte(`["a","b"]`)))
	if err := v.UnmarshalJSON([]byte(`["a",1,"b"]`)); err == nil {
		fail("accepted as %q", v)
	}""")}
