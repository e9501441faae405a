exec(open("/verif/tools/seed/spec/common.py").read())
ID="c10-array-last"; PROP="C10"
NEEDS="a struct with a fixed array of numbers whose last element is not zero"
BREAKS="the last element survives the reset"
EDITS=[("generator/codegen/codegen.go","""			return []ast.Stmt{
				asthlp.Assign(asthlp.VarNames{name}, asthlp.Assignment, asthlp.StructLiteral(tt).Expr()),
			}
		}
""","""			if helpers.IsOrdinal(tt.Elt) && helpers.ZeroValueOfT(tt.Elt) == asthlp.Zero && !helpers.IsIdent(tt.Elt, "byte") {
				// clears numbers in place
				return []ast.Stmt{
					asthlp.Range(true, nm[lvl], "", asthlp.SliceExpr(name, asthlp.IntegerConstant(1), nil),
						resetStmt(tt.Elt, asthlp.Index(name, asthlp.FreeExpression(asthlp.NewIdent(nm[lvl]))), lvl+1)...,
					),
				}
			}
			return []ast.Stmt{
				asthlp.Assign(asthlp.VarNames{name}, asthlp.Assignment, asthlp.StructLiteral(tt).Expr()),
			}
		}
""")]
M={"t/types.go":"""package t

//json:json
type S struct {
	F [3]int `json:"f"`
	G string `json:"g"`
}
""","main.go":main("""	v := t.S{F: [3]int{1, 2, 3}, G: "x"}
	v.Reset()
	if v != (t.S{}) {
		fail("after reset: %+v", v)
	}""")}
