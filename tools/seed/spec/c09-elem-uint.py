exec(open("/verif/tools/seed/spec/common.py").read())
ID="c09-elem-uint"; PROP="C09"; ALSO=["C08"]
NEEDS="a collection of uint with an element above the maximum of int64"
BREAKS="the element is written as a negative number, so what was encoded cannot be decoded"
EDITS=[("generator/codegen/field/fields.go","""		case "int", "int8", "int16", "int32", "int64":
			return func(src ast.Expr) []ast.Stmt {""","""		case "int", "int8", "int16", "int32", "int64", "uint":
			return func(src ast.Expr) []ast.Stmt {"""),
("generator/codegen/field/fields.go","""		case "uint", "uint8", "uint16", "uint32", "uint64":
			return func(src ast.Expr) []ast.Stmt {""","""		case "uint8", "uint16", "uint32", "uint64":
			return func(src ast.Expr) []ast.Stmt {""")]
M={"t/types.go":"""package t

//json:json
type S struct {
	F []uint `json:"f"`
}
""","main.go":main("""	v := t.S{F: []uint{1, 1<<64 - 1}}
	b, err := v.MarshalJSON()
	must(err)
	var w t.S
	must(w.UnmarshalJSON(b))
	if len(w.F) != 2 || w.F[1] != 1<<64-1 {
		fail("restored as %v", w.F)
	}""")}
