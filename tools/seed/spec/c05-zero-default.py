exec(open("/verif/tools/seed/spec/common.py").read())
ID="c05-zero-default"; PROP="C05"
NEEDS="a member whose declared default is zero or false, absent from the document, and a target that already holds something else"
BREAKS="the default is not stored"
EDITS=[("generator/codegen/field/fill.go","""	var refVarName = "__" + name
	if f.isStarType {""","""	if d := f.tags.DefaultValue(); d == "0" || d == "false" {
		// that is what the field holds anyway
		return nil
	}
	var refVarName = "__" + name
	if f.isStarType {""")]
M={"t/types.go":"""package t

//json:json
type S struct {
	N int  `json:"n" default:"0"`
	B bool `json:"b" default:"false"`
}
""","main.go":main("""	v := t.S{N: 5, B: true}
	must(v.UnmarshalJSON([]byte(`{}`)))
	if v.N != 0 || v.B {
		fail("%+v", v)
	}""")}
