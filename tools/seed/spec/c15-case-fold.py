exec(open("/verif/tools/seed/spec/common.py").read())
ID="c15-case-fold"; PROP="C15"; ALSO=["C04"]
NEEDS="a strict struct inlining one that has a field named like it but for the case of letters"
BREAKS="the members of the inlined struct are not accepted in the enclosing object"
EDITS=[("generator/analyse.go","""			if fldName.Name != name {
				continue""","""			if !strings.EqualFold(fldName.Name, name) {
				continue""")]
M={"t/types.go":"""package t

//json:json
type Ident struct {
	IDENT int    `json:"id"`
	Kind  string `json:"kind"`
}

//json:strict
type S struct {
	Ident `json:",inline"`
	N     int `json:"n"`
}
""","main.go":main("""	var v t.S
	must(v.UnmarshalJSON([]byte(`{"id":1,"kind":"x","n":2}`)))
	if v.IDENT != 1 || v.Kind != "x" || v.N != 2 {
		fail("%+v", v)
	}
	b, err := v.MarshalJSON()
	must(err)
	if string(b) != `{"id":1,"kind":"x","n":2}` {
		fail("%s", b)
	}""")}
