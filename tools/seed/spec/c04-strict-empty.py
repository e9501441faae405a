exec(open("/verif/tools/seed/spec/common.py").read())
ID="c04-strict-empty"; PROP="C04"
NEEDS="a strict struct without members, given an object that has one"
BREAKS="an unknown member is accepted by a strict type"
EDITS=[("generator/codegen/struct.go","""	//	err = fmt.Errorf("unexpected field '%s.%s'", objPath, string(key))
	if s.tags.StrictRules() {""","""	//	err = fmt.Errorf("unexpected field '%s.%s'", objPath, string(key))
	if s.tags.StrictRules() && len(s.spec.Fields.List) > 0 {""")]
M={"t/types.go":"""package t

//json:strict
type None struct{}

//json:json
type W struct {
	N None `json:"n"`
}
""","main.go":main("""	var w t.W
	must(w.UnmarshalJSON([]byte(`{"n":{}}`)))
	if err := w.UnmarshalJSON([]byte(`{"n":{"a":1}}`)); err == nil {
		fail("unknown member accepted")
	}""")}
