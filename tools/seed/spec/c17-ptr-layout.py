exec(open("/verif/tools/seed/spec/common.py").read())
ID="c17-ptr-layout"; PROP="C17"; ALSO=["C09"]
NEEDS="an omitempty pointer to a time with a layout of its own"
BREAKS="the time is written in the default layout and cannot be read back"
EDITS=[("generator/codegen/field/marshalers.go","""	if isStar {
		notZero = asthlp.NotNil(src)
		src = asthlp.Star(src)
	}
	var w = WriteBlock{
		NotZero: notZero,
		Block: []ast.Stmt{
			// result.RawString(`"date_begin":`)""","""	if isStar {
		notZero = asthlp.NotNil(src)
		src = asthlp.Star(src)
		if omitempty {
			layoutExpr = names.TimeDefaultLayout
		}
	}
	var w = WriteBlock{
		NotZero: notZero,
		Block: []ast.Stmt{
			// result.RawString(`"date_begin":`)""")]
M={"t/types.go":"""package t

import "time"

//json:json
type S struct {
	F *time.Time `json:"f,omitempty" layout:"2006-01-02"`
	G *time.Time `json:"g" layout:"2006-01-02"`
}
""","main.go":main("""	at := time.Date(2020, 1, 2, 0, 0, 0, 0, time.UTC)
	v := t.S{F: &at, G: &at}
	b, err := v.MarshalJSON()
	must(err)
	if string(b) != `{"f":"2020-01-02","g":"2020-01-02"}` {
		fail("written as %s", b)
	}""",("time",))}
