exec(open("/verif/tools/seed/spec/common.py").read())
ID="c11-array-negative"; PROP="C11"
NEEDS="a named array of numbers without positive elements and with a negative one"
BREAKS="the emptiness test answers true although an element carries information"
EDITS=[("generator/codegen/array.go","""			isZero = asthlp.NotEqual(asthlp.NewIdent("_v"), zero)
""","""			isZero = asthlp.Great(asthlp.NewIdent("_v"), zero)
""")]
M={"t/types.go":"""package t

//json:json
type A [3]int32
""","main.go":main("""	if !(t.A{}).IsZero() || (t.A{0, 1, 0}).IsZero() {
		fail("not even that")
	}
	if (t.A{0, -1, 0}).IsZero() {
		fail("[0 -1 0] counts as empty")
	}""")}
