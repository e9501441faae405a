exec(open("/verif/tools/seed/spec/common.py").read())
ID="c08-named-uint64"; PROP="C08"; ALSO=["C09","C16"]
NEEDS="a type declared from an unsigned integer (type Counter uint64) with its own methods, holding a value above the maximum of int64"
BREAKS="the value is written as a negative number"
EDITS=[("generator/codegen/transit.go","""				names.WriteUint64Func,
				asthlp.ExpressionTypeConvert(src, asthlp.UInt64),""","""				names.WriteInt64Func,
				asthlp.ExpressionTypeConvert(src, asthlp.Int64),""")]
M={"t/types.go":"""package t

//json:json
type Counter uint64
""","main.go":main("""	v := t.Counter(1<<63 + 5)
	b, err := v.MarshalJSON()
	must(err)
	if string(b) != "9223372036854775813" {
		fail("written as %s", b)
	}""")}
