package gh

import (
	"strings"

	"vjcorp/vh"
)

// shapes are declarations of T.
var shapes = []string{
	"type T struct {\n\tA int `json:\"a\"`\n\tB []string `json:\"b,omitempty\"`\n}\n",
	"type T struct{}\n",
	"type T []E\n\ntype E struct {\n\tA int `json:\"a\"`\n}\n",
	"type T map[string]int\n",
	"type T [2]string\n",
	"type T []byte\n",
	"type T E\n\ntype E struct {\n\tA int `json:\"a\"`\n}\n",
	"type T string\n",
}

const before = "package p\n\n// U has no directive.\ntype U struct {\n\tA int `json:\"a\"`\n}\n\n"
const after = "\n//json:strict,plain\ntype V struct {\n\tA int `json:\"a\"`\n}\n"

func source(doc, shape string, group bool) string {
	if group {
		shape = strings.TrimPrefix(shape, "type ")
		var rest string
		if i := strings.Index(shape, "\n\ntype E "); i >= 0 {
			shape, rest = shape[:i+1], shape[i+2:]
		}
		return before + "type (\n\t// W has no directive.\n\tW struct {\n\t\tA int `json:\"a\"`\n\t}\n\n" + doc + "\n" + shape + "\n\tX int\n)\n\n" + rest + after
	}
	return before + doc + "\n" + shape + after
}

// is tells whether an option is a word, letter case aside.
func is(o, word string) bool {
	if len(o) != len(word) {
		return false
	}
	var diff byte
	for i := 0; i < len(o); i++ {
		diff |= (o[i] | 0x20) ^ word[i]
	}
	return diff == 0
}

type option struct {
	text string // as written
	word string // what it means, "" nothing, "?" some unknown word
}

var lens = []int{6, 6, 4, 0, 7}

func anyOption(long bool) option {
	k := len(lens) - 1
	if long {
		k++
	}
	k = vh.Choice(k)
	w := vh.NdStr(lens[k])
	for i := 0; i < len(w); i++ {
		vh.Assume((w[i]|0x20)-'a' < 26)
	}
	o := option{text: w, word: "?"}
	switch {
	case w == "":
		o.word = ""
	case is(w, "strict"):
		o.word = "strict"
	case is(w, "custom"):
		o.word = "custom"
	case is(w, "encode"):
		o.word = "encode"
	case is(w, "decode"):
		o.word = "decode"
	case is(w, "transit"):
		o.word = "transit"
	}
	switch k {
	case 1:
		o.text = " \t" + w
	case 3:
		o.text = "  "
	}
	if k == 1 {
		o.text += " "
	}
	return o
}

func c22(k int, deep bool) {
	shape := shapes[k%len(shapes)]
	k /= len(shapes)
	n := 2
	if deep {
		n = 3
	}
	pre := "//json:"
	var doc string
	var os []option
	lines := 1
	group := false
	switch k {
	case 0: // nothing but other comments
		j := vh.Choice(6)
		doc = []string{"", "// T is documented.\n", "// json is the format of T.\n", "// see json:strict\n", "", ""}[j]
		if j >= 4 { // nearly a directive
			c := vh.NdStr(1)
			vh.Assume(c[0]-33 < 94)
			if j == 4 {
				vh.Assume(c[0] != '/')
				doc = "//" + c + "json:strict\n"
			} else {
				vh.Assume(c[0] != ':')
				doc = "//json" + c + "strict\n"
			}
		}
		o := Alone(source(strings.TrimSuffix(doc, "\n"), shape, false))
		vh.Covered()
		vh.Check(len(o.Of("T")) == 0 && len(o.Of("E")) == 0, "C22", "methods without a directive")
		checkOthers(o)
		if j == 0 {
			halves(shape)
		}
		return
	case 1:
		n = 1
		pre = []string{"//json:", "// json:", "//\tjson:", "// \t json:"}[vh.Choice(4)]
	case 2: // another comment around it
		n = 1
		doc = "// T is documented.\n"
		lines = 2
	case 3: // two options, on one line or two
		lines = 1 + vh.Choice(2)
	case 4: // in a group
		n = 1
		group = true
	}
	for i := 0; i < n; i++ {
		os = append(os, anyOption(n == 1))
	}
	doc += pre
	for i, o := range os {
		if i == 1 && lines == 2 {
			doc += "\n// json:"
		} else if i > 0 {
			doc += ","
		}
		doc += o.text
	}
	if k == 2 {
		doc += "\n// The end."
	}
	has := func(w string) bool {
		for _, o := range os {
			if o.word == w {
				return true
			}
		}
		return false
	}
	var opts []string
	for _, w := range []string{"strict", "custom", "encode", "decode", "transit", "?"} {
		if has(w) {
			if w == "?" {
				w = "plain"
			}
			opts = append(opts, w)
		}
	}
	vh.Assume(!(has("encode") && has("decode")))
	o := Alone(source(doc, shape, group))
	ref := Alone(source("//json:"+strings.Join(opts, ","), shape, group && vh.Choice(2) == 1))
	vh.Covered()
	same := len(o.Methods) == len(ref.Methods)
	for _, m := range ref.Methods {
		same = same && o.Has(m)
	}
	vh.Check(same, "C22", "other methods than for the same options written plainly")
	for _, m := range ref.Methods {
		vh.Check(o.Body(m) == ref.Body(m), "C22", "another method body than for the same options written plainly")
	}
	vh.Check(o.Rest == ref.Rest, "C22", "other variables than for the same options written plainly")
	if len(opts) > 0 {
		dec := !has("encode") && !has("custom")
		enc := !has("decode") && !has("custom")
		vh.Check(o.Has("T.UnmarshalJSON") == dec, "C22", "decoder generated exactly if wanted")
		vh.Check(o.Has("T.MarshalJSON") == enc, "C22", "encoder generated exactly if wanted")
		if !dec && !enc {
			vh.Check(len(o.Of("T")) == 0, "C22", "methods for a custom type")
		}
	}
	checkOthers(o)
}

func checkOthers(o *Out) {
	vh.Check(len(o.Of("U")) == 0 && len(o.Of("W")) == 0 && len(o.Of("X")) == 0, "C22", "methods for a type without a directive")
	vh.Check(o.Has("V.UnmarshalJSON") && o.Has("V.MarshalJSON"), "C22", "methods of another type missing")
}

// halves: what encode-only and decode-only types get adds up to what other types get.
func halves(shape string) {
	all := Alone(source("//json:plain", shape, false)).Of("T")
	enc := Alone(source("//json:encode", shape, false)).Of("T")
	dec := Alone(source("//json:decode", shape, false)).Of("T")
	in := func(m string, ms []string) bool {
		for _, x := range ms {
			if x == m {
				return true
			}
		}
		return false
	}
	for _, m := range all {
		vh.Check(in(m, enc) != in(m, dec), "C22", "a method neither of the encoder nor of the decoder, or of both")
	}
	vh.Check(len(enc)+len(dec) == len(all), "C22", "a method only for encode-only or decode-only types")
}
