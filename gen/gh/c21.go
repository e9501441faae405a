package gh

import (
	"go/ast"
	"go/token"
	"strconv"
	"strings"

	"vjcorp/vh"
)

const stand = "~^" // stands for the text in the reference

// meaning renders generated code with the text its literals denote instead of how they are written; in the
// reference the stand-in is replaced by the text.
func meaning(f *ast.File, text string, ref bool) string {
	d := &dumper{lit: func(l *ast.BasicLit) string {
		switch l.Kind {
		case token.STRING:
			v, err := strconv.Unquote(l.Value)
			if err != nil {
				return l.Value // an import with its name
			}
			if ref {
				v = strings.ReplaceAll(v, stand, text)
			}
			return "str:" + v
		case token.CHAR:
			v, _, tail, err := strconv.UnquoteChar(l.Value[1:], '\'')
			if err != nil || tail != "'" {
				return "bad:" + l.Value
			}
			if ref {
				if i := strings.IndexByte(stand, byte(v)); i >= 0 {
					return "chr:" + text[i:i+1]
				}
			}
			return "chr:" + string([]byte{byte(v)})
		}
		return l.Value
	}}
	ast.Inspect(f, d.visit)
	return d.s.String()
}

var nameTypes = [][]string{
	{"int", "string", "*bool", "[]int"},
	{"map[string]string", "*E", "E", "S"},
	{"time.Time", "*time.Time", "[]*E", "[2]int"},
	{"uuid.UUID", "[]byte", "*string", "*uint8"},
	{"float64", "map[string]*E", "*[]string", "[]time.Time"},
}

// symbolic names are made of the characters encoding/json allows
const punct = "!#$%&()*+-./:;<=>?@[]^_{|}~ "

func nameChar(c byte) {
	var half [2]uint64
	for x := byte(0); x < 128; x++ {
		if x-'0' < 10 || (x|0x20)-'a' < 26 || strings.IndexByte(punct, x) >= 0 {
			half[x>>6] |= 1 << (x & 63)
		}
	}
	vh.Assume(c < 128)
	m := half[0] ^ (half[0]^half[1])&-(uint64(c)>>6)
	vh.Assume(m>>(c&63)&1 == 1)
}

func quote(s string, raw bool) string {
	if raw {
		return "`" + s + "`"
	}
	return strconv.Quote(s)
}

const prelude = "package p\n\nimport (\n\t\"time\"\n\n\t\"github.com/google/uuid\"\n)\n\ntype E struct {\n\tA int `json:\"a\"`\n}\n\ntype S string\n\ntype I int\n\nvar _ time.Time\nvar _ uuid.UUID\n\n"

func gen(src string) *ast.File {
	dir := tree([]File{{"go.mod", gomod}, {"x.go", src}})
	defer cleanup(dir)
	return Generate(dir, "x.go")
}

func c21(k int, deep bool) {
	if k < 2*len(nameTypes) {
		c21names(nameTypes[k/2], k%2 == 0)
		return
	}
	k -= 2 * len(nameTypes)
	n := 1
	if deep || k == 4 {
		n += vh.Choice(2)
	}
	raw := vh.Choice(2) == 1
	w := vh.NdStr(n)
	for i := 0; i < n; i++ {
		vh.Assume(w[i] < 128)
		vh.Assume(!raw || w[i] != '`')
	}
	if n == 1 && k != 4 {
		w = []string{"a", "%"}[vh.Choice(2)] + w + []string{"", "d"}[vh.Choice(2)]
	}
	switch k {
	case 0, 1: // a default
		v := strconv.Quote(w)
		field := func(i int, t, d string) string {
			return "\tF" + strconv.Itoa(i) + " " + t + " " + quote(`json:"f`+strconv.Itoa(i)+`" default:`+d, raw) + "\n"
		}
		body := func(d string) string {
			s := prelude + "//json:" + []string{"strict", "plain"}[k] + "\ntype T struct {\n"
			for i, t := range []string{"string", "S", "*string"} {
				s += field(i, t, d)
			}
			return s + "}\n"
		}
		a, r := gen(body(v)), gen(body(strconv.Quote(stand)))
		vh.Covered()
		vh.Check(meaning(a, w, false) == meaning(r, w, true), "C21", "a default appears differently")
	case 2, 3: // a layout
		v := strconv.Quote(w)
		body := func(d string) string {
			s := prelude + "//json:" + []string{"strict", "plain"}[k-2] + "\ntype T struct {\n"
			s += "\tA time.Time " + quote(`json:"a,omitempty" layout:`+d, raw) + "\n"
			s += "\tB *time.Time " + quote(`json:"b" layout:`+d, raw) + "\n"
			return s + "}\n"
		}
		a, r := gen(body(v)), gen(body(strconv.Quote(stand)))
		vh.Covered()
		vh.Check(meaning(a, w, false) == meaning(r, w, true), "C21", "a layout appears differently")
	case 4: // number defaults
		for i := 0; i < n; i++ {
			vh.Assume(w[i]-'0' < 10)
		}
		vh.Assume(w[0] != '0')
		t := []string{"int", "I", "*int", "uint8", "float64"}[vh.Choice(5)]
		neg := ""
		if t != "uint8" && vh.Choice(2) == 1 {
			neg = "-"
		}
		body := func(d string) string {
			return prelude + "//json:plain\ntype T struct {\n\tA " + t + " " + quote(`json:"a" default:"`+d+`"`, raw) + "\n}\n"
		}
		a, r := gen(body(neg+w)), gen(body("77"))
		vh.Covered()
		num := func(f *ast.File, ref bool) string {
			d := &dumper{lit: func(l *ast.BasicLit) string {
				if ref && l.Value == "77" {
					return neg + w
				}
				return l.Value
			}}
			ast.Inspect(f, func(n ast.Node) bool {
				if u, ok := n.(*ast.UnaryExpr); ok && u.Op == token.SUB {
					d.s.WriteString("(-")
					d.s.WriteString(u.X.(*ast.BasicLit).Value + "))")
					return false
				}
				return d.visit(n)
			})
			return d.s.String()
		}
		vh.Check(num(a, false) == num(r, true), "C21", "a number default appears differently")
	}
}

func c21names(types []string, strict bool) {
	n := 2
	w := vh.NdStr(n)
	for i := 0; i < n; i++ {
		nameChar(w[i])
	}
	raw := vh.Choice(2) == 1
	form := vh.Choice(4)
	opt := []string{"", ",omitempty", ",required"}[vh.Choice(3)]
	name := func(t string, i int) string {
		l := string([]byte{byte('a' + i)})
		switch form {
		case 0:
			return t + l
		case 1:
			return l + t
		case 2:
			return l + t + l
		}
		if i == 0 {
			return t
		}
		return t + l
	}
	body := func(t string) string {
		s := prelude + "//json:plain"
		if strict {
			s = prelude + "//json:strict"
		}
		s += "\ntype T struct {\n"
		for i, ft := range types {
			s += "\tF" + strconv.Itoa(i) + " " + ft + " " + quote(`json:"`+name(t, i)+opt+`"`, raw) + "\n"
		}
		return s + "}\n"
	}
	a, r := gen(body(w)), gen(body(stand))
	vh.Covered()
	vh.Check(meaning(a, w, false) == meaning(r, w, true), "C21", "a name appears differently")
}
