package gh

import (
	"vjcorp/vh"
)

var ys = []string{
	`package y

import (
	"time"

	"github.com/google/uuid"
)

//json:strict
type Y struct {
	A time.Time            ` + "`json:\"a\"`" + `
	B uuid.UUID            ` + "`json:\"b\"`" + `
	C []byte               ` + "`json:\"c\"`" + `
	D map[string]time.Time ` + "`json:\"d\"`" + `
	E []*int               ` + "`json:\"e,omitempty\"`" + `
	F Z                    ` + "`json:\"f\" default:\"q\"`" + `
}

type Z string
`,
	`package y

import (
	"ex.org/m/b"
	"ex.org/m/d"
)

//json:plain
type Y struct {
	b.Base ` + "`json:\",inline\"`" + `
	A b.Item   ` + "`json:\"a\"`" + `
	B d.Item   ` + "`json:\"b\"`" + `
	C []b.Item ` + "`json:\"c\"`" + `
}
`,
	`package y

import "time"

//json:plain
type Y []E

type E struct {
	A int ` + "`json:\"a\"`" + `
}

//json:plain
type M map[string]Y

//json:plain
type B []byte

//json:plain
type T time.Time
`,
	`package y

import q "ex.org/m/b"

//json:plain
type Y []q.Item

//json:strict
type S struct {
	A q.Item ` + "`json:\"a\"`" + `
	I ` + "`json:\",inline\"`" + `
}

type I struct {
	B *q.Item ` + "`json:\"b\"`" + `
}
`,
}

var mods = []File{
	{"go.mod", "module ex.org/m\n\ngo 1.20\n"},
	{"a/a.go", "package a\n\ntype Item struct {\n\tA int `json:\"a\"`\n}\n\ntype Base struct {\n\tZ int `json:\"z\"`\n}\n"},
	{"b/b.go", "package b\n\ntype Item string\n\ntype Base struct {\n\tP int `json:\"p\"`\n}\n"},
	{"d/d.go", "package d\n\ntype Item int\n"},
	{"d/tool.go", "//go:build ignore\n\npackage main\n\ntype Item struct {\n\tA int `json:\"a\"`\n}\n"},
}

var words = []string{"if", "go", "for", "map", "var", "func", "type", "else", "case", "goto", "chan", "break", "const", "defer", "range", "import", "return", "select", "struct", "switch", "default", "package", "continue", "interface", "fallthrough"}

// anyName is an arbitrary lower-case identifier.
func anyName(n int) string {
	w := vh.NdStr(n)
	for i := 0; i < n; i++ {
		vh.Assume(w[i]-'a' < 26)
	}
	notWord(w, words)
	return w
}

func notWord(w string, ws []string) {
	for _, x := range ws {
		if len(x) == len(w) {
			var diff byte
			for i := 0; i < len(w); i++ {
				diff |= w[i] ^ x[i]
			}
			vh.Assume(diff != 0)
		}
	}
}

var nameLens = []int{1, 2, 3, 4, 5, 6, 7, 8}

// c24: a file is generated, then another one with an arbitrary import name, then the first again.
func c24(k int, deep bool) {
	y := ys[k%len(ys)]
	k /= len(ys)
	q := "q"
	x := 0
	if k < len(nameLens) {
		q = anyName(nameLens[k])
	} else {
		x = 1
	}
	fs := append([]File(nil), mods...)
	fs = append(fs, File{"y/y.go", y})
	fs = append(fs, File{"x/x.go", "package x\n\nimport " + q + " \"ex.org/m/a\"\n\n//json:plain\ntype X struct {\n\t" + q + ".Base `json:\",inline\"`\n\tA " + q + ".Item `json:\"a\"`\n\tB []" + q + ".Item `json:\"b\"`\n}\n"})
	dir := tree(fs)
	defer cleanup(dir)
	o1 := Read(Generate(dir, "y/y.go"))
	if x == 1 { // nothing between; the order of maps must not matter
		vh.MapOrder(1 + vh.Choice(2))
		o2 := Read(Generate(dir, "y/y.go"))
		vh.MapOrder(0)
		vh.Covered()
		vh.Check(equal(o1, o2) == "", "C24", "generated again, different "+equal(o1, o2))
		return
	}
	how := vh.Choice(2)
	r := vh.Guard(func() {
		if how == 0 {
			Generate(dir, "x/x.go")
		} else {
			Generate(dir, "x/x.go", q, "ex.org/m/a")
		}
	})
	vh.Check(r == "", "C24", "the generator refuses a file")
	o2 := Read(Generate(dir, "y/y.go"))
	vh.Covered()
	vh.Check(equal(o1, o2) == "", "C24", "generated after another file, different "+equal(o1, o2))
}
