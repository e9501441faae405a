package gh

import (
	"strings"

	"vjcorp/vh"
)

var kinds = []string{
	"string",
	"int",
	"struct {\n\tA int `json:\"a\"`\n}",
	"[]string",
	"map[string]bool",
	"float32",
	"[2]int",
	"[]byte",
}

// uses of the imported type Item; Q stands for the qualifier.
var uses = []string{
	"type T struct {\n\tF Q.Item `json:\"f\"`\n}\n",
	"type T []Q.Item\n",
	"type T Q.Item\n",
	"type T struct {\n\tF []Q.Item `json:\"f\"`\n\tG *Q.Item `json:\"g\"`\n}\n",
	"type T map[string]Q.Item\n",
	"type T struct {\n\tF *Q.Item `json:\"f,omitempty\"`\n\tG map[string]Q.Item `json:\"g\"`\n}\n",
	"type T struct {\n\tQ.Base `json:\",inline\"`\n}\n",
	"type T struct {\n\tF int `json:\"f\"`\n\tQ.Base `json:\"base\"`\n}\n",
	"type T struct {\n\tF Q.Item `json:\"f\" default:\"1\"`\n}\n",
}

// letters the generated code uses for its own variables, and names it imports
var taken = []string{"s", "v", "o", "i", "j", "k", "l", "m", "n", "x", "e", "t", "z"}

func letter() string {
	w := vh.NdStr(1)
	vh.Assume(w[0]-'a' < 26)
	notWord(w, taken)
	return w
}

const (
	ownA = "\ntype Own struct {\n\tA int `json:\"a\"`\n}\n"
	ownB = "\ntype Own string\n"
	preA = "P int `json:\"p\"`\n\tO Own `json:\"own\"`"
	preB = "R string `json:\"r\"`"
)

// files of a package that declares the type as the kind says.
func decls(dir, clause, kind, name, base, own string, apart bool) []File {
	head := "package " + clause + "\n"
	rest := "\ntype Base struct {\n\t" + base + "\n}\n" + own
	text := "\ntype " + name + " " + kind + "\n"
	if dir != "" {
		dir += "/"
	}
	if i := strings.Index(kind, "\n\ntype "); i >= 0 && apart {
		text = "\ntype " + name + " " + kind[:i+1]
		rest = kind[i+1:] + "\n" + rest
	}
	if apart {
		return []File{{dir + "p.go", head + text}, {dir + "a.go", head + rest}}
	}
	return []File{{dir + "p.go", head + text + rest}}
}

func program(imps []string, use string) File {
	return File{"x/x.go", "package x\n\nimport (\n\t" + strings.Join(imps, "\n\t") + "\n)\n\n//json:plain\n" + use}
}

// spec is an import specification under an arbitrary name or none; q is what the package is called then.
func spec(path, clause string) (imp, q string) {
	if vh.Choice(2) == 0 {
		return "\"" + path + "\"", clause
	}
	q = letter()
	return q + " \"" + path + "\"", q
}

const modName = "ex.org/m"

// checkImports compares what is imported with what is expected: paths[i], declared clauses[i], is called quals[i].
func checkImports(o, ref *Out, paths, clauses, quals, refs []string) {
	has := func(o *Out, p string) bool {
		for _, x := range o.Imports {
			if x == "\""+p+"\"" {
				return true
			}
		}
		return false
	}
	for i, p := range paths {
		vh.Check(has(o, p) == has(ref, refs[i]), "C23", "package imported exactly if used")
	}
	for i, p := range o.Imports {
		if !strings.HasPrefix(p, "\""+modName) {
			continue
		}
		known := false
		for j, x := range paths {
			if p != "\""+x+"\"" {
				continue
			}
			known = true
			n := o.Names[i]
			if n == "" {
				n = clauses[j]
			}
			vh.Check(n == quals[j], "C23", "package imported under another name")
		}
		vh.Check(known, "C23", "another package imported")
	}
	o.Imports, o.Names, ref.Imports, ref.Names = nil, nil, nil, nil
	vh.Check(equal(o, ref) == "", "C23", "not treated as the imported type, different "+equal(o, ref))
}

// compare generates a file in its module and the same file where nothing is ambiguous.
func compare(fs, ref []File, quals, refQuals []string, types, refTypes string) (o, r *Out) {
	dir := tree(fs)
	defer cleanup(dir)
	e1 := vh.Guard(func() { o = ReadAs(Generate(dir, "x/x.go"), quals, types) })
	rd := tree(ref)
	defer cleanup(rd)
	e2 := vh.Guard(func() { r = ReadAs(Generate(rd, "x/x.go"), refQuals, refTypes) })
	vh.Covered()
	if e2 != "" { // a use that is not supported
		vh.Check(e1 != "", "C23", "the generator accepts what it refuses elsewhere")
		return nil, nil
	}
	vh.Check(e1 == "", "C23", "the generator refuses a file")
	if e1 != "" {
		return nil, nil
	}
	return o, r
}

// c23: two packages of a module declare types of the same names; a file uses one of them or both.
func c23(k int, deep bool) {
	use := uses[k%len(uses)]
	part := k / len(uses)
	ka := vh.Choice(len(kinds))
	kb := (ka + 1) % len(kinds)
	pa, pb, pc := "a", "b", ""
	name := "Item"
	apart := false
	kind := kinds[ka]
	switch part {
	case 1: // the same last element of the paths
		pb = "sub/a"
		kb = (ka + 3) % len(kinds)
	case 2:
		pa, pb = "sub/a", "a"
	case 3: // the package at the root of the module
		pa, pb = "", "a"
	case 4: // the type and what it is made of in different files
		apart = true
	case 5: // declared by way of another type, perhaps in another file
		apart = vh.Choice(2) == 1
		kind = "Other\n\ntype Other " + kinds[ka]
	case 6:
		name = "Time"
	case 7:
		name = "UUID"
	case 8:
		both(use, ka, kb)
		return
	case 9: // directories
		pa = dirs[vh.Choice(len(dirs))]
	case 10: // three packages, all may declare the same name
		pb, pc = "sub/a", "c/sub/a"
		if vh.Choice(2) == 1 {
			pa, pc = pc, pa
		}
	case 11, 12:
		nested(k-99, ka, kb)
		return
	}
	if strings.Contains(use, "default") && (ka != 0 && ka != 1) {
		vh.Assume(false)
	}
	if (part == 6 || part == 7) && !strings.Contains(use, "Item") {
		vh.Assume(false)
	}
	ca, cb := letter(), letter() // package clauses
	path := modName
	if pa != "" {
		path += "/" + pa
	}
	imp, q := spec(path, ca)
	fs := []File{{"go.mod", "module " + modName + "\n\ngo 1.20\n"}}
	ref := append([]File(nil), fs...)
	fs = append(fs, decls(pa, ca, kind, name, preA, ownA, apart)...)
	fs = append(fs, decls(pb, cb, kinds[kb], name, preB, ownB, false)...)
	if pc != "" {
		fs = append(fs, decls(pc, letter(), kinds[(ka+2)%len(kinds)], name, preB, ownB, false)...)
	}
	text := strings.ReplaceAll(strings.ReplaceAll(use, "Item", name), "Q.", q+".")
	fs = append(fs, program([]string{imp}, text))
	ref = append(ref, decls("z", "z", kind, "Item", preA, ownA, false)...)
	ref = append(ref, program([]string{"\"" + modName + "/z\""}, strings.ReplaceAll(use, "Q.", "z.")))
	o, r := compare(fs, ref, []string{q}, []string{"z"}, name, "Item")
	if o != nil {
		checkImports(o, r, []string{path}, []string{ca}, []string{q}, []string{modName + "/z"})
	}
}

var dirs = []string{"internal", "internal/a", "pkg/internal", "v2", "a/v2", "go-a", "a.b", "cmd/a", "_a", "testdata/a"}

// what package a declares of Deep, in terms of what it declares and of what a package C declares.
var deeps = []struct{ a, c, use string }{
	{"type Deep struct {\n\tBase `json:\",inline\"`\n\tD bool `json:\"d\"`\n}\n", "", "type T struct {\n\tQ.Deep `json:\",inline\"`\n}\n"},
	{"type Deep struct {\n\tMid `json:\",inline\"`\n\tD bool `json:\"d\"`\n}\n\ntype Mid struct {\n\tM int8 `json:\"m\"`\n\tBase `json:\",inline\"`\n}\n", "", "type T struct {\n\tE int `json:\"e\"`\n\tQ.Deep `json:\",inline\"`\n}\n"},
	{"type Deep struct {\n\tBase\n\tD bool `json:\"d\"`\n}\n", "", "type T struct {\n\tQ.Deep `json:\",inline\"`\n}\n"},
	{"type Deep struct {\n\tBase `json:\"base\"`\n\tD Item `json:\"d\"`\n}\n", "", "type T struct {\n\tQ.Deep `json:\",inline\"`\n}\n"},
	{"type Deep Base\n", "", "type T struct {\n\tF Q.Deep `json:\"f\"`\n}\n"},
	{"type Deep []Item\n", "", "type T struct {\n\tF Q.Deep `json:\"f,omitempty\"`\n}\n"},
	{"type Deep struct {\n\tC.Low `json:\",inline\"`\n\tD bool `json:\"d\"`\n}\n", "type Low struct {\n\tL string `json:\"l\"`\n}\n", "type T struct {\n\tQ.Deep `json:\",inline\"`\n}\n"},
	{"type Deep C.Low\n", "type Low string\n", "type T struct {\n\tF Q.Deep `json:\"f\"`\n}\n"},
	{"type Deep C.Low\n", "type Low struct {\n\tL string `json:\"l\"`\n}\n", "type T struct {\n\tF []Q.Deep `json:\"f\"`\n}\n"},
}

// nested: what a package declares is made of other declarations of the package or of another one.
func nested(k, ka, kb int) {
	x := deeps[k]
	ca, cb := letter(), letter()
	im, q := spec(modName+"/a", ca)
	fs := []File{{"go.mod", "module " + modName + "\n\ngo 1.20\n"}}
	ref := append([]File(nil), fs...)
	fs = append(fs, decls("b", cb, kinds[kb], "Item", preB, ownB, false)...)
	fs = append(fs, File{"b/d.go", "package " + cb + "\n\ntype Deep struct {\n\tX float32 `json:\"x\"`\n}\n\ntype Low int\n\ntype Mid struct {\n\tY int `json:\"y\"`\n}\n"})
	fs = append(fs, decls("a", ca, kinds[ka], "Item", preA, ownA, false)...)
	ref = append(ref, decls("z", "z", kinds[ka], "Item", preA, ownA, false)...)
	ia, a := "", x.a
	ir, r := "", x.a
	if x.c != "" {
		cc := letter()
		ic, qc := spec(modName+"/c", cc)
		ia, a = "\nimport "+ic+"\n", strings.ReplaceAll(a, "C.", qc+".")
		ir, r = "\nimport \""+modName+"/y\"\n", strings.ReplaceAll(r, "C.", "y.")
		fs = append(fs, File{"c/c.go", "package " + cc + "\n\n" + x.c})
		ref = append(ref, File{"y/c.go", "package y\n\n" + x.c})
	}
	fs = append(fs, File{"a/d.go", "package " + ca + "\n" + ia + "\n" + a})
	ref = append(ref, File{"z/d.go", "package z\n" + ir + "\n" + r})
	fs = append(fs, program([]string{im}, strings.ReplaceAll(x.use, "Q.", q+".")))
	ref = append(ref, program([]string{"\"" + modName + "/z\""}, strings.ReplaceAll(x.use, "Q.", "z.")))
	o, rf := compare(fs, ref, []string{q}, []string{"z"}, "", "")
	if o != nil {
		checkImports(o, rf, []string{modName + "/a"}, []string{ca}, []string{q}, []string{modName + "/z"})
	}
}

// both packages are used in one file.
func both(use string, ka, kb int) {
	ca, cb := letter(), letter()
	if strings.Contains(use, "default") || strings.Contains(use, "inline") && vh.Choice(2) == 1 {
		vh.Assume(false)
	}
	pb := []string{"b", "sub/a"}[vh.Choice(2)]
	i1, q1 := spec(modName+"/a", ca)
	i2, q2 := spec(modName+"/"+pb, cb)
	vh.Assume(q1 != q2)
	text := func(a, b string) string {
		t := strings.ReplaceAll(use, "Q.", a+".")
		if strings.Contains(t, "struct") {
			return strings.Replace(t, "struct {", "struct {\n\tH "+b+".Item `json:\"h\"`", 1)
		}
		return t + "\n//json:plain\ntype R struct {\n\tH " + b + ".Item `json:\"h\"`\n}\n"
	}
	fs := []File{{"go.mod", "module " + modName + "\n\ngo 1.20\n"}}
	ref := append([]File(nil), fs...)
	fs = append(fs, decls("a", ca, kinds[ka], "Item", preA, ownA, false)...)
	fs = append(fs, decls(pb, cb, kinds[kb], "Item", preB, ownB, false)...)
	fs = append(fs, program([]string{i1, i2}, text(q1, q2)))
	ref = append(ref, decls("z", "z", kinds[ka], "Item", preA, ownA, false)...)
	ref = append(ref, decls("zz", "zz", kinds[kb], "Item", preB, ownB, false)...)
	ref = append(ref, program([]string{"\"" + modName + "/z\"", "\"" + modName + "/zz\""}, text("z", "zz")))
	o, r := compare(fs, ref, []string{q1, q2}, []string{"z", "zz"}, "", "")
	if o != nil {
		checkImports(o, r, []string{modName + "/a", modName + "/" + pb}, []string{ca, cb}, []string{q1, q2}, []string{modName + "/z", modName + "/zz"})
	}
}
