package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Harness generation: for every type of the corpus that has generated methods, a descriptor of its JSON shape
// (read from the declaration, not from the generated code) and functions between values and contents.

type hType struct {
	pkg  *hPkg
	name string
	spec *ast.TypeSpec
	dir  []string // words of the directive, nil without one
	aux  bool
	as   string // counterpart written with the denoted types
	asf  bool   // the counterpart is a struct with a field f of the denoted type
	file *ast.File
}

type hPkg struct {
	path, name string
	types      map[string]*hType
	order      []string
	methods    map[string]map[string]bool // type -> method -> pointer receiver
	vars       []string                   // package variables of the generated code
}

type hGen struct {
	root string
	pkgs map[string]*hPkg // by import path
}

// HarnessInfo is one entry of a package's Harness list.
type HarnessInfo struct {
	Pkg   string
	Index int
	Name  string
	Feat  map[string]bool
}

func (g *hGen) load(path string) (*hPkg, error) {
	if p := g.pkgs[path]; p != nil {
		return p, nil
	}
	dir := filepath.Join(g.root, strings.TrimPrefix(path, "vjcorp/"))
	p := &hPkg{path: path, types: map[string]*hType{}, methods: map[string]map[string]bool{}}
	es, err := os.ReadDir(dir)
	if err != nil {
		return nil, err
	}
	fset := token.NewFileSet()
	for _, e := range es {
		n := e.Name()
		if !strings.HasSuffix(n, ".go") || n == "zz_h.go" {
			continue
		}
		f, err := parser.ParseFile(fset, filepath.Join(dir, n), nil, parser.ParseComments)
		if err != nil {
			return nil, err
		}
		p.name = f.Name.Name
		gen := n != "types.go"
		if n == "valyjson_utils.go" {
			for _, d := range f.Decls {
				if d, ok := d.(*ast.GenDecl); ok && d.Tok == token.VAR {
					p.addVars(d)
				}
			}
			continue
		}
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil {
					continue
				}
				rt := d.Recv.List[0].Type
				ptr := false
				if s, ok := rt.(*ast.StarExpr); ok {
					ptr = true
					rt = s.X
				}
				id, ok := rt.(*ast.Ident)
				if !ok {
					continue
				}
				if p.methods[id.Name] == nil {
					p.methods[id.Name] = map[string]bool{}
				}
				p.methods[id.Name][d.Name.Name] = ptr
			case *ast.GenDecl:
				if gen && d.Tok == token.VAR {
					p.addVars(d)
				}
				if gen || d.Tok != token.TYPE {
					continue
				}
				for _, s := range d.Specs {
					ts := s.(*ast.TypeSpec)
					doc := ts.Doc
					if doc == nil && len(d.Specs) == 1 {
						doc = d.Doc
					}
					t := &hType{pkg: p, name: ts.Name.Name, spec: ts, file: f}
					if doc != nil {
						for _, c := range doc.List {
							line := strings.TrimLeft(c.Text, "/ \t")
							if strings.HasPrefix(line, "vh:aux") {
								t.aux = true
							}
							if strings.HasPrefix(line, "vh:as ") {
								t.as = strings.TrimSpace(line[6:])
							}
							if strings.HasPrefix(line, "vh:asf ") {
								t.as, t.asf = strings.TrimSpace(line[7:]), true
							}
							if strings.HasPrefix(line, "json:") {
								for _, w := range strings.Split(line[5:], ",") {
									if w = strings.ToLower(strings.TrimSpace(w)); w != "" {
										t.dir = append(t.dir, w)
									}
								}
							}
						}
					}
					p.types[t.name] = t
					p.order = append(p.order, t.name)
				}
			}
		}
	}
	g.pkgs[path] = p
	return p, nil
}

func (p *hPkg) addVars(d *ast.GenDecl) {
	for _, s := range d.Specs {
		for _, n := range s.(*ast.ValueSpec).Names {
			if n.Name != "_" {
				p.vars = append(p.vars, n.Name)
			}
		}
	}
}

// shape is a resolved type expression.
type shape struct {
	kind   string // int uint f32 f64 bool str bytes bytearr time uuid ptr slice arr map struct
	w, n   int
	elem   *shape
	fields []*hField
	gostr  string // Go type as written from the package being rendered
	named  *hType // outermost declared type
	isNmd  bool
	ext    bool
	dir    bool
	strict bool
	layout string
	key    *shape
	rec    bool // refers back to a type being described
	id     string
}

type hField struct {
	goName, name     string
	sh               *shape
	omit, req, skip  bool
	inline, nested   bool
	def              string
	hasDef, embedded bool
}

var basicShapes = map[string]*shape{
	"int": {kind: "int", w: 64}, "int8": {kind: "int", w: 8}, "int16": {kind: "int", w: 16}, "int32": {kind: "int", w: 32}, "int64": {kind: "int", w: 64},
	"uint": {kind: "uint", w: 64}, "uint8": {kind: "uint", w: 8}, "byte": {kind: "uint", w: 8}, "uint16": {kind: "uint", w: 16}, "uint32": {kind: "uint", w: 32}, "uint64": {kind: "uint", w: 64},
	"float32": {kind: "f32"}, "float64": {kind: "f64"}, "bool": {kind: "bool"}, "string": {kind: "str"},
}

type renderer struct {
	g      *hGen
	home   *hPkg
	imp    map[string]string // import path -> alias in the harness file
	shapes map[string]*shape // declared types, by qualified name + layout
	decls  []string          // descriptor variables
	fills  []string
	dvar   map[*shape]string
	funcs  []string
	conv   map[string]string
	put    map[string]string
	stack  []string
	err    error
}

func (r *renderer) qual(t *hType) string {
	if t.pkg == r.home {
		return t.name
	}
	return r.alias(t.pkg.path) + "." + t.name
}

func (r *renderer) alias(path string) string {
	if a := r.imp[path]; a != "" {
		return a
	}
	a := "x" + strconv.Itoa(len(r.imp)) + filepath.Base(path)
	r.imp[path] = a
	return a
}

func importsOf(f *ast.File) map[string]string {
	m := map[string]string{}
	for _, i := range f.Imports {
		p, _ := strconv.Unquote(i.Path.Value)
		n := filepath.Base(p)
		if i.Name != nil {
			n = i.Name.Name
		}
		m[n] = p
	}
	return m
}

func (r *renderer) fail(format string, a ...any) *shape {
	if r.err == nil {
		r.err = fmt.Errorf(format, a...)
	}
	return &shape{kind: "int", w: 64, gostr: "int"}
}

// resolve describes the type expression e written in the file of t.
func (r *renderer) resolve(e ast.Expr, at *hType, layout string) *shape {
	switch x := e.(type) {
	case *ast.Ident:
		if t := at.pkg.types[x.Name]; t != nil {
			return r.declared(t, layout)
		}
		if b := basicShapes[x.Name]; b != nil {
			c := *b
			c.gostr = x.Name
			return &c
		}
		return r.fail("unknown type %s", x.Name)
	case *ast.SelectorExpr:
		q := x.X.(*ast.Ident).Name
		path := importsOf(at.file)[q]
		switch path {
		case "time":
			return &shape{kind: "time", gostr: r.alias("time") + ".Time", layout: layoutValue(layout)}
		case "github.com/google/uuid":
			return &shape{kind: "uuid", gostr: r.alias(path) + ".UUID"}
		}
		p, err := r.g.load(path)
		if err != nil {
			return r.fail("%v", err)
		}
		t := p.types[x.Sel.Name]
		if t == nil {
			return r.fail("unknown type %s.%s", path, x.Sel.Name)
		}
		return r.declared(t, layout)
	case *ast.StarExpr:
		s := r.resolve(x.X, at, layout)
		return &shape{kind: "ptr", elem: s, gostr: "*" + s.gostr}
	case *ast.ArrayType:
		if id, ok := x.Elt.(*ast.Ident); ok && id.Name == "byte" {
			if x.Len == nil {
				return &shape{kind: "bytes", gostr: "[]byte"}
			}
			n, _ := strconv.Atoi(x.Len.(*ast.BasicLit).Value)
			return &shape{kind: "bytearr", n: n, gostr: "[" + strconv.Itoa(n) + "]byte"}
		}
		s := r.resolve(x.Elt, at, layout)
		if x.Len == nil {
			return &shape{kind: "slice", elem: s, gostr: "[]" + s.gostr}
		}
		n, _ := strconv.Atoi(x.Len.(*ast.BasicLit).Value)
		return &shape{kind: "arr", n: n, elem: s, gostr: "[" + strconv.Itoa(n) + "]" + s.gostr}
	case *ast.MapType:
		k := r.resolve(x.Key, at, "")
		s := r.resolve(x.Value, at, layout)
		return &shape{kind: "map", key: k, elem: s, gostr: "map[" + k.gostr + "]" + s.gostr}
	case *ast.StructType:
		sh := &shape{kind: "struct", gostr: "struct"}
		r.fieldsOf(sh, x, at)
		return sh
	}
	return r.fail("unsupported type expression %T", e)
}

func (r *renderer) fieldsOf(sh *shape, x *ast.StructType, at *hType) {
	for _, f := range x.Fields.List {
		tag := ""
		if f.Tag != nil {
			tag, _ = strconv.Unquote(f.Tag.Value)
		}
		st := reflect.StructTag(tag)
		parts := strings.Split(st.Get("json"), ",")
		hf := &hField{name: parts[0]}
		for _, o := range parts[1:] {
			switch o {
			case "omitempty":
				hf.omit = true
			case "required":
				hf.req = true
			case "inline":
				hf.inline = true
			}
		}
		if d, ok := st.Lookup("default"); ok && d != "" {
			hf.def, hf.hasDef = d, true
		}
		hf.skip = parts[0] == "-"
		hf.sh = r.resolve(f.Type, at, st.Get("layout"))
		names := f.Names
		if len(names) == 0 {
			hf.embedded = true
			b := f.Type
			if s, ok := b.(*ast.StarExpr); ok {
				b = s.X
			}
			switch b := b.(type) {
			case *ast.Ident:
				hf.goName = b.Name
			case *ast.SelectorExpr:
				hf.goName = b.Sel.Name
			}
			if hf.name == "" {
				hf.inline = true
			} else {
				hf.nested = true
			}
			sh.fields = append(sh.fields, hf)
			continue
		}
		for _, n := range names {
			c := *hf
			c.goName = n.Name
			sh.fields = append(sh.fields, &c)
		}
	}
}

func (r *renderer) declared(t *hType, layout string) *shape {
	key := t.pkg.path + "." + t.name + "|" + layout
	if s := r.shapes[key]; s != nil {
		for _, k := range r.stack {
			if k == key {
				s.rec = true
			}
		}
		return s
	}
	s := &shape{gostr: r.qual(t)}
	r.shapes[key] = s
	r.stack = append(r.stack, key)
	lay := layout
	if t.dir != nil {
		lay = "" // its own methods decide
	}
	u := r.resolve(t.spec.Type, t, lay)
	r.stack = r.stack[:len(r.stack)-1]
	rec := s.rec
	*s = *u
	s.rec = rec
	s.gostr = r.qual(t)
	s.named = t
	if _, direct := t.spec.Type.(*ast.StructType); !direct {
		s.isNmd = true
	}
	s.ext = t.pkg != r.home
	s.dir = t.dir != nil
	for _, w := range t.dir {
		if w == "strict" {
			s.strict = true
		}
	}
	return s
}

func layoutValue(l string) string {
	switch l {
	case "time.RFC3339":
		return time.RFC3339
	case "time.RFC3339Nano":
		return time.RFC3339Nano
	case "time.RFC822":
		return time.RFC822
	case "time.RFC822Z":
		return time.RFC822Z
	case "time.RFC850":
		return time.RFC850
	case "time.RFC1123":
		return time.RFC1123
	case "time.RFC1123Z":
		return time.RFC1123Z
	case "time.ANSIC":
		return time.ANSIC
	case "time.Kitchen":
		return time.Kitchen
	}
	return l
}

var kindConst = map[string]string{"int": "KInt", "uint": "KUint", "f32": "KF32", "f64": "KF64", "bool": "KBool", "str": "KStr", "bytes": "KBytes", "bytearr": "KByteArr", "time": "KTime", "uuid": "KUUID", "ptr": "KPtr", "slice": "KSlice", "arr": "KArr", "map": "KMap", "struct": "KStruct"}

// descr gives the name of the variable that holds the descriptor of s.
func (r *renderer) descr(s *shape) string {
	if v := r.dvar[s]; v != "" {
		return v
	}
	v := fmt.Sprintf("vhD%d", len(r.dvar))
	r.dvar[s] = v
	r.decls = append(r.decls, fmt.Sprintf("var %s = &vh.D{K: vh.%s, W: %d, N: %d, Layout: %q, Strict: %v, Named: %v, Ext: %v, Dir: %v, Rec: %v}", v, kindConst[s.kind], s.w, s.n, s.layout, s.strict, s.isNmd, s.ext, s.dir, s.rec))
	if s.elem != nil {
		r.fills = append(r.fills, fmt.Sprintf("%s.E = %s", v, r.descr(s.elem)))
	}
	for _, f := range s.fields {
		def := ""
		if f.hasDef {
			def = ", Def: " + r.defM(f.sh, f.def)
		}
		r.fills = append(r.fills, fmt.Sprintf("%s.Fs = append(%s.Fs, &vh.F{Go: %q, Name: %q, D: %s, Omit: %v, Req: %v, Skip: %v, Inline: %v, Nested: %v%s})", v, v, f.goName, f.name, r.descr(f.sh), f.omit, f.req, f.skip, f.inline, f.nested, def))
	}
	return v
}

// defM is the content a default text denotes.
func (r *renderer) defM(s *shape, txt string) string {
	switch s.kind {
	case "int":
		n, err := strconv.ParseInt(txt, 10, 64)
		if err != nil {
			r.fail("default %q", txt)
		}
		return fmt.Sprintf("&vh.M{U: %d}", uint64(n))
	case "uint":
		n, err := strconv.ParseUint(txt, 10, 64)
		if err != nil {
			r.fail("default %q", txt)
		}
		return fmt.Sprintf("&vh.M{U: %d}", n)
	case "f32":
		f, _ := strconv.ParseFloat(txt, 32)
		return fmt.Sprintf("&vh.M{F: float64(float32(%s))}", strconv.FormatFloat(f, 'g', -1, 32))
	case "f64":
		f, _ := strconv.ParseFloat(txt, 64)
		return fmt.Sprintf("&vh.M{F: %s}", strconv.FormatFloat(f, 'g', -1, 64))
	case "bool":
		if txt == "true" {
			return "&vh.M{U: 1}"
		}
		return "&vh.M{}"
	case "str":
		return fmt.Sprintf("&vh.M{S: %q}", txt)
	case "ptr":
		return "&vh.M{Es: []*vh.M{" + r.defM(s.elem, txt) + "}}"
	}
	r.fail("default for %s", s.kind)
	return "nil"
}

// convFn names a function T -> *vh.M, putFn one *vh.M -> T.
func (r *renderer) convFn(s *shape) string {
	key := s.gostr + "|" + s.kind
	if f := r.conv[key]; f != "" {
		return f
	}
	name := fmt.Sprintf("vhC%d", len(r.conv))
	r.conv[key] = name
	var b string
	switch s.kind {
	case "int":
		b = "return &vh.M{U: uint64(int64(x))}"
	case "uint":
		b = "return &vh.M{U: uint64(x)}"
	case "f32", "f64":
		b = "return &vh.M{F: float64(x)}"
	case "bool":
		b = "m := &vh.M{}\n\tif x {\n\t\tm.U = 1\n\t}\n\treturn m"
	case "str":
		b = "return &vh.M{S: vh.Copy(string(x))}"
	case "bytes":
		b = "return &vh.M{Nil: x == nil, S: string(x)}"
	case "bytearr":
		b = "return &vh.M{S: string(x[:])}"
	case "time":
		b = "m := &vh.M{}\n\tm.Sec, m.Ns = vh.TimeOf(" + r.alias("time") + ".Time(x))\n\treturn m"
	case "uuid":
		b = "return &vh.M{S: string(x[:])}"
	case "ptr":
		b = "if x == nil {\n\t\treturn &vh.M{Nil: true}\n\t}\n\treturn &vh.M{Es: []*vh.M{" + r.convFn(s.elem) + "(*x)}}"
	case "slice":
		b = "if x == nil {\n\t\treturn &vh.M{Nil: true}\n\t}\n\tm := &vh.M{}\n\tfor i := range x {\n\t\tm.Es = append(m.Es, " + r.convFn(s.elem) + "(x[i]))\n\t}\n\treturn m"
	case "arr":
		b = "m := &vh.M{}\n\tfor i := range x {\n\t\tm.Es = append(m.Es, " + r.convFn(s.elem) + "(x[i]))\n\t}\n\treturn m"
	case "map":
		b = "if x == nil {\n\t\treturn &vh.M{Nil: true}\n\t}\n\tm := &vh.M{}\n\tfor k, v := range x {\n\t\tm.Ks = append(m.Ks, vh.Copy(string(k)))\n\t\tm.Es = append(m.Es, " + r.convFn(s.elem) + "(v))\n\t}\n\treturn m"
	case "struct":
		b = "m := &vh.M{}\n"
		for _, f := range s.fields {
			b += "\tm.Es = append(m.Es, " + r.convFn(f.sh) + "(x." + f.goName + "))\n"
		}
		b += "\treturn m"
	}
	r.funcs = append(r.funcs, "func "+name+"(x "+s.gostr+") *vh.M {\n\t"+b+"\n}\n")
	return name
}

func (r *renderer) putFn(s *shape) string {
	key := s.gostr + "|" + s.kind
	if f := r.put[key]; f != "" {
		return f
	}
	name := fmt.Sprintf("vhP%d", len(r.put))
	r.put[key] = name
	t := s.gostr
	var b string
	switch s.kind {
	case "int", "uint", "f32", "f64":
		f := "m.U"
		if s.kind[0] == 'f' {
			f = "m.F"
		}
		b = "return " + t + "(" + f + ")"
	case "bool":
		b = "return " + t + "(m.U == 1)"
	case "str":
		b = "return " + t + "(m.S)"
	case "bytes":
		b = "if m.Nil {\n\t\treturn nil\n\t}\n\treturn " + t + "([]byte(m.S))"
	case "bytearr", "uuid":
		b = "var x " + t + "\n\tfor i := 0; i < len(x); i++ {\n\t\tx[i] = m.S[i]\n\t}\n\treturn x"
	case "time":
		b = "return " + t + "(vh.MkTime(m.Sec, m.Ns))"
	case "ptr":
		b = "if m.Nil {\n\t\treturn nil\n\t}\n\tx := " + r.putFn(s.elem) + "(m.Es[0])\n\treturn &x"
	case "slice":
		b = "if m.Nil {\n\t\treturn nil\n\t}\n\tn := len(m.Es)\n\tif m.Cap {\n\t\tn += 2\n\t}\n\tx := make(" + t + ", 0, n)\n\tfor _, e := range m.Es {\n\t\tx = append(x, " + r.putFn(s.elem) + "(e))\n\t}\n\treturn x"
	case "arr":
		b = "var x " + t + "\n\tfor i := 0; i < len(x); i++ {\n\t\tx[i] = " + r.putFn(s.elem) + "(m.Es[i])\n\t}\n\treturn x"
	case "map":
		b = "if m.Nil {\n\t\treturn nil\n\t}\n\tx := make(" + t + ")\n\tfor i, k := range m.Ks {\n\t\tx[" + s.key.gostr + "(k)] = " + r.putFn(s.elem) + "(m.Es[i])\n\t}\n\treturn x"
	case "struct":
		b = "var x " + t + "\n"
		for i, f := range s.fields {
			b += fmt.Sprintf("\tx.%s = %s(m.Es[%d])\n", f.goName, r.putFn(f.sh), i)
		}
		b += "\treturn x"
	}
	r.funcs = append(r.funcs, "func "+name+"(m *vh.M) "+t+" {\n\t"+b+"\n}\n")
	return name
}

func (s *shape) feats(m map[string]bool, seen map[*shape]bool) {
	if seen[s] {
		return
	}
	seen[s] = true
	m[s.kind] = true
	if s.isNmd {
		m["named"] = true
	}
	if s.ext {
		m["ext"] = true
	}
	if s.strict {
		m["strict"] = true
	}
	if s.elem != nil {
		s.elem.feats(m, seen)
	}
	for _, f := range s.fields {
		if f.inline || f.nested {
			m["inline"] = true
		}
		if f.req || f.hasDef {
			m["reqdef"] = true
		}
		if f.skip {
			m["skip"] = true
		}
		f.sh.feats(m, seen)
	}
}

// entry renders the harness entry of one type.
func (r *renderer) entry(t *hType, ms map[string]bool) (string, *shape) {
	n := t.name
	s := r.declared(t, "")
	d := r.descr(s)
	cf, pf := r.convFn(s), r.putFn(s)
	var b strings.Builder
	fmt.Fprintf(&b, "\t&vh.H{Name: %q, D: %s,\n", t.pkg.name+"."+n, d)
	fmt.Fprintf(&b, "\t\tNew: func() any { return new(%s) },\n", n)
	fmt.Fprintf(&b, "\t\tPut: func(m *vh.M) any { x := %s(m); return &x },\n", pf)
	fmt.Fprintf(&b, "\t\tConv: func(x any) *vh.M { return %s(*x.(*%s)) },\n", cf, n)
	if _, ok := ms["UnmarshalJSON"]; ok {
		fmt.Fprintf(&b, "\t\tUnm: func(x any, b []byte) error { return x.(*%s).UnmarshalJSON(b) },\n", n)
	}
	if ptr, ok := ms["MarshalJSON"]; ok {
		fmt.Fprintf(&b, "\t\tMar: func(x any) ([]byte, error) { return x.(*%s).MarshalJSON() },\n", n)
		if ptr {
			fmt.Fprintf(&b, "\t\tNilMar: func() ([]byte, error) { return (*%s)(nil).MarshalJSON() },\n", n)
		}
	}
	if ptr, ok := ms["MarshalTo"]; ok {
		fmt.Fprintf(&b, "\t\tMarTo: func(x any, w *jwriter.Writer) error { return x.(*%s).MarshalTo(w) },\n", n)
		if ptr {
			fmt.Fprintf(&b, "\t\tNilTo: func(w *jwriter.Writer) error { return (*%s)(nil).MarshalTo(w) },\n", n)
		}
	}
	if _, ok := ms["IsZero"]; ok {
		fmt.Fprintf(&b, "\t\tIsZero: func(x any) bool { return x.(*%s).IsZero() },\n", n)
	}
	if _, ok := ms["Reset"]; ok {
		fmt.Fprintf(&b, "\t\tReset: func(x any) { x.(*%s).Reset() },\n", n)
	}
	b.WriteString("\t}")
	return b.String(), s
}

// harness writes zz_h.go of one corpus package and lists its entries.
func (g *hGen) harness(path string) ([]*HarnessInfo, error) {
	p, err := g.load(path)
	if err != nil {
		return nil, err
	}
	r := &renderer{g: g, home: p, imp: map[string]string{}, shapes: map[string]*shape{}, dvar: map[*shape]string{}, conv: map[string]string{}, put: map[string]string{}}
	var infos []*HarnessInfo
	var hs []string
	for _, n := range p.order {
		t := p.types[n]
		if t.aux {
			continue
		}
		ms := p.methods[n]
		if ms == nil {
			continue
		}
		if _, ok := ms["UnmarshalJSON"]; !ok {
			if _, ok := ms["MarshalJSON"]; !ok {
				continue
			}
		}
		b, s := r.entry(t, ms)
		if r.err != nil {
			return nil, fmt.Errorf("%s.%s: %v", path, n, r.err)
		}
		ft := map[string]bool{}
		s.feats(ft, map[*shape]bool{})
		if t.as != "" && t.as != "-" {
			w := p.types[t.as]
			if w == nil {
				return nil, fmt.Errorf("%s.%s: no type %s", path, n, t.as)
			}
			wb, _ := r.entry(w, p.methods[t.as])
			if r.err != nil {
				return nil, fmt.Errorf("%s.%s: %v", path, t.as, r.err)
			}
			b = strings.TrimSuffix(b, "\t}") + fmt.Sprintf("\t\tAsF: %v, As:\n%s,\n\t}", t.asf, wb)
			ft["as"] = true
		}
		hs = append(hs, b)
		infos = append(infos, &HarnessInfo{Pkg: path, Index: len(infos), Name: p.name + "." + n, Feat: ft})
	}
	var out strings.Builder
	fmt.Fprintf(&out, "package %s\n\nimport (\n\t\"vjcorp/vh\"\n\t\"github.com/mailru/easyjson/jwriter\"\n", p.name)
	var paths []string
	for ip := range r.imp {
		paths = append(paths, ip)
	}
	sort.Strings(paths)
	for _, ip := range paths {
		fmt.Fprintf(&out, "\t%s %q\n", r.imp[ip], ip)
	}
	out.WriteString(")\n\nvar _ *jwriter.Writer\n")
	for _, ip := range paths {
		switch ip {
		case "time":
			fmt.Fprintf(&out, "var _ %s.Time\n", r.imp[ip])
		case "github.com/google/uuid":
			fmt.Fprintf(&out, "var _ %s.UUID\n", r.imp[ip])
		}
	}
	out.WriteString("\n" + strings.Join(r.decls, "\n") + "\n\nfunc init() {\n")
	for _, f := range r.fills {
		out.WriteString("\t" + f + "\n")
	}
	out.WriteString("}\n\n" + strings.Join(r.funcs, "\n") + "\nvar VHarness = []*vh.H{\n")
	for _, h := range hs {
		out.WriteString(h + ",\n")
	}
	var gs []string
	for _, v := range p.vars {
		gs = append(gs, "&"+v)
	}
	fmt.Fprintf(&out, "}\n\nfunc VRun(i int, prop string, deep bool) {\n\tif vh.Native() {\n\t\tvh.Globals = []any{%s}\n\t}\n\tvh.Run(VHarness[i], prop, deep)\n}\n", strings.Join(gs, ", "))
	return infos, os.WriteFile(filepath.Join(g.root, strings.TrimPrefix(path, "vjcorp/"), "zz_h.go"), []byte(out.String()), 0o644)
}
