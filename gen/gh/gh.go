// Package gh runs the generator itself: declarations go in, the syntax tree it prints comes out.
package gh

import (
	"go/ast"
	"strconv"
	"strings"

	"github.com/iv-menshenin/valyjson/generator"
)

type File struct{ Path, Text string }

const gomod = "module m\n\ngo 1.20\n"

// Generate gives what the generator prints for a file of the module in dir.
func Generate(dir, file string, internals ...string) *ast.File {
	g := generator.New(dir + "/" + file)
	if err := g.Parse(); err != nil {
		panic(err)
	}
	g.BuildDecoders()
	g.BuildEncoders()
	g.FixImports(internals...)
	out := dir + "/" + strings.TrimSuffix(file, ".go") + "_json.go"
	g.Print(out)
	return output(out)
}

// Out is the generated code: per receiver its methods, and what is imported.
type Out struct {
	Methods []string // "T.Name"
	Bodies  []string
	Imports []string
	Names   []string // of the imports, "" without one
	Rest    string   // everything else
}

func Alone(src string) *Out {
	dir := tree([]File{{"go.mod", gomod}, {"x.go", src}})
	defer cleanup(dir)
	return Read(Generate(dir, "x.go"))
}

func Read(f *ast.File) *Out { return ReadAs(f, nil, "") }

// ReadAs hides the names of packages and of a type.
func ReadAs(f *ast.File, quals []string, typ string) *Out {
	o := &Out{}
	Dump := func(n ast.Node) string { return DumpAs(n, quals, typ) }
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Recv != nil && len(d.Recv.List) == 1 {
				t := d.Recv.List[0].Type
				if s, ok := t.(*ast.StarExpr); ok {
					t = s.X
				}
				o.Methods = append(o.Methods, t.(*ast.Ident).Name+"."+d.Name.Name)
				o.Bodies = append(o.Bodies, Dump(d))
				continue
			}
			o.Rest += Dump(d)
		case *ast.GenDecl:
			for _, s := range d.Specs {
				if i, ok := s.(*ast.ImportSpec); ok {
					v := i.Path.Value // holds the name too, as the generator writes it
					k := strings.IndexByte(v, '"')
					n := strings.TrimSpace(v[:k])
					if i.Name != nil {
						n = i.Name.Name
					}
					o.Imports = append(o.Imports, v[k:])
					o.Names = append(o.Names, n)
					continue
				}
				o.Rest += Dump(s)
			}
		}
	}
	return o
}

func (o *Out) Has(m string) bool {
	for _, x := range o.Methods {
		if x == m {
			return true
		}
	}
	return false
}

// Body of a method, "" without it.
func (o *Out) Body(m string) string {
	for i, x := range o.Methods {
		if x == m {
			return o.Bodies[i]
		}
	}
	return ""
}

// Of are the methods of one type.
func (o *Out) Of(t string) (ms []string) {
	for _, m := range o.Methods {
		if strings.HasPrefix(m, t+".") {
			ms = append(ms, m)
		}
	}
	return
}

// DumpAs renders a syntax tree; package qualifiers appear as their numbers.
func DumpAs(n ast.Node, quals []string, typ string) string {
	d := &dumper{quals: quals, typ: typ}
	ast.Inspect(n, d.visit)
	return d.s.String()
}

type dumper struct {
	s     strings.Builder
	quals []string
	typ   string
	lit   func(*ast.BasicLit) string
}

func (d *dumper) visit(n ast.Node) bool {
	if n == nil {
		d.s.WriteString(")")
		return false
	}
	switch n := n.(type) {
	case *ast.CommentGroup:
		return false
	case *ast.Ident:
		d.s.WriteString("(" + n.Name)
	case *ast.BasicLit:
		v := n.Value
		if d.lit != nil {
			v = d.lit(n)
		}
		d.s.WriteString("(" + v)
	case *ast.BinaryExpr:
		d.s.WriteString("(bin" + n.Op.String())
	case *ast.UnaryExpr:
		d.s.WriteString("(un" + n.Op.String())
	case *ast.AssignStmt:
		d.s.WriteString("(" + n.Tok.String())
	case *ast.IncDecStmt:
		d.s.WriteString("(" + n.Tok.String())
	case *ast.BranchStmt:
		d.s.WriteString("(" + n.Tok.String())
	case *ast.GenDecl:
		d.s.WriteString("(" + n.Tok.String())
	case *ast.RangeStmt:
		d.s.WriteString("(range")
		if n.Key == nil {
			d.s.WriteString("-")
		}
		if n.Value == nil {
			d.s.WriteString("-")
		}
	case *ast.IfStmt:
		d.s.WriteString("(if")
		if n.Init == nil {
			d.s.WriteString("-")
		}
	case *ast.ForStmt:
		d.s.WriteString("(for")
	case *ast.CallExpr:
		d.s.WriteString("(call")
		if n.Ellipsis != 0 {
			d.s.WriteString("...")
		}
	case *ast.StarExpr:
		d.s.WriteString("(*")
	case *ast.SelectorExpr:
		if x, ok := n.X.(*ast.Ident); ok {
			for i, q := range d.quals {
				if x.Name == q {
					t := n.Sel.Name
					if t == d.typ {
						t = "#"
					}
					d.s.WriteString("(.@" + strconv.Itoa(i) + "." + t + ")")
					return false
				}
			}
		}
		d.s.WriteString("(.")
	case *ast.IndexExpr:
		d.s.WriteString("(index")
	case *ast.SliceExpr:
		d.s.WriteString("(slice")
		if n.Low == nil {
			d.s.WriteString("-")
		}
		if n.High == nil {
			d.s.WriteString("-")
		}
	case *ast.CompositeLit:
		d.s.WriteString("(lit")
		if n.Type == nil {
			d.s.WriteString("-")
		}
	case *ast.FuncLit:
		d.s.WriteString("(func")
	case *ast.BlockStmt:
		d.s.WriteString("(block")
	case *ast.ReturnStmt:
		d.s.WriteString("(return")
	case *ast.ExprStmt:
		d.s.WriteString("(expr")
	case *ast.DeferStmt:
		d.s.WriteString("(defer")
	case *ast.ArrayType:
		d.s.WriteString("(array")
		if n.Len == nil {
			d.s.WriteString("-")
		}
	case *ast.MapType:
		d.s.WriteString("(map")
	default:
		d.s.WriteString("(")
	}
	return true
}

// equal compares the parts of two outputs.
func equal(a, b *Out) string {
	if len(a.Methods) != len(b.Methods) {
		return "methods"
	}
	for i := range a.Methods {
		if a.Methods[i] != b.Methods[i] {
			return "methods"
		}
		if a.Bodies[i] != b.Bodies[i] {
			return "body of a method"
		}
	}
	if a.Rest != b.Rest {
		return "variables"
	}
	if len(a.Imports) != len(b.Imports) {
		return "imports"
	}
	for i := range a.Imports {
		if a.Imports[i] != b.Imports[i] || a.Names[i] != b.Names[i] {
			return "imports"
		}
	}
	return ""
}
