//go:build vhnative

package gh

import (
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
)

func tree(fs []File) string {
	d, err := os.MkdirTemp("", "vjgh")
	if err != nil {
		panic(err)
	}
	for _, f := range fs {
		p := filepath.Join(d, f.Path)
		os.MkdirAll(filepath.Dir(p), 0o755)
		if err := os.WriteFile(p, []byte(f.Text), 0o644); err != nil {
			panic(err)
		}
	}
	return d
}

func cleanup(dir string) { os.RemoveAll(dir) }

func output(path string) *ast.File {
	f, err := parser.ParseFile(token.NewFileSet(), path, nil, 0)
	if err != nil {
		panic(err)
	}
	return f
}
