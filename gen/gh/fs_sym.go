//go:build !vhnative

package gh

import (
	"go/ast"
	"io"
	"io/fs"
	"os"
	"time"
)

// The engine sends the file operations of the generator here.

type vfile struct {
	path string
	data []byte
	dir  bool
}

type vopen struct {
	f   *vfile
	pos int
}

var (
	files   []*vfile
	handles map[*os.File]*vopen
	printed *ast.File
)

const root = "/w/m"

func tree(fs []File) string {
	files = nil
	handles = map[*os.File]*vopen{}
	mkdir(root)
	for _, f := range fs {
		mkdir(dirOf(root + "/" + f.Path))
		files = append(files, &vfile{path: root + "/" + f.Path, data: []byte(f.Text)})
	}
	return root
}

func cleanup(string) {}

func dirOf(p string) string {
	for i := len(p) - 1; i > 0; i-- {
		if p[i] == '/' {
			return p[:i]
		}
	}
	return "/"
}

func mkdir(p string) {
	if find(p) != nil {
		return
	}
	if p != "/" {
		mkdir(dirOf(p))
	}
	files = append(files, &vfile{path: p, dir: true})
}

func find(p string) *vfile {
	p = clean(p)
	for _, f := range files {
		if f.path == p {
			return f
		}
	}
	return nil
}

func clean(p string) string {
	for len(p) > 1 && p[len(p)-1] == '/' {
		p = p[:len(p)-1]
	}
	for len(p) > 2 && p[:2] == "./" {
		p = p[2:]
	}
	return p
}

func missing(op, p string) error { return &fs.PathError{Op: op, Path: p, Err: fs.ErrNotExist} }

func FSReadFile(p string) ([]byte, error) {
	f := find(p)
	if f == nil || f.dir {
		return nil, missing("open", p)
	}
	return append([]byte(nil), f.data...), nil
}

type entry struct{ f *vfile }

func (e entry) Name() string               { return e.f.path[len(dirOf(e.f.path))+b2i(dirOf(e.f.path) != "/"):] }
func (e entry) IsDir() bool                { return e.f.dir }
func (e entry) Type() fs.FileMode          { return e.Mode() & fs.ModeDir }
func (e entry) Info() (fs.FileInfo, error) { return e, nil }
func (e entry) Size() int64                { return int64(len(e.f.data)) }
func (e entry) ModTime() time.Time         { return time.Time{} }
func (e entry) Sys() any                   { return nil }
func (e entry) Mode() fs.FileMode {
	if e.f.dir {
		return fs.ModeDir | 0o755
	}
	return 0o644
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func FSReadDir(p string) ([]os.DirEntry, error) {
	d := find(p)
	if d == nil || !d.dir {
		return nil, missing("open", p)
	}
	var es []os.DirEntry
	for _, f := range files {
		if f != d && dirOf(f.path) == d.path {
			i := len(es)
			for i > 0 && es[i-1].(entry).f.path > f.path {
				i--
			}
			es = append(es, nil)
			copy(es[i+1:], es[i:])
			es[i] = entry{f}
		}
	}
	return es, nil
}

func FSStat(p string) (os.FileInfo, error) {
	f := find(p)
	if f == nil {
		return nil, missing("stat", p)
	}
	return entry{f}, nil
}

func FSOpen(p string) (*os.File, error) {
	f := find(p)
	if f == nil {
		return nil, missing("open", p)
	}
	h := &os.File{}
	handles[h] = &vopen{f: f}
	return h, nil
}

func FSCreate(p string) (*os.File, error) {
	if find(dirOf(clean(p))) == nil {
		return nil, missing("open", p)
	}
	f := find(p)
	if f == nil {
		f = &vfile{path: clean(p)}
		files = append(files, f)
	}
	f.data = nil
	h := &os.File{}
	handles[h] = &vopen{f: f}
	return h, nil
}

func FSWriteFile(p string, b []byte, _ os.FileMode) error {
	f, err := FSCreate(p)
	if err == nil {
		_, err = FSWrite(f, b)
	}
	return err
}

func FSMkdirAll(p string, _ os.FileMode) error {
	mkdir(clean(p))
	return nil
}

func FSGetwd() (string, error) { return root, nil }

func FSRead(h *os.File, b []byte) (int, error) {
	o := handles[h]
	n := copy(b, o.f.data[o.pos:])
	o.pos += n
	if n == 0 && len(b) > 0 {
		return 0, io.EOF
	}
	return n, nil
}

func FSWrite(h *os.File, b []byte) (int, error) {
	o := handles[h]
	o.f.data = append(o.f.data, b...)
	return len(b), nil
}

func FSWriteString(h *os.File, s string) (int, error) { return FSWrite(h, []byte(s)) }

func FSClose(h *os.File) error { return nil }

func FSFileReadDir(h *os.File, n int) ([]os.DirEntry, error) { return FSReadDir(handles[h].f.path) }

// Printed stands for the printing of a syntax tree.
func Printed(node any) {
	if f, ok := node.(*ast.File); ok && printed == nil {
		printed = f
	}
}

func output(path string) *ast.File {
	f := printed
	printed = nil
	if v := find(path); v != nil { // the text itself is not made
		v.data = []byte("package " + f.Name.Name + "\n")
	}
	return f
}
