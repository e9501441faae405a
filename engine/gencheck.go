package main

import (
	"bytes"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"strings"
	"time"
)

const ghPath = "vjcorp/gh"

// genRedirects sends what the generator asks of the system to the harness's own files.
func genRedirects() {
	to := func(name, fn string, keep ...int) {
		hybrids[name] = func(m *M, fr *frame, a []V) (V, bool) {
			p := m.prog.ssa.ImportedPackage(ghPath)
			if p == nil || m.inInit > 0 {
				return V{}, false
			}
			f := p.Func(fn)
			if f == nil {
				abort("no %s", fn)
			}
			if len(keep) > 0 {
				var b []V
				for _, k := range keep {
					b = append(b, a[k])
				}
				a = b
			}
			m.initPkg(p)
			return m.runFn(m.prog.fn(f), a, nil, fr), true
		}
	}
	to("os.ReadFile", "FSReadFile")
	to("os.ReadDir", "FSReadDir")
	to("os.Open", "FSOpen")
	to("os.Create", "FSCreate")
	to("os.WriteFile", "FSWriteFile")
	to("os.MkdirAll", "FSMkdirAll")
	to("os.Stat", "FSStat")
	to("os.Lstat", "FSStat")
	to("os.Getwd", "FSGetwd")
	to("(*os.File).Read", "FSRead")
	to("(*os.File).Write", "FSWrite")
	to("(*os.File).WriteString", "FSWriteString")
	to("(*os.File).Close", "FSClose")
	to("(*os.File).ReadDir", "FSFileReadDir")
	printed := func(i int) func(m *M, fr *frame, a []V) (V, bool) {
		return func(m *M, fr *frame, a []V) (V, bool) {
			p := m.prog.ssa.ImportedPackage(ghPath)
			if p == nil {
				return V{}, false
			}
			m.initPkg(p)
			m.runFn(m.prog.fn(p.Func("Printed")), []V{a[i]}, nil, fr)
			return V{}, true
		}
	}
	hybrids["go/printer.Fprint"] = printed(2)
	hybrids["(*go/printer.Config).Fprint"] = printed(3)
	hybrids["go/format.Node"] = printed(2)
	sorted := func(m *M, fr *frame, a []V) V { // what reflection would do: an insertion sort in place
		x, ok := a[0].X.(*Iface)
		if !ok {
			abort("sort of nil")
		}
		sl, ok := x.v.X.(*Slice)
		if !ok {
			return V{}
		}
		n := slots(x.t.Underlying().(*types.Slice).Elem())
		for i := 1; i < sl.len; i++ {
			for j := i; j > 0 && m.branch(m.term(m.callV(a[1], []V{intV(j), intV(j - 1)}, fr, 0), 0)); j-- {
				for c := 0; c < n; c++ {
					p, q := sl.off+j*n+c, sl.off+(j-1)*n+c
					u, v := m.get(sl.o, p), m.get(sl.o, q)
					m.set(sl.o, p, v)
					m.set(sl.o, q, u)
				}
			}
		}
		return V{}
	}
	natives["sort.Slice"] = sorted
	natives["sort.SliceStable"] = sorted
	fprint := func(text func(m *M, fr *frame, a []V) V) native {
		return func(m *M, fr *frame, a []V) V {
			w, ok := a[0].X.(*Iface)
			if !ok {
				m.rtPanic("invalid memory address or nil pointer dereference", 0)
			}
			fn := m.methodByName(w.t, "Write")
			if fn == nil {
				abort("no Write method")
			}
			return m.runFn(fn, []V{w.v, m.mkBytes(m.cellsOf(text(m, fr, a[1:])))}, nil, fr)
		}
	}
	natives["fmt.Fprintf"] = fprint(func(m *M, fr *frame, a []V) V { return natives["fmt.Sprintf"](m, fr, a) })
	natives["fmt.Fprint"] = fprint(func(m *M, fr *frame, a []V) V { return natives["fmt.Sprint"](m, fr, a) })
	for _, n := range []string{"strings.TrimSpace", "bytes.TrimSpace"} {
		n := n
		hybrids[n] = func(m *M, fr *frame, a []V) (V, bool) {
			if n[0] == 'b' {
				return V{}, false
			}
			if _, ok := m.conc(a[0]); ok {
				return V{}, false
			}
			cells := m.cellsOf(a[0])
			space := func(c V) bool {
				t := m.term(c, 8)
				is := m.ts.Eq(t, m.ts.Const(8, ' '))
				for _, b := range "\t\n\v\f\r" {
					is = m.ts.Or(is, m.ts.Eq(t, m.ts.Const(8, uint64(b))))
				}
				return m.branch(is)
			}
			for _, c := range cells {
				if _, ok := c.X.(*Atom); ok || m.branch(m.ts.Bin(OULt, m.ts.Const(8, 127), m.term(c, 8))) {
					return V{}, false
				}
			}
			l, h := 0, len(cells)
			for l < h && space(cells[l]) {
				l++
			}
			for l < h && space(cells[h-1]) {
				h--
			}
			return m.substr(a[0], l, h), true
		}
	}
	for _, up := range []bool{false, true} {
		name, lo, hi := "strings.ToLower", uint64('A'), uint64('Z')
		if up {
			name, lo, hi = "strings.ToUpper", 'a', 'z'
		}
		hybrids[name] = func(m *M, fr *frame, a []V) (V, bool) {
			if _, ok := m.conc(a[0]); ok {
				return V{}, false
			}
			cells := m.cellsOf(a[0])
			out := make([]V, len(cells))
			for i, c := range cells {
				if _, ok := c.X.(*Atom); ok {
					return V{}, false
				}
				t := m.term(c, 8)
				if m.branch(m.ts.Bin(OULt, m.ts.Const(8, 127), t)) {
					return V{}, false
				}
				in := m.ts.And(m.ts.Not(m.ts.Bin(OULt, t, m.ts.Const(8, lo))), m.ts.Not(m.ts.Bin(OULt, m.ts.Const(8, hi), t)))
				out[i] = m.fromTerm(m.ts.Ite(in, m.ts.Bin(OBXor, t, m.ts.Const(8, 0x20)), t))
			}
			return m.strOf(out), true
		}
	}
}

// genCounts is how many parts the check of a property is split into.
var genCounts = map[string]int{"C21": 15, "C22": 40, "C23": 108, "C24": 36}

// checkGen decides a property of the generator itself: its own code is executed symbolically.
func checkGen(prop, tier string) int {
	t0 := time.Now()
	c := &Corpus{root: filepath.Join(scratch, "gm"), failed: map[string]string{}, runFns: map[string]*Fn{}}
	os.MkdirAll(c.root, 0o755)
	mod, err := os.ReadFile(filepath.Join(*fVerif, "corpus/go.mod.txt"))
	if err != nil {
		die("%v", err)
	}
	rm, err := os.ReadFile(filepath.Join(*fRepo, "go.mod"))
	if err != nil {
		die("%v", err)
	}
	mod = append(mod, []byte("\nrequire (\n\tgithub.com/iv-menshenin/valyjson v0.0.0\n"+requires(string(rm), string(mod))+")\n\nreplace github.com/iv-menshenin/valyjson => "+*fRepo+"\n")...)
	os.WriteFile(filepath.Join(c.root, "go.mod"), mod, 0o644)
	var sum []byte
	for _, f := range []string{filepath.Join(*fVerif, "corpus/go.sum.txt"), filepath.Join(*fVerif, "gen/go.sum.txt"), filepath.Join(*fRepo, "go.sum")} {
		b, _ := os.ReadFile(f)
		sum = append(append(sum, b...), '\n')
	}
	os.WriteFile(filepath.Join(c.root, "go.sum"), dedupLines(sum), 0o644)
	for _, d := range [][2]string{{"vh", "vh/*.go"}, {"gh", "gen/gh/*.go"}} {
		fs, _ := filepath.Glob(filepath.Join(*fVerif, d[1]))
		for _, f := range fs {
			copyFile(filepath.Join(c.root, d[0], filepath.Base(f)), f)
		}
	}
	genRedirects()
	prog, pk := loadSSA(c.root, nil, ghPath, "vjcorp/vh")
	c.prog = newProgram(prog)
	for _, p := range pk {
		if len(p.Errors) > 0 {
			die("loading %s: %v", p.PkgPath, p.Errors)
		}
		if p.PkgPath == ghPath {
			f := prog.Package(p.Types).Func("VRun")
			c.prog.ensureBuilt(f)
			c.runFns[ghPath] = c.prog.fn(f)
		}
	}
	tLoad := time.Since(t0)
	deep := tier == "thorough"
	d := b2u(deep)
	jobs := []*Job{}
	for k := 0; k < genCounts[prop]; k++ {
		n := fmt.Sprintf("%s.%02d", prop, k)
		if *fType != "" && !strings.Contains(n, *fType) {
			continue
		}
		jobs = append(jobs, &Job{Name: n, Type: n, Fn: c.runFns[ghPath], Args: []V{{N: uint64(k)}, str(prop), {N: d}}, Prop: prop, Limit: 2000000000})
		c.infos = append(c.infos, &HarnessInfo{Pkg: ghPath, Name: n, Index: k})
	}
	secs, budget := 400.0, 400.0
	if deep {
		secs, budget = 750, 750
	}
	if *fSecs > 0 {
		secs = *fSecs
	}
	res := runJobs(c.prog, jobs, 1000000, secs, t0.Add(time.Duration(budget*float64(time.Second))))
	return finish(&outcome{prop: prop, tier: tier, t0: t0, load: tLoad, c: c, jobs: jobs, res: res.results, cov: res.cov, queries: res.queries, solver: res.solver, unknown: res.unknown, deep: deep})
}

// requires lists the requirements of one go.mod that another lacks.
func requires(mod, have string) string {
	var out string
	in := false
	for _, l := range strings.Split(mod, "\n") {
		l = strings.TrimSpace(l)
		switch {
		case l == "require (":
			in = true
		case l == ")":
			in = false
		case strings.HasPrefix(l, "require ") || in:
			f := strings.Fields(strings.TrimPrefix(l, "require "))
			if len(f) >= 2 && !strings.HasPrefix(f[0], "//") && !strings.Contains(have, f[0]+" ") {
				out += "\t" + f[0] + " " + f[1] + "\n"
			}
		}
	}
	return out
}

func dedupLines(b []byte) []byte {
	seen := map[string]bool{}
	var out []byte
	for _, l := range bytes.Split(b, []byte("\n")) {
		if len(l) == 0 || seen[string(l)] {
			continue
		}
		seen[string(l)] = true
		out = append(append(out, l...), '\n')
	}
	return out
}
