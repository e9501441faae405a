package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

var (
	fRepo  = flag.String("repo", "/repo", "repository under check")
	fVerif = flag.String("verif", "/verif", "directory of the machinery")
	fProp  = flag.String("prop", "", "property")
	fTier  = flag.String("tier", "quick", "quick or thorough")
	fType  = flag.String("type", "", "only types whose name contains this")
	fKeep  = flag.Bool("keep", false, "keep the scratch directory")
	fV     = flag.Bool("v", false, "verbose")
	fAll   = flag.Bool("all", false, "report every violation, listed or not, as JSON (development)")
	fPaths = flag.Int("paths", 0, "paths per job")
	fSecs  = flag.Float64("secs", 0, "seconds per job")
	fDump  = flag.String("dump", "", "write every violation with the verdict of the compiled code to this file (development)")
	fProf  = flag.String("prof", "", "cpu profile")
)

const goBin = "/opt/veriftools/go1.24.13"

func setEnv() {
	os.Setenv("PATH", goBin+"/bin:"+os.Getenv("PATH"))
	os.Setenv("GOROOT", goBin)
	os.Setenv("GOTOOLCHAIN", "local")
	os.Setenv("GOPROXY", "off")
	os.Setenv("GOSUMDB", "off")
	os.Setenv("GOFLAGS", "-mod=mod")
	os.Setenv("GOWORK", "off")
}

func die(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "verif: "+format+"\n", a...)
	if scratch != "" && !*fKeep {
		os.RemoveAll(scratch)
	}
	os.Exit(2)
}

var scratch string

type Corpus struct {
	root    string
	pkgs    []string // import paths
	failed  map[string]string
	infos   []*HarnessInfo
	prog    *Program
	runFns  map[string]*Fn
	vhRunFn *Fn
	overlay string // for building the replay of generator properties
	genTime time.Duration
}

func copyFile(dst, src string) error {
	b, err := os.ReadFile(src)
	if err != nil {
		return err
	}
	os.MkdirAll(filepath.Dir(dst), 0o755)
	return os.WriteFile(dst, b, 0o644)
}

func run(dir string, env []string, name string, args ...string) (string, error) {
	c := exec.Command(name, args...)
	c.Dir = dir
	c.Env = append(os.Environ(), env...)
	var b bytes.Buffer
	c.Stdout, c.Stderr = &b, &b
	err := c.Run()
	return b.String(), err
}

// buildGen builds the generator from the repository's working tree.
func buildGen(dir string) (string, string) {
	os.MkdirAll(dir, 0o755)
	copyFile(filepath.Join(dir, "main.go"), filepath.Join(*fVerif, "gen/main.go.txt"))
	copyFile(filepath.Join(dir, "go.sum"), filepath.Join(*fVerif, "gen/go.sum.txt"))
	b, err := os.ReadFile(filepath.Join(*fVerif, "gen/go.mod.txt"))
	if err != nil {
		die("%v", err)
	}
	b = bytes.ReplaceAll(b, []byte("=> /repo"), []byte("=> "+*fRepo))
	os.WriteFile(filepath.Join(dir, "go.mod"), b, 0o644)
	bin := filepath.Join(dir, "vgen")
	out, err := run(dir, nil, "go", "build", "-o", bin, ".")
	if err != nil {
		return "", out
	}
	return bin, ""
}

// prepare lays the corpus out, generates the code with the repository's generator and loads everything.
func prepare(need func(h *HarnessInfo) bool) *Corpus {
	c := &Corpus{root: filepath.Join(scratch, "m"), failed: map[string]string{}, runFns: map[string]*Fn{}}
	t0 := time.Now()
	bin, msg := buildGen(filepath.Join(scratch, "g"))
	if bin == "" {
		die("the generator does not build:\n%s", msg)
	}
	src := filepath.Join(*fVerif, "corpus")
	es, err := os.ReadDir(src)
	if err != nil {
		die("%v", err)
	}
	copyFile(filepath.Join(c.root, "go.mod"), filepath.Join(src, "go.mod.txt"))
	copyFile(filepath.Join(c.root, "go.sum"), filepath.Join(src, "go.sum.txt"))
	var names []string
	for _, e := range es {
		if !e.IsDir() {
			continue
		}
		names = append(names, e.Name())
		if err := copyFile(filepath.Join(c.root, e.Name(), "types.go"), filepath.Join(src, e.Name(), "types.go")); err != nil {
			die("%v", err)
		}
	}
	vh, _ := filepath.Glob(filepath.Join(*fVerif, "vh/*.go"))
	os.MkdirAll(filepath.Join(scratch, "vh"), 0o755)
	outDir := filepath.Join(scratch, "o")
	var mu sync.Mutex
	parallel(len(names), func(i int) {
		n := names[i]
		out, err := run(c.root, []string{"VGEN_OUT=" + outDir}, "timeout", "60", bin, n+"/types.go")
		if err != nil || strings.Contains(out, "GENFAIL") {
			mu.Lock()
			c.failed[n] = "the generator fails: " + strings.TrimSpace(out)
			mu.Unlock()
		}
	})
	for _, n := range names {
		fs, _ := filepath.Glob(filepath.Join(outDir, n, "*.go"))
		for _, f := range fs {
			copyFile(filepath.Join(c.root, n, filepath.Base(f)), f)
		}
	}
	for _, f := range vh {
		copyFile(filepath.Join(c.root, "vh", filepath.Base(f)), f)
	}
	c.genTime = time.Since(t0)
	g := &hGen{root: c.root, pkgs: map[string]*hPkg{}}
	for _, n := range names {
		if c.failed[n] != "" {
			continue
		}
		infos, err := g.harness("vjcorp/" + n)
		if err != nil {
			c.failed[n] = "generated code cannot be read: " + err.Error()
			continue
		}
		use := false
		for _, h := range infos {
			if need(h) {
				use = true
				c.infos = append(c.infos, h)
			}
		}
		if use {
			c.pkgs = append(c.pkgs, "vjcorp/"+n)
		}
	}
	c.load()
	return c
}

func parallel(n int, f func(i int)) {
	var wg sync.WaitGroup
	ch := make(chan int)
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				f(i)
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
}

func loadSSA(dir string, overlay map[string][]byte, pats ...string) (*ssa.Program, []*packages.Package) {
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     dir,
		Env:     os.Environ(),
		Overlay: overlay,
	}
	pk, err := packages.Load(cfg, pats...)
	if err != nil {
		die("loading: %v", err)
	}
	prog := ssa.NewProgram(pk[0].Fset, ssa.InstantiateGenerics|ssa.SanityCheckFunctions&0)
	var create func(p *packages.Package)
	seen := map[*packages.Package]bool{}
	create = func(p *packages.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		for _, i := range p.Imports {
			create(i)
		}
		if p.Types == nil || p.IllTyped && len(p.Syntax) == 0 {
			return
		}
		var files []*ast.File = p.Syntax
		if len(p.Errors) > 0 {
			return
		}
		prog.CreatePackage(p.Types, files, p.TypesInfo, true)
	}
	for _, p := range pk {
		create(p)
	}
	return prog, pk
}

func (c *Corpus) load() {
	pats := append([]string{"vjcorp/vh"}, c.pkgs...)
	prog, pk := loadSSA(c.root, nil, pats...)
	c.prog = newProgram(prog)
	bad := map[string]bool{}
	for _, p := range pk {
		if len(p.Errors) > 0 {
			n := strings.TrimPrefix(p.PkgPath, "vjcorp/")
			if n == "vh" {
				die("property library: %v", p.Errors)
			}
			c.failed[n] = "generated code does not compile: " + p.Errors[0].Error()
			bad[p.PkgPath] = true
		}
	}
	var keep []*HarnessInfo
	for _, h := range c.infos {
		if bad[h.Pkg] {
			continue
		}
		if c.runFns[h.Pkg] == nil {
			for _, p := range pk {
				if p.PkgPath == h.Pkg {
					f := prog.Package(p.Types).Func("VRun")
					c.prog.ensureBuilt(f)
					c.runFns[h.Pkg] = c.prog.fn(f)
				}
			}
		}
		keep = append(keep, h)
	}
	c.infos = keep
}

func newProgram(prog *ssa.Program) *Program {
	return &Program{ssa: prog, fns: map[*ssa.Function]*Fn{}, built: map[*ssa.Package]bool{}}
}

func newM(p *Program) *M {
	ts := NewTerms()
	return &M{ts: ts, sol: NewSolver(ts), prog: p, gl: map[*ssa.Global]*Obj{}, inited: map[*ssa.Package]bool{}, covFns: map[string]bool{}, seen: map[string]int{}}
}

// texty types are declared with unusual names, defaults or layouts.
func texty(n string) bool {
	for _, p := range []string{"texts.", "textsu.", "names.", "layouts.", "defs.", "zdefs.", "fold.", "skips."} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

// relevant tells which types a property speaks about.
func relevant(prop string, f map[string]bool) bool {
	switch prop {
	case "C21":
		return false
	case "C15":
		return f["inline"] || f["ext"]
	case "C16":
		return f["as"]
	case "C17":
		return f["time"]
	case "C18":
		return f["bytes"] || f["bytearr"] || f["uuid"]
	case "C02":
		return f["int"] || f["uint"] || f["f32"] || f["f64"]
	}
	return true
}

type Listed struct {
	Property string `json:"property"`
	Type     string `json:"type"`
	Class    string `json:"class"`
	Finding  string `json:"finding,omitempty"`
}

type KnownFile struct {
	Findings []*Finding `json:"findings"`
	Fixed    []string   `json:"fixed"`
}

// Finding is one genuine defect that is recorded rather than repaired.
type Finding struct {
	ID    string              `json:"id"`
	What  string              `json:"what"`
	Sites map[string][]string `json:"sites"` // property -> "type|class"
}

func knownSet(prop string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(filepath.Join(*fVerif, "known_findings.json"))
	if err != nil {
		return m
	}
	var k KnownFile
	if err := json.Unmarshal(b, &k); err != nil {
		die("known_findings.json: %v", err)
	}
	for _, f := range k.Findings {
		for _, s := range f.Sites[prop] {
			m[s] = f.ID + ": " + f.What
		}
	}
	return m
}

func main() {
	flag.Parse()
	setEnv()
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(20 << 30)
	vhNatives()
	var err error
	scratch, err = os.MkdirTemp("", "vjc")
	if err != nil {
		die("%v", err)
	}
	startProf()
	code := check(*fProp, *fTier)
	stopProf()
	if !*fKeep {
		os.RemoveAll(scratch)
	} else {
		fmt.Fprintln(os.Stderr, "scratch", scratch)
	}
	os.Exit(code)
}

func check(prop, tier string) int {
	switch prop {
	case "C21": // both the generated code and the generator
		a, b := 0, 0
		if !strings.HasPrefix(*fType, "C21") {
			a = checkCorpus(prop, tier)
		}
		if *fType == "" || strings.HasPrefix(*fType, "C21") {
			b = checkGen(prop, tier)
		}
		return max(a&1, b&1) | max(a&2, b&2)
	case "C22", "C23", "C24":
		return checkGen(prop, tier)
	}
	return checkCorpus(prop, tier)
}

func checkCorpus(prop, tier string) int {
	t0 := time.Now()
	c := prepare(func(h *HarnessInfo) bool {
		return (relevant(prop, h.Feat) || prop == "C21" && texty(h.Name)) && (*fType == "" || strings.Contains(h.Name, *fType))
	})
	tLoad := time.Since(t0)
	deep := tier == "thorough"
	maxPaths, secs := 60000, 90.0
	if deep {
		maxPaths, secs = 200000, 60.0
	}
	if *fPaths > 0 {
		maxPaths = *fPaths
	}
	if *fSecs > 0 {
		secs = *fSecs
	}
	jobs := make([]*Job, len(c.infos))
	for i, h := range c.infos {
		d := uint64(0)
		if deep {
			d = 1
		}
		jobs[i] = &Job{Name: h.Name, Type: h.Name, Fn: c.runFns[h.Pkg], Args: []V{{N: uint64(h.Index)}, str(prop), {N: d}}, Prop: prop}
	}
	budget := 500.0
	if deep {
		budget = 780
	}
	end := t0.Add(time.Duration(budget * float64(time.Second)))
	res := runJobs(c.prog, jobs, maxPaths, secs, end)
	return finish(&outcome{prop: prop, tier: tier, t0: t0, load: tLoad, c: c, jobs: jobs, res: res.results, cov: res.cov, queries: res.queries, solver: res.solver, unknown: res.unknown, deep: deep})
}

type jobsOut struct {
	results []*JobResult
	cov     map[string]bool
	queries int
	unknown int
	solver  time.Duration
}

func runJobs(p *Program, jobs []*Job, maxPaths int, secs float64, end time.Time) *jobsOut {
	out := &jobsOut{results: make([]*JobResult, len(jobs)), cov: map[string]bool{}}
	var mu sync.Mutex
	var wg sync.WaitGroup
	ch := make(chan int)
	nw := runtime.NumCPU()
	if nw > len(jobs) {
		nw = len(jobs)
	}
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			m := newM(p)
			defer m.sol.Close()
			for i := range ch {
				dl := time.Now().Add(time.Duration(secs * float64(time.Second)))
				if dl.After(end) {
					dl = end
				}
				r := m.runJob(jobs[i], maxPaths, dl)
				out.results[i] = r
				if *fV {
					fmt.Fprintf(os.Stderr, "%-30s paths %d aborted %d infeasible %d checks %d covered %d viol %d %v %s\n", jobs[i].Name, r.Stats.Paths, r.Stats.Aborted, r.Stats.Infeasible, r.Stats.Checks, r.Stats.Covered, len(r.Viols), r.Dur.Round(time.Millisecond), r.Trunc)
				}
				if len(m.ts.tab) > 400000 { // start over with fresh terms
					mu.Lock()
					out.queries += m.sol.Queries
					out.solver += m.sol.Time
					mu.Unlock()
					cov := m.covFns
					m.sol.Close()
					m = newM(p)
					m.covFns = cov
				}
			}
			mu.Lock()
			for f := range m.covFns {
				out.cov[f] = true
			}
			out.queries += m.sol.Queries
			out.solver += m.sol.Time
			out.unknown += m.sol.Unknowns
			mu.Unlock()
		}()
	}
	for i := range jobs {
		ch <- i
	}
	close(ch)
	wg.Wait()
	return out
}

type outcome struct {
	prop, tier string
	t0         time.Time
	load       time.Duration
	c          *Corpus
	jobs       []*Job
	res        []*JobResult
	cov        map[string]bool
	queries    int
	unknown    int
	solver     time.Duration
	deep       bool
	known      map[string]string
}

func finish(o *outcome) int {
	known := knownSet(o.prop)
	if *fDump != "" {
		known = map[string]string{}
	}
	o.known = known
	var paths, aborted, infeasible, checks, branches, steps, unknown, covered, trunc int
	why := map[string]int{}
	var viols []*Viol
	for _, r := range o.res {
		paths += r.Stats.Paths
		aborted += r.Stats.Aborted
		infeasible += r.Stats.Infeasible
		checks += r.Stats.Checks
		branches += r.Stats.Branches
		steps += r.Stats.Steps
		unknown += r.Stats.Unknown
		covered += r.Stats.Covered
		if r.Trunc != "" {
			trunc++
			why["not finished within the budget: "+r.Job.Name]++
		}
		for k, n := range r.Stats.AbortWhy {
			why[k] += n
		}
		viols = append(viols, r.Viols...)
	}
	sort.SliceStable(viols, func(i, j int) bool {
		if viols[i].Type != viols[j].Type {
			return viols[i].Type < viols[j].Type
		}
		return viols[i].Class < viols[j].Class
	})
	if *fAll {
		for _, v := range viols {
			fmt.Printf("V\t%s\t%s\t%s\t%v\n", v.Prop, v.Type, v.Class, v.Trace)
		}
	}
	var fresh []*Viol
	hit := map[string]int{}
	for _, v := range viols {
		if k := known[v.Type+"|"+v.Class]; k != "" {
			hit[k]++
			continue
		}
		fresh = append(fresh, v)
	}
	// types whose generated code cannot be used at all
	var broken []string
	for n := range o.c.failed {
		if concerns(o.prop, n) {
			broken = append(broken, n)
		}
	}
	sort.Strings(broken)
	code := 0
	nviol := 0
	replayDir := filepath.Join(*fVerif, "evidence", "replay")
	// a sample of the paths on which nothing was found is run on the compiled code as well
	byName := map[string]*HarnessInfo{}
	for _, h := range o.c.infos {
		byName[h.Name] = h
	}
	var samples []*Viol
	for _, r := range o.res {
		for _, t := range r.Samples {
			samples = append(samples, &Viol{Prop: o.prop, Type: r.Job.Type, Trace: t})
		}
	}
	validated := 0
	if !*fAll {
		res := replay(o, append(append([]*Viol{}, fresh...), samples...))
		if !res && len(fresh) > 0 {
			fmt.Fprintln(os.Stderr, "verif: counterexamples could not be replayed")
			code = 3
		}
		var confirmed []*Viol
		for _, v := range fresh {
			if v.Confirmed {
				confirmed = append(confirmed, v)
			}
		}
		for _, v := range samples {
			switch {
			case v.Confirmed:
				// the model was too kind to the code here; the code itself shows the violation
				v.Class = firstLine(v.Native)
				v.Notes = append(v.Notes, "found by running an explored path on the compiled code")
				confirmed = append(confirmed, v)
			case res:
				validated++
			}
		}
		for _, v := range fresh {
			if v.Confirmed {
				validated++
			}
		}
		if *fDump != "" {
			dump(*fDump, append(append([]*Viol{}, fresh...), confirmed[len(confirmed)-countSamples(samples):]...))
		}
		for _, v := range fresh {
			if !v.Confirmed {
				why["counterexample not confirmed by the real code: "+v.Type+": "+v.Class+" ("+v.Native+")"]++
			}
		}
		for i, v := range confirmed {
			os.MkdirAll(replayDir, 0o755)
			f := filepath.Join(replayDir, fmt.Sprintf("%s_%d%s.json", o.prop, i, partOf(o)))
			writeReplay(f, o, v)
			if i < 20 {
				fmt.Printf("VIOLATION property=%s replay=%s\n  type %s: %s\n", o.prop, f, v.Type, v.Class)
			}
			nviol++
			code = 1
		}
	}
	for _, n := range broken {
		os.MkdirAll(replayDir, 0o755)
		f := filepath.Join(replayDir, fmt.Sprintf("%s_%s.txt", o.prop, n))
		os.WriteFile(f, []byte("corpus package "+n+": "+o.c.failed[n]+"\n"), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n  corpus package %s: %s\n", o.prop, f, n, firstLine(o.c.failed[n]))
		code = 1
		nviol++
	}
	var ks []string
	for k := range hit {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%d sites)\n", o.prop, k, hit[k])
	}
	if *fV {
		for _, k := range sortedKeys(why) {
			fmt.Fprintf(os.Stderr, "  note %d x %s\n", why[k], k)
		}
	}
	var fns []string
	for f := range o.cov {
		if strings.Contains(f, "vjcorp/vh") {
			continue
		}
		fns = append(fns, f)
	}
	sort.Strings(fns)
	wall := time.Since(o.t0).Seconds()
	fmt.Printf("%s %s: %d types, %d paths (%d outside the model, %d infeasible), %d branch decisions, %d assertions, %d end states, %d solver queries %.1fs, %d functions encoded, %d jobs truncated, load %.1fs, wall %.1fs\n",
		o.prop, o.tier, len(o.jobs), paths, aborted, infeasible, branches, checks, covered, o.queries, o.solver.Seconds(), len(fns), trunc, o.load.Seconds(), wall)
	var types []string
	for _, j := range o.jobs {
		types = append(types, j.Name)
	}
	ev := map[string]any{
		"property":   o.prop,
		"tier":       o.tier,
		"seed":       1,
		"level":      "model_checking",
		"wall_s":     wall,
		"violations": nviol,
		"coverage": map[string]any{
			"states":                        paths,
			"transitions":                   branches + paths,
			"traces_validated_against_impl": validated,
			"samples":                       types[:min(len(types), 40)],
			"types":                         len(o.jobs),
			"assertions":                    checks,
			"end_states":                    covered,
			"solver_queries":                o.queries,
			"solver_seconds":                o.solver.Seconds(),
			"solver_unknown":                unknown,
			"instructions":                  steps,
			"paths_outside_model":           aborted,
			"paths_infeasible":              infeasible,
			"jobs_truncated":                trunc,
			"functions_encoded":             len(fns),
			"functions":                     sampleFns(fns),
			"outside":                       why,
			"bounds":                        bounds(o.prop, o.deep),
			"known_finding_sites":           hit,
		},
		"assumptions": assumed(o.prop),
	}
	if lastEv != nil {
		mergeEv(ev, lastEv)
	}
	lastEv = ev
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*fVerif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(*fVerif, "evidence", o.prop+".json"), b, 0o644)
	return code
}

// partOf keeps the replay files of the two parts of a check apart.
func partOf(o *outcome) string {
	if lastEv != nil {
		return "g"
	}
	return ""
}

var lastEv map[string]any

// mergeEv adds the evidence of an earlier part of the same check.
func mergeEv(a, b map[string]any) {
	for k, x := range b {
		switch y := a[k].(type) {
		case int:
			if k != "seed" {
				a[k] = y + x.(int)
			}
		case float64:
			a[k] = y + x.(float64)
		case []string:
			a[k] = append(append([]string{}, x.([]string)...), y...)
		case map[string]any:
			mergeEv(y, x.(map[string]any))
		case map[string]int:
			for n, c := range x.(map[string]int) {
				y[n] += c
			}
		case nil:
			a[k] = x
		}
	}
}

func countSamples(vs []*Viol) (n int) {
	for _, v := range vs {
		if v.Confirmed {
			n++
		}
	}
	return
}

var dumped []map[string]any // C21 consists of two checks

func dump(f string, vs []*Viol) {
	r := dumped
	for _, v := range vs {
		r = append(r, map[string]any{"prop": v.Prop, "type": v.Type, "class": v.Class, "confirmed": v.Confirmed, "native": v.Native, "trace": v.Trace, "notes": v.Notes})
	}
	dumped = r
	b, _ := json.MarshalIndent(r, "", " ")
	os.WriteFile(f, b, 0o644)
}

// concerns tells whether a property speaks about the declarations of a corpus package, for packages whose code
// cannot be generated or compiled.
func concerns(prop, pkg string) bool {
	b, _ := os.ReadFile(filepath.Join(*fVerif, "corpus", pkg, "types.go"))
	t := string(b)
	has := func(ss ...string) bool {
		for _, s := range ss {
			if strings.Contains(t, s) {
				return true
			}
		}
		return false
	}
	switch prop {
	case "C01", "C07", "C08", "C09", "C14":
		return true
	case "C02", "C03":
		return has(" int", " uint", " float", "]int", "]uint", "]float")
	case "C04":
		return has("strict")
	case "C05":
		return has("default:", "required")
	case "C10", "C11", "C12", "C13", "C20", "C19", "C06":
		return has("struct {")
	case "C15":
		return has("inline", "vjcorp/")
	case "C16":
		return has("type N", "json:json\ntype X", "type Ref")
	case "C17":
		return has("time.Time")
	case "C18":
		return has("uuid.", "byte")
	}
	return false
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func sampleFns(fs []string) []string {
	var r []string
	for _, f := range fs {
		if strings.Contains(f, "vjcorp") || strings.Contains(f, "fastjson") || strings.Contains(f, "jwriter") || strings.Contains(f, "valyjson") {
			r = append(r, f)
		}
	}
	if len(r) > 150 {
		r = r[:150]
	}
	return r
}

var assumptions = []string{
	"text is symbolic over seven-bit characters, and concrete where longer or outside ASCII",
	"the scanner of fastjson is modelled at the level of documents: a document of a given tree yields the tree of values the library documents; everything above it (Get, Visit, Int, StringBytes, ...) is executed from source",
	"number printing and reading (strconv), time formatting and parsing per layout, base64 and uuid texts are modelled as inverse pairs; their acceptance of malformed text is decided on listed concrete texts",
	"sync.Pool hands back what was put last or creates a new object; scheduling is not explored, isolation of memory is",
}

var genAssumptions = []string{
	"source files are symbolic in the characters named by the bounds and concrete elsewhere",
	"the operating system's files are replaced by a table of files; what the generator prints is the syntax tree it hands to go/printer, compared node by node",
	"everything else (go/scanner, go/parser, go/ast, go-ast, the generator) is executed from source",
}

func assumed(prop string) []string {
	if prop == "C21" && lastEv == nil {
		return assumptions
	}
	if genCounts[prop] > 0 {
		return genAssumptions
	}
	return assumptions
}

func bounds(prop string, deep bool) map[string]any {
	switch prop {
	case "C21":
		if lastEv != nil {
			return map[string]any{"name_characters": "1 or 2 symbolic among letters, digits and the punctuation of encoding/json, beside fixed ones", "default_and_layout_characters": "1 or 2, any seven-bit", "member_kinds": 20}
		}
	case "C22":
		n := 2
		if deep {
			n = 3
		}
		return map[string]any{"options": n, "option_letters": "0, 4, 6 or 7, any case", "declarations": 8, "comment_forms": 5}
	case "C23":
		return map[string]any{"packages": 2, "alias_and_clause_letters": 1, "kinds": 8, "uses": 9, "layouts": 9}
	case "C24":
		return map[string]any{"alias_letters": 8, "files": 4, "map_orders": 2, "generations": 3}
	}
	l, s := 2, 2
	if deep {
		l, s = 3, 3
	}
	return map[string]any{"collection_length": l, "string_length": s, "nesting": "as declared by the type, collections of length 1 below depth 2", "members": "one member (or element) ranges over everything while the others are ordinary, absent or zero; integers, floats, booleans, instants and bytes are unrestricted within their width"}
}

func startProf() {
	if *fProf != "" {
		profStart(*fProf)
	}
}
func stopProf() {
	if *fProf != "" {
		profStop()
	}
}

var _ types.Type
