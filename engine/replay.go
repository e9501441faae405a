package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type replayCase struct {
	Pkg   string
	Index int
	Prop  string
	Class string
	Deep  bool
	Trace []uint64
}

type replayResult struct {
	Found []string
	Panic string
	Doc   string
}

// replay runs paths on the compiled code and marks those that show a violation there; false: it could not be run.
func replay(o *outcome, vs []*Viol) bool {
	if len(vs) == 0 {
		return true
	}
	byName := map[string]*HarnessInfo{}
	for _, h := range o.c.infos {
		byName[h.Name] = h
	}
	pk := map[string]bool{}
	var cases []replayCase
	for _, v := range vs {
		h := byName[v.Type]
		cases = append(cases, replayCase{h.Pkg, h.Index, v.Prop, v.Class, o.deep, v.Trace})
		pk[h.Pkg] = true
	}
	bin, err := buildReplay(o.c, pk)
	if err != nil {
		fmt.Fprintln(os.Stderr, "verif: replay:", err)
		return false
	}
	in := filepath.Join(scratch, "cases.json")
	out := filepath.Join(scratch, "results.json")
	var rs []replayResult
	runs := [][]replayCase{cases}
	if pk[ghPath] { // the generator keeps state in its process
		runs = nil
		for i := range cases {
			runs = append(runs, cases[i:i+1])
		}
	}
	for _, cs := range runs {
		b, _ := json.Marshal(cs)
		os.WriteFile(in, b, 0o644)
		os.Remove(out)
		if txt, err := run(scratch, nil, "timeout", "120", bin, in, out); err != nil {
			fmt.Fprintln(os.Stderr, "verif: replay run:", err, txt)
		}
		var r []replayResult
		b, _ = os.ReadFile(out)
		json.Unmarshal(b, &r)
		rs = append(rs, r...)
	}
	for i, v := range vs {
		if i >= len(rs) {
			v.Native = "no result"
			continue
		}
		r := rs[i]
		v.Notes = append(v.Notes, r.Doc)
		v.Native = strings.Join(r.Found, "; ")
		for _, f := range r.Found {
			props, class := f, ""
			if k := strings.IndexByte(f, '|'); k >= 0 {
				props, class = f[:k], f[k+1:]
			}
			for _, p := range strings.Split(props, ",") {
				if p = asProp(v.Prop, p); p == v.Prop && (v.Class != "" && class == v.Class || o.known[v.Type+"|"+class] == "") {
					v.Confirmed = true
				}
			}
		}
		if r.Panic != "" && v.Prop == "C14" {
			v.Confirmed = true
			v.Native = r.Panic
		}
		if r.Panic != "" && v.Native == "" {
			v.Native = r.Panic
		}
	}
	return len(rs) == len(vs)
}

func buildReplay(c *Corpus, pk map[string]bool) (string, error) {
	dir := filepath.Join(c.root, "zzreplay")
	os.MkdirAll(dir, 0o755)
	b, err := os.ReadFile(filepath.Join(*fVerif, "gen/replay.go.txt"))
	if err != nil {
		return "", err
	}
	var ps []string
	for p := range pk {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	os.WriteFile(filepath.Join(dir, "main.go"), b, 0o644)
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n")
	for i, p := range ps {
		fmt.Fprintf(&sb, "\tp%d %q\n", i, p)
	}
	sb.WriteString(")\n\nvar table = map[string]func(int, string, bool){\n")
	for i, p := range ps {
		fmt.Fprintf(&sb, "\t%q: p%d.VRun,\n", p, i)
	}
	sb.WriteString("}\n")
	os.WriteFile(filepath.Join(dir, "table.go"), []byte(sb.String()), 0o644)
	bin := filepath.Join(scratch, "replay")
	ov, err := fjOverlay(c.root)
	if err != nil {
		return "", err
	}
	out, err := run(c.root, nil, "go", "build", "-tags", "vhnative", "-overlay", ov, "-o", bin, "./zzreplay")
	if err != nil {
		return "", fmt.Errorf("%v: %s", err, out)
	}
	return bin, nil
}

// fjOverlay replaces the parser pool of the library by one that reports and punishes misuse.
func fjOverlay(root string) (string, error) {
	dir, err := run(root, nil, "go", "list", "-f", "{{.Dir}}", fjPath)
	if err != nil {
		return "", fmt.Errorf("%v: %s", err, dir)
	}
	dir = strings.TrimSpace(dir)
	repl := map[string]string{}
	x, err := os.ReadFile(filepath.Join(*fVerif, "gen/fj_pool.go.txt"))
	if err != nil {
		return "", err
	}
	extra := strings.Replace(string(x), "package fastjson\n", "", 1)
	edit := func(name string, pairs ...string) error {
		b, err := os.ReadFile(filepath.Join(dir, name))
		if err != nil {
			return err
		}
		s := string(b)
		for i := 0; i < len(pairs); i += 2 {
			if strings.Count(s, pairs[i]) != 1 {
				return fmt.Errorf("%s does not look as expected", name)
			}
			s = strings.Replace(s, pairs[i], pairs[i+1], 1)
		}
		if name == "pool.go" {
			s += extra
		}
		f := filepath.Join(scratch, "fj_"+name)
		repl[filepath.Join(dir, name)] = f
		return os.WriteFile(f, []byte(s), 0o644)
	}
	if err := edit("pool.go", "return v.(*Parser)", "return vhGet(v.(*Parser))", "\tpp.pool.Put(p)", "\tvhPut(p)\n\tpp.pool.Put(p)"); err != nil {
		return "", err
	}
	if err := edit("parser.go", "\ts = skipWS(s)\n\tp.b = append(", "\tvhUse(p)\n\ts = skipWS(s)\n\tp.b = append("); err != nil {
		return "", err
	}
	b, _ := json.Marshal(map[string]any{"Replace": repl})
	f := filepath.Join(scratch, "overlay.json")
	return f, os.WriteFile(f, b, 0o644)
}

func writeReplay(f string, o *outcome, v *Viol) {
	decl := ""
	if i := strings.IndexByte(v.Type, '.'); i > 0 {
		b, _ := os.ReadFile(filepath.Join(*fVerif, "corpus", v.Type[:i], "types.go"))
		decl = typeDecl(string(b), v.Type[i+1:])
	}
	b, _ := json.MarshalIndent(map[string]any{
		"property": v.Prop, "type": v.Type, "what": v.Class, "inputs": v.Trace, "confirmed_by_compiled_code": v.Native,
		"declaration": decl, "document_or_value": v.Notes,
	}, "", " ")
	os.WriteFile(f, b, 0o644)
}

func typeDecl(src, name string) string {
	i := strings.Index(src, "\ntype "+name+" ")
	if i < 0 {
		return ""
	}
	rest := src[i+1:]
	if j := strings.Index(rest, "\n}\n"); j >= 0 && strings.Contains(firstLine(rest), "struct {") {
		return rest[:j+2]
	}
	return firstLine(rest)
}
