package main

import (
	"fmt"
	"sort"
	"strings"
	"time"
)

// dec is one decision of a path: a branch, a finite choice or the value picked for an index.
type dec struct {
	kind   uint8 // 0 branch, 1 choice, 2 value
	forced bool
	alt    bool
	c      uint64
	n      int
	model  map[*Term]uint64 // model for the alternative (branch) or for every option (choice)
}

type Job struct {
	Name  string
	Type  string // corpus type
	Fn    *Fn
	Args  []V
	Prop  string
	Map   bool // permute map iteration
	Trace []uint64
	Limit int
}

type Viol struct {
	Prop, Class, Job, Type string
	Site                   string
	Trace                  []uint64
	Notes                  []string
	Native                 string
	Confirmed              bool
	fnArgs                 []V
}

type JobResult struct {
	Job     *Job
	Viols   []*Viol
	Stats   Stats
	Trunc   string
	Dur     time.Duration
	Unknown int
	Samples [][]uint64 // inputs of paths on which nothing was violated
}

func (m *M) vars() []*Term {
	var vs []*Term
	for _, r := range m.nd {
		if r.t != nil && r.t.op == OVar {
			vs = append(vs, r.t)
		}
	}
	vs = append(vs, m.hid...)
	return vs
}

// addPC records a fact known to be satisfiable together with the path condition.
func (m *M) addPC(t *Term) {
	if t.isConst() || m.pcset[t] {
		return
	}
	m.pc = append(m.pc, t)
	m.learn(t)
}

func (m *M) learn(t *Term) {
	m.pcset[t] = true
	if t.op == OAnd {
		m.learn(t.a[0])
		m.learn(t.a[1])
	}
	if t.op == ONot && t.a[0].op == OOr {
		m.learn(m.ts.Not(t.a[0].a[0]))
		m.learn(m.ts.Not(t.a[0].a[1]))
	}
}

func (m *M) branch(t *Term) bool {
	if t.isConst() {
		return t.c == 1
	}
	if m.pcset[t] {
		return true
	}
	nt := m.ts.Not(t)
	if m.pcset[nt] {
		return false
	}
	if m.inInit > 0 {
		abort("symbolic branch during initialisation")
	}
	if m.pos < len(m.decs) {
		d := m.decs[m.pos]
		m.pos++
		if d.kind != 0 {
			panic("replay out of step")
		}
		if d.c == 1 {
			m.note(t, d.forced)
		} else {
			m.note(nt, d.forced)
		}
		return d.c == 1
	}
	m.stats.Branches++
	v := m.ts.Eval(t, m.model) == 1
	me, other := t, nt
	if !v {
		me, other = nt, t
	}
	d := dec{c: b2u(v)}
	res, mod := m.sol.Check(m.pc, other, m.vars())
	switch res {
	case "unsat":
		d.forced = true
	case "sat":
		d.alt = true
		d.model = mod
	default:
		m.stats.Unknown++
	}
	m.decs = append(m.decs, d)
	m.pos++
	m.note(me, d.forced)
	return v
}

func (m *M) note(t *Term, forced bool) {
	if forced {
		m.learn(t) // implied already
		return
	}
	m.addPC(t)
}

// choose picks one of n options; every option is explored.
func (m *M) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if m.inInit > 0 {
		return 0
	}
	if m.pos < len(m.decs) {
		d := m.decs[m.pos]
		m.pos++
		if d.kind != 1 {
			panic("replay out of step (choice)")
		}
		return int(d.c)
	}
	m.decs = append(m.decs, dec{kind: 1, n: n, alt: true, model: m.model})
	m.pos++
	return 0
}

// someValue gives a feasible value of t, the same one on every replay.
func (m *M) someValue(t *Term) (uint64, bool) {
	if m.pos < len(m.decs) {
		d := m.decs[m.pos]
		m.pos++
		if d.kind != 2 {
			panic("replay out of step (value)")
		}
		return d.c, true
	}
	v := m.ts.Eval(t, m.model)
	m.decs = append(m.decs, dec{kind: 2, c: v})
	m.pos++
	return v, true
}

func (m *M) assume(t *Term) {
	if t == m.ts.F {
		panic(&pathAbort{why: "assumed away", quiet: true})
	}
	if t.isConst() || m.pcset[t] {
		return
	}
	if m.pcset[m.ts.Not(t)] {
		panic(&pathAbort{why: "assumed away", quiet: true})
	}
	if m.ts.Eval(t, m.model) != 1 {
		// during replay of a prefix the model already satisfies every later decision, so a
		// violated assumption there cannot occur
		res, mod := m.sol.Check(m.pc, t, m.vars())
		if res != "sat" {
			if res == "unknown" {
				m.stats.Unknown++
			}
			panic(&pathAbort{why: "assumed away", quiet: true})
		}
		m.model = mod
	}
	m.addPC(t)
}

func (m *M) fresh(w int, tag string) *Term {
	t := m.ts.Var(fmt.Sprintf("n%d_%d", len(m.nd), w), w)
	m.nd = append(m.nd, ndRec{t: t, tag: tag})
	return t
}

// hidden makes a variable that is not part of the trace (determined by others).
func (m *M) hidden(w int) *Term {
	m.nhid++
	t := m.ts.Var(fmt.Sprintf("h%d_%d", m.nhid, w), w)
	m.hid = append(m.hid, t)
	return t
}

func (m *M) traceOf(model map[*Term]uint64) []uint64 {
	var r []uint64
	for _, n := range m.nd {
		if n.t == nil {
			r = append(r, n.val)
		} else {
			r = append(r, m.ts.Eval(n.t, model))
		}
	}
	return r
}

// check is an assertion: cond must hold on every execution reaching it.
func (m *M) check(cond *Term, prop, class string) {
	m.stats.Checks++
	if cond == m.ts.T || m.pcset[cond] {
		return
	}
	var model map[*Term]uint64
	if cond == m.ts.F || m.pcset[m.ts.Not(cond)] {
		model = m.model
	} else if m.pos < len(m.decs) || m.ts.Eval(cond, m.model) == 1 {
		// On a replayed prefix the assertion was discharged before; keep the fact.
		if m.pos < len(m.decs) {
			m.addCond(cond)
			return
		}
		res, mod := m.sol.Check(m.pc, m.ts.Not(cond), m.vars())
		switch res {
		case "unsat":
			m.learn(cond)
			return
		case "unknown":
			m.stats.Unknown++
			return
		}
		model = mod
	} else {
		model = m.model
	}
	m.report(prop, class, model)
	if cond == m.ts.F {
		return
	}
	// go on with executions where it held
	m.assume(cond)
}

// addCond re-adds an assertion's condition while replaying a prefix.
func (m *M) addCond(cond *Term) {
	if m.ts.Eval(cond, m.model) == 1 {
		m.addPC(cond)
	} else {
		m.assume(cond)
	}
}

func (m *M) report(props, class string, model map[*Term]uint64) {
	m.pathViol = true
	tr := m.traceOf(model)
	for _, p := range strings.Split(props, ",") {
		if p = asProp(m.curJob.Prop, p); m.curJob.Prop != "" && p != m.curJob.Prop {
			continue
		}
		k := p + "|" + class
		if m.seen[k] > 0 {
			m.seen[k]++
			continue
		}
		m.seen[k] = 1
		m.viols = append(m.viols, &Viol{Prop: p, Class: class, Job: m.curJob.Name, Type: m.curJob.Type, Trace: tr})
	}
}

// asProp: a property about declarations is violated by whatever goes wrong with the declared text.
func asProp(job, p string) string {
	if job == "C21" {
		switch p {
		case "C01", "C04", "C05", "C07", "C08", "C17":
			return job
		}
	}
	return p
}

// runJob explores every path of a harness within the budget.
func (m *M) runJob(j *Job, maxPaths int, deadline time.Time) *JobResult {
	t0 := time.Now()
	m.curJob = j
	m.stats = Stats{AbortWhy: map[string]int{}}
	m.viols = nil
	m.seen = map[string]int{}
	m.mapOrder = j.Map
	m.decs = nil
	res := &JobResult{Job: j}
	start := map[*Term]uint64{}
	ended := 0
	for {
		m.beginPath(start)
		m.stats.Paths++
		m.pathViol = false
		if m.runPath(j) && !m.pathViol {
			if ended++; ended == 1 || ended == 7 || ended == 49 {
				res.Samples = append(res.Samples, m.traceOf(m.model))
			}
		}
		m.undo()
		// next
		i := len(m.decs) - 1
		for i >= 0 && !m.decs[i].alt {
			i--
		}
		if i < 0 {
			break
		}
		m.decs = m.decs[:i+1]
		d := &m.decs[i]
		switch d.kind {
		case 0:
			d.c = 1 - d.c
			d.alt = false
			start = d.model
		case 1:
			d.c++
			d.alt = int(d.c)+1 < d.n
			start = d.model
		}
		if m.stats.Paths >= maxPaths {
			res.Trunc = "path budget"
			break
		}
		if time.Now().After(deadline) {
			res.Trunc = "time budget"
			break
		}
	}
	res.Viols = m.viols
	res.Stats = m.stats
	res.Dur = time.Since(t0)
	return res
}

func (m *M) beginPath(model map[*Term]uint64) {
	m.epoch++
	m.pos = 0
	m.pc = m.pc[:0]
	m.pcset = map[*Term]bool{}
	m.model = model
	m.nd = m.nd[:0]
	m.hid = m.hid[:0]
	m.nhid = 0
	m.events = m.events[:0]
	m.poolsBy = map[ptrKey]*poolSt{}
	m.parsers = map[*Obj]*pstate{}
	m.puts = 0
	m.mapMode = 0
	m.once = map[*Obj]bool{}
	m.steps = 0
	m.depth = 0
	m.frameOn = false
	m.frameOK = nil
	m.limit = 20000000
	if m.curJob.Limit > 0 {
		m.limit = m.curJob.Limit
	}
}

// runPath tells whether the path ran to the end of the harness.
func (m *M) runPath(j *Job) (done bool) {
	defer func() {
		m.stats.Steps += m.steps
		r := recover()
		if r == nil {
			return
		}
		m.inInit = 0
		switch x := r.(type) {
		case *pathAbort:
			if x.quiet {
				m.stats.Infeasible++
				return
			}
			m.stats.Aborted++
			m.stats.AbortWhy[x.why]++
		case *goPanic:
			m.report("C14", "panic outside a guarded call: "+m.panicText(x), m.model)
			m.stats.Aborted++
			m.stats.AbortWhy["panic in harness: "+m.panicText(x)+" at "+x.at]++
		default:
			if debugPanics {
				panic(r)
			}
			m.stats.Aborted++
			m.stats.AbortWhy[fmt.Sprintf("engine: %v", r)]++
		}
	}()
	m.runFn(j.Fn, j.Args, nil, nil)
	return true
}

var debugPanics = false

func (m *M) panicText(g *goPanic) string {
	if g.rt {
		return g.msg
	}
	if i, ok := g.val.X.(*Iface); ok {
		if basicOf(i.t).w == wString {
			s, _ := m.conc(i.v)
			return s
		}
		if o, ok := i.v.X.(*Obj); ok && strings.HasSuffix(i.t.String(), "errors.errorString") {
			if s, ok := m.conc(o.cells[int(i.v.N)]); ok {
				return s
			}
		}
		return "value of type " + i.t.String()
	}
	return g.msg
}

func sortedKeys(m map[string]int) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
