package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"strings"
	"sync"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type Program struct {
	ssa       *ssa.Program
	mu        sync.Mutex
	fns       map[*ssa.Function]*Fn
	built     map[*ssa.Package]bool
	methods   sync.Map
	allowInit func(path string) bool
}

type Fn struct {
	f        *ssa.Function
	name     string
	nregs    int
	nparams  int
	free0    int
	blocks   []*blk
	hasDefer bool
	recover_ int
	native   func(m *M, fr *frame, args []V) V
	hybrid   func(m *M, fr *frame, args []V) (V, bool)
	once     sync.Once
	results  *types.Tuple
	err      string
	loops    bool
}

type step func(fr *frame)
type blk struct {
	phis  []phi
	steps []step
	term  func(fr *frame) int
	idx   int
	pos   token.Pos
}
type phi struct {
	dst   int
	edges []opd
}

type opd struct {
	k uint8 // 0 reg, 1 const, 2 global
	i int
	v V
	g *ssa.Global
}

type deferred struct {
	fn   func(fr *frame)
	from *frame
}

type frame struct {
	m         *M
	fn        *Fn
	regs      []V
	caller    *frame
	defers    []func()
	panicking *goPanic
	deferOf   *frame
	ret       V
	prev      int
}

func (o *opd) get(fr *frame) V {
	switch o.k {
	case 0:
		return fr.regs[o.i]
	case 1:
		return o.v
	}
	return V{X: fr.m.global(o.g)}
}

func (p *Program) fn(f *ssa.Function) *Fn {
	p.mu.Lock()
	x := p.fns[f]
	if x == nil {
		x = &Fn{f: f, name: fullName(f)}
		p.fns[f] = x
	}
	p.mu.Unlock()
	x.once.Do(func() { p.compile(x) })
	return x
}

func fullName(f *ssa.Function) string {
	if f.Origin() != nil {
		return f.Origin().String()
	}
	return f.String()
}

func (p *Program) ensureBuilt(f *ssa.Function) {
	pk := f.Package()
	if pk == nil {
		return
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	if !p.built[pk] {
		p.built[pk] = true
		pk.Build()
	}
}

func (m *M) global(g *ssa.Global) *Obj {
	if o := m.gl[g]; o != nil {
		if !m.inited[g.Pkg] {
			m.initPkg(g.Pkg)
		}
		return o
	}
	et := g.Type().Underlying().(*types.Pointer).Elem()
	m.nextID++
	o := &Obj{cells: make([]V, slots(et)), epoch: -1, id: m.nextID, global: true, what: "package variable " + g.String()}
	m.gl[g] = o
	m.initPkg(g.Pkg)
	if g.Pkg.Pkg.Path() == "os" && strings.HasPrefix(g.Name(), "Err") { // not initialised here
		if f := m.prog.ssa.ImportedPackage("io/fs"); f != nil && f.Var(g.Name()) != nil {
			o.cells[0] = m.global(f.Var(g.Name())).cells[0]
		}
	}
	return o
}

func (m *M) initPkg(p *ssa.Package) {
	if p == nil || m.inited[p] {
		return
	}
	m.inited[p] = true
	if skipInit[p.Pkg.Path()] {
		return
	}
	f := p.Func("init")
	if f == nil {
		return
	}
	m.inInit++
	saveEpoch := m.epoch
	saveFrame := m.frameOn
	saveSteps := m.steps
	saveLimit := m.limit
	m.limit = 1 << 62
	m.epoch = -1
	m.frameOn = false
	defer func() {
		m.inInit--
		m.epoch = saveEpoch
		m.frameOn = saveFrame
		m.steps = saveSteps
		m.limit = saveLimit
	}()
	m.prog.ensureBuilt(f)
	fn := m.prog.fn(f)
	m.runFn(fn, nil, nil, nil)
}

var skipInit = map[string]bool{"runtime": true, "os": true, "syscall": true, "reflect": true, "internal/cpu": true, "unicode": false, "internal/godebug": true}

func (p *Program) compile(x *Fn) {
	f := x.f
	if n := natives[x.name]; n != nil {
		x.native = n
		return
	}
	x.hybrid = hybrids[x.name]
	if f.Synthetic == "package initializer" {
		// handled like any function; calls to other initialisers are ignored
	}
	p.ensureBuilt(f)
	if f.Origin() != nil {
		p.ensureBuilt(f.Origin())
	}
	if len(f.Blocks) == 0 {
		x.err = "no body: " + x.name
		return
	}
	c := &compiler{p: p, x: x, regs: map[ssa.Value]int{}}
	for _, pa := range f.Params {
		c.reg(pa)
	}
	x.nparams = len(f.Params)
	x.free0 = c.n
	for _, fv := range f.FreeVars {
		c.reg(fv)
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				c.reg(v)
			}
			if _, ok := in.(*ssa.Defer); ok {
				x.hasDefer = true
			}
		}
	}
	x.results = f.Signature.Results()
	for i, b := range f.Blocks {
		x.blocks = append(x.blocks, c.block(i, b))
	}
	x.recover_ = -1
	if f.Recover != nil {
		x.recover_ = f.Recover.Index
	}
	x.nregs = c.n
}

type compiler struct {
	p    *Program
	x    *Fn
	regs map[ssa.Value]int
	n    int
}

func (c *compiler) reg(v ssa.Value) int {
	if i, ok := c.regs[v]; ok {
		return i
	}
	i := c.n
	c.n++
	c.regs[v] = i
	return i
}

func constV(v *ssa.Const) V {
	t := v.Type()
	if v.Value == nil {
		return zeroV(t)
	}
	k := basicOf(t)
	switch {
	case k.w == 0:
		return V{N: b2u(constant.BoolVal(v.Value))}
	case k.w == wString:
		if v.Value.Kind() == constant.Int {
			i, _ := constant.Int64Val(v.Value)
			return str(string(rune(i)))
		}
		return str(constant.StringVal(v.Value))
	case k.w < 0:
		f, _ := constant.Float64Val(constant.ToFloat(v.Value))
		return V{N: fromF(k.w, f)}
	case k.w == wOther:
		return V{}
	}
	cv := constant.ToInt(v.Value)
	if i, ok := constant.Int64Val(cv); ok {
		return V{N: mask(k.w, uint64(i))}
	}
	u, _ := constant.Uint64Val(cv)
	return V{N: mask(k.w, u)}
}

func (c *compiler) op(v ssa.Value) opd {
	switch v := v.(type) {
	case *ssa.Const:
		return opd{k: 1, v: constV(v)}
	case *ssa.Global:
		return opd{k: 2, g: v}
	case *ssa.Function:
		return opd{k: 1, v: V{X: &Closure{fn: c.p.lazyFn(v)}}}
	}
	return opd{i: c.reg(v)}
}

// lazyFn registers without compiling (recursion).
func (p *Program) lazyFn(f *ssa.Function) *Fn {
	p.mu.Lock()
	defer p.mu.Unlock()
	x := p.fns[f]
	if x == nil {
		x = &Fn{f: f, name: fullName(f)}
		p.fns[f] = x
	}
	return x
}

func (c *compiler) block(i int, b *ssa.BasicBlock) *blk {
	r := &blk{idx: i}
	for _, in := range b.Instrs {
		if ph, ok := in.(*ssa.Phi); ok {
			p := phi{dst: c.reg(ph)}
			for _, e := range ph.Edges {
				p.edges = append(p.edges, c.op(e))
			}
			r.phis = append(r.phis, p)
			continue
		}
		switch in := in.(type) {
		case *ssa.If:
			cond := c.op(in.Cond)
			t, f := b.Succs[0].Index, b.Succs[1].Index
			r.term = func(fr *frame) int {
				v := cond.get(fr)
				if v.X == nil {
					if v.N == 1 {
						return t
					}
					return f
				}
				if fr.m.branch(v.X.(*Term)) {
					return t
				}
				return f
			}
		case *ssa.Jump:
			t := b.Succs[0].Index
			r.term = func(fr *frame) int { return t }
		case *ssa.Return:
			var ops []opd
			for _, x := range in.Results {
				ops = append(ops, c.op(x))
			}
			r.term = func(fr *frame) int {
				switch len(ops) {
				case 0:
				case 1:
					fr.ret = ops[0].get(fr)
				default:
					rs := make([]V, len(ops))
					for i := range ops {
						rs[i] = ops[i].get(fr)
					}
					fr.ret = V{X: rs}
				}
				return -1
			}
		case *ssa.Panic:
			x := c.op(in.X)
			pos := in.Pos()
			r.term = func(fr *frame) int {
				panic(&goPanic{val: x.get(fr), at: fr.m.prog.pos(pos)})
			}
		default:
			if s := c.instr(in); s != nil {
				r.steps = append(r.steps, s)
			}
		}
	}
	return r
}

func (p *Program) pos(ps token.Pos) string {
	if !ps.IsValid() {
		return ""
	}
	x := p.ssa.Fset.Position(ps)
	f := x.Filename
	if i := strings.LastIndexByte(f, '/'); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, x.Line)
}

func (m *M) rtPanic(msg string, pos token.Pos) {
	if debugAborts {
		fmt.Fprintln(os.Stderr, msg, m.prog.pos(pos))
	}
	panic(&goPanic{msg: "runtime error: " + msg, rt: true, at: m.prog.pos(pos), val: V{X: &Iface{t: types.Typ[types.String], v: str("runtime error: " + msg)}}})
}

func (m *M) callV(cv V, args []V, fr *frame, pos token.Pos) V {
	cl, ok := cv.X.(*Closure)
	if !ok {
		if cv.X == nil {
			m.rtPanic("invalid memory address or nil pointer dereference", pos)
		}
		abort("call of %T", cv.X)
	}
	return m.runFn(cl.fn, args, cl.bind, fr)
}

func (m *M) call(fn *Fn, args ...V) V { return m.runFn(fn, args, nil, nil) }

var debugAborts = os.Getenv("VJC_PANICS") != ""

const maxDepth = 400

func (m *M) runFn(fn *Fn, args []V, free []V, caller *frame) V {
	fn.once.Do(func() { m.prog.compile(fn) })
	if fn.native != nil {
		return fn.native(m, caller, args)
	}
	if fn.hybrid != nil {
		if v, ok := fn.hybrid(m, caller, args); ok {
			return v
		}
	}
	if fn.f.Synthetic == "package initializer" && caller != nil {
		return V{} // imports initialise on first use
	}
	if fn.err != "" {
		abort("%s", fn.err)
	}
	if m.covFns != nil && m.inInit == 0 {
		m.covFns[fn.name] = true
	}
	m.depth++
	if m.depth > maxDepth {
		m.depth = 0
		abort("call depth")
	}
	fr := &frame{m: m, fn: fn, regs: make([]V, fn.nregs), caller: caller}
	if debugAborts {
		defer func() {
			if r := recover(); r != nil {
				if p, ok := r.(*pathAbort); ok && !p.quiet {
					fmt.Fprintln(os.Stderr, "abort in", fn.name, p.why)
				}
				panic(r)
			}
		}()
	}
	copy(fr.regs, args)
	copy(fr.regs[fn.free0:], free)
	if fn.hasDefer {
		m.runDefer(fr)
	} else {
		m.exec(fr, 0)
	}
	m.depth--
	return fr.ret
}

func (m *M) runDefer(fr *frame) {
	depth := m.depth
	var gp *goPanic
	func() {
		defer func() {
			if r := recover(); r != nil {
				p, ok := r.(*goPanic)
				if !ok {
					panic(r)
				}
				gp = p
			}
		}()
		m.exec(fr, 0)
	}()
	if gp == nil {
		return
	}
	m.depth = depth
	fr.panicking = gp
	m.runDefers(fr)
	if fr.panicking != nil {
		panic(fr.panicking)
	}
	if fr.fn.recover_ >= 0 {
		m.exec(fr, fr.fn.recover_)
	} else {
		fr.ret = zeroResults(fr.fn.results)
	}
}

func zeroResults(t *types.Tuple) V {
	if t == nil || t.Len() == 0 {
		return V{}
	}
	if t.Len() == 1 {
		return zeroV(t.At(0).Type())
	}
	r := make([]V, t.Len())
	for i := range r {
		r[i] = zeroV(t.At(i).Type())
	}
	return V{X: r}
}

func (m *M) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			depth := m.depth
			defer func() {
				if r := recover(); r != nil {
					p, ok := r.(*goPanic)
					if !ok {
						panic(r)
					}
					m.depth = depth
					fr.panicking = p
				}
			}()
			d()
		}()
	}
	if fr.panicking != nil {
		return
	}
}

func (m *M) exec(fr *frame, bi int) {
	fn := fr.fn
	prev := fr.prev
	for {
		b := fn.blocks[bi]
		m.steps += len(b.steps) + 1
		if m.steps > m.limit {
			abort("step limit")
		}
		if len(b.phis) > 0 {
			ei := -1
			for i, p := range fn.f.Blocks[bi].Preds {
				if p.Index == prev {
					ei = i
					break
				}
			}
			if len(b.phis) == 1 {
				fr.regs[b.phis[0].dst] = b.phis[0].edges[ei].get(fr)
			} else {
				var tmp [16]V
				vals := tmp[:0]
				for i := range b.phis {
					vals = append(vals, b.phis[i].edges[ei].get(fr))
				}
				for i := range b.phis {
					fr.regs[b.phis[i].dst] = vals[i]
				}
			}
		}
		for _, s := range b.steps {
			s(fr)
		}
		prev = bi
		bi = b.term(fr)
		if bi < 0 {
			return
		}
	}
}

// ---------- instructions ----------

func deref(t types.Type) types.Type { return t.Underlying().(*types.Pointer).Elem() }

func (c *compiler) instr(in ssa.Instruction) step {
	switch in := in.(type) {
	case *ssa.DebugRef:
		return nil
	case *ssa.Alloc:
		d := c.reg(in)
		n := slots(deref(in.Type()))
		return func(fr *frame) { fr.regs[d] = V{X: fr.m.newObj(n)} }
	case *ssa.UnOp:
		return c.unop(in)
	case *ssa.BinOp:
		return c.binop(in)
	case *ssa.Store:
		a, v := c.op(in.Addr), c.op(in.Val)
		pos := in.Pos()
		return func(fr *frame) {
			p := a.get(fr)
			o, ok := p.X.(*Obj)
			if !ok {
				fr.m.rtPanic("invalid memory address or nil pointer dereference", pos)
			}
			fr.m.store(o, int(p.N), v.get(fr))
		}
	case *ssa.FieldAddr:
		d, x := c.reg(in), c.op(in.X)
		st := deref(in.X.Type()).Underlying().(*types.Struct)
		off := uint64(fieldOff(st, in.Field))
		pos := in.Pos()
		return func(fr *frame) {
			p := x.get(fr)
			if p.X == nil {
				fr.m.rtPanic("invalid memory address or nil pointer dereference", pos)
			}
			fr.regs[d] = V{N: p.N + off, X: p.X}
		}
	case *ssa.Field:
		d, x := c.reg(in), c.op(in.X)
		st := in.X.Type().Underlying().(*types.Struct)
		off := fieldOff(st, in.Field)
		ft := st.Field(in.Field).Type()
		n := slots(ft)
		return func(fr *frame) { fr.regs[d] = sub(x.get(fr).X.([]V), off, n, ft) }
	case *ssa.IndexAddr:
		return c.indexAddr(in)
	case *ssa.Index:
		return c.index(in)
	case *ssa.Lookup:
		return c.lookup(in)
	case *ssa.MapUpdate:
		mp, k, v := c.op(in.Map), c.op(in.Key), c.op(in.Value)
		pos := in.Pos()
		return func(fr *frame) {
			x, ok := mp.get(fr).X.(*Map)
			if !ok {
				panic(&goPanic{msg: "assignment to entry in nil map", rt: true, at: fr.m.prog.pos(pos), val: V{X: &Iface{t: types.Typ[types.String], v: str("assignment to entry in nil map")}}})
			}
			fr.m.mapSet(x, k.get(fr), v.get(fr))
		}
	case *ssa.Extract:
		d, x := c.reg(in), c.op(in.Tuple)
		i := in.Index
		return func(fr *frame) { fr.regs[d] = x.get(fr).X.([]V)[i] }
	case *ssa.ChangeType:
		d, x := c.reg(in), c.op(in.X)
		return func(fr *frame) { fr.regs[d] = x.get(fr) }
	case *ssa.ChangeInterface:
		d, x := c.reg(in), c.op(in.X)
		return func(fr *frame) { fr.regs[d] = x.get(fr) }
	case *ssa.MakeInterface:
		d, x := c.reg(in), c.op(in.X)
		t := in.X.Type()
		return func(fr *frame) { fr.regs[d] = V{X: &Iface{t, x.get(fr)}} }
	case *ssa.MakeClosure:
		d := c.reg(in)
		fn := c.p.lazyFn(in.Fn.(*ssa.Function))
		var bs []opd
		for _, b := range in.Bindings {
			bs = append(bs, c.op(b))
		}
		return func(fr *frame) {
			vs := make([]V, len(bs))
			for i := range bs {
				vs[i] = bs[i].get(fr)
			}
			fr.regs[d] = V{X: &Closure{fn, vs}}
		}
	case *ssa.MakeMap:
		d := c.reg(in)
		kt := in.Type().Underlying().(*types.Map).Key()
		return func(fr *frame) { fr.regs[d] = V{X: fr.m.newMap(kt)} }
	case *ssa.MakeSlice:
		d := c.reg(in)
		l, cp := c.op(in.Len), c.op(in.Cap)
		es := slots(in.Type().Underlying().(*types.Slice).Elem())
		pos := in.Pos()
		return func(fr *frame) {
			ln, cn := fr.m.idx(l.get(fr)), fr.m.idx(cp.get(fr))
			if ln < 0 || cn < ln || cn > 1<<20 {
				fr.m.rtPanic("makeslice: len out of range", pos)
			}
			fr.regs[d] = V{X: &Slice{fr.m.newObj(int(cn) * es), 0, int(ln), int(cn)}}
		}
	case *ssa.Slice:
		return c.slice(in)
	case *ssa.SliceToArrayPointer:
		d, x := c.reg(in), c.op(in.X)
		n := int(deref(in.Type()).Underlying().(*types.Array).Len())
		pos := in.Pos()
		return func(fr *frame) {
			s, _ := x.get(fr).X.(*Slice)
			if s == nil {
				if n > 0 {
					fr.m.rtPanic("cannot convert slice to array pointer", pos)
				}
				fr.regs[d] = V{}
				return
			}
			if s.len < n {
				fr.m.rtPanic("cannot convert slice to array pointer", pos)
			}
			fr.regs[d] = V{N: uint64(s.off), X: s.o}
		}
	case *ssa.TypeAssert:
		return c.typeAssert(in)
	case *ssa.Convert:
		return c.convert(in)
	case *ssa.MultiConvert:
		return func(fr *frame) { abort("multiconvert") }
	case *ssa.Call:
		d := c.reg(in)
		call := c.call(&in.Call, in)
		return func(fr *frame) { fr.regs[d] = call(fr) }
	case *ssa.Defer:
		mk := c.deferCall(&in.Call)
		return func(fr *frame) { fr.defers = append(fr.defers, mk(fr)) }
	case *ssa.RunDefers:
		return func(fr *frame) {
			fr.m.runDefers(fr)
			if fr.panicking != nil {
				p := fr.panicking
				panic(p)
			}
		}
	case *ssa.Go:
		return func(fr *frame) { abort("go statement") }
	case *ssa.Range:
		return c.rang(in)
	case *ssa.Next:
		return c.next(in)
	case *ssa.Select, *ssa.Send, *ssa.MakeChan:
		return func(fr *frame) { abort("channel operation") }
	}
	return func(fr *frame) { abort("instruction %T", in) }
}

// idx concretises an int (used for lengths and indices).
func (m *M) idx(v V) int64 {
	if v.X == nil {
		return int64(v.N)
	}
	t, ok := v.X.(*Term)
	if !ok {
		abort("index is %T", v.X)
	}
	// enumerate feasible values
	for n := 0; n < 300; n++ {
		val, ok := m.someValue(t)
		if !ok {
			panic(&pathAbort{why: "infeasible", quiet: true})
		}
		c := m.ts.Const(t.sort, val)
		if m.branch(m.ts.Eq(t, c)) {
			return sext(t.sort, val)
		}
	}
	abort("symbolic index with many values")
	return 0
}

func (c *compiler) indexAddr(in *ssa.IndexAddr) step {
	d, x, ix := c.reg(in), c.op(in.X), c.op(in.Index)
	pos := in.Pos()
	iw := basicOf(in.Index.Type())
	switch t := in.X.Type().Underlying().(type) {
	case *types.Slice:
		es := slots(t.Elem())
		return func(fr *frame) {
			s, _ := x.get(fr).X.(*Slice)
			i := fr.m.idxT(ix.get(fr), iw)
			if s == nil || i < 0 || i >= int64(s.len) {
				n := 0
				if s != nil {
					n = s.len
				}
				fr.m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n), pos)
			}
			fr.regs[d] = V{N: uint64(s.off + int(i)*es), X: s.o}
		}
	case *types.Pointer:
		at := t.Elem().Underlying().(*types.Array)
		es := slots(at.Elem())
		n := at.Len()
		return func(fr *frame) {
			p := x.get(fr)
			i := fr.m.idxT(ix.get(fr), iw)
			if p.X == nil {
				fr.m.rtPanic("invalid memory address or nil pointer dereference", pos)
			}
			if i < 0 || i >= n {
				fr.m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n), pos)
			}
			fr.regs[d] = V{N: p.N + uint64(int(i)*es), X: p.X}
		}
	}
	return func(fr *frame) { abort("indexaddr") }
}

func (m *M) idxT(v V, k bk) int64 {
	if v.X == nil {
		if k.signed {
			return sext(k.w, v.N)
		}
		return int64(v.N)
	}
	t, ok := v.X.(*Term)
	if !ok {
		abort("index is a rendered value")
	}
	if !k.signed && t.sort < 64 {
		t = m.ts.ZExt(t, 64)
		if t.isConst() {
			return int64(t.c)
		}
		return m.idx(V{X: t})
	}
	return m.idx(v)
}

func (c *compiler) index(in *ssa.Index) step {
	d, x, ix := c.reg(in), c.op(in.X), c.op(in.Index)
	pos := in.Pos()
	iw := basicOf(in.Index.Type())
	switch t := in.X.Type().Underlying().(type) {
	case *types.Array:
		es := slots(t.Elem())
		et := t.Elem()
		return func(fr *frame) {
			i := fr.m.idxT(ix.get(fr), iw)
			if i < 0 || i >= t.Len() {
				fr.m.rtPanic("index out of range", pos)
			}
			fr.regs[d] = sub(x.get(fr).X.([]V), int(i)*es, es, et)
		}
	default: // string
		return func(fr *frame) {
			s := x.get(fr)
			i := fr.m.idxT(ix.get(fr), iw)
			if i < 0 || i >= int64(fr.m.slen(s)) {
				fr.m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, fr.m.slen(s)), pos)
			}
			fr.regs[d] = fr.m.sat(s, int(i))
		}
	}
}

func (c *compiler) lookup(in *ssa.Lookup) step {
	d, x, ix := c.reg(in), c.op(in.X), c.op(in.Index)
	pos := in.Pos()
	if mt, ok := in.X.Type().Underlying().(*types.Map); ok {
		z := mt.Elem()
		return func(fr *frame) {
			mp, _ := x.get(fr).X.(*Map)
			var v V
			e := fr.m.mapFind(mp, ix.get(fr))
			if e != nil {
				v = e.v
			} else {
				v = zeroV(z)
			}
			if in.CommaOk {
				fr.regs[d] = V{X: []V{v, {N: b2u(e != nil)}}}
			} else {
				fr.regs[d] = v
			}
		}
	}
	iw := basicOf(in.Index.Type())
	return func(fr *frame) {
		s := x.get(fr)
		i := fr.m.idxT(ix.get(fr), iw)
		if i < 0 || i >= int64(fr.m.slen(s)) {
			fr.m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, fr.m.slen(s)), pos)
		}
		fr.regs[d] = fr.m.sat(s, int(i))
	}
}

func (c *compiler) slice(in *ssa.Slice) step {
	d, x := c.reg(in), c.op(in.X)
	var lo, hi, mx *opd
	if in.Low != nil {
		o := c.op(in.Low)
		lo = &o
	}
	if in.High != nil {
		o := c.op(in.High)
		hi = &o
	}
	if in.Max != nil {
		o := c.op(in.Max)
		mx = &o
	}
	pos := in.Pos()
	at := func(fr *frame, o *opd, def int) int {
		if o == nil {
			return def
		}
		return int(fr.m.idx(o.get(fr)))
	}
	switch t := in.X.Type().Underlying().(type) {
	case *types.Slice:
		es := slots(t.Elem())
		return func(fr *frame) {
			s, _ := x.get(fr).X.(*Slice)
			if s == nil {
				l, h := at(fr, lo, 0), at(fr, hi, 0)
				if l != 0 || h != 0 {
					fr.m.rtPanic(fmt.Sprintf("slice bounds out of range [:%d] with capacity 0", h), pos)
				}
				fr.regs[d] = V{}
				return
			}
			l, h, mm := at(fr, lo, 0), at(fr, hi, s.len), at(fr, mx, s.cap)
			if l < 0 || h < l || h > mm || mm > s.cap {
				fr.m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with capacity %d", l, h, s.cap), pos)
			}
			fr.regs[d] = V{X: &Slice{s.o, s.off + l*es, h - l, mm - l}}
		}
	case *types.Pointer:
		arr := t.Elem().Underlying().(*types.Array)
		n := int(arr.Len())
		es := slots(arr.Elem())
		return func(fr *frame) {
			p := x.get(fr)
			if p.X == nil {
				fr.m.rtPanic("invalid memory address or nil pointer dereference", pos)
			}
			l, h, mm := at(fr, lo, 0), at(fr, hi, n), at(fr, mx, n)
			if l < 0 || h < l || h > mm || mm > n {
				fr.m.rtPanic("slice bounds out of range", pos)
			}
			fr.regs[d] = V{X: &Slice{p.X.(*Obj), int(p.N) + l*es, h - l, mm - l}}
		}
	default:
		return func(fr *frame) {
			s := x.get(fr)
			n := fr.m.slen(s)
			l, h := at(fr, lo, 0), at(fr, hi, n)
			if l < 0 || h < l || h > n {
				fr.m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", l, h, n), pos)
			}
			fr.regs[d] = fr.m.substr(s, l, h)
		}
	}
}

func (m *M) substr(s V, l, h int) V {
	if l == h {
		return V{}
	}
	switch x := s.X.(type) {
	case string:
		return V{X: x[l:h]}
	case *SV:
		return V{X: &SV{x.o, x.off + l, h - l}}
	}
	return V{}
}

func (c *compiler) unop(in *ssa.UnOp) step {
	d, x := c.reg(in), c.op(in.X)
	pos := in.Pos()
	switch in.Op {
	case token.MUL:
		t := in.Type()
		if !isAgg(t) {
			if basicOf(t).w != wString {
				if _, ok := t.Underlying().(*types.Slice); !ok {
					return func(fr *frame) {
						p := x.get(fr)
						o, ok := p.X.(*Obj)
						if !ok {
							fr.m.rtPanic("invalid memory address or nil pointer dereference", pos)
						}
						fr.regs[d] = fr.m.get(o, int(p.N))
					}
				}
			}
		}
		return func(fr *frame) {
			p := x.get(fr)
			o, ok := p.X.(*Obj)
			if !ok {
				fr.m.rtPanic("invalid memory address or nil pointer dereference", pos)
			}
			fr.regs[d] = fr.m.load(o, int(p.N), t)
		}
	case token.NOT:
		return func(fr *frame) {
			v := x.get(fr)
			if v.X == nil {
				fr.regs[d] = V{N: 1 - v.N}
				return
			}
			fr.regs[d] = fr.m.fromTerm(fr.m.ts.Not(v.X.(*Term)))
		}
	case token.SUB:
		k := basicOf(in.X.Type())
		op := ONeg
		if k.w < 0 {
			op = OFNeg
		}
		return func(fr *frame) {
			v := x.get(fr)
			if v.X == nil {
				r, _ := evalUn(op, k.w, k.w, v.N)
				fr.regs[d] = V{N: r}
				return
			}
			fr.regs[d] = fr.m.fromTerm(fr.m.ts.Un(op, k.w, fr.m.term(v, k.w)))
		}
	case token.XOR:
		k := basicOf(in.X.Type())
		return func(fr *frame) {
			v := x.get(fr)
			if v.X == nil {
				fr.regs[d] = V{N: mask(k.w, ^v.N)}
				return
			}
			fr.regs[d] = fr.m.fromTerm(fr.m.ts.Un(OBNot, k.w, fr.m.term(v, k.w)))
		}
	}
	return func(fr *frame) { abort("unop %v", in.Op) }
}

func (c *compiler) binop(in *ssa.BinOp) step {
	d, x, y := c.reg(in), c.op(in.X), c.op(in.Y)
	t := in.X.Type()
	k := basicOf(t)
	pos := in.Pos()
	switch in.Op {
	case token.EQL, token.NEQ:
		neg := in.Op == token.NEQ
		ct := t
		_, xi := in.X.Type().Underlying().(*types.Interface)
		_, yi := in.Y.Type().Underlying().(*types.Interface)
		mixed := xi != yi
		if bt, ok := t.Underlying().(*types.Basic); ok && bt.Kind() == types.UntypedNil {
			ct = in.Y.Type()
		}
		return func(fr *frame) {
			a, b := x.get(fr), y.get(fr)
			if a.X == nil && b.X == nil && k.w <= 64 && k.w >= 0 {
				fr.regs[d] = V{N: b2u((a.N == b.N) != neg)}
				return
			}
			if mixed {
				if xi {
					b = V{X: &Iface{in.Y.Type(), b}}
				} else {
					a = V{X: &Iface{in.X.Type(), a}}
					ct = in.Y.Type()
				}
			}
			r := fr.m.eq(a, b, ct)
			if neg {
				r = fr.m.ts.Not(r)
			}
			fr.regs[d] = fr.m.fromTerm(r)
		}
	}
	if k.w == wString {
		switch in.Op {
		case token.ADD:
			return func(fr *frame) { fr.regs[d] = fr.m.concat(x.get(fr), y.get(fr)) }
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			op := in.Op
			return func(fr *frame) { fr.regs[d] = V{N: b2u(fr.m.strCmp(x.get(fr), y.get(fr), op))} }
		}
	}
	if k.w == wOther {
		return func(fr *frame) { abort("binop %v on %v", in.Op, t) }
	}
	isF := k.w < 0
	var op Op
	swap, not := false, false
	switch in.Op {
	case token.ADD:
		op = OAdd
		if isF {
			op = OFAdd
		}
	case token.SUB:
		op = OSub
		if isF {
			op = OFSub
		}
	case token.MUL:
		op = OMul
		if isF {
			op = OFMul
		}
	case token.QUO:
		op = OUDiv
		if k.signed {
			op = OSDiv
		}
		if isF {
			op = OFDiv
		}
	case token.REM:
		op = OURem
		if k.signed {
			op = OSRem
		}
	case token.AND:
		op = OBAnd
	case token.OR:
		op = OBOr
	case token.XOR:
		op = OBXor
	case token.AND_NOT:
		op = OBAnd
		not = true
	case token.SHL, token.SHR:
		yk := basicOf(in.Y.Type())
		sop := OShl
		if in.Op == token.SHR {
			sop = OLShr
			if k.signed {
				sop = OAShr
			}
		}
		return func(fr *frame) {
			a, b := x.get(fr), y.get(fr)
			if b.X != nil {
				// bring the amount to the operand width, saturating
				bt := fr.m.term(b, yk.w)
				var t2 *Term
				if yk.w < k.w {
					t2 = fr.m.ts.ZExt(bt, k.w)
				} else if yk.w > k.w {
					big := fr.m.ts.Bin(OULe, fr.m.ts.Const(yk.w, uint64(k.w)), bt)
					t2 = fr.m.ts.Ite(big, fr.m.ts.Const(k.w, uint64(k.w)), fr.m.ts.Extract(bt, k.w-1, 0))
				} else {
					t2 = bt
				}
				fr.regs[d] = fr.m.fromTerm(fr.m.ts.Bin(sop, fr.m.term(a, k.w), t2))
				return
			}
			n := b.N
			if yk.signed && sext(yk.w, n) < 0 {
				fr.m.rtPanic("negative shift amount", pos)
			}
			if a.X == nil {
				switch sop {
				case OShl:
					if n >= 64 {
						fr.regs[d] = V{}
					} else {
						fr.regs[d] = V{N: mask(k.w, a.N<<n)}
					}
				case OLShr:
					if n >= 64 {
						fr.regs[d] = V{}
					} else {
						fr.regs[d] = V{N: a.N >> n}
					}
				case OAShr:
					if n > 63 {
						n = 63
					}
					fr.regs[d] = V{N: mask(k.w, uint64(sext(k.w, a.N)>>n))}
				}
				return
			}
			if n > uint64(k.w) {
				n = uint64(k.w)
			}
			if n == uint64(k.w) && sop == OAShr {
				n--
			}
			if n >= uint64(k.w) {
				fr.regs[d] = V{}
				return
			}
			at := fr.m.term(a, k.w)
			if sop == OLShr && n > 0 {
				// keep extracts visible
				fr.regs[d] = fr.m.fromTerm(fr.m.ts.ZExt(fr.m.ts.Extract(at, k.w-1, int(n)), k.w))
				return
			}
			fr.regs[d] = fr.m.fromTerm(fr.m.ts.Bin(sop, at, fr.m.ts.Const(k.w, n)))
		}
	case token.LSS:
		op = OULt
		if k.signed {
			op = OSLt
		}
		if isF {
			op = OFLt
		}
	case token.LEQ:
		op = OULe
		if k.signed {
			op = OSLe
		}
		if isF {
			op = OFLe
		}
	case token.GTR:
		op, swap = OULt, true
		if k.signed {
			op = OSLt
		}
		if isF {
			op = OFLt
		}
	case token.GEQ:
		op, swap = OULe, true
		if k.signed {
			op = OSLe
		}
		if isF {
			op = OFLe
		}
	default:
		return func(fr *frame) { abort("binop %v", in.Op) }
	}
	isDiv := in.Op == token.QUO && !isF || in.Op == token.REM
	w := k.w
	return func(fr *frame) {
		a, b := x.get(fr), y.get(fr)
		if swap {
			a, b = b, a
		}
		if a.X == nil && b.X == nil {
			bn := b.N
			if not {
				bn = mask(w, ^bn)
			}
			if isDiv && bn == 0 {
				fr.m.rtPanic("integer divide by zero", pos)
			}
			r, _ := evalBin(op, w, w, a.N, bn)
			fr.regs[d] = V{N: r}
			return
		}
		ts := fr.m.ts
		var at, bt *Term
		if w == 8 {
			if r, ok := fr.m.atomByteOp(op, a, b); ok {
				fr.regs[d] = r
				return
			}
		}
		at, bt = fr.m.term(a, w), fr.m.term(b, w)
		if w == 0 { // & | on bools do not exist in Go
			abort("bool binop")
		}
		if not {
			bt = ts.Un(OBNot, w, bt)
		}
		if isDiv {
			if fr.m.branch(ts.Eq(bt, ts.Const(w, 0))) {
				fr.m.rtPanic("integer divide by zero", pos)
			}
		}
		fr.regs[d] = fr.m.fromTerm(ts.Bin(op, at, bt))
	}
}

// atomByteOp answers order comparisons of a base64 character with a constant.
func (m *M) atomByteOp(op Op, a, b V) (V, bool) {
	at, ok := a.X.(*Atom)
	if !ok {
		at, ok = b.X.(*Atom)
	}
	if !ok || at.k != AB64 {
		return V{}, false
	}
	// expand to a character term
	ex := func(v V) V {
		if x, ok := v.X.(*Atom); ok && x.k == AB64 {
			return m.fromTerm(m.b64char(m.term(x.t[0], 8)))
		}
		return v
	}
	a, b = ex(a), ex(b)
	return m.fromTerm(m.ts.Bin(op, m.term(a, 8), m.term(b, 8))), true
}

func (m *M) b64char(t *Term) *Term {
	ts := m.ts
	c := func(n int) *Term { return ts.Const(8, uint64(n)) }
	lt := func(n int) *Term { return ts.Bin(OULt, t, c(n)) }
	add := func(n int) *Term { return ts.Bin(OAdd, t, c(n&0xff)) }
	return ts.Ite(lt(26), add('A'), ts.Ite(lt(52), add('a'-26), ts.Ite(lt(62), add('0'-52), ts.Ite(ts.Eq(t, c(62)), c('+'), c('/')))))
}

func (m *M) concat(a, b V) V {
	if a.X == nil {
		return b
	}
	if b.X == nil {
		return a
	}
	x, ok1 := a.X.(string)
	y, ok2 := b.X.(string)
	if ok1 && ok2 {
		return V{X: x + y}
	}
	return m.strOf(append(append([]V(nil), m.cellsOf(a)...), m.cellsOf(b)...))
}

func (m *M) strCmp(a, b V, op token.Token) bool {
	x, ok1 := m.conc(a)
	y, ok2 := m.conc(b)
	if ok1 && ok2 {
		switch op {
		case token.LSS:
			return x < y
		case token.LEQ:
			return x <= y
		case token.GTR:
			return x > y
		}
		return x >= y
	}
	ca, cb := m.cellsOf(a), m.cellsOf(b)
	cmp := 0
	for i := 0; i < len(ca) && i < len(cb); i++ {
		if m.branch(m.cellEq(ca[i], cb[i])) {
			continue
		}
		if m.branch(m.ts.Bin(OULt, m.term(ca[i], 8), m.term(cb[i], 8))) {
			cmp = -1
		} else {
			cmp = 1
		}
		break
	}
	if cmp == 0 {
		cmp = len(ca) - len(cb)
	}
	switch op {
	case token.LSS:
		return cmp < 0
	case token.LEQ:
		return cmp <= 0
	case token.GTR:
		return cmp > 0
	}
	return cmp >= 0
}

func (c *compiler) typeAssert(in *ssa.TypeAssert) step {
	d, x := c.reg(in), c.op(in.X)
	t := in.AssertedType
	_, toIface := t.Underlying().(*types.Interface)
	it, _ := t.Underlying().(*types.Interface)
	pos := in.Pos()
	return func(fr *frame) {
		v := x.get(fr)
		i, _ := v.X.(*Iface)
		ok := false
		var r V
		if i != nil {
			if toIface {
				ok = fr.m.prog.implements(i.t, it)
				r = v
			} else {
				ok = types.Identical(i.t, t)
				r = i.v
			}
		}
		if !ok {
			if !in.CommaOk {
				have := "nil"
				if i != nil {
					have = i.t.String()
				}
				fr.m.rtPanic(fmt.Sprintf("interface conversion: interface is %s, not %s", have, t), pos)
			}
			r = zeroV(t)
		}
		if in.CommaOk {
			fr.regs[d] = V{X: []V{r, {N: b2u(ok)}}}
		} else {
			fr.regs[d] = r
		}
	}
}

type implKey struct {
	t types.Type
	i *types.Interface
}

func (p *Program) implements(t types.Type, i *types.Interface) bool {
	k := implKey{t, i}
	if v, ok := p.methods.Load(k); ok {
		return v.(bool)
	}
	r := types.Implements(t, i)
	p.methods.Store(k, r)
	return r
}

func (c *compiler) convert(in *ssa.Convert) step {
	d, x := c.reg(in), c.op(in.X)
	from, to := in.X.Type(), in.Type()
	fk, tk := basicOf(from), basicOf(to)
	fu, tu := from.Underlying(), to.Underlying()
	num := func(k bk) bool { return k.w <= 64 && k.w != 0 }
	switch {
	case num(fk) && num(tk):
		return func(fr *frame) { fr.regs[d] = fr.m.numConv(x.get(fr), fk, tk) }
	case tk.w == wString && fk.w == wString:
		return func(fr *frame) { fr.regs[d] = x.get(fr) }
	case tk.w == wString:
		if s, ok := fu.(*types.Slice); ok {
			if basicOf(s.Elem()).w == 8 {
				return func(fr *frame) { fr.regs[d] = fr.m.strOf(fr.m.bytesCells(x.get(fr))) }
			}
			return func(fr *frame) { // []rune
				var sb strings.Builder
				for _, c := range fr.m.bytesCells(x.get(fr)) {
					if c.X != nil {
						abort("symbolic rune slice")
					}
					sb.WriteRune(rune(int32(c.N)))
				}
				fr.regs[d] = str(sb.String())
			}
		}
		return func(fr *frame) { // integer to string
			v := x.get(fr)
			if v.X != nil {
				t := fr.m.term(v, fk.w)
				if !fr.m.branch(fr.m.ts.Bin(OULt, t, fr.m.ts.Const(fk.w, 128))) {
					abort("symbolic rune to string")
				}
				fr.regs[d] = fr.m.strOf([]V{fr.m.numConv(v, fk, bk{w: 8})})
				return
			}
			fr.regs[d] = str(string(rune(sext(fk.w, v.N))))
		}
	case fk.w == wString:
		s := tu.(*types.Slice)
		if basicOf(s.Elem()).w == 8 {
			return func(fr *frame) { fr.regs[d] = fr.m.mkBytes(fr.m.cellsOf(x.get(fr))) }
		}
		return func(fr *frame) {
			cells := fr.m.cellsOf(x.get(fr))
			var rs []V
			for i := 0; i < len(cells); {
				r, n := fr.m.decodeRune(cells[i:])
				rs = append(rs, r)
				i += n
			}
			o := fr.m.newObj(len(rs))
			copy(o.cells, rs)
			fr.regs[d] = V{X: &Slice{o, 0, len(rs), len(rs)}}
		}
	}
	// pointers and unsafe.Pointer
	return func(fr *frame) { fr.regs[d] = x.get(fr) }
}

// decodeRune reads one rune from byte cells; symbolic bytes must be ASCII or are branched on.
func (m *M) decodeRune(cells []V) (V, int) {
	c := cells[0]
	if c.X == nil && c.N < 0x80 {
		return V{N: c.N}, 1
	}
	if c.X != nil {
		if _, ok := c.X.(*Atom); ok {
			abort("rune of a rendered value")
		}
		t := m.term(c, 8)
		if m.branch(m.ts.Bin(OULt, t, m.ts.Const(8, 0x80))) {
			return m.fromTerm(m.ts.ZExt(t, 32)), 1
		}
		abort("symbolic non-ASCII byte")
	}
	var b []byte
	for _, c := range cells {
		if c.X != nil || len(b) == 4 {
			break
		}
		b = append(b, byte(c.N))
	}
	r, n := utf8.DecodeRune(b)
	return V{N: uint64(uint32(r))}, n
}

func (m *M) numConv(v V, f, t bk) V {
	if v.X == nil {
		switch {
		case f.w < 0 && t.w < 0:
			return V{N: fromF(t.w, toF(f.w, v.N))}
		case f.w < 0:
			x := toF(f.w, v.N)
			if t.signed {
				return V{N: mask(t.w, uint64(int64(x)))}
			}
			if x < 0 || x != x {
				return V{N: mask(t.w, uint64(int64(x)))}
			}
			return V{N: mask(t.w, uint64(x))}
		case t.w < 0:
			if f.signed {
				i := sext(f.w, v.N)
				if t.w == -32 {
					return V{N: uint64(math.Float32bits(float32(i)))}
				}
				return V{N: math.Float64bits(float64(i))}
			}
			if t.w == -32 {
				return V{N: uint64(math.Float32bits(float32(v.N)))}
			}
			return V{N: math.Float64bits(float64(v.N))}
		}
		if f.signed {
			return V{N: mask(t.w, uint64(sext(f.w, v.N)))}
		}
		return V{N: mask(t.w, v.N)}
	}
	if a, ok := v.X.(*Atom); ok {
		if f.w == t.w {
			return v
		}
		if a.k == AB64 {
			v = m.fromTerm(m.b64char(m.term(a.t[0], 8)))
		} else {
			abort("arithmetic on a rendered value")
		}
	}
	x := m.term(v, f.w)
	switch {
	case f.w < 0 && t.w < 0:
		return m.fromTerm(m.ts.Un(OFToF, t.w, x))
	case f.w < 0:
		if t.signed {
			return m.fromTerm(m.ts.Un(OF2S, t.w, x))
		}
		return m.fromTerm(m.ts.Un(OF2U, t.w, x))
	case t.w < 0:
		if f.signed {
			return m.fromTerm(m.ts.Un(OS2F, t.w, x))
		}
		return m.fromTerm(m.ts.Un(OU2F, t.w, x))
	case t.w < f.w:
		return m.fromTerm(m.ts.Extract(x, t.w-1, 0))
	case t.w > f.w:
		if f.signed {
			return m.fromTerm(m.ts.SExt(x, t.w))
		}
		return m.fromTerm(m.ts.ZExt(x, t.w))
	}
	return v
}

// ---------- calls ----------

func (c *compiler) args(cc *ssa.CallCommon) []opd {
	var as []opd
	for _, a := range cc.Args {
		as = append(as, c.op(a))
	}
	return as
}

func (c *compiler) call(cc *ssa.CallCommon, site ssa.Instruction) func(fr *frame) V {
	as := c.args(cc)
	pos := cc.Pos()
	get := func(fr *frame) []V {
		vs := make([]V, len(as))
		for i := range as {
			vs[i] = as[i].get(fr)
		}
		return vs
	}
	if cc.IsInvoke() {
		recv := c.op(cc.Value)
		meth := cc.Method
		return func(fr *frame) V {
			v := recv.get(fr)
			i, _ := v.X.(*Iface)
			if i == nil {
				fr.m.rtPanic("invalid memory address or nil pointer dereference", pos)
			}
			fn := fr.m.prog.method(i.t, meth)
			if fn == nil {
				abort("no method %s on %s", meth.Name(), i.t)
			}
			return fr.m.runFn(fn, append([]V{i.v}, get(fr)...), nil, fr)
		}
	}
	switch f := cc.Value.(type) {
	case *ssa.Builtin:
		return c.builtin(f, cc, as, pos)
	case *ssa.Function:
		fn := c.p.lazyFn(f)
		return func(fr *frame) V { return fr.m.runFn(fn, get(fr), nil, fr) }
	}
	fv := c.op(cc.Value)
	return func(fr *frame) V { return fr.m.callV(fv.get(fr), get(fr), fr, pos) }
}

type methKey struct {
	t types.Type
	m *types.Func
}

func (p *Program) method(t types.Type, f *types.Func) *Fn {
	k := methKey{t, f}
	if v, ok := p.methods.Load(k); ok {
		return v.(*Fn)
	}
	p.mu.Lock()
	sf := p.ssa.LookupMethod(t, f.Pkg(), f.Name())
	p.mu.Unlock()
	if sf == nil {
		return nil
	}
	fn := p.lazyFn(sf)
	p.methods.Store(k, fn)
	return fn
}

func (c *compiler) deferCall(cc *ssa.CallCommon) func(fr *frame) func() {
	as := c.args(cc)
	pos := cc.Pos()
	if cc.IsInvoke() {
		recv := c.op(cc.Value)
		meth := cc.Method
		return func(fr *frame) func() {
			v := recv.get(fr)
			i, _ := v.X.(*Iface)
			if i == nil {
				fr.m.rtPanic("invalid memory address or nil pointer dereference", pos)
			}
			fn := fr.m.prog.method(i.t, meth)
			vs := []V{i.v}
			for k := range as {
				vs = append(vs, as[k].get(fr))
			}
			return func() { fr.m.runFn(fn, vs, nil, fr) }
		}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		call := c.builtin(b, cc, as, pos)
		return func(fr *frame) func() {
			return func() { call(fr) }
		}
	}
	fv := c.op(cc.Value)
	return func(fr *frame) func() {
		f := fv.get(fr)
		vs := make([]V, len(as))
		for i := range as {
			vs[i] = as[i].get(fr)
		}
		return func() {
			cl, ok := f.X.(*Closure)
			if !ok {
				fr.m.rtPanic("invalid memory address or nil pointer dereference", pos)
			}
			fr.m.runDeferred(cl, vs, fr)
		}
	}
}

func (m *M) runDeferred(cl *Closure, args []V, from *frame) {
	m.runFn(cl.fn, args, cl.bind, &frame{m: m, deferOf: from, fn: from.fn})
}

func (c *compiler) builtin(b *ssa.Builtin, cc *ssa.CallCommon, as []opd, pos token.Pos) func(fr *frame) V {
	switch b.Name() {
	case "len":
		t := cc.Args[0].Type().Underlying()
		return func(fr *frame) V {
			v := as[0].get(fr)
			switch x := v.X.(type) {
			case nil:
				if p, ok := t.(*types.Pointer); ok {
					return V{N: uint64(p.Elem().Underlying().(*types.Array).Len())}
				}
				return V{}
			case *Slice:
				return V{N: uint64(x.len)}
			case *Map:
				return V{N: uint64(x.live)}
			case string:
				return V{N: uint64(len(x))}
			case *SV:
				return V{N: uint64(x.n)}
			case []V:
				return V{N: uint64(t.(*types.Array).Len())}
			case *Obj:
				return V{N: uint64(t.(*types.Pointer).Elem().Underlying().(*types.Array).Len())}
			}
			abort("len of %T", v.X)
			return V{}
		}
	case "cap":
		t := cc.Args[0].Type().Underlying()
		return func(fr *frame) V {
			v := as[0].get(fr)
			switch x := v.X.(type) {
			case nil:
				return V{}
			case *Slice:
				return V{N: uint64(x.cap)}
			case []V:
				return V{N: uint64(t.(*types.Array).Len())}
			case *Obj:
				return V{N: uint64(t.(*types.Pointer).Elem().Underlying().(*types.Array).Len())}
			}
			abort("cap of %T", v.X)
			return V{}
		}
	case "append":
		st := cc.Args[0].Type().Underlying().(*types.Slice)
		es := slots(st.Elem())
		return func(fr *frame) V {
			return fr.m.append_(as[0].get(fr), as[1].get(fr), es)
		}
	case "copy":
		es := slots(cc.Args[0].Type().Underlying().(*types.Slice).Elem())
		return func(fr *frame) V {
			dst, _ := as[0].get(fr).X.(*Slice)
			src := as[1].get(fr)
			var cells []V
			switch s := src.X.(type) {
			case nil:
			case *Slice:
				fr.m.touch(s.o, s.off, s.len)
				cells = s.o.cells[s.off : s.off+s.len*es]
			default:
				cells = fr.m.cellsOf(src)
			}
			if dst == nil {
				return V{}
			}
			n := len(cells) / max(es, 1)
			if es == 0 {
				n = 0
			}
			if n > dst.len {
				n = dst.len
			}
			tmp := append([]V(nil), cells[:n*es]...)
			for i, c := range tmp {
				fr.m.set(dst.o, dst.off+i, c)
			}
			return V{N: uint64(n)}
		}
	case "delete":
		return func(fr *frame) V {
			mp, _ := as[0].get(fr).X.(*Map)
			fr.m.mapDel(mp, as[1].get(fr))
			return V{}
		}
	case "panic":
		return func(fr *frame) V { panic(&goPanic{val: as[0].get(fr), at: fr.m.prog.pos(pos)}) }
	case "recover":
		return func(fr *frame) V {
			// the caller frame of a deferred call is a marker
			if fr.caller != nil && fr.caller.deferOf != nil && fr.caller.deferOf.panicking != nil {
				p := fr.caller.deferOf.panicking
				fr.caller.deferOf.panicking = nil
				return p.val
			}
			return V{}
		}
	case "print", "println":
		return func(fr *frame) V { return V{} }
	case "min", "max":
		k := basicOf(cc.Args[0].Type())
		isMin := b.Name() == "min"
		return func(fr *frame) V {
			r := as[0].get(fr)
			for i := 1; i < len(as); i++ {
				x := as[i].get(fr)
				var lt bool
				if k.w == wString {
					lt = fr.m.strCmp(x, r, token.LSS)
				} else {
					op := OULt
					if k.signed {
						op = OSLt
					} else if k.w < 0 {
						op = OFLt
					}
					lt = fr.m.branch(fr.m.ts.Bin(op, fr.m.term(x, k.w), fr.m.term(r, k.w)))
				}
				if lt == isMin {
					r = x
				}
			}
			return r
		}
	case "clear":
		return func(fr *frame) V {
			switch x := as[0].get(fr).X.(type) {
			case *Map:
				fr.m.mapTouch(x)
				x.ents, x.idx, x.nsym, x.live = nil, map[string]int{}, 0, 0
			case *Slice:
				es := slots(cc.Args[0].Type().Underlying().(*types.Slice).Elem())
				for i := 0; i < x.len*es; i++ {
					fr.m.set(x.o, x.off+i, V{})
				}
			}
			return V{}
		}
	case "ssa:wrapnilchk":
		return func(fr *frame) V {
			v := as[0].get(fr)
			if v.X == nil {
				fr.m.rtPanic("value method called using nil pointer", pos)
			}
			return v
		}
	case "String": // unsafe.String
		return func(fr *frame) V {
			p := as[0].get(fr)
			n := int(fr.m.idx(as[1].get(fr)))
			if n == 0 {
				return V{}
			}
			return mkSV(p.X.(*Obj), int(p.N), n)
		}
	case "StringData":
		return func(fr *frame) V {
			s := as[0].get(fr)
			switch x := s.X.(type) {
			case nil:
				return V{}
			case *SV:
				return V{N: uint64(x.off), X: x.o}
			}
			o := fr.m.newObj(fr.m.slen(s))
			copy(o.cells, fr.m.cellsOf(s))
			return V{X: o}
		}
	case "Slice": // unsafe.Slice
		return func(fr *frame) V {
			p := as[0].get(fr)
			n := int(fr.m.idx(as[1].get(fr)))
			if p.X == nil {
				return V{}
			}
			return V{X: &Slice{p.X.(*Obj), int(p.N), n, n}}
		}
	case "SliceData":
		return func(fr *frame) V {
			s, _ := as[0].get(fr).X.(*Slice)
			if s == nil {
				return V{}
			}
			return V{N: uint64(s.off), X: s.o}
		}
	}
	return func(fr *frame) V { abort("builtin %s", b.Name()); return V{} }
}

func (m *M) touch(o *Obj, off, n int) {
	if n > 0 {
		m.get(o, off)
	}
}

// append_ appends src (slice or string) to dst.
func (m *M) append_(dv, src V, es int) V {
	var cells []V
	n := 0
	switch s := src.X.(type) {
	case nil:
		return dv
	case *Slice:
		n = s.len
		m.touch(s.o, s.off, n*es)
		cells = s.o.cells[s.off : s.off+n*es]
	default:
		cells = m.cellsOf(src)
		n = len(cells)
	}
	d, _ := dv.X.(*Slice)
	if d == nil {
		if n == 0 {
			return dv
		}
		o := m.newObj(growCap(0, n) * es)
		copy(o.cells, cells)
		return V{X: &Slice{o, 0, n, growCap(0, n)}}
	}
	if d.len+n <= d.cap {
		tmp := append([]V(nil), cells...)
		for i, c := range tmp {
			m.set(d.o, d.off+d.len*es+i, c)
		}
		return V{X: &Slice{d.o, d.off, d.len + n, d.cap}}
	}
	nc := growCap(d.cap, d.len+n)
	o := m.newObj(nc * es)
	m.touch(d.o, d.off, d.len*es)
	copy(o.cells, d.o.cells[d.off:d.off+d.len*es])
	copy(o.cells[d.len*es:], cells)
	return V{X: &Slice{o, 0, d.len + n, nc}}
}

func growCap(old, need int) int {
	c := old
	if c < 256 {
		c *= 2
	} else {
		c += (c + 768) / 4
	}
	if c < need {
		c = need
	}
	return c
}

// ---------- range ----------

type rangeIter struct {
	keys  []*MEnt
	mp    *Map
	cells []V
	i     int
}

func (c *compiler) rang(in *ssa.Range) step {
	d, x := c.reg(in), c.op(in.X)
	if _, ok := in.X.Type().Underlying().(*types.Map); ok {
		return func(fr *frame) {
			mp, _ := x.get(fr).X.(*Map)
			it := &rangeIter{mp: mp}
			if mp != nil {
				for _, e := range mp.ents {
					if !e.dead {
						it.keys = append(it.keys, e)
					}
				}
				if fr.m.mapMode > 0 && fr.m.inInit == 0 {
					it.keys = reorder(it.keys, fr.m.mapMode)
				} else if fr.m.mapOrder && len(it.keys) > 1 && fr.m.inInit == 0 {
					it.keys = fr.m.permute(it.keys)
				}
			}
			fr.regs[d] = V{X: it}
		}
	}
	return func(fr *frame) { fr.regs[d] = V{X: &rangeIter{cells: fr.m.cellsOf(x.get(fr))}} }
}

// permute picks an iteration order: as inserted, reversed, or rotated.
func (m *M) permute(es []*MEnt) []*MEnt {
	n := len(es)
	k := 2
	if n > 2 {
		k = 3
	}
	return reorder(es, m.choose(k))
}

func reorder(es []*MEnt, c int) []*MEnt {
	n := len(es)
	r := make([]*MEnt, n)
	for i := range es {
		switch c {
		case 0:
			r[i] = es[i]
		case 1:
			r[i] = es[n-1-i]
		case 2:
			r[i] = es[(i+1)%n]
		}
	}
	return r
}

func (c *compiler) next(in *ssa.Next) step {
	d, x := c.reg(in), c.op(in.Iter)
	tt := in.Type().(*types.Tuple)
	if in.IsString {
		return func(fr *frame) {
			it := x.get(fr).X.(*rangeIter)
			if it.i >= len(it.cells) {
				fr.regs[d] = V{X: []V{{}, {}, {}}}
				return
			}
			r, n := fr.m.decodeRune(it.cells[it.i:])
			fr.regs[d] = V{X: []V{{N: 1}, {N: uint64(it.i)}, r}}
			it.i += n
		}
	}
	kz, vz := tt.At(1).Type(), tt.At(2).Type()
	zero := func(t types.Type) V {
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return V{}
		}
		return zeroV(t)
	}
	return func(fr *frame) {
		it := x.get(fr).X.(*rangeIter)
		for it.i < len(it.keys) && it.keys[it.i].dead {
			it.i++
		}
		if it.i >= len(it.keys) {
			fr.regs[d] = V{X: []V{{}, zero(kz), zero(vz)}}
			return
		}
		e := it.keys[it.i]
		it.i++
		fr.regs[d] = V{X: []V{{N: 1}, e.k, e.v}}
	}
}
