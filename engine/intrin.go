package main

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type native = func(m *M, fr *frame, args []V) V

// natives replace a function; hybrids do so only when they accept the arguments.
var natives = map[string]native{}
var hybrids = map[string]func(m *M, fr *frame, args []V) (V, bool){}

func tup(vs ...V) V  { return V{X: vs} }
func boolV(b bool) V { return V{N: b2u(b)} }
func intV(i int) V   { return V{N: uint64(int64(i))} }

func init() {
	for _, n := range []string{"IndexByte", "IndexByteString"} {
		natives["internal/bytealg."+n] = nIndexByte
	}
	natives["bytes.IndexByte"] = nIndexByte
	natives["strings.IndexByte"] = nIndexByte
	natives["internal/bytealg.LastIndexByteString"] = nLastIndexByte
	natives["internal/bytealg.LastIndexByte"] = nLastIndexByte
	natives["internal/bytealg.Count"] = nCountByte
	natives["internal/bytealg.CountString"] = nCountByte
	natives["internal/bytealg.MakeNoZero"] = func(m *M, fr *frame, a []V) V {
		n := int(m.idx(a[0]))
		return V{X: &Slice{m.newObj(n), 0, n, n}}
	}
	for _, n := range []string{"strings.Index", "bytes.Index", "internal/bytealg.Index", "internal/bytealg.IndexString"} {
		natives[n] = nIndex
	}
	natives["bytes.Equal"] = func(m *M, fr *frame, a []V) V {
		return m.fromTerm(m.strEq(m.asStr(a[0]), m.asStr(a[1])))
	}
	natives["internal/bytealg.Compare"] = func(m *M, fr *frame, a []V) V {
		x, y := m.asStr(a[0]), m.asStr(a[1])
		if m.branch(m.strEq(x, y)) {
			return V{}
		}
		if m.strCmp(x, y, 40 /* token.LSS */) {
			return intV(-1)
		}
		return intV(1)
	}
	natives["internal/bytealg.CompareString"] = natives["internal/bytealg.Compare"]
	natives["internal/abi.NoEscape"] = func(m *M, fr *frame, a []V) V { return a[0] }
	natives["strings.noescape"] = natives["internal/abi.NoEscape"]
	natives["runtime.Callers"] = func(m *M, fr *frame, a []V) V { return V{} }
	natives["runtime.Caller"] = func(m *M, fr *frame, a []V) V { return tup(V{}, V{}, V{}, V{}) }
	natives["runtime.GC"] = nop
	natives["runtime.KeepAlive"] = nop
	natives["runtime.SetFinalizer"] = nop

	// sync
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock",
		"(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "(*internal/sync.Mutex).Lock", "(*internal/sync.Mutex).Unlock"} {
		natives[n] = nop
	}
	natives["(*sync.Once).Do"] = func(m *M, fr *frame, a []V) V {
		o := a[0].X.(*Obj)
		if c := o.cells[int(a[0].N)]; c.N == 1 {
			return V{}
		}
		m.setQuiet(o, int(a[0].N), V{N: 1})
		m.callV(a[1], nil, fr, 0)
		return V{}
	}
	natives["(*sync.Pool).Get"] = nPoolGet
	natives["(*sync.Pool).Put"] = nPoolPut
	atomics()

	// math
	natives["math.Float64bits"] = func(m *M, fr *frame, a []V) V { return m.fbits(a[0], 64) }
	natives["math.Float32bits"] = func(m *M, fr *frame, a []V) V { return m.fbits(a[0], 32) }
	natives["math.Float64frombits"] = func(m *M, fr *frame, a []V) V { return m.fromBits(a[0], 64) }
	natives["math.Float32frombits"] = func(m *M, fr *frame, a []V) V { return m.fromBits(a[0], 32) }
	natives["math.Abs"] = func(m *M, fr *frame, a []V) V { return m.fromTerm(m.ts.Un(OFAbs, -64, m.term(a[0], -64))) }
	natives["math.IsInf"] = func(m *M, fr *frame, a []V) V {
		t := m.term(a[0], -64)
		inf := m.ts.Un(OFIsInf, 0, t)
		sg := int64(a[1].N)
		if sg == 0 {
			return m.fromTerm(inf)
		}
		pos := m.ts.Bin(OFLt, m.ts.Const(-64, 0), t)
		if sg < 0 {
			pos = m.ts.Bin(OFLt, t, m.ts.Const(-64, 0))
		}
		return m.fromTerm(m.ts.And(inf, pos))
	}
	natives["math.IsNaN"] = func(m *M, fr *frame, a []V) V { return m.fromTerm(m.ts.Un(OFIsNaN, 0, m.term(a[0], -64))) }
	conc1 := func(f func(float64) float64) native {
		return func(m *M, fr *frame, a []V) V {
			if a[0].X != nil {
				abort("math function of a symbolic float")
			}
			return V{N: math.Float64bits(f(math.Float64frombits(a[0].N)))}
		}
	}
	natives["math.Floor"] = conc1(math.Floor)
	natives["math.Trunc"] = conc1(math.Trunc)
	natives["math.Ceil"] = conc1(math.Ceil)
	natives["math.Sqrt"] = conc1(math.Sqrt)
	natives["math.FMA"] = func(m *M, fr *frame, a []V) V {
		return V{N: math.Float64bits(math.FMA(math.Float64frombits(a[0].N), math.Float64frombits(a[1].N), math.Float64frombits(a[2].N)))}
	}

	// strconv
	natives["strconv.AppendInt"] = func(m *M, fr *frame, a []V) V {
		if a[1].X == nil {
			return m.appendText(a[0], strconv.FormatInt(int64(a[1].N), int(a[2].N)))
		}
		if a[2].N != 10 {
			abort("symbolic number in another base")
		}
		return m.appendCells(a[0], V{X: &Atom{k: AInt, t: []V{a[1]}}})
	}
	natives["strconv.AppendUint"] = func(m *M, fr *frame, a []V) V {
		if a[1].X == nil {
			return m.appendText(a[0], strconv.FormatUint(a[1].N, int(a[2].N)))
		}
		if a[2].N != 10 {
			abort("symbolic number in another base")
		}
		return m.appendCells(a[0], V{X: &Atom{k: AUint, t: []V{a[1]}}})
	}
	natives["strconv.FormatInt"] = func(m *M, fr *frame, a []V) V {
		return m.strOf(m.bytesCells(natives["strconv.AppendInt"](m, fr, []V{{}, a[0], a[1]})))
	}
	natives["strconv.FormatUint"] = func(m *M, fr *frame, a []V) V {
		return m.strOf(m.bytesCells(natives["strconv.AppendUint"](m, fr, []V{{}, a[0], a[1]})))
	}
	natives["strconv.Itoa"] = func(m *M, fr *frame, a []V) V {
		return natives["strconv.FormatInt"](m, fr, []V{a[0], {N: 10}})
	}
	natives["strconv.AppendFloat"] = func(m *M, fr *frame, a []V) V {
		if a[1].X == nil {
			return m.appendText(a[0], strconv.FormatFloat(math.Float64frombits(a[1].N), byte(a[2].N), int(int64(a[3].N)), int(a[4].N)))
		}
		at := &Atom{k: AFloat, t: []V{a[1]}, c: int(a[4].N), str: fmt.Sprintf("%c%d", rune(a[2].N), int64(a[3].N))}
		return m.appendCells(a[0], V{X: at})
	}
	natives["strconv.FormatFloat"] = func(m *M, fr *frame, a []V) V {
		return m.strOf(m.bytesCells(natives["strconv.AppendFloat"](m, fr, []V{{}, a[0], a[1], a[2], a[3]})))
	}
	hybrids["strconv.Quote"] = func(m *M, fr *frame, a []V) (V, bool) {
		if _, ok := m.conc(a[0]); ok {
			return V{}, false
		}
		if m.prog.ssa.ImportedPackage(ghPath) != nil { // what the generator writes is read again
			return V{}, false
		}
		return m.strOf([]V{{X: &Atom{k: AQuote, s: a[0]}}}), true
	}

	// fmt
	natives["fmt.Sprintf"] = func(m *M, fr *frame, a []V) V { s, _ := m.sprintf(fr, a[0], a[1]); return s }
	natives["fmt.Errorf"] = func(m *M, fr *frame, a []V) V {
		s, w := m.sprintf(fr, a[0], a[1])
		if w != nil {
			return m.wrapError(s, V{X: w})
		}
		return m.newError(s)
	}
	natives["fmt.Sprint"] = func(m *M, fr *frame, a []V) V {
		var cells []V
		for _, x := range m.bytesCells(a[0]) {
			cells = append(cells, m.fmtArg(fr, 'v', x, false)...)
		}
		return m.strOf(cells)
	}
	for _, n := range []string{"fmt.Printf", "fmt.Println", "fmt.Print", "fmt.Fprintf", "fmt.Fprintln"} {
		natives[n] = func(m *M, fr *frame, a []V) V { return tup(V{}, V{}) }
	}
	timeNatives()
	uuidNatives()
	b64Natives()
	jsonNatives()
	vhNatives()

}

func nop(m *M, fr *frame, a []V) V { return V{} }

// asStr views a byte slice or string as a string value without copying.
func (m *M) asStr(v V) V {
	if s, ok := v.X.(*Slice); ok {
		return mkSV(s.o, s.off, s.len)
	}
	return v
}

func (m *M) setQuiet(o *Obj, i int, v V) {
	if o.epoch != m.epoch && m.inInit == 0 {
		m.ctrail = append(m.ctrail, cellUndo{o, i, o.cells[i]})
	}
	o.cells[i] = v
}

func nIndexByte(m *M, fr *frame, a []V) V {
	cells := m.cellsOf(m.asStr(a[0]))
	for i, c := range cells {
		if m.branch(m.cellEq(c, a[1])) {
			return intV(i)
		}
	}
	return intV(-1)
}
func nLastIndexByte(m *M, fr *frame, a []V) V {
	cells := m.cellsOf(m.asStr(a[0]))
	for i := len(cells) - 1; i >= 0; i-- {
		if m.branch(m.cellEq(cells[i], a[1])) {
			return intV(i)
		}
	}
	return intV(-1)
}
func nCountByte(m *M, fr *frame, a []V) V {
	n := 0
	for _, c := range m.cellsOf(m.asStr(a[0])) {
		if m.branch(m.cellEq(c, a[1])) {
			n++
		}
	}
	return intV(n)
}
func nIndex(m *M, fr *frame, a []V) V {
	s, t := m.asStr(a[0]), m.asStr(a[1])
	if x, ok := m.conc(s); ok {
		if y, ok := m.conc(t); ok {
			return intV(strings.Index(x, y))
		}
	}
	n, k := m.slen(s), m.slen(t)
	for i := 0; i+k <= n; i++ {
		if m.branch(m.strEq(m.substr(s, i, i+k), t)) {
			return intV(i)
		}
	}
	return intV(-1)
}

func (m *M) appendText(dst V, s string) V { return m.append_(dst, str(s), 1) }
func (m *M) appendCells(dst V, cs ...V) V {
	o := m.newObj(len(cs))
	copy(o.cells, cs)
	return m.append_(dst, V{X: &Slice{o, 0, len(cs), len(cs)}}, 1)
}

func (m *M) fbits(v V, w int) V {
	if v.X == nil {
		return v
	}
	t := v.X.(*Term)
	if t.op == OBits2F {
		return m.fromTerm(t.a[0])
	}
	h := m.hidden(w)
	// the variable is determined by t; extend the model accordingly
	val := m.ts.Eval(t, m.model)
	nm := make(map[*Term]uint64, len(m.model)+1)
	for k, x := range m.model {
		nm[k] = x
	}
	nm[h] = val
	m.model = nm
	m.addPC(m.ts.Eq(m.ts.Un(OBits2F, t.sort, h), t))
	return V{X: h}
}
func (m *M) fromBits(v V, w int) V {
	if v.X == nil {
		return v
	}
	return m.fromTerm(m.ts.Un(OBits2F, -w, m.term(v, w)))
}

// ---------- errors and formatting ----------

func (m *M) pkgFn(path, name string) *Fn {
	p := m.prog.ssa.ImportedPackage(path)
	if p == nil {
		abort("package %s is not loaded", path)
	}
	f := p.Func(name)
	if f == nil {
		abort("no function %s.%s", path, name)
	}
	return m.prog.lazyFn(f)
}

func (m *M) newError(s V) V { return m.call(m.pkgFn("errors", "New"), s) }

func (m *M) namedType(path, name string) types.Type {
	p := m.prog.ssa.ImportedPackage(path)
	if p == nil {
		abort("package %s is not loaded", path)
	}
	return p.Pkg.Scope().Lookup(name).Type()
}

func (m *M) wrapError(msg, err V) V {
	t := m.namedType("fmt", "wrapError")
	o := m.newObj(2)
	// msg string; err error
	o.cells[0], o.cells[1] = msg, err
	return V{X: &Iface{types.NewPointer(t), V{X: o}}}
}

func (m *M) sprintf(fr *frame, f, args V) (V, *Iface) {
	format := m.mustConc(f, "format")
	as := m.bytesCells(args)
	var out []V
	var wrapped *Iface
	ai := 0
	for i := 0; i < len(format); {
		if format[i] != '%' {
			out = append(out, V{N: uint64(format[i])})
			i++
			continue
		}
		i++
		start := i
		for i < len(format) && strings.IndexByte("+-# 0123456789.", format[i]) >= 0 {
			i++
		}
		flags := format[start:i]
		if i >= len(format) {
			out = append(out, m.cellsOf(str("%!(NOVERB)"))...)
			break
		}
		v := format[i]
		i++
		if v == '%' {
			out = append(out, V{N: '%'})
			continue
		}
		if ai >= len(as) {
			out = append(out, m.cellsOf(str("%!"+string(v)+"(MISSING)"))...)
			continue
		}
		a := as[ai]
		ai++
		if v == 'w' {
			if x, ok := a.X.(*Iface); ok {
				wrapped = x
			}
			v = 'v'
		}
		if flags != "" && flags != "+" && flags != "#" {
			x, _ := a.X.(*Iface)
			if x != nil && x.v.X == nil && basicOf(x.t).w <= 64 {
				k := basicOf(x.t)
				if k.signed {
					out = append(out, m.cellsOf(str(fmt.Sprintf("%"+flags+string(v), sext(k.w, x.v.N))))...)
				} else {
					out = append(out, m.cellsOf(str(fmt.Sprintf("%"+flags+string(v), x.v.N)))...)
				}
				continue
			}
		}
		out = append(out, m.fmtArg(fr, v, a, flags == "#")...)
	}
	if ai < len(as) {
		out = append(out, m.cellsOf(str("%!(EXTRA)"))...)
	}
	return m.strOf(out), wrapped
}

func (m *M) methodByName(t types.Type, name string) *Fn {
	k := t.String() + "." + name
	type nk struct {
		t types.Type
		n string
	}
	if v, ok := m.prog.methods.Load(nk{t, name}); ok {
		return v.(*Fn)
	}
	_ = k
	ms := m.prog.ssa.MethodSets.MethodSet(t)
	var fn *Fn
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			m.prog.mu.Lock()
			sf := m.prog.ssa.MethodValue(ms.At(i))
			m.prog.mu.Unlock()
			if sf != nil {
				fn = m.prog.lazyFn(sf)
			}
		}
	}
	m.prog.methods.Store(nk{t, name}, fn)
	return fn
}

func (m *M) fmtArg(fr *frame, verb byte, a V, sharp bool) []V {
	x, _ := a.X.(*Iface)
	if x == nil {
		if verb == 'v' {
			return m.cellsOf(str("<nil>"))
		}
		return m.cellsOf(str("%!" + string(verb) + "(<nil>)"))
	}
	if verb == 'T' {
		return m.cellsOf(str(x.t.String()))
	}
	if verb == 's' || verb == 'v' && !sharp || verb == 'q' {
		for _, n := range []string{"Error", "String"} {
			if fn := m.methodByName(x.t, n); fn != nil && fn.f.Signature.Params().Len() == 0 && fn.f.Signature.Results().Len() == 1 && basicOf(fn.f.Signature.Results().At(0).Type()).w == wString {
				s := m.runFn(fn, []V{x.v}, nil, fr)
				if verb == 'q' {
					return m.quote(s)
				}
				return m.cellsOf(s)
			}
		}
	}
	switch u := x.t.Underlying().(type) {
	case *types.Basic:
		k := basicOf(x.t)
		switch {
		case k.w == wString:
			if verb == 'q' || sharp {
				return m.quote(x.v)
			}
			return m.cellsOf(x.v)
		case k.w == 0:
			if m.branch(m.term(x.v, 0)) {
				return m.cellsOf(str("true"))
			}
			return m.cellsOf(str("false"))
		case k.w < 0:
			if x.v.X == nil {
				f := toF(k.w, x.v.N)
				return m.cellsOf(str(fmt.Sprintf("%"+string(verb), f)))
			}
			return []V{{X: &Atom{k: AOpaque, c: int(m.nextID)}}}
		case k.w <= 64:
			if x.v.X == nil {
				if k.signed {
					return m.cellsOf(str(fmt.Sprintf("%"+string(verb), sext(k.w, x.v.N))))
				}
				return m.cellsOf(str(fmt.Sprintf("%"+string(verb), x.v.N)))
			}
			w := m.numConv(x.v, k, bk{64, k.signed})
			if k.signed {
				return []V{{X: &Atom{k: AInt, t: []V{w}}}}
			}
			return []V{{X: &Atom{k: AUint, t: []V{w}}}}
		}
	case *types.Slice:
		if basicOf(u.Elem()).w == 8 && (verb == 's' || verb == 'q') {
			s := m.strOf(m.bytesCells(x.v))
			if verb == 'q' {
				return m.quote(s)
			}
			return m.cellsOf(s)
		}
		if verb == 'v' && !sharp {
			var out []V
			out = append(out, V{N: '['})
			if s, ok := x.v.X.(*Slice); ok && slots(u.Elem()) == 1 {
				for i := 0; i < s.len; i++ {
					if i > 0 {
						out = append(out, V{N: ' '})
					}
					e := s.o.cells[s.off+i]
					if _, isI := u.Elem().Underlying().(*types.Interface); !isI {
						e = V{X: &Iface{u.Elem(), e}}
					}
					out = append(out, m.fmtArg(fr, 'v', e, false)...)
				}
			}
			return append(out, V{N: ']'})
		}
	}
	return []V{{X: &Atom{k: AOpaque, c: int(m.nextID)}}}
}

func (m *M) quote(s V) []V {
	if c, ok := m.conc(s); ok {
		return m.cellsOf(str(strconv.Quote(c)))
	}
	return []V{{X: &Atom{k: AQuote, s: s}}}
}

// ---------- pools ----------

type ptrKey struct {
	o   *Obj
	off uint64
}

// parser state: which memory belongs to the current document, and whether it sits in a pool.
type pstate struct {
	inPool bool
	cur    *Owner
}

func nPoolGet(m *M, fr *frame, a []V) V {
	o := a[0].X.(*Obj)
	k := ptrKey{o, a[0].N}
	p := m.poolsBy[k]
	if p != nil && len(p.items) > 0 {
		v := p.items[len(p.items)-1]
		p.items = p.items[:len(p.items)-1]
		if i, ok := v.X.(*Iface); ok {
			if po, ok := i.v.X.(*Obj); ok {
				if st := m.parsers[po]; st != nil {
					st.inPool = false
				}
				if m.frameOn {
					m.frameOK[po] = true
				}
			}
			if s, ok := i.v.X.(*Slice); ok && m.frameOn {
				m.frameOK[s.o] = true
			}
		}
		return v
	}
	// New func() any is the last field of sync.Pool
	nf := o.cells[int(a[0].N)+slots(m.namedType("sync", "Pool"))-1]
	if nf.X == nil {
		return V{}
	}
	return m.callV(nf, nil, fr, 0)
}

func nPoolPut(m *M, fr *frame, a []V) V {
	o := a[0].X.(*Obj)
	k := ptrKey{o, a[0].N}
	p := m.poolsBy[k]
	if p == nil {
		p = &poolSt{}
		m.poolsBy[k] = p
	}
	if a[1].X == nil {
		return V{}
	}
	if i, ok := a[1].X.(*Iface); ok {
		if po, ok := i.v.X.(*Obj); ok {
			for _, q := range m.poolsBy {
				for _, it := range q.items {
					if j, ok := it.X.(*Iface); ok && j.v.X == po && j.v.N == i.v.N {
						m.event("handed back twice")
					}
				}
			}
			if st := m.parsers[po]; st != nil {
				st.inPool = true
				m.puts++
			}
		}
	}
	p.items = append(p.items, a[1])
	return V{}
}

func atomics() {
	ld := func(m *M, fr *frame, a []V) V {
		o, ok := a[0].X.(*Obj)
		if !ok {
			m.rtPanic("invalid memory address or nil pointer dereference", 0)
		}
		return m.get(o, int(a[0].N))
	}
	st := func(m *M, fr *frame, a []V) V { m.set(a[0].X.(*Obj), int(a[0].N), a[1]); return V{} }
	for _, t := range []struct {
		n string
		w int
	}{{"Int32", 32}, {"Int64", 64}, {"Uint32", 32}, {"Uint64", 64}, {"Uintptr", 64}, {"Pointer", 2000}} {
		t := t
		natives["sync/atomic.Load"+t.n] = ld
		natives["sync/atomic.Store"+t.n] = st
		natives["sync/atomic.Add"+t.n] = func(m *M, fr *frame, a []V) V {
			o := a[0].X.(*Obj)
			v := V{N: mask(t.w, m.get(o, int(a[0].N)).N+a[1].N)}
			m.set(o, int(a[0].N), v)
			return v
		}
		natives["sync/atomic.Swap"+t.n] = func(m *M, fr *frame, a []V) V {
			o := a[0].X.(*Obj)
			v := m.get(o, int(a[0].N))
			m.set(o, int(a[0].N), a[1])
			return v
		}
		natives["sync/atomic.CompareAndSwap"+t.n] = func(m *M, fr *frame, a []V) V {
			o := a[0].X.(*Obj)
			v := m.get(o, int(a[0].N))
			if v == a[1] {
				m.set(o, int(a[0].N), a[2])
				return V{N: 1}
			}
			return V{}
		}
	}
}

// ---------- time ----------

const unixToInternal int64 = (1969*365 + 1969/4 - 1969/100 + 1969/400) * 86400

func timeNatives() {
	appendFormat := func(m *M, tv V, layout V) []V {
		cs := tv.X.([]V) // wall, ext, loc
		l, ok := m.conc(layout)
		if !ok {
			abort("symbolic time layout")
		}
		if cs[2].X != nil {
			if cs[0].X == nil && cs[1].X == nil {
				return []V{{X: &Atom{k: AOpaque, c: int(m.nextID)}}}
			}
			abort("time with a zone")
		}
		if cs[0].X == nil && cs[1].X == nil {
			if cs[0].N>>63 != 0 {
				abort("monotonic time")
			}
			t := time.Unix(int64(cs[1].N)-unixToInternal, int64(cs[0].N&(1<<30-1))).UTC()
			return m.cellsOf(str(t.Format(l)))
		}
		if txt, ok := constLayout(l); ok {
			return m.cellsOf(str(txt))
		}
		return []V{{X: &Atom{k: ATime, t: []V{cs[1], cs[0]}, str: l}}}
	}
	natives["(time.Time).AppendFormat"] = func(m *M, fr *frame, a []V) V {
		return m.appendCells(a[1], appendFormat(m, a[0], a[2])...)
	}
	natives["(time.Time).Format"] = func(m *M, fr *frame, a []V) V { return m.strOf(appendFormat(m, a[0], a[1])) }
	natives["(time.Time).String"] = func(m *M, fr *frame, a []V) V {
		return m.strOf(appendFormat(m, a[0], str("2006-01-02 15:04:05.999999999 -0700 MST")))
	}
	natives["(time.Time).MarshalText"] = func(m *M, fr *frame, a []V) V {
		return tup(m.mkBytes(appendFormat(m, a[0], str(time.RFC3339Nano))), V{})
	}
	natives["(time.Time).MarshalJSON"] = func(m *M, fr *frame, a []V) V {
		cs := append([]V{{N: '"'}}, appendFormat(m, a[0], str(time.RFC3339Nano))...)
		return tup(m.mkBytes(append(cs, V{N: '"'})), V{})
	}
	natives["time.Parse"] = func(m *M, fr *frame, a []V) V {
		layout := m.mustConc(a[0], "time layout")
		fail := func() V {
			return tup(zeroV(m.namedType("time", "Time")), m.newError(str("parsing time: not in this layout")))
		}
		mk := func(ext, wall V) V { return tup(V{X: []V{wall, ext, {}}}, V{}) }
		if s, ok := m.conc(a[1]); ok {
			t, err := time.Parse(layout, s)
			if err != nil {
				return fail()
			}
			_, off := t.Zone()
			v := []V{{N: uint64(t.Nanosecond())}, {N: uint64(t.Unix() + unixToInternal)}, {}}
			if off != 0 || t.Location() != time.UTC {
				// a fixed zone: identity does not matter to any property
				lo := m.newObj(slots(m.namedType("time", "Location")))
				lo.what = "zone"
				v[2] = V{X: lo}
			}
			return tup(V{X: v}, V{})
		}
		cells := m.cellsOf(a[1])
		if len(cells) == 1 {
			if at, ok := cells[0].X.(*Atom); ok && at.k == ATime {
				if at.str == layout {
					return mk(at.t[0], at.t[1])
				}
				r0, r1 := probeLayouts(at.str, layout, false), probeLayouts(at.str, layout, true)
				r := r0
				if r0 != r1 {
					if m.branch(m.ts.Eq(m.term(at.t[1], 64), m.ts.Const(64, 0))) {
						r = r0
					} else {
						r = r1
					}
				}
				switch r {
				case 0:
					return fail()
				case 1:
					return mk(at.t[0], at.t[1])
				}
				abort("text of layout %q read by layout %q", at.str, layout)
			}
		}
		for _, c := range cells {
			if _, ok := c.X.(*Atom); ok {
				if len(cells) == 1 {
					return fail()
				}
				abort("time.Parse of a mixed text")
			}
		}
		if len(cells) <= 3 && len(layout) > 4 {
			return fail()
		}
		abort("time.Parse of symbolic text")
		return V{}
	}
	natives["time.Now"] = func(m *M, fr *frame, a []V) V {
		return V{X: []V{{N: 0}, {N: uint64(1700000000 + unixToInternal)}, {}}}
	}
}

// constLayout reports a layout without any date element.
func constLayout(l string) (string, bool) {
	a := time.Unix(1, 1).UTC().Format(l)
	b := time.Date(2033, 11, 28, 19, 47, 58, 987654321, time.UTC).Format(l)
	c := time.Date(2017, 8, 15, 7, 31, 23, 100000000, time.UTC).Format(l)
	return a, a == b && b == c
}

// probeLayouts: 0 text of layout a is never read by layout b, 1 it is read as the same instant, 2 mixed.
func probeLayouts(a, b string, frac bool) int {
	ok, bad := 0, 0
	for i := 0; i < 40; i++ {
		t := time.Unix(int64(i)*97654321+int64(i*i)*86400*3, 0).UTC()
		if frac {
			t = t.Add(time.Duration(1+i*24999999) % time.Second)
		}
		p, err := time.Parse(a, t.Format(a))
		if err != nil {
			return 2
		}
		q, err := time.Parse(b, t.Format(a))
		if err != nil {
			bad++
			continue
		}
		if !q.Equal(p) {
			return 2
		}
		ok++
	}
	switch {
	case bad == 0:
		return 1
	case ok == 0:
		return 0
	}
	return 2
}

// ---------- uuid ----------

func uuidNatives() {
	const p = "github.com/google/uuid."
	parse := func(m *M, fr *frame, a []V) (V, bool) {
		cells := m.cellsOf(m.asStr(a[0]))
		if len(cells) != 1 {
			return V{}, false
		}
		at, ok := cells[0].X.(*Atom)
		if !ok {
			return V{}, false
		}
		if at.k != AUUID {
			return tup(V{X: make([]V, 16)}, m.newError(str("invalid UUID"))), true
		}
		return tup(V{X: append([]V(nil), at.t...)}, V{}), true
	}
	hybrids[p+"ParseBytes"] = parse
	hybrids[p+"Parse"] = parse
	text := func(m *M, v V) ([]V, bool) {
		cs := v.X.([]V)
		for _, c := range cs {
			if c.X != nil {
				return []V{{X: &Atom{k: AUUID, t: append([]V(nil), cs...)}}}, true
			}
		}
		return nil, false
	}
	hybrids["("+p+"UUID).String"] = func(m *M, fr *frame, a []V) (V, bool) {
		c, ok := text(m, a[0])
		if !ok {
			return V{}, false
		}
		return m.strOf(c), true
	}
	hybrids["("+p+"UUID).MarshalText"] = func(m *M, fr *frame, a []V) (V, bool) {
		c, ok := text(m, a[0])
		if !ok {
			return V{}, false
		}
		return tup(m.mkBytes(c), V{}), true
	}
}

// ---------- base64 ----------

func (m *M) encodingOf(v V) (alpha string, pad int) {
	o := v.X.(*Obj)
	base := int(v.N)
	st := m.namedType("encoding/base64", "Encoding").Underlying().(*types.Struct)
	off := 0
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		n := slots(f.Type())
		switch f.Name() {
		case "encode":
			b := make([]byte, 64)
			for j := range b {
				b[j] = byte(o.cells[base+off+j].N)
			}
			alpha = string(b)
		case "padChar":
			pad = int(int32(o.cells[base+off].N))
		}
		off += n
	}
	return
}

func anySym(cs []V) bool {
	for _, c := range cs {
		if c.X != nil {
			return true
		}
	}
	return false
}

func (m *M) b64enc(src []V, alpha string, pad int) []V {
	ts := m.ts
	var out []V
	put := func(t *Term) { // 6-bit term in 8 bits
		if t.isConst() {
			out = append(out, V{N: uint64(alpha[t.c])})
			return
		}
		out = append(out, V{X: &Atom{k: AB64, t: []V{{X: t}}, str: alpha}})
	}
	b := func(i int) *Term { return m.term(src[i], 8) }
	z6 := func(t *Term) *Term { return ts.ZExt(t, 8) }
	i := 0
	for ; i+3 <= len(src); i += 3 {
		x, y, z := b(i), b(i+1), b(i+2)
		put(z6(ts.Extract(x, 7, 2)))
		put(z6(ts.Concat(ts.Extract(x, 1, 0), ts.Extract(y, 7, 4))))
		put(z6(ts.Concat(ts.Extract(y, 3, 0), ts.Extract(z, 7, 6))))
		put(z6(ts.Extract(z, 5, 0)))
	}
	switch len(src) - i {
	case 1:
		x := b(i)
		put(z6(ts.Extract(x, 7, 2)))
		put(z6(ts.Concat(ts.Extract(x, 1, 0), ts.Const(4, 0))))
		if pad >= 0 {
			out = append(out, V{N: uint64(pad)}, V{N: uint64(pad)})
		}
	case 2:
		x, y := b(i), b(i+1)
		put(z6(ts.Extract(x, 7, 2)))
		put(z6(ts.Concat(ts.Extract(x, 1, 0), ts.Extract(y, 7, 4))))
		put(z6(ts.Concat(ts.Extract(y, 3, 0), ts.Const(2, 0))))
		if pad >= 0 {
			out = append(out, V{N: uint64(pad)})
		}
	}
	return out
}

// b64val turns one character into its six-bit value; kind 0 value, 1 padding, 2 newline, 3 bad.
func (m *M) b64val(c V, alpha string, pad int) (int, *Term) {
	ts := m.ts
	if at, ok := c.X.(*Atom); ok {
		if at.k != AB64 {
			return 3, nil
		}
		t := m.term(at.t[0], 8)
		if at.str == alpha {
			return 0, t
		}
		for i := 0; i < 64; i++ {
			if at.str[i] != alpha[i] {
				if m.branch(ts.Eq(t, ts.Const(8, uint64(i)))) {
					return 3, nil
				}
			}
		}
		return 0, t
	}
	if c.X == nil {
		if int(c.N) == pad {
			return 1, nil
		}
		if c.N == '\n' || c.N == '\r' {
			return 2, nil
		}
		i := strings.IndexByte(alpha, byte(c.N))
		if i < 0 {
			return 3, nil
		}
		return 0, ts.Const(8, uint64(i))
	}
	t := m.term(c, 8)
	rng := func(lo, hi byte) *Term {
		return ts.And(ts.Bin(OULe, ts.Const(8, uint64(lo)), t), ts.Bin(OULe, t, ts.Const(8, uint64(hi))))
	}
	eq := func(x byte) *Term { return ts.Eq(t, ts.Const(8, uint64(x))) }
	if pad >= 0 && m.branch(eq(byte(pad))) {
		return 1, nil
	}
	up, lo, di := rng('A', 'Z'), rng('a', 'z'), rng('0', '9')
	valid := ts.Or(ts.Or(up, lo), ts.Or(di, ts.Or(eq(alpha[62]), eq(alpha[63]))))
	if !m.branch(valid) {
		if m.branch(ts.Or(eq('\n'), eq('\r'))) {
			return 2, nil
		}
		return 3, nil
	}
	sub := func(n int) *Term { return ts.Bin(OSub, t, ts.Const(8, uint64(n)&0xff)) }
	v := ts.Ite(up, sub('A'), ts.Ite(lo, sub('a'-26), ts.Ite(di, sub(int('0')-52), ts.Ite(eq(alpha[62]), ts.Const(8, 62), ts.Const(8, 63)))))
	return 0, v
}

// b64dec follows encoding/base64 (non-strict). It returns the bytes and whether the text was valid.
func (m *M) b64dec(src []V, alpha string, pad int) ([]V, bool) {
	ts := m.ts
	var out []V
	var q []*Term
	emit := func(n int) {
		for len(q) < 4 {
			q = append(q, ts.Const(8, 0))
		}
		e := func(t *Term, hi, lo int) *Term { return ts.Extract(t, hi, lo) }
		bs := []*Term{
			ts.Concat(e(q[0], 5, 0), e(q[1], 5, 4)),
			ts.Concat(e(q[1], 3, 0), e(q[2], 5, 2)),
			ts.Concat(e(q[2], 1, 0), e(q[3], 5, 0)),
		}
		for i := 0; i < n; i++ {
			out = append(out, m.fromTerm(bs[i]))
		}
		q = nil
	}
	for i := 0; i < len(src); i++ {
		k, v := m.b64val(src[i], alpha, pad)
		switch k {
		case 0:
			q = append(q, v)
			if len(q) == 4 {
				emit(3)
			}
		case 2:
			continue
		case 3:
			return out, false
		case 1:
			if len(q) < 2 {
				return out, false
			}
			if len(q) == 2 {
				// one more padding character, newlines skipped
				j := i + 1
				for ; j < len(src); j++ {
					k2, _ := m.b64val(src[j], alpha, pad)
					if k2 == 2 {
						continue
					}
					if k2 != 1 {
						return out, false
					}
					break
				}
				if j >= len(src) {
					return out, false
				}
				i = j
			}
			for j := i + 1; j < len(src); j++ {
				if k2, _ := m.b64val(src[j], alpha, pad); k2 != 2 {
					return out, false
				}
			}
			emit(len(q) - 1)
			return out, true
		}
	}
	if len(q) == 0 {
		return out, true
	}
	if len(q) == 1 || pad >= 0 {
		return out, false
	}
	emit(len(q) - 1)
	return out, true
}

func b64Natives() {
	const e = "(*encoding/base64.Encoding)."
	hybrids[e+"EncodeToString"] = func(m *M, fr *frame, a []V) (V, bool) {
		src := m.bytesCells(a[1])
		if !anySym(src) {
			return V{}, false
		}
		al, pad := m.encodingOf(a[0])
		return m.strOf(m.b64enc(src, al, pad)), true
	}
	hybrids[e+"AppendEncode"] = func(m *M, fr *frame, a []V) (V, bool) {
		src := m.bytesCells(a[2])
		if !anySym(src) {
			return V{}, false
		}
		al, pad := m.encodingOf(a[0])
		return m.appendCells(a[1], m.b64enc(src, al, pad)...), true
	}
	hybrids[e+"Encode"] = func(m *M, fr *frame, a []V) (V, bool) {
		src := m.bytesCells(a[2])
		if !anySym(src) {
			return V{}, false
		}
		al, pad := m.encodingOf(a[0])
		out := m.b64enc(src, al, pad)
		d, _ := a[1].X.(*Slice)
		if d == nil || d.len < len(out) {
			m.rtPanic("index out of range", 0)
		}
		for i, c := range out {
			m.set(d.o, d.off+i, c)
		}
		return V{}, true
	}
	corrupt := func(m *M) V {
		return V{X: &Iface{m.namedType("encoding/base64", "CorruptInputError"), V{N: 0}}}
	}
	hybrids[e+"DecodeString"] = func(m *M, fr *frame, a []V) (V, bool) {
		src := m.cellsOf(a[1])
		if !anySym(src) {
			return V{}, false
		}
		al, pad := m.encodingOf(a[0])
		out, ok := m.b64dec(src, al, pad)
		if !ok {
			return tup(m.mkBytes(out), corrupt(m)), true
		}
		return tup(m.mkBytes(out), V{}), true
	}
	hybrids[e+"Decode"] = func(m *M, fr *frame, a []V) (V, bool) {
		src := m.bytesCells(a[2])
		if !anySym(src) {
			return V{}, false
		}
		al, pad := m.encodingOf(a[0])
		out, ok := m.b64dec(src, al, pad)
		d, _ := a[1].X.(*Slice)
		dl := 0
		if d != nil {
			dl = d.len
		}
		for i, c := range out {
			if i >= dl {
				m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, dl), 0)
			}
			m.set(d.o, d.off+i, c)
		}
		if !ok {
			return tup(intV(len(out)), corrupt(m)), true
		}
		return tup(intV(len(out)), V{}), true
	}
	const w = "(*github.com/mailru/easyjson/jwriter.Writer)."
	hybrids[w+"base64"] = func(m *M, fr *frame, a []V) (V, bool) {
		src := m.bytesCells(a[1])
		if !anySym(src) {
			return V{}, false
		}
		m.wAppend(a[0], m.b64enc(src, b64alpha, '=')...)
		return V{}, true
	}
}

// wAppend appends cells to a jwriter.Writer.
func (m *M) wAppend(w V, cs ...V) {
	fn := m.methodByName(types.NewPointer(m.namedType("github.com/mailru/easyjson/buffer", "Buffer")), "AppendBytes")
	if fn == nil {
		abort("no buffer")
	}
	off := m.fieldOffset("github.com/mailru/easyjson/jwriter", "Writer", "Buffer")
	m.call(fn, V{N: w.N + uint64(off), X: w.X}, m.mkBytes(cs))
}

var offMu = map[string]int{}

func (m *M) fieldOffset(pkg, typ, field string) int {
	st := m.namedType(pkg, typ).Underlying().(*types.Struct)
	off := 0
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == field {
			return off
		}
		off += slots(st.Field(i).Type())
	}
	abort("no field %s.%s.%s", pkg, typ, field)
	return 0
}

// ---------- JSON text ----------

const fjPath = "github.com/valyala/fastjson"

func (m *M) offs() *fjOff {
	if m.fj != nil {
		return m.fj
	}
	f := &fjOff{}
	f.vSize = slots(m.namedType(fjPath, "Value"))
	f.vo = m.fieldOffset(fjPath, "Value", "o")
	f.va = m.fieldOffset(fjPath, "Value", "a")
	f.vs = m.fieldOffset(fjPath, "Value", "s")
	f.vt = m.fieldOffset(fjPath, "Value", "t")
	f.okvs = m.fieldOffset(fjPath, "Object", "kvs")
	kv := m.prog.ssa.ImportedPackage(fjPath).Pkg.Scope().Lookup("kv").Type()
	f.kvSize = slots(kv)
	f.kk = m.fieldOffset(fjPath, "kv", "k")
	f.kv = m.fieldOffset(fjPath, "kv", "v")
	c := func(n string) uint64 {
		o := m.prog.ssa.ImportedPackage(fjPath).Pkg.Scope().Lookup(n).(*types.Const)
		s := o.Val().ExactString()
		x, _ := strconv.ParseUint(s, 10, 64)
		return x
	}
	f.tObj, f.tArr, f.tRaw, f.tNum = c("TypeObject"), c("TypeArray"), c("typeRawString"), c("TypeNumber")
	g := func(n string) *ssa.Global { return m.prog.ssa.ImportedPackage(fjPath).Var(n) }
	f.gTrue, f.gFalse, f.gNull = g("valueTrue"), g("valueFalse"), g("valueNull")
	m.fj = f
	return f
}

type fjOff struct {
	vSize, vo, va, vs, vt, okvs, kvSize, kk, kv int
	tObj, tArr, tRaw, tNum                      uint64
	gTrue, gFalse, gNull                        *ssa.Global
}

func jsonNatives() {
	const p = "(*" + fjPath + ".Parser)."
	hybrids[p+"Parse"] = func(m *M, fr *frame, a []V) (V, bool) {
		po := a[0].X.(*Obj)
		st := m.parsers[po]
		if st == nil {
			st = &pstate{}
			m.parsers[po] = st
		}
		if st.inPool {
			m.event("parser used after it was handed back")
		}
		if st.cur != nil {
			st.cur.stale = true
		}
		st.cur = &Owner{st: st}
		cells := m.cellsOf(a[1])
		if len(cells) == 1 {
			if at, ok := cells[0].X.(*Atom); ok && at.k == ADoc {
				return tup(m.buildValue(at.node, st.cur), V{}), true
			}
		}
		for _, c := range cells {
			if _, ok := c.X.(*Atom); ok {
				abort("parse of a text with rendered parts")
			}
		}
		return V{}, false
	}
	natives[fjPath+".s2b"] = func(m *M, fr *frame, a []V) V {
		switch s := a[0].X.(type) {
		case nil:
			return V{}
		case *SV:
			return V{X: &Slice{s.o, s.off, s.n, s.n}}
		}
		return m.mkBytes(m.cellsOf(a[0]))
	}
	natives[fjPath+".b2s"] = func(m *M, fr *frame, a []V) V { return m.asStr(a[0]) }
	hybrids[fjPath+".unescapeStringBestEffort"] = func(m *M, fr *frame, a []V) (V, bool) {
		if s, ok := a[0].X.(*SV); ok && (s.o.owner != nil) {
			return a[0], true // contents of a document node are already the denoted text
		}
		return V{}, false
	}
	const ff = fjPath + "/fastfloat."
	num := func(v V) *Num {
		if s, ok := v.X.(*SV); ok && s.n == 1 {
			if at, ok := s.o.cells[s.off].X.(*Atom); ok && at.k == ANum {
				return at.num
			}
		}
		return nil
	}
	lit := func(name string, n *Num, m *M) (V, bool) {
		fn := m.pkgFn(fjPath+"/fastfloat", name)
		return m.runFn(fn, []V{str(n.lit)}, nil, nil), true
	}
	for _, nm := range []string{"ParseInt64", "ParseInt64BestEffort", "ParseUint64", "ParseUint64BestEffort", "Parse", "ParseBestEffort"} {
		nm := nm
		hybrids[ff+nm] = func(m *M, fr *frame, a []V) (V, bool) {
			n := num(a[0])
			if n == nil {
				return V{}, false
			}
			if n.kind == 2 {
				return lit(nm, n, m)
			}
			best := strings.HasSuffix(nm, "BestEffort")
			fail := func() (V, bool) {
				if best {
					return V{}, true
				}
				return tup(V{}, m.newError(str("cannot parse number"))), true
			}
			ok := func(v V) (V, bool) {
				if best {
					return v, true
				}
				return tup(v, V{}), true
			}
			ts := m.ts
			switch {
			case strings.HasPrefix(nm, "ParseInt64"):
				if n.kind == 1 {
					return fail()
				}
				mag := m.term(n.mag, 64)
				if m.branch(m.term(n.neg, 0)) {
					if !m.branch(ts.Bin(OULe, mag, ts.Const(64, 1<<63))) {
						return fail()
					}
					return ok(m.fromTerm(ts.Un(ONeg, 64, mag)))
				}
				if !m.branch(ts.Bin(OULt, mag, ts.Const(64, 1<<63))) {
					return fail()
				}
				return ok(m.fromTerm(mag))
			case strings.HasPrefix(nm, "ParseUint64"):
				if n.kind == 1 || m.branch(m.term(n.neg, 0)) {
					return fail()
				}
				return ok(n.mag)
			}
			if n.kind == 1 {
				return ok(n.f)
			}
			f := ts.Un(OU2F, -64, m.term(n.mag, 64))
			if m.branch(m.term(n.neg, 0)) {
				f = ts.Un(OFNeg, -64, f)
			}
			return ok(m.fromTerm(f))
		}
	}
	const w = "(*github.com/mailru/easyjson/jwriter.Writer)."
	hybrids[w+"String"] = func(m *M, fr *frame, a []V) (V, bool) {
		if _, ok := m.conc(a[1]); ok {
			return V{}, false
		}
		s := m.strOf(m.cellsOf(a[1]))
		m.wAppend(a[0], V{X: &Atom{k: AJStr, s: s}})
		return V{}, true
	}
}

// buildValue makes the fastjson values of a document node inside parser memory.
func (m *M) buildValue(node V, ow *Owner) V {
	f := m.offs()
	no := node.X.(*Obj)
	b := int(node.N)
	nf := m.nodeOffs()
	kind := no.cells[b+nf.k]
	if kind.X != nil {
		abort("symbolic node kind")
	}
	alloc := func(n int) *Obj {
		o := m.newObj(n)
		o.owner = ow
		o.what = "parser memory"
		return o
	}
	mkstr := func(s V) V {
		cells := m.cellsOf(s)
		if len(cells) == 0 {
			return V{}
		}
		o := alloc(len(cells))
		copy(o.cells, cells)
		return V{X: &SV{o, 0, len(cells)}}
	}
	switch kind.N {
	case 0: // null
		return m.get(m.global(f.gNull), 0)
	case 1: // bool
		if m.branch(m.term(no.cells[b+nf.b], 0)) {
			return m.get(m.global(f.gTrue), 0)
		}
		return m.get(m.global(f.gFalse), 0)
	}
	o := alloc(f.vSize)
	switch kind.N {
	case 2: // number
		o.cells[f.vt] = V{N: f.tNum}
		nu := no.cells[b+nf.num]
		so := alloc(1)
		so.cells[0] = V{X: &Atom{k: ANum, num: m.numOf(nu)}}
		o.cells[f.vs] = V{X: &SV{so, 0, 1}}
	case 3: // string
		o.cells[f.vt] = V{N: f.tRaw}
		o.cells[f.vs] = mkstr(no.cells[b+nf.s])
	case 4: // array
		o.cells[f.vt] = V{N: f.tArr}
		es := m.bytesCells(no.cells[b+nf.es])
		ao := alloc(len(es))
		for i, e := range es {
			ao.cells[i] = m.buildValue(e, ow)
		}
		o.cells[f.va] = V{X: &Slice{ao, 0, len(es), len(es)}}
	case 5: // object
		o.cells[f.vt] = V{N: f.tObj}
		es := m.bytesCells(no.cells[b+nf.es])
		ks := m.bytesCells(no.cells[b+nf.ks])
		ko := alloc(len(es) * f.kvSize)
		for i, e := range es {
			ko.cells[i*f.kvSize+f.kk] = mkstr(ks[i])
			ko.cells[i*f.kvSize+f.kv] = m.buildValue(e, ow)
		}
		o.cells[f.vo+f.okvs] = V{X: &Slice{ko, 0, len(es), len(es)}}
	default:
		abort("node kind %d", kind.N)
	}
	return V{X: o}
}

type ndOff struct{ k, b, num, s, ks, es, nkind, nneg, nmag, nf, nlit int }

func (m *M) nodeOffs() *ndOff {
	if m.no == nil {
		p := vhPath
		m.no = &ndOff{
			k: m.fieldOffset(p, "Node", "K"), b: m.fieldOffset(p, "Node", "B"), num: m.fieldOffset(p, "Node", "Num"),
			s: m.fieldOffset(p, "Node", "S"), ks: m.fieldOffset(p, "Node", "Ks"), es: m.fieldOffset(p, "Node", "Es"),
			nkind: m.fieldOffset(p, "Num", "Kind"), nneg: m.fieldOffset(p, "Num", "Neg"), nmag: m.fieldOffset(p, "Num", "Mag"),
			nf: m.fieldOffset(p, "Num", "F"), nlit: m.fieldOffset(p, "Num", "Lit"),
		}
	}
	return m.no
}

func (m *M) numOf(p V) *Num {
	o := p.X.(*Obj)
	b := int(p.N)
	f := m.nodeOffs()
	l, _ := m.conc(o.cells[b+f.nlit])
	return &Num{kind: int(o.cells[b+f.nkind].N), neg: o.cells[b+f.nneg], mag: o.cells[b+f.nmag], f: o.cells[b+f.nf], lit: l}
}

// ---------- harness primitives ----------

const vhPath = "vjcorp/vh"

func vhNatives() {
	p := vhPath + "."
	natives[p+"Nd"] = func(m *M, fr *frame, a []V) V {
		w := int(a[0].N)
		t := m.fresh(w, "")
		return m.fromTerm(m.ts.ZExt(t, 64))
	}
	natives[p+"NdBool"] = func(m *M, fr *frame, a []V) V {
		t := m.fresh(0, "")
		return V{X: t}
	}
	natives[p+"NdF64"] = func(m *M, fr *frame, a []V) V {
		t := m.fresh(64, "")
		return V{X: m.ts.Un(OBits2F, -64, t)}
	}
	natives[p+"NdF32"] = func(m *M, fr *frame, a []V) V {
		t := m.fresh(32, "")
		return V{X: m.ts.Un(OBits2F, -32, t)}
	}
	natives[p+"NdStr"] = func(m *M, fr *frame, a []V) V {
		n := int(a[0].N)
		cells := make([]V, n)
		for i := range cells {
			cells[i] = V{X: m.ts.ZExt(m.fresh(7, ""), 8)}
		}
		return m.strOf(cells)
	}
	natives[p+"Choice"] = func(m *M, fr *frame, a []V) V {
		c := m.choose(int(a[0].N))
		m.nd = append(m.nd, ndRec{val: uint64(c), tag: "choice"})
		return intV(c)
	}
	natives[p+"Assume"] = func(m *M, fr *frame, a []V) V { m.assume(m.term(a[0], 0)); return V{} }
	natives[p+"Check"] = func(m *M, fr *frame, a []V) V {
		m.check(m.term(a[0], 0), m.mustConc(a[1], "property"), m.opaqueText(a[2]))
		return V{}
	}
	natives[p+"MapOrder"] = func(m *M, fr *frame, a []V) V { m.mapMode = int(a[0].N); return V{} }
	natives[p+"Covered"] = func(m *M, fr *frame, a []V) V { m.stats.Covered++; return V{} }
	natives[p+"Doc"] = func(m *M, fr *frame, a []V) V {
		return m.mkBytes([]V{{X: &Atom{k: ADoc, node: a[0]}}})
	}
	natives[p+"TimeText"] = func(m *M, fr *frame, a []V) V { // sec, nsec, layout
		l := m.mustConc(a[2], "layout")
		ext := m.fromTerm(m.ts.Bin(OAdd, m.term(a[0], 64), m.ts.Const(64, uint64(unixToInternal))))
		if ext.X == nil && a[1].X == nil {
			return str(time.Unix(int64(ext.N)-unixToInternal, int64(a[1].N)).UTC().Format(l))
		}
		if txt, ok := constLayout(l); ok {
			return str(txt)
		}
		return m.strOf([]V{{X: &Atom{k: ATime, t: []V{ext, a[1]}, str: l}}})
	}
	natives[p+"MkTime"] = func(m *M, fr *frame, a []V) V {
		ext := m.fromTerm(m.ts.Bin(OAdd, m.term(a[0], 64), m.ts.Const(64, uint64(unixToInternal))))
		return V{X: []V{a[1], ext, {}}}
	}
	natives[p+"TimeOf"] = func(m *M, fr *frame, a []V) V {
		cs := a[0].X.([]V)
		if cs[0].X == nil && cs[0].N>>30 != 0 {
			abort("monotonic time")
		}
		return tup(m.fromTerm(m.ts.Bin(OSub, m.term(cs[1], 64), m.ts.Const(64, uint64(unixToInternal)))), cs[0])
	}
	natives[p+"UUIDText"] = func(m *M, fr *frame, a []V) V {
		cs := m.bytesCells(a[0])
		if !anySym(cs) {
			b := make([]byte, 16)
			for i := range b {
				b[i] = byte(cs[i].N)
			}
			return str(fmt.Sprintf("%x-%x-%x-%x-%x", b[:4], b[4:6], b[6:8], b[8:10], b[10:]))
		}
		return m.strOf([]V{{X: &Atom{k: AUUID, t: append([]V(nil), cs...)}}})
	}
	natives[p+"B64Text"] = func(m *M, fr *frame, a []V) V {
		return m.strOf(m.b64enc(m.bytesCells(a[0]), b64alpha, '='))
	}
	// Peek(b []byte, i int) (kind int): atom kind at i, 0 for a plain byte
	natives[p+"Peek"] = func(m *M, fr *frame, a []V) V {
		s := a[0].X.(*Slice)
		i := int(a[1].N)
		c := s.o.cells[s.off+i]
		if at, ok := c.X.(*Atom); ok {
			return intV(int(at.k))
		}
		return V{}
	}
	natives[p+"PeekInt"] = func(m *M, fr *frame, a []V) V { return m.peek(a).t[0] }
	natives[p+"PeekFloat"] = func(m *M, fr *frame, a []V) V { return m.peek(a).t[0] }
	natives[p+"PeekBits"] = func(m *M, fr *frame, a []V) V { return intV(m.peek(a).c) }
	natives[p+"PeekFmt"] = func(m *M, fr *frame, a []V) V { return str(m.peek(a).str) }
	natives[p+"PeekStr"] = func(m *M, fr *frame, a []V) V { return m.peek(a).s }
	// SameText(a, b string) bool decides equality of texts that may contain rendered values
	natives[p+"SameText"] = func(m *M, fr *frame, a []V) V { return m.fromTerm(m.strEq(a[0], a[1])) }
	natives[p+"HasAtom"] = func(m *M, fr *frame, a []V) V { return boolV(m.hasAtom(a[0])) }
	// Contains(s, sub): sub occurs in s, rendered values standing for themselves
	natives[p+"Contains"] = func(m *M, fr *frame, a []V) V { return m.fromTerm(m.contains(a[0], a[1])) }
	natives[p+"FrameBegin"] = func(m *M, fr *frame, a []V) V {
		m.frameOn = true
		m.frameMark = m.nextID + 1
		m.frameOK = map[*Obj]bool{}
		return V{}
	}
	natives[p+"FrameOwn"] = func(m *M, fr *frame, a []V) V {
		// everything reachable from the argument may be written
		if i, ok := a[0].X.(*Iface); ok {
			m.own(i.v, map[*Obj]bool{})
		}
		return V{}
	}
	natives[p+"FrameEnd"] = func(m *M, fr *frame, a []V) V {
		m.frameOn = false
		return V{}
	}
	natives[p+"Events"] = func(m *M, fr *frame, a []V) V {
		props := m.mustConc(a[0], "property")
		for _, e := range m.events {
			m.check(m.ts.F, props, e)
		}
		m.events = m.events[:0]
		return V{}
	}
	natives[p+"EventsMatching"] = func(m *M, fr *frame, a []V) V {
		props := m.mustConc(a[0], "property")
		sub := m.mustConc(a[1], "pattern")
		for _, e := range m.events {
			if strings.Contains(e, sub) {
				m.check(m.ts.F, props, e)
			}
		}
		return V{}
	}
	natives[p+"Puts"] = func(m *M, fr *frame, a []V) V { return intV(m.puts) }
	// Guard(f) runs f and returns the panic text, if any
	natives[p+"Guard"] = func(m *M, fr *frame, a []V) (r V) {
		depth := m.depth
		defer func() {
			if x := recover(); x != nil {
				g, ok := x.(*goPanic)
				if !ok {
					panic(x)
				}
				m.depth = depth
				r = str("panic: " + m.panicText(g))
			}
		}()
		m.callV(a[0], nil, fr, 0)
		return V{}
	}
	natives[p+"Native"] = func(m *M, fr *frame, a []V) V { return V{} }
	natives[p+"IsConst"] = func(m *M, fr *frame, a []V) V { _, ok := m.conc(a[0]); return boolV(ok) }
	natives[p+"Same"] = func(m *M, fr *frame, a []V) V {
		// Same(p, q any): the two pointers share memory
		return boolV(m.shares(a[0], a[1]))
	}
	natives[p+"Unsupported"] = func(m *M, fr *frame, a []V) V { abort("%s", m.mustConc(a[0], "reason")); return V{} }
	natives[p+"Trace"] = nop
	natives[p+"Finite"] = func(m *M, fr *frame, a []V) V { return m.fromTerm(m.ts.Finite(m.term(a[0], -64))) }
	natives[p+"Finite32"] = func(m *M, fr *frame, a []V) V { return m.fromTerm(m.ts.Finite(m.term(a[0], -32))) }
	natives[p+"Snap"] = func(m *M, fr *frame, a []V) V { return str("") }
}

// shares reports whether some mutable memory is reachable from both values.
func (m *M) shares(a, b V) bool {
	x, y := map[*Obj]bool{}, map[*Obj]bool{}
	m.reach(a, x)
	m.reach(b, y)
	for o := range x {
		if y[o] && !o.global {
			return true
		}
	}
	return false
}

func (m *M) reach(v V, seen map[*Obj]bool) {
	visit := func(o *Obj) {
		if o == nil || seen[o] {
			return
		}
		seen[o] = true
		for _, c := range o.cells {
			m.reach(c, seen)
		}
	}
	switch x := v.X.(type) {
	case *Obj:
		visit(x)
	case *Slice:
		if x.cap > 0 {
			visit(x.o)
		}
	case *Iface:
		m.reach(x.v, seen)
	case []V:
		for _, c := range x {
			m.reach(c, seen)
		}
	case *Map:
		if !seen[x.o] {
			seen[x.o] = true
			for _, e := range x.ents {
				if !e.dead {
					m.reach(e.k, seen)
					m.reach(e.v, seen)
				}
			}
		}
	}
}

func (m *M) own(v V, seen map[*Obj]bool) {
	m.reach(v, seen)
	for o := range seen {
		m.frameOK[o] = true
	}
}

func (m *M) peek(a []V) *Atom {
	s := a[0].X.(*Slice)
	return s.o.cells[s.off+int(a[1].N)].X.(*Atom)
}

func (m *M) opaqueText(v V) string {
	var sb strings.Builder
	for _, c := range m.cellsOf(v) {
		if c.X != nil {
			sb.WriteByte('?')
		} else {
			sb.WriteByte(byte(c.N))
		}
	}
	return sb.String()
}

func (m *M) contains(s, t V) *Term {
	n, k := m.slen(s), m.slen(t)
	r := m.ts.F
	cs, ct := m.cellsOf(s), m.cellsOf(t)
	for i := 0; i+k <= n; i++ {
		e := m.ts.T
		for j := 0; j < k && e != m.ts.F; j++ {
			a, b := cs[i+j], ct[j]
			_, x := a.X.(*Atom)
			_, y := b.X.(*Atom)
			if x != y {
				e = m.ts.F
				break
			}
			if x && y {
				p, q := a.X.(*Atom), b.X.(*Atom)
				if p.k != q.k || p.str != q.str || len(p.t) != len(q.t) {
					e = m.ts.F
					break
				}
			}
			e = m.ts.And(e, m.cellEq(a, b))
		}
		r = m.ts.Or(r, e)
		if r == m.ts.T {
			return r
		}
	}
	return r
}

var _ = utf8.RuneError
