package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// V is a machine value. Numbers and booleans: N when X==nil, else X is *Term.
// string: X nil ("") | string | *SV. pointer/unsafe.Pointer: X nil | *Obj with N = cell offset.
// slice: X nil | *Slice. interface: X nil | *Iface. map: X nil | *Map. func: X nil | *Closure.
// struct/array in a register: X = []V (flattened cells). byte cells may hold *Atom.
type V struct {
	N uint64
	X any
}

type Obj struct {
	cells  []V
	epoch  int
	id     int
	global bool
	owner  *Owner // parser whose scratch this is
	what   string
}

type Owner struct {
	st    *pstate
	stale bool // the parser has parsed another document since
}

type Slice struct {
	o        *Obj
	off      int // cell offset
	len, cap int // elements
}

type SV struct {
	o      *Obj
	off, n int
}

type Iface struct {
	t types.Type
	v V
}

type Closure struct {
	fn   *Fn
	bind []V
}

type MEnt struct {
	k, v V
	dead bool
}
type Map struct {
	ents  []*MEnt
	idx   map[string]int // concrete-key index, valid when symKeys==0
	nsym  int
	live  int
	epoch int
	id    int
	o     *Obj // identity for write logs
	kt    types.Type
}

type AtomKind uint8

const (
	AInt AtomKind = iota + 1 // decimal rendering of t0 as signed 64
	AUint
	AFloat // shortest rendering of t0 (bits in c)
	ANum   // number literal of a document: num
	AJStr  // quoted, escaped JSON text of s
	ATime  // rendering of sec/nsec with layout s
	AUUID  // canonical text of 16 byte terms
	AB64   // one base64 character, t0 six-bit value in a byte
	ADoc   // whole document, node
	AQuote // %q rendering of s
	AOpaque
)

type Atom struct {
	k    AtomKind
	t    []V
	s    V
	str  string
	c    int
	num  *Num
	node V
}

type Num struct {
	kind int // 0 integer literal neg/mag, 1 other literal with value f, 2 fixed literal text
	neg  V
	mag  V
	f    V
	lit  string
}

type goPanic struct {
	val V // interface value
	msg string
	rt  bool
	at  string
}

type pathAbort struct {
	why   string
	quiet bool // infeasible or assumed away
}

func abort(format string, a ...any) { panic(&pathAbort{why: fmt.Sprintf(format, a...)}) }

// ---------- layout ----------

var slotCache sync.Map

func slots(t types.Type) int {
	switch u := t.(type) {
	case *types.Basic, *types.Pointer, *types.Slice, *types.Map, *types.Signature, *types.Interface, *types.Chan:
		return 1
	case *types.Named:
		if n, ok := slotCache.Load(t); ok {
			return n.(int)
		}
		n := slots(u.Underlying())
		slotCache.Store(t, n)
		return n
	case *types.Alias:
		return slots(types.Unalias(t))
	case *types.Struct:
		if n, ok := slotCache.Load(t); ok {
			return n.(int)
		}
		n := 0
		for i := 0; i < u.NumFields(); i++ {
			n += slots(u.Field(i).Type())
		}
		slotCache.Store(t, n)
		return n
	case *types.Array:
		return int(u.Len()) * slots(u.Elem())
	case *types.Tuple:
		return 1
	}
	panic(fmt.Sprintf("slots of %T %v", t, t))
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func fieldOff(st *types.Struct, i int) int {
	n := 0
	for j := 0; j < i; j++ {
		n += slots(st.Field(j).Type())
	}
	return n
}

func zeroV(t types.Type) V {
	if isAgg(t) {
		return V{X: make([]V, slots(t))}
	}
	return V{}
}

// ---------- basic type info ----------

type bk struct {
	w      int // bit width, 0 bool, -32/-64 floats, 1000 string, 2000 other
	signed bool
}

const (
	wString = 1000
	wOther  = 2000
)

func basicOf(t types.Type) bk {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return bk{w: wOther}
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return bk{w: 0}
	case types.Int8:
		return bk{8, true}
	case types.Int16:
		return bk{16, true}
	case types.Int32, types.UntypedRune:
		return bk{32, true}
	case types.Int, types.Int64, types.UntypedInt:
		return bk{64, true}
	case types.Uint8:
		return bk{8, false}
	case types.Uint16:
		return bk{16, false}
	case types.Uint32:
		return bk{32, false}
	case types.Uint, types.Uint64, types.Uintptr:
		return bk{64, false}
	case types.Float32:
		return bk{w: -32}
	case types.Float64, types.UntypedFloat:
		return bk{w: -64}
	case types.String, types.UntypedString:
		return bk{w: wString}
	}
	return bk{w: wOther}
}

// ---------- machine ----------

type M struct {
	ts     *Terms
	sol    *Solver
	prog   *Program
	epoch  int
	nextID int
	gl     map[*ssa.Global]*Obj
	inited map[*ssa.Package]bool
	inInit int
	trail  []func()
	ctrail []cellUndo
	steps  int
	limit  int
	depth  int

	// path state
	decs      []dec
	pos       int
	pc        []*Term
	pcset     map[*Term]bool
	model     map[*Term]uint64
	nd        []ndRec
	hid       []*Term
	nhid      int
	once      map[*Obj]bool
	viols     []*Viol
	seen      map[string]int
	pathViol  bool
	events    []string
	poolsBy   map[ptrKey]*poolSt
	parsers   map[*Obj]*pstate
	puts      int
	fj        *fjOff
	no        *ndOff
	calls     []string
	frameOn   bool
	frameMark int
	frameOK   map[*Obj]bool
	mapOrder  bool
	mapMode   int
	cur       *frame

	stats  Stats
	covFns map[string]bool
	curJob *Job
	tick   int64
}

type poolSt struct {
	items []V
}

type cellUndo struct {
	o *Obj
	i int
	v V
}

type ndRec struct {
	t   *Term
	val uint64
	tag string
}

type Stats struct {
	Paths, Aborted, Infeasible, Checks, Branches, Steps, Unknown, Covered int
	AbortWhy                                                              map[string]int
}

func (m *M) newObj(n int) *Obj {
	m.nextID++
	return &Obj{cells: make([]V, n), epoch: m.epoch, id: m.nextID}
}

func (m *M) set(o *Obj, i int, v V) {
	if i < 0 || i >= len(o.cells) {
		abort("store outside object")
	}
	if o.epoch != m.epoch && m.inInit == 0 {
		m.ctrail = append(m.ctrail, cellUndo{o, i, o.cells[i]})
	}
	if m.frameOn {
		m.frameStore(o)
	}
	if o.owner != nil && o.owner.st.inPool {
		m.event("parser memory written after the parser was handed back")
	}
	o.cells[i] = v
}

func (m *M) get(o *Obj, i int) V {
	if o.owner != nil && o.owner.stale {
		m.event("memory of a reused parser read")
	} else if o.owner != nil && o.owner.st.inPool {
		m.event("parser memory read after the parser was handed back")
	}
	if i < 0 || i >= len(o.cells) {
		abort("load outside object")
	}
	return o.cells[i]
}

func (m *M) frameStore(o *Obj) {
	if o.id < m.frameMark && !m.frameOK[o] {
		w := o.what
		if w == "" {
			w = "an object that existed before the call"
		}
		m.event("write to " + w + " outside the call's own data")
	}
}

func (m *M) event(s string) {
	for _, e := range m.events {
		if e == s {
			return
		}
	}
	m.events = append(m.events, s)
}

func (m *M) undo() {
	for i := len(m.trail) - 1; i >= 0; i-- {
		m.trail[i]()
	}
	m.trail = m.trail[:0]
	for i := len(m.ctrail) - 1; i >= 0; i-- {
		u := m.ctrail[i]
		u.o.cells[u.i] = u.v
	}
	m.ctrail = m.ctrail[:0]
}

// load reads a value of type t at o+off.
func (m *M) load(o *Obj, off int, t types.Type) V {
	if !isAgg(t) {
		v := m.get(o, off)
		if s, ok := v.X.(*Slice); ok {
			if basicOf(t).w == wString { // *(*string)(unsafe.Pointer(&bytes))
				return mkSV(s.o, s.off, s.len)
			}
		}
		if s, ok := v.X.(*SV); ok {
			if _, isS := t.Underlying().(*types.Slice); isS {
				return V{X: &Slice{s.o, s.off, s.n, s.n}}
			}
		}
		return v
	}
	n := slots(t)
	r := make([]V, n)
	if n > 0 {
		m.get(o, off)
		if off+n > len(o.cells) {
			abort("load outside object")
		}
		copy(r, o.cells[off:off+n])
	}
	return V{X: r}
}

func (m *M) store(o *Obj, off int, v V) {
	if cs, ok := v.X.([]V); ok {
		for i, c := range cs {
			m.set(o, off+i, c)
		}
		return
	}
	m.set(o, off, v)
}

// put is store for values whose static aggregate-ness is given.
func mkSV(o *Obj, off, n int) V {
	if n == 0 {
		return V{}
	}
	return V{X: &SV{o, off, n}}
}

// ---------- strings ----------

func (m *M) slen(v V) int {
	switch s := v.X.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SV:
		return s.n
	}
	abort("slen of %T", v.X)
	return 0
}

func (m *M) sat(v V, i int) V {
	switch s := v.X.(type) {
	case string:
		return V{N: uint64(s[i])}
	case *SV:
		return m.get(s.o, s.off+i)
	}
	abort("sat of %T", v.X)
	return V{}
}

// conc returns the concrete text of v if all bytes are concrete.
func (m *M) conc(v V) (string, bool) {
	switch s := v.X.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	case *SV:
		if s.o.owner != nil && (s.o.owner.st.inPool || s.o.owner.stale) {
			m.get(s.o, s.off)
		}
		b := make([]byte, s.n)
		for i := range b {
			c := s.o.cells[s.off+i]
			if c.X != nil {
				return "", false
			}
			b[i] = byte(c.N)
		}
		return string(b), true
	}
	abort("conc of %T", v.X)
	return "", false
}

func (m *M) mustConc(v V, what string) string {
	s, ok := m.conc(v)
	if !ok {
		abort("symbolic string in %s", what)
	}
	return s
}

// cellsOf lists the byte cells of a string.
func (m *M) cellsOf(v V) []V {
	switch s := v.X.(type) {
	case nil:
		return nil
	case string:
		r := make([]V, len(s))
		for i := range r {
			r[i].N = uint64(s[i])
		}
		return r
	case *SV:
		if s.n > 0 {
			m.get(s.o, s.off)
		}
		return s.o.cells[s.off : s.off+s.n]
	}
	abort("cellsOf %T", v.X)
	return nil
}

func (m *M) bytesCells(v V) []V {
	s, ok := v.X.(*Slice)
	if !ok {
		return nil
	}
	if s.len > 0 {
		m.get(s.o, s.off)
	}
	return s.o.cells[s.off : s.off+s.len]
}

// strOf builds an immutable string from cells (copying).
func (m *M) strOf(cells []V) V {
	all := true
	for _, c := range cells {
		if c.X != nil {
			all = false
			break
		}
	}
	if all {
		b := make([]byte, len(cells))
		for i, c := range cells {
			b[i] = byte(c.N)
		}
		if len(b) == 0 {
			return V{}
		}
		return V{X: string(b)}
	}
	o := m.newObj(len(cells))
	copy(o.cells, cells)
	return V{X: &SV{o, 0, len(cells)}}
}

func (m *M) mkBytes(cells []V) V {
	o := m.newObj(len(cells))
	copy(o.cells, cells)
	return V{X: &Slice{o, 0, len(cells), len(cells)}}
}

func str(s string) V {
	if s == "" {
		return V{}
	}
	return V{X: s}
}

func (m *M) term(v V, w int) *Term {
	switch t := v.X.(type) {
	case nil:
		return m.ts.Const(w, v.N)
	case *Term:
		return t
	case *Atom:
		abort("byte-level use of a rendered value (atom %d)", t.k)
	}
	abort("term of %T", v.X)
	return nil
}

func (m *M) fromTerm(t *Term) V {
	if t.isConst() {
		return V{N: t.c}
	}
	return V{X: t}
}

// cellEq compares two byte cells.
func (m *M) cellEq(a, b V) *Term {
	if a.X == nil && b.X == nil {
		return m.ts.Bool(a.N == b.N)
	}
	aa, ok1 := a.X.(*Atom)
	ba, ok2 := b.X.(*Atom)
	if ok1 && ok2 {
		return m.atomEq(aa, ba)
	}
	if ok1 || ok2 {
		at := aa
		o := b
		if ok2 {
			at, o = ba, a
		}
		if at.k == AB64 && o.X == nil {
			k := strings.IndexByte(b64alpha, byte(o.N))
			if k < 0 {
				return m.ts.F
			}
			return m.ts.Eq(m.term(at.t[0], 8), m.ts.Const(8, uint64(k)))
		}
		if o.X == nil {
			// a rendered number, time or quoted text against one concrete character
			switch at.k {
			case AInt, AUint, AFloat, ANum:
				if c := byte(o.N); !(c >= '0' && c <= '9' || c == '-') {
					return m.ts.F
				}
			case AJStr:
				if byte(o.N) != '"' {
					return m.ts.F
				}
			}
		}
		abort("comparison of a rendered value with raw bytes (atom %d)", at.k)
	}
	return m.ts.Eq(m.term(a, 8), m.term(b, 8))
}

func (m *M) atomEq(a, b *Atom) *Term {
	if a == b {
		return m.ts.T
	}
	if a.k != b.k || a.str != b.str || a.c != b.c || len(a.t) != len(b.t) {
		if a.k == b.k && (a.k == AOpaque) {
			return m.ts.F
		}
		abort("comparison of different renderings")
	}
	r := m.ts.T
	w := 64
	switch a.k {
	case AUUID, AB64:
		w = 8
	}
	for i := range a.t {
		r = m.ts.And(r, m.ts.Eq(m.term(a.t[i], w), m.term(b.t[i], w)))
	}
	if a.k == AJStr || a.k == AQuote {
		r = m.ts.And(r, m.strEq(a.s, b.s))
	}
	if a.k == ANum {
		if a.num != b.num {
			abort("comparison of number literals")
		}
	}
	return r
}

func (m *M) strEq(a, b V) *Term {
	x, ok1 := a.X.(string)
	y, ok2 := b.X.(string)
	if ok1 && ok2 {
		return m.ts.Bool(x == y)
	}
	la, lb := m.slen(a), m.slen(b)
	if la != lb {
		// an atom stands for several bytes
		if m.hasAtom(a) || m.hasAtom(b) {
			if r, ok := m.prefixDiffer(a, b); ok {
				return r
			}
			if (la == 0) != (lb == 0) {
				return m.ts.F // every rendering has at least one byte
			}
			abort("comparison of texts with rendered values")
		}
		return m.ts.F
	}
	ca, cb := m.cellsOf(a), m.cellsOf(b)
	// cheap pass: concrete difference
	for i := range ca {
		if ca[i].X == nil && cb[i].X == nil && ca[i].N != cb[i].N {
			if m.hasAtom(a) || m.hasAtom(b) {
				break
			}
			return m.ts.F
		}
	}
	r := m.ts.T
	for i := range ca {
		r = m.ts.And(r, m.cellEq(ca[i], cb[i]))
		if r == m.ts.F {
			return r
		}
	}
	return r
}

// prefixDiffer decides texts that differ concretely before any atom.
func (m *M) prefixDiffer(a, b V) (*Term, bool) {
	ca, cb := m.cellsOf(a), m.cellsOf(b)
	for i := 0; i < len(ca) && i < len(cb); i++ {
		if ca[i].X != nil || cb[i].X != nil {
			return nil, false
		}
		if ca[i].N != cb[i].N {
			return m.ts.F, true
		}
	}
	return nil, false
}

func (m *M) hasAtom(v V) bool {
	s, ok := v.X.(*SV)
	if !ok {
		return false
	}
	for i := 0; i < s.n; i++ {
		if _, ok := s.o.cells[s.off+i].X.(*Atom); ok {
			return true
		}
	}
	return false
}

// ---------- equality ----------

func (m *M) eq(a, b V, t types.Type) *Term {
	ts := m.ts
	switch u := t.Underlying().(type) {
	case *types.Basic:
		k := basicOf(t)
		switch {
		case k.w == wString:
			return m.strEq(a, b)
		case k.w == wOther: // unsafe.Pointer, untyped nil
			return ts.Bool(a.X == b.X && a.N == b.N)
		case k.w < 0:
			if a.X == nil && b.X == nil {
				return ts.Bool(toF(k.w, a.N) == toF(k.w, b.N))
			}
			return ts.Bin(OFEq, m.term(a, k.w), m.term(b, k.w))
		case k.w == 8:
			return m.cellEq(a, b)
		default:
			if a.X == nil && b.X == nil {
				return ts.Bool(a.N == b.N)
			}
			return ts.Eq(m.term(a, k.w), m.term(b, k.w))
		}
	case *types.Pointer, *types.Chan:
		return ts.Bool(a.X == b.X && (a.X == nil || a.N == b.N))
	case *types.Map:
		return ts.Bool(a.X == b.X)
	case *types.Slice, *types.Signature:
		return ts.Bool((a.X == nil) && (b.X == nil))
	case *types.Interface:
		x, _ := a.X.(*Iface)
		y, _ := b.X.(*Iface)
		if x == nil || y == nil {
			return ts.Bool(x == nil && y == nil)
		}
		if !types.Identical(x.t, y.t) {
			return ts.F
		}
		return m.eq(x.v, y.v, x.t)
	case *types.Struct:
		ca, cb := a.X.([]V), b.X.([]V)
		r := ts.T
		off := 0
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			n := slots(ft)
			if u.Field(i).Name() != "_" {
				r = ts.And(r, m.eq(sub(ca, off, n, ft), sub(cb, off, n, ft), ft))
			}
			off += n
		}
		return r
	case *types.Array:
		ca, cb := a.X.([]V), b.X.([]V)
		n := slots(u.Elem())
		r := ts.T
		for i := 0; i < int(u.Len()); i++ {
			r = ts.And(r, m.eq(sub(ca, i*n, n, u.Elem()), sub(cb, i*n, n, u.Elem()), u.Elem()))
		}
		return r
	}
	abort("eq on %v", t)
	return nil
}

func sub(cs []V, off, n int, t types.Type) V {
	if isAgg(t) {
		r := make([]V, n)
		copy(r, cs[off:off+n])
		return V{X: r}
	}
	return cs[off]
}

// ---------- maps ----------

func (m *M) newMap(kt types.Type) *Map {
	m.nextID++
	return &Map{idx: map[string]int{}, epoch: m.epoch, id: m.nextID, kt: kt, o: &Obj{id: m.nextID, epoch: m.epoch}}
}

// ckey is a canonical text for concrete keys.
func (m *M) ckey(k V, t types.Type) (string, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if basicOf(t).w == wString {
			s, ok := m.conc(k)
			return "s" + s, ok
		}
		if k.X != nil {
			if o, ok := k.X.(*Obj); ok {
				return fmt.Sprintf("p%d.%d", o.id, k.N), true
			}
			return "", false
		}
		return fmt.Sprintf("n%d", k.N), true
	case *types.Pointer:
		if k.X == nil {
			return "nil", true
		}
		return fmt.Sprintf("p%d.%d", k.X.(*Obj).id, k.N), true
	case *types.Interface:
		if k.X == nil {
			return "nil", true
		}
		i := k.X.(*Iface)
		s, ok := m.ckey(i.v, i.t)
		return fmt.Sprintf("i%s|%s", i.t.String(), s), ok
	case *types.Struct:
		cs := k.X.([]V)
		off := 0
		var sb strings.Builder
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			n := slots(ft)
			s, ok := m.ckey(sub(cs, off, n, ft), ft)
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%d:%s;", len(s), s)
			off += n
		}
		return sb.String(), true
	case *types.Array:
		cs := k.X.([]V)
		n := slots(u.Elem())
		var sb strings.Builder
		for i := 0; i < int(u.Len()); i++ {
			s, ok := m.ckey(sub(cs, i*n, n, u.Elem()), u.Elem())
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%d:%s;", len(s), s)
		}
		return sb.String(), true
	}
	return "", false
}

func (m *M) mapFind(mp *Map, k V) *MEnt {
	if mp == nil {
		return nil
	}
	ck, ok := m.ckey(k, mp.kt)
	if ok && mp.nsym == 0 {
		if i, ok := mp.idx[ck]; ok {
			return mp.ents[i]
		}
		return nil
	}
	for _, e := range mp.ents {
		if e.dead {
			continue
		}
		if m.branch(m.eq(e.k, k, mp.kt)) {
			return e
		}
	}
	return nil
}

func (m *M) mapTouch(mp *Map) {
	if m.frameOn && mp.id < m.frameMark && !m.frameOK[mp.o] {
		m.event("write to a map outside the call's own data")
	}
	if mp.epoch != m.epoch && m.inInit == 0 {
		// snapshot
		ents := make([]*MEnt, len(mp.ents))
		for i, e := range mp.ents {
			c := *e
			ents[i] = &c
		}
		idx := make(map[string]int, len(mp.idx))
		for k, v := range mp.idx {
			idx[k] = v
		}
		nsym, live, old := mp.nsym, mp.live, mp.epoch
		m.trail = append(m.trail, func() { mp.ents, mp.idx, mp.nsym, mp.live, mp.epoch = ents, idx, nsym, live, old })
		mp.epoch = m.epoch
	}
}

func (m *M) mapSet(mp *Map, k, v V) {
	m.mapTouch(mp)
	if e := m.mapFind(mp, k); e != nil {
		e.v = v
		return
	}
	ck, ok := m.ckey(k, mp.kt)
	mp.ents = append(mp.ents, &MEnt{k: k, v: v})
	mp.live++
	if ok {
		mp.idx[ck] = len(mp.ents) - 1
	} else {
		mp.nsym++
	}
}

func (m *M) mapDel(mp *Map, k V) {
	if mp == nil {
		return
	}
	m.mapTouch(mp)
	e := m.mapFind(mp, k)
	if e == nil {
		return
	}
	e.dead = true
	mp.live--
	if ck, ok := m.ckey(e.k, mp.kt); ok {
		delete(mp.idx, ck)
	} else {
		mp.nsym--
	}
}

func (m *M) f64(v V) (float64, bool) { return math.Float64frombits(v.N), v.X == nil }

const b64alpha = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
