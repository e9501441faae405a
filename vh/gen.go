package vh

import "time"

// Opt steers which documents and values a harness ranges over.
type Opt struct {
	Wrong   bool // members of another JSON kind
	Null    bool
	Dup     bool
	Unknown bool
	Absent  bool
	Lits    bool // non-integer literals and out-of-range numbers
	Range   bool // integers of any size (otherwise only those that fit)
	BadText bool // texts that are not of the expected form
	Lens    int  // longest collection
	Str     int  // longest symbolic string
	SymKeys bool
	Others  bool // the other members vary too
	Plain   bool // concrete keys and strings where a path is built from them
	Few     bool // one offending value per kind is enough
	Subset  bool // every combination of empty and non-empty members
	Focus   int  // member (plus one) that ranges over everything, 0 for any
	Depth   int
	Long    int // length of one longer collection or text, 0 for none
}

// more is the number of further choices for something long.
func (o *Opt) more() int {
	if o.Long > 0 {
		return 1
	}
	return 0
}

func longText(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + i%26)
	}
	return string(b)
}

func longKey(i int) string { return string([]byte{'k', byte('a' + i/10), byte('0' + i%10)}) }

// ---------- documents ----------

func Str(s string) *Node    { return &Node{K: NStr, S: s} }
func Null() *Node           { return &Node{K: NNull} }
func IntLit(u uint64) *Node { return &Node{K: NNum, Num: &Num{Mag: u}} }

// GenDoc is a document for type d.
func GenDoc(d *D, o *Opt) *Node { return genNode(d, o, true) }

func anyInt() *Num {
	n := &Num{Neg: NdBool(), Mag: Nd(64)}
	Assume(!n.Neg || n.Mag != 0)
	return n
}

func fits(n *Num, d *D) bool {
	if d.K == KUint {
		if n.Neg {
			return false
		}
		return d.W == 64 || n.Mag < 1<<uint(d.W)
	}
	lim := uint64(1) << uint(d.W-1)
	if n.Neg {
		return n.Mag <= lim
	}
	return n.Mag < lim
}

func finite(f float64) bool { return Finite(f) }

var badLits = []string{"1.5", "1.0", "2e0", "100000000000000000000", "-9223372036854775809", "1e400"}

func genNum(d *D, o *Opt) *Node {
	k := 0
	if o.Lits {
		k = Choice(2 + len(badLits))
	} else if d.K == KF32 || d.K == KF64 {
		k = Choice(2)
	}
	isF := d.K == KF32 || d.K == KF64
	switch k {
	case 0:
		n := anyInt()
		if !o.Range && !isF {
			Assume(fits(n, d))
		}
		return &Node{K: NNum, Num: n}
	case 1:
		f := NdF64()
		Assume(finite(f))
		if !o.Range && d.K == KF32 {
			Assume(f <= 0x1.fffffep127 && f >= -0x1.fffffep127)
		} else if d.K == KF32 {
			// between the largest float32 and 2^128 both outcomes are fine
			Assume(!(f > 0x1.fffffep127 && f < 0x1p128) && !(f < -0x1.fffffep127 && f > -0x1p128))
		}
		return &Node{K: NNum, Num: &Num{Kind: 1, F: f}}
	}
	return &Node{K: NNum, Num: &Num{Kind: 2, Lit: badLits[k-2]}}
}

// anyText is a short arbitrary string or one long one outside ASCII.
func anyText(o *Opt) string {
	if o.Plain {
		return "txt"
	}
	n := Choice(o.Str + 2 + o.more())
	if n == o.Str+2 {
		return longText(o.Long*8) + NdStr(1)
	}
	if n == o.Str+1 {
		return "\u00e9\"\\\u6f22/<&>\u2028\U0001F600"
	}
	return NdStr(n)
}

func shortText(o *Opt) string {
	q := *o
	q.Long = 0
	return anyText(&q)
}

func genTime(d *D, o *Opt) *Node {
	layout := d.Layout
	if layout == "" {
		layout = DefaultLayouts[Choice(len(DefaultLayouts))]
	}
	if o.BadText {
		switch Choice(3) {
		case 1:
			return textNode(anyText(o))
		case 2:
			layout = foreign(d)
		}
	}
	sec, ns := anyInstant(layout)
	return timeNode(sec, ns, layout)
}

func timeNode(sec int64, ns uint64, layout string) *Node {
	return &Node{K: NStr, S: TimeText(sec, ns, layout), Ann: &Ann{Form: 3, Sec: sec, Ns: ns, Layout: layout}}
}

// anyInstant is an instant that the layout can express.
func anyInstant(layout string) (int64, uint64) {
	gran, frac := granularity(layout)
	var ns uint64
	if frac {
		ns = Nd(30)
		Assume(ns < 1000000000)
	}
	u := Nd(38)
	var sec int64
	switch gran {
	case 86400:
		Assume(u < 90000)
		sec = int64(u)*86400 - 10957*86400
	case 60:
		Assume(u < 120000000)
		sec = int64(u)*60 - 946684800
	default:
		Assume(u < 8000000000)
		sec = int64(u) - 946684800
	}
	if shortYear(layout) {
		Assume(sec >= 0 && sec < 3124224000) // 1970 to 2068
	}
	return sec, ns
}

// shortYear: the layout writes two digits of the year.
func shortYear(layout string) bool {
	if layout == "" {
		return false
	}
	t, err := time.Parse(layout, TimeText(-631152000, 0, layout))
	if err != nil {
		return false
	}
	s, _ := TimeOf(t)
	return s != -631152000
}

var layoutCache = map[string]int{}

// granularity of a layout: 86400 days, 60 minutes, 1 seconds; frac whether nanoseconds are written.
func granularity(layout string) (int, bool) {
	if layout == "" {
		return 1, true
	}
	ok := func(sec int64, ns uint64) bool {
		t, err := time.Parse(layout, TimeText(sec, ns, layout))
		if err != nil {
			return false
		}
		s, n := TimeOf(t)
		return s == sec && n == ns
	}
	const day = int64(12345) * 86400
	switch {
	case ok(day+12345, 123456789):
		return 1, true
	case ok(day+12345, 0):
		return 1, false
	case ok(day+12360, 0):
		return 60, false
	}
	return 86400, false
}

// foreign is a layout none of whose texts the declared ones can read.
func foreign(d *D) string {
	for _, l := range []string{"Jan _2 2006 at 15h04m05", "2006|01|02", "15:04:05 02-Jan-06"} {
		txt := TimeText(1234567890, 0, l)
		bad := true
		ls := DefaultLayouts
		if d.Layout != "" {
			ls = []string{d.Layout}
		}
		for _, x := range ls {
			if _, err := time.Parse(x, txt); err == nil {
				bad = false
			}
		}
		if bad {
			return l
		}
	}
	return "15h04"
}

func bytesOf(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(Nd(8))
	}
	return b
}

func b64Node(n int) *Node {
	b := bytesOf(n)
	return &Node{K: NStr, S: B64Text(b), Ann: &Ann{Form: 1, Raw: string(b)}}
}

func textNode(s string) *Node { return &Node{K: NStr, S: s} }

var badB64 = []string{"ab=c", "a-_b", "YQ=", "YQ", "====", "YWJj YWJj", "YWJj="}
var badUUID = []string{"6ba7b810-9dad-11d1-80b4-00c04fd430c", "6ba7b810-9dad-11d1-80b4-00c04fd430c8a", "6ba7b810_9dad_11d1_80b4_00c04fd430c8", "zba7b810-9dad-11d1-80b4-00c04fd430c8", "6ba7b8109dad-11d1-80b4-00c04fd430c8-"}

// wrong is a node of a JSON kind other than want (null excluded).
func wrong(want int, few bool) *Node {
	k := Choice(5)
	switch k {
	case 0:
		if want == NBool {
			return IntLit(Nd(1))
		}
		return &Node{K: NBool, B: NdBool()}
	case 1:
		if want == NNum {
			return Str("12")
		}
		return &Node{K: NNum, Num: anyInt()}
	case 2:
		if want == NStr {
			return &Node{K: NNum, Num: &Num{Kind: 2, Lit: "1.5"}}
		}
		if few {
			return Str("1")
		}
		switch Choice(4) {
		case 0:
			return Str("")
		case 1:
			return Str("1")
		case 2:
			return Str("true")
		}
		return Str(NdStr(2))
	case 3:
		if want == NArr {
			return Str("[]")
		}
		if !few && Choice(2) == 0 {
			return &Node{K: NArr}
		}
		return &Node{K: NArr, Es: []*Node{IntLit(1)}}
	}
	if want == NObj {
		return Str("{}")
	}
	if !few && Choice(2) == 0 {
		return &Node{K: NObj}
	}
	return &Node{K: NObj, Ks: []string{"a"}, Es: []*Node{IntLit(1)}}
}

func wantKind(d *D) int {
	switch d.K {
	case KInt, KUint, KF32, KF64:
		return NNum
	case KBool:
		return NBool
	case KStr, KBytes, KByteArr, KTime, KUUID:
		return NStr
	case KSlice, KArr:
		return NArr
	case KPtr:
		return wantKind(d.E)
	}
	return NObj
}

func genNode(d *D, o *Opt, top bool) *Node {
	alts := 1
	w, nl := -1, -1
	if o.Wrong {
		w = alts
		alts++
	}
	if o.Null {
		nl = alts
		alts++
	}
	if alts > 1 {
		switch c := Choice(alts); {
		case c == w:
			return wrong(wantKind(d), o.Few)
		case c == nl:
			return Null()
		}
	}
	return genRight(d, o, top)
}

func genRight(d *D, o *Opt, top bool) *Node {
	switch d.K {
	case KInt, KUint, KF32, KF64:
		return genNum(d, o)
	case KBool:
		return &Node{K: NBool, B: NdBool()}
	case KStr:
		return textNode(anyText(o))
	case KBytes:
		if o.BadText {
			n := len(badB64)
			if o.Few {
				n = 1
			}
			k := Choice(2 + n)
			if k == 1 {
				return textNode(shortText(o))
			}
			if k > 1 {
				return &Node{K: NStr, S: badB64[k-2], Ann: &Ann{Form: 4}}
			}
		}
		n := Choice(o.Lens + 3 + o.more())
		if n == o.Lens+3 {
			b := append([]byte(longText(o.Long*8)), byte(Nd(8)))
			return &Node{K: NStr, S: B64Text(b), Ann: &Ann{Form: 1, Raw: string(b)}}
		}
		return b64Node(n)
	case KByteArr:
		if o.BadText {
			n := len(badB64)
			if o.Few {
				n = 1
			}
			k := Choice(2 + n)
			if k == 1 {
				return textNode(shortText(o))
			}
			if k > 1 {
				return &Node{K: NStr, S: badB64[k-2], Ann: &Ann{Form: 4}}
			}
			return b64Node(Choice(d.N + 3))
		}
		return b64Node(d.N)
	case KTime:
		return genTime(d, o)
	case KUUID:
		if o.BadText {
			n := len(badUUID)
			if o.Few {
				n = 1
			}
			k := Choice(3 + n)
			if k == 1 {
				return textNode(anyText(o))
			}
			if k == 2 {
				return &Node{K: NStr, S: B64Text(bytesOf(3)), Ann: &Ann{Form: 4}}
			}
			if k > 2 {
				return &Node{K: NStr, S: badUUID[k-3], Ann: &Ann{Form: 4}}
			}
		}
		b := bytesOf(16)
		return &Node{K: NStr, S: UUIDText(b), Ann: &Ann{Form: 2, Raw: string(b)}}
	case KPtr:
		if d.E.Rec && o.Depth > 2 {
			return Null()
		}
		return genRight(d.E, o, false)
	case KSlice:
		if d.E.Rec && o.Depth > 2 {
			return genList(d.E, 0, o)
		}
		n := Choice(o.Lens + 1 + o.more())
		if n == o.Lens+1 {
			n = o.Long
		}
		return genList(d.E, n, o)
	case KArr:
		n := d.N
		if o.BadText && !(d.E.K == KArr) {
			n = Choice(d.N + 2)
		}
		return genList(d.E, n, o)
	case KMap:
		n := 0
		if !d.E.Rec || o.Depth < 3 {
			n = Choice(o.Lens + 1 + o.more())
		}
		if n == o.Lens+1 {
			r := genList(d.E, o.Long, o)
			r.K = NObj
			for i := 0; i < o.Long; i++ {
				r.Ks = append(r.Ks, longKey(i))
			}
			return r
		}
		r := genList(d.E, n, o)
		r.K = NObj
		for i := 0; i < n; i++ {
			r.Ks = append(r.Ks, genKey(r.Ks, i, o))
		}
		return r
	}
	return genObj(d, o, top)
}

func genKey(prev []string, i int, o *Opt) string {
	if o.SymKeys && i == 0 {
		switch Choice(3) {
		case 1:
			return ""
		case 2:
			return NdStr(1)
		}
	}
	if o.SymKeys && i == 1 {
		if Choice(2) == 1 {
			k := NdStr(1)
			Assume(!SameText(k, prev[0]))
			return k
		}
	}
	k := []string{"ka", "kb", "kc", "kd"}[i]
	return k
}

// genList: one element ranges over everything, the others are simple.
func genList(e *D, n int, o *Opt) *Node {
	r := &Node{K: NArr}
	focus := 0
	if o.Long > 0 && n == o.Long {
		focus = n - 1
	} else if n > 1 {
		focus = Choice(n)
	}
	for i := 0; i < n; i++ {
		if i == focus {
			r.Es = append(r.Es, genNode(e, inner(o), false))
		} else {
			r.Es = append(r.Es, Simple(e, i))
		}
	}
	return r
}

// inner narrows the options one level down.
func inner(o *Opt) *Opt {
	q := *o
	q.Depth++
	q.Focus, q.Subset, q.Long = 0, false, 0
	if q.Lens > 2 {
		q.Lens = 2
	}
	if q.Str > 1 {
		q.Str = 1
	}
	if q.Depth > 1 {
		q.Lens = 1
	}
	if q.Depth > 2 {
		q.Wrong, q.Null, q.BadText, q.Lits = false, false, false, false
	}
	return &q
}

// Simple is one ordinary document of the type; i tells siblings apart.
func Simple(d *D, i int) *Node {
	switch d.K {
	case KInt, KUint:
		return IntLit(uint64(11 + i))
	case KF32, KF64:
		return &Node{K: NNum, Num: &Num{Kind: 2, Lit: []string{"0.5", "1.5", "2.5", "3.5"}[i%4]}}
	case KBool:
		return &Node{K: NBool, B: i%2 == 0}
	case KStr:
		return Str([]string{"x", "yy", "zzz", "w"}[i%4])
	case KBytes:
		b := []byte{1, 2, byte(i)}
		return &Node{K: NStr, S: B64Text(b), Ann: &Ann{Form: 1, Raw: string(b)}}
	case KByteArr:
		b := make([]byte, d.N)
		for j := range b {
			b[j] = byte(7 + i + j)
		}
		return &Node{K: NStr, S: B64Text(b), Ann: &Ann{Form: 1, Raw: string(b)}}
	case KTime:
		l := d.Layout
		if l == "" {
			l = DefaultLayouts[1]
		}
		sec := int64(1600000000/86400+i) * 86400
		return timeNode(sec, 0, l)
	case KUUID:
		b := make([]byte, 16)
		for j := range b {
			b[j] = byte(17*j + i)
		}
		return &Node{K: NStr, S: UUIDText(b), Ann: &Ann{Form: 2, Raw: string(b)}}
	case KPtr:
		if d.E.Rec {
			return Null()
		}
		return Simple(d.E, i)
	case KSlice:
		if rec(d.E) {
			return &Node{K: NArr}
		}
		return &Node{K: NArr, Es: []*Node{Simple(d.E, i)}}
	case KArr:
		r := &Node{K: NArr}
		for j := 0; j < d.N; j++ {
			r.Es = append(r.Es, Simple(d.E, i+j))
		}
		return r
	case KMap:
		if rec(d.E) {
			return &Node{K: NObj}
		}
		return &Node{K: NObj, Ks: []string{"k"}, Es: []*Node{Simple(d.E, i)}}
	}
	r := &Node{K: NObj}
	for j, f := range Flat(d) {
		if f.F.Skip {
			continue
		}
		r.Ks = append(r.Ks, f.F.Name)
		r.Es = append(r.Es, Simple(f.F.D, i+j))
	}
	return r
}

func rec(d *D) bool { return d.Rec || d.K == KPtr && d.E.Rec }

// genObj: one member ranges over everything, the others are simple or absent.
func genObj(d *D, o *Opt, top bool) *Node {
	r := &Node{K: NObj}
	var ms []*Mem
	for _, f := range Flat(d) {
		if !f.F.Skip {
			ms = append(ms, f)
		}
	}
	q := o
	if !top {
		q = inner(o)
	}
	if len(ms) == 0 {
		if o.Unknown {
			unknown(d, ms, r, q, Choice(1+unkKinds*2))
		}
		return r
	}
	focus := o.Focus - 1
	if focus < 0 || focus >= len(ms) {
		focus = Choice(len(ms))
	}
	// what else the object has: nothing, a repeated member, or an undeclared one
	dup, unk := 0, 0
	nd, nu := 0, 0
	if o.Dup {
		nd = 6
	}
	if o.Unknown {
		nu = unkKinds * 2
	}
	if nd+nu > 0 {
		if c := Choice(1 + nd + nu); c > nd {
			unk = c - nd
		} else {
			dup = c
		}
	}
	others := 1
	if o.Others {
		others = Choice(2)
	}
	var fn *Node
	drop := false
	if o.Absent && dup == 0 {
		drop = Choice(2) == 1
	}
	if !drop {
		if dup > 0 || unk > 0 {
			fn = Simple(ms[focus].F.D, 2)
		} else {
			fn = genNode(ms[focus].F.D, q, false)
		}
	}
	for i, f := range ms {
		if i == focus {
			if fn != nil {
				r.Ks = append(r.Ks, f.F.Name)
				r.Es = append(r.Es, fn)
			}
			continue
		}
		if others == 1 || f.F.Req && !o.Absent {
			r.Ks = append(r.Ks, f.F.Name)
			r.Es = append(r.Es, Simple(f.F.D, i))
		}
	}
	if dup > 0 {
		var v *Node
		switch (dup - 1) / 2 {
		case 0:
			v = Simple(ms[focus].F.D, 3)
		case 1:
			v = Null()
		case 2:
			v = fn
		}
		place(r, ms[focus].F.Name, v, dup%2 == 0)
	}
	unknown(d, ms, r, q, unk)
	return r
}

// place puts a member at the end or at the beginning.
func place(r *Node, k string, v *Node, first bool) {
	if first {
		r.Ks = append([]string{k}, r.Ks...)
		r.Es = append([]*Node{v}, r.Es...)
		return
	}
	r.Ks = append(r.Ks, k)
	r.Es = append(r.Es, v)
}

const unkKinds = 8

// unknown adds a member that is not declared; c chooses its name, value and place.
func unknown(d *D, ms []*Mem, r *Node, o *Opt, c int) {
	if c == 0 {
		return
	}
	c--
	first := c%2 == 1
	c /= 2
	k := "zz"
	var v *Node
	switch c % 4 {
	case 0:
		v = IntLit(1)
	case 1:
		v = Null()
	case 2:
		v = &Node{K: NObj, Ks: []string{"a"}, Es: []*Node{Str("b")}}
	case 3:
		v = &Node{K: NArr, Es: []*Node{Null(), Str("b")}}
	}
	switch c {
	case 4:
		k = ""
	case 5:
		if o.SymKeys {
			n := 1
			if len(ms) > 0 {
				n = len(ms[0].F.Name)
			}
			k = NdStr(n)
			for _, f := range ms {
				Assume(!SameText(k, f.F.Name))
			}
		}
	case 6:
		// a declared name with another letter case, or the Go name
		if len(ms) > 0 {
			k = ms[0].F.Go
		}
	case 7:
		if len(ms) > 0 {
			k = ms[len(ms)-1].F.Name + "x"
		}
	}
	for _, f := range ms {
		if !HasAtom(k) && f.F.Name == k {
			return
		}
	}
	place(r, k, v, first)
}

// ---------- values ----------

func utf8Text(o *Opt) string { return anyText(o) }

// GenVal is a content for a value of type d.
func GenVal(d *D, o *Opt) *M {
	m := &M{}
	switch d.K {
	case KInt:
		u := Nd(d.W)
		switch d.W {
		case 8:
			u = uint64(int64(int8(u)))
		case 16:
			u = uint64(int64(int16(u)))
		case 32:
			u = uint64(int64(int32(u)))
		}
		m.U = u
	case KUint:
		m.U = Nd(d.W)
	case KF32:
		f := NdF32()
		Assume(Finite32(f))
		m.F = float64(f)
	case KF64:
		m.F = NdF64()
		Assume(finite(m.F))
	case KBool:
		if NdBool() {
			m.U = 1
		}
	case KStr:
		m.S = utf8Text(o)
	case KBytes:
		c := Choice(o.Lens + 4 + o.more())
		if c == 0 {
			m.Nil = true
		} else if c == o.Lens+4 {
			m.S = longText(o.Long*8) + string(bytesOf(1))
		} else {
			m.S = string(bytesOf(c - 1))
		}
	case KByteArr:
		m.S = string(bytesOf(d.N))
	case KUUID:
		m.S = string(bytesOf(16))
	case KTime:
		if Choice(2) == 1 {
			return Zero(d)
		}
		m.Sec, m.Ns = anyInstant(d.Layout)
	case KPtr:
		if d.E.Rec && o.Depth > 2 || Choice(2) == 0 {
			m.Nil = true
		} else {
			m.Es = []*M{GenVal(d.E, innerV(o))}
		}
	case KSlice:
		if rec(d.E) && o.Depth > 2 {
			m.Nil = true
			return m
		}
		c := Choice(o.Lens + 2 + o.more())
		if c == 0 {
			m.Nil = true
			return m
		}
		if c == o.Lens+2 {
			longElems(d.E, m, o)
			return m
		}
		genElems(d.E, m, c-1, o)
		m.Cap = true
	case KArr:
		genElems(d.E, m, d.N, o)
	case KMap:
		if rec(d.E) && o.Depth > 2 {
			m.Nil = true
			return m
		}
		c := Choice(o.Lens + 2 + o.more())
		if c == 0 {
			m.Nil = true
			return m
		}
		if c == o.Lens+2 {
			longElems(d.E, m, o)
			for i := range m.Es {
				m.Ks = append(m.Ks, longKey(i))
			}
			return m
		}
		genElems(d.E, m, c-1, o)
		for i := 0; i < c-1; i++ {
			m.Ks = append(m.Ks, genKey(m.Ks, i, o))
		}
	case KStruct:
		if len(d.Fs) == 0 {
			return m
		}
		if o.Subset && len(d.Fs) <= 6 {
			for i, f := range d.Fs {
				if Choice(2) == 1 {
					m.Es = append(m.Es, SimpleVal(f.D, i))
				} else {
					m.Es = append(m.Es, Zero(f.D))
				}
			}
			return m
		}
		focus := o.Focus - 1
		if focus < 0 || focus >= len(d.Fs) {
			focus = Choice(len(d.Fs))
		}
		others := Choice(2)
		for i, f := range d.Fs {
			switch {
			case i == focus:
				m.Es = append(m.Es, GenVal(f.D, innerV(o)))
			case others == 1:
				m.Es = append(m.Es, SimpleVal(f.D, i))
			default:
				m.Es = append(m.Es, Zero(f.D))
			}
		}
	}
	return m
}

// longElems: many simple elements and an arbitrary one.
func longElems(e *D, m *M, o *Opt) {
	q := innerV(o)
	q.Long = 0
	for i := 0; i < o.Long-1; i++ {
		m.Es = append(m.Es, SimpleVal(e, i))
	}
	m.Es = append(m.Es, GenVal(e, q))
}

// genElems: scalar elements are all arbitrary; of others one is, the rest being simple or zero.
func genElems(e *D, m *M, n int, o *Opt) {
	focus, others := 0, 1
	scalar := e.K == KInt || e.K == KUint || e.K == KF32 || e.K == KF64 || e.K == KBool
	if n > 1 && !scalar {
		focus = Choice(n)
		others = Choice(2)
	}
	for i := 0; i < n; i++ {
		switch {
		case i == focus || scalar:
			m.Es = append(m.Es, GenVal(e, innerV(o)))
		case others == 1:
			m.Es = append(m.Es, SimpleVal(e, i))
		default:
			m.Es = append(m.Es, Zero(e))
		}
	}
}

func innerV(o *Opt) *Opt {
	q := *o
	q.Depth++
	q.Focus, q.Subset = 0, false
	if q.Depth > 1 {
		q.Lens = 2
		q.Str = 1
		q.Long = 0
	}
	if q.Depth > 2 {
		q.Lens = 1
		q.SymKeys = false
	}
	return &q
}

// SimpleVal is one ordinary non-empty content.
func SimpleVal(d *D, i int) *M {
	m := &M{}
	switch d.K {
	case KInt, KUint:
		m.U = uint64(11 + i)
	case KF32, KF64:
		m.F = 0.5 + float64(i)
	case KBool:
		m.U = 1
	case KStr:
		m.S = []string{"x", "yy", "zzz", "w"}[i%4]
	case KBytes:
		m.S = "\x01\x02"
	case KByteArr:
		b := make([]byte, d.N)
		for j := range b {
			b[j] = byte(7 + i + j)
		}
		m.S = string(b)
	case KUUID:
		b := make([]byte, 16)
		for j := range b {
			b[j] = byte(17*j + i + 1)
		}
		m.S = string(b)
	case KTime:
		m.Sec = int64(1600000000/86400+i) * 86400
	case KPtr:
		if d.E.Rec {
			m.Nil = true
			return m
		}
		m.Es = []*M{SimpleVal(d.E, i)}
	case KSlice:
		if rec(d.E) {
			m.Nil = true
			return m
		}
		m.Es = []*M{SimpleVal(d.E, i), SimpleVal(d.E, i+1)}
	case KArr:
		for j := 0; j < d.N; j++ {
			m.Es = append(m.Es, SimpleVal(d.E, i+j))
		}
	case KMap:
		if rec(d.E) {
			m.Nil = true
			return m
		}
		m.Ks = []string{"k"}
		m.Es = []*M{SimpleVal(d.E, i)}
	case KStruct:
		for j, f := range d.Fs {
			m.Es = append(m.Es, SimpleVal(f.D, i+j))
		}
	}
	return m
}
