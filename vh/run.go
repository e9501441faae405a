package vh

import (
	"strings"

	"github.com/mailru/easyjson/jwriter"
)

func has(list, p string) bool {
	for len(list) > 0 {
		i := strings.IndexByte(list, ',')
		if i < 0 {
			return list == p
		}
		if list[:i] == p {
			return true
		}
		list = list[i+1:]
	}
	return false
}

// Run checks one property on one type. deep widens the bounds.
func Run(h *H, prop string, deep bool) {
	lens, strn := 2, 2
	if deep {
		lens, strn = 3, 3
	}
	long := 9
	if deep {
		long = 33
	}
	switch prop {
	case "C01":
		Decode(h, &Opt{Lens: lens, Long: long, Str: strn, SymKeys: true, Others: true, Absent: true})
	case "C02":
		Decode(h, &Opt{Lens: lens, Long: long, Range: true, Lits: true, Plain: true})
	case "C03":
		Decode(h, &Opt{Lens: lens, Long: long, Wrong: true, Plain: true})
	case "C04":
		Decode(h, &Opt{Lens: 1, Str: 1, Dup: true, Unknown: true, SymKeys: true, Plain: true, Others: true})
	case "C05":
		if Choice(2) == 1 {
			Prior(h, &Opt{Lens: 1, Str: 1, Absent: true, Others: true, Plain: true})
			return
		}
		Decode(h, &Opt{Lens: 1, Str: 1, Absent: true, Others: true})
	case "C06":
		Decode(h, &Opt{Lens: lens, Long: long, Null: true, Plain: true, Others: true})
	case "C15":
		switch Choice(2) {
		case 0:
			Decode(h, &Opt{Lens: 1, Str: 1, Absent: true, Others: true, Unknown: true, Dup: true, Plain: true})
		case 1:
			Encode(h, &Opt{Lens: 1, Str: 1})
		}
	case "C16":
		Denoted(h, lens, strn, long)
	case "C17", "C18":
		switch Choice(2) {
		case 0:
			Decode(h, &Opt{Lens: lens, Long: long, Str: strn, BadText: true})
		case 1:
			Encode(h, &Opt{Lens: lens, Long: long, Str: strn})
		}
	case "C19":
		Decode(h, &Opt{Lens: lens, Long: long, Wrong: true, Null: true, Range: true, BadText: true, Plain: true, Dup: true, Few: !deep})
	case "C07":
		if Choice(2) == 1 {
			Encode(h, &Opt{Lens: 1, Str: 1, Subset: true})
			return
		}
		Encode(h, &Opt{Lens: lens, Long: long, Str: strn, SymKeys: true})
	case "C08":
		Encode(h, &Opt{Lens: lens, Long: long, Str: strn, SymKeys: true})
	case "C09":
		RoundTrip(h, &Opt{Lens: lens, Long: long, Str: strn, SymKeys: true})
	case "C10":
		ResetRun(h, &Opt{Lens: lens, Long: long, Str: 1})
	case "C11":
		IsZeroRun(h, &Opt{Lens: lens, Long: long, Str: 1})
	case "C12":
		if Choice(2) == 1 {
			Own(h, &Opt{Lens: 1, Str: 1, Absent: true, Plain: true})
			return
		}
		Own(h, &Opt{Lens: lens, Long: long, Str: strn, SymKeys: true})
	case "C13":
		Isolated(h, &Opt{Lens: 2, Long: long, Str: 1})
	case "C14":
		Crash(h, &Opt{Lens: lens, Long: long, Str: 1})
	case "C21":
		switch Choice(3) {
		case 0:
			Decode(h, &Opt{Lens: 1, Str: 1, Absent: true, Others: true})
		case 1:
			Decode(h, &Opt{Lens: 1, Str: 1, Dup: true, Unknown: true, Plain: true})
		case 2:
			Encode(h, &Opt{Lens: 1, Str: 1})
		}
	case "C20":
		ReadOnly(h, &Opt{Lens: lens, Long: long, Str: 1})
	}
}

func simplePath(p string) bool { return !HasAtom(p) }

// Decode runs one decoding of an arbitrary document and compares it with the reference.
func Decode(h *H, o *Opt) {
	if h.Unm == nil {
		return
	}
	n := GenDoc(h.D, o)
	data := Doc(n)
	x := h.New()
	var err error
	if p := Guard(func() { err = h.Unm(x, data) }); p != "" {
		Check(false, "C14", "decoding a fresh value: "+p)
		return
	}
	c := &Ctx{}
	exp := c.Dec(h.D, n, "", nil)
	Covered()
	if err != nil {
		if len(c.Rej) == 0 {
			if !c.Doubt {
				Check(false, join("C01", c.Feats), "acceptable document rejected")
			}
			return
		}
		txt := err.Error()
		ok := false
		for _, r := range c.Rej {
			if inOrder(txt, r.Path) {
				ok = true
				break
			}
		}
		for _, a := range c.Alt {
			if ok || inOrder(txt, a) {
				ok = true
				break
			}
		}
		if !ok {
			Check(false, "C19", "error text does not lead to the place: "+c.Rej[0].Class)
		}
		return
	}
	for _, r := range c.Rej {
		Check(false, r.Props, r.Class)
	}
	if len(c.Rej) > 0 {
		return
	}
	Compare(h.D, exp, h.Conv(x), "C01", "", "", "decoded content", false)
}

// Prior decodes into a value that already has contents and looks at the members the document lacks.
func Prior(h *H, o *Opt) {
	if h.Unm == nil || h.D.K != KStruct {
		return
	}
	n := GenDoc(h.D, o)
	m := SimpleVal(h.D, 5)
	x := h.Put(m)
	var err error
	if p := Guard(func() { err = h.Unm(x, Doc(n)) }); p != "" || err != nil {
		return
	}
	c := &Ctx{}
	c.Dec(h.D, n, "", nil)
	Covered()
	for _, r := range c.Rej {
		Check(false, r.Props, r.Class)
	}
	if len(c.Rej) > 0 || n.K != NObj {
		return
	}
	got := h.Conv(x)
	prior := SimpleVal(h.D, 5)
	for _, f := range Flat(h.D) {
		if f.F.Skip || declares(n, f.F.Name) {
			continue
		}
		g := got.at(f.Path)
		if f.F.Def != nil {
			Compare(f.F.D, f.F.Def, g, "C05", f.Feat, f.F.Go, "default of an absent member", true)
			continue
		}
		Compare(f.F.D, prior.at(f.Path), g, "C05", f.Feat, f.F.Go, "earlier content of an absent member", false)
	}
}

func declares(n *Node, name string) bool {
	for _, k := range n.Ks {
		if k == name {
			return true
		}
	}
	return false
}

// inOrder: the elements of path occur in txt one after the other.
func inOrder(txt string, path []string) bool {
	if len(path) == 0 {
		return true
	}
	if Contains(txt, strings.Join(path, ".")) {
		return true
	}
	pos := 0
	for _, p := range path {
		if p == "" {
			continue
		}
		found := false
		for i := pos; i+len(p) <= len(txt); i++ {
			if HasAtom(txt[i:i+len(p)]) != HasAtom(p) {
				continue
			}
			if SameText(txt[i:i+len(p)], p) {
				pos = i + len(p)
				found = true
				break
			}
		}
		if !found {
			return false
		}
	}
	return true
}

// encode returns the text of x by one of the two encoders.
func encode(h *H, x any) ([]byte, bool) {
	var out []byte
	var err error
	which := 0
	if h.MarTo != nil && h.Mar != nil {
		which = Choice(2)
	} else if h.Mar == nil {
		which = 1
	}
	p := Guard(func() {
		if which == 0 {
			out, err = h.Mar(x)
		} else {
			w := &jwriter.Writer{}
			err = h.MarTo(x, w)
			if err == nil {
				out, err = w.BuildBytes()
			}
		}
	})
	if p != "" {
		Check(false, "C14", "encoding: "+p)
		return nil, false
	}
	if err != nil {
		Check(false, "C08", "encoding failed")
		return nil, false
	}
	return out, true
}

// Encode runs one encoding of an arbitrary value and reads the text back strictly.
func Encode(h *H, o *Opt) {
	if h.Mar == nil && h.MarTo == nil {
		return
	}
	m := GenVal(h.D, o)
	x := h.Put(m)
	out, ok := encode(h, x)
	if !ok {
		return
	}
	Covered()
	n, bad := ParseJSON(out)
	if bad != "" {
		Check(false, join("C07,C08", h.Feat), "output is not JSON: "+bad)
		return
	}
	Match(h.D, m, n, "C08", "", "")
}

// RoundTrip decodes what was encoded.
func RoundTrip(h *H, o *Opt) {
	if h.Mar == nil || h.Unm == nil || openDef(h.D) {
		return
	}
	m := GenVal(h.D, o)
	if hasSkip(h.D, m) {
		return
	}
	x := h.Put(m)
	var out []byte
	var err error
	if p := Guard(func() { out, err = h.Mar(x) }); p != "" {
		Check(false, "C09", "encoding: "+p)
		return
	}
	if err != nil {
		Check(false, "C09", "encoding failed")
		return
	}
	n, bad := ParseJSON(out)
	if bad != "" {
		Check(false, "C09", "output is not JSON: "+bad)
		return
	}
	y := h.New()
	data := out
	if !Native() {
		data = Doc(n)
	}
	if p := Guard(func() { err = h.Unm(y, data) }); p != "" {
		Check(false, "C09", "decoding the encoded text: "+p)
		return
	}
	Covered()
	if err != nil {
		Check(false, "C09", "the encoded text is rejected")
		return
	}
	Compare(h.D, m, h.Conv(y), "C09", "", "", "round trip content", true)
}

// Denoted compares a type with its counterpart written with the denoted types.
func Denoted(h *H, lens, strn, long int) {
	w := h.As
	if w == nil {
		return
	}
	wrapN := func(n *Node) *Node {
		if h.AsF {
			return &Node{K: NObj, Ks: []string{"f"}, Es: []*Node{n}}
		}
		return n
	}
	wrapM := func(m *M) *M {
		if h.AsF {
			return &M{Es: []*M{m}}
		}
		return m
	}
	open := func(m *M) *M {
		if h.AsF {
			return m.Es[0]
		}
		return m
	}
	switch c := Choice(4); c {
	case 0, 1:
		if h.Unm == nil || w.Unm == nil {
			return
		}
		o := &Opt{Lens: lens, Long: long, Str: 1, Range: true, Lits: true, BadText: true}
		if c == 1 {
			o = &Opt{Lens: 1, Str: 1, Wrong: true, Null: true, Others: true, Absent: true}
		}
		n := GenDoc(h.D, o)
		if h.AsF && n.K == NNull {
			return
		}
		x, y := h.New(), w.New()
		var e1, e2 error
		p1 := Guard(func() { e1 = h.Unm(x, Doc(n)) })
		p2 := Guard(func() { e2 = w.Unm(y, Doc(wrapN(n))) })
		Covered()
		ref := &Ctx{}
		ref.Dec(h.D, n, "", nil)
		note := "a valid document"
		if len(ref.Rej) > 0 {
			note = ref.Rej[0].Class
		} else if ref.Doubt {
			note = "a document left open"
		}
		if p1 != p2 {
			Check(false, "C16", "panics unlike the denoted type: "+note)
			return
		}
		if p1 != "" {
			return
		}
		if e1 != nil && e2 == nil {
			Check(false, "C16", "rejects what the denoted type accepts: "+note)
		}
		if e1 == nil && e2 != nil {
			Check(false, "C16", "accepts what the denoted type rejects: "+note)
		}
		if e1 == nil && e2 == nil {
			Compare(h.D, open(w.Conv(y)), h.Conv(x), "C16", "", "", "unlike the denoted type", false)
		}
	case 2:
		m := GenVal(h.D, &Opt{Lens: lens, Long: long, Str: strn})
		x, y := h.Put(m), w.Put(wrapM(m))
		var b1, b2 []byte
		var e1, e2 error
		if h.Mar == nil || w.Mar == nil {
			return
		}
		p1 := Guard(func() { b1, e1 = h.Mar(x) })
		p2 := Guard(func() { b2, e2 = w.Mar(y) })
		Covered()
		if (p1 != "" || e1 != nil) != (p2 != "" || e2 != nil) {
			Check(false, "C16", "encoding succeeds unlike that of the denoted type")
			return
		}
		if p1 != "" || e1 != nil {
			return
		}
		if h.AsF {
			if len(b2) < 6 {
				Check(false, "C16", "encodes unlike the denoted type")
				return
			}
			b2 = b2[5 : len(b2)-1]
		}
		if multi(h.D, m) {
			Check(len(b1) == len(b2), "C16", "encodes unlike the denoted type")
			return
		}
		Check(len(b1) == len(b2) && SameText(string(b1), string(b2)), "C16", "encodes unlike the denoted type")
	case 3:
		if h.AsF || h.IsZero == nil || w.IsZero == nil || h.Reset == nil || w.Reset == nil {
			return
		}
		m := GenVal(h.D, &Opt{Lens: lens, Long: long, Str: strn})
		x, y := h.Put(m), w.Put(m)
		var z1, z2 bool
		p1 := Guard(func() { z1 = h.IsZero(x); h.Reset(x) })
		p2 := Guard(func() { z2 = w.IsZero(y); w.Reset(y) })
		Covered()
		if p1 != p2 {
			Check(false, "C16", "emptiness test or reset panics unlike that of the denoted type")
			return
		}
		if p1 != "" {
			return
		}
		Check(z1 == z2, "C16", "emptiness test unlike that of the denoted type")
		Compare(h.D, w.Conv(y), h.Conv(x), "C16", "", "", "after reset unlike the denoted type", true)
	}
}

// openDef: somewhere an omittable member has a default or is required.
func openDef(d *D) bool {
	if d.Rec {
		return false
	}
	for _, f := range d.Fs {
		if f.Omit && (f.Req || f.Def != nil) || openDef(f.D) {
			return true
		}
	}
	return d.E != nil && openDef(d.E)
}

// hasSkip: a field that is not decoded carries content.
func hasSkip(d *D, m *M) bool {
	if d.K != KStruct {
		return false
	}
	for i, f := range d.Fs {
		if f.Skip && !Empty(f.D, m.Es[i]) {
			return true
		}
		if f.Inline && hasSkip(f.D, m.Es[i]) {
			return true
		}
	}
	return false
}

// ResetRun compares a reset value with a fresh one.
func ResetRun(h *H, o *Opt) {
	if h.Reset == nil {
		return
	}
	focus := 0
	if h.D.K == KStruct && len(h.D.Fs) > 1 {
		focus = 1 + Choice(len(h.D.Fs))
	}
	ov := *o
	ov.Focus = focus
	m := GenVal(h.D, &ov)
	x := h.Put(m)
	if p := Guard(func() { h.Reset(x) }); p != "" {
		Check(false, "C14,C10", "reset: "+p)
		return
	}
	Covered()
	z := h.New()
	Compare(h.D, h.Conv(z), h.Conv(x), "C10", "", "", "content after reset", true)
	if h.Unm == nil {
		return
	}
	n := GenDoc(h.D, &Opt{Lens: 1, Str: 1, Absent: true, Plain: true, Null: true, Focus: focus})
	var e1, e2 error
	p1 := Guard(func() { e1 = h.Unm(x, Doc(n)) })
	p2 := Guard(func() { e2 = h.Unm(z, Doc(n)) })
	if p1 != p2 {
		Check(false, "C10", "decoding into a reset value panics: "+p1+p2)
		return
	}
	if p1 != "" {
		return
	}
	if (e1 == nil) != (e2 == nil) {
		Check(false, "C10", "decoding into a reset value has another outcome")
		return
	}
	if e1 != nil {
		return
	}
	Compare(h.D, h.Conv(z), h.Conv(x), "C10", "", "", "content decoded after reset", true)
}

// IsZeroRun checks the emptiness test.
func IsZeroRun(h *H, o *Opt) {
	if h.IsZero == nil {
		return
	}
	m := GenVal(h.D, o)
	x := h.Put(m)
	var got bool
	if p := Guard(func() { got = h.IsZero(x) }); p != "" {
		Check(false, "C14,C11", "emptiness test: "+p)
		return
	}
	Covered()
	if got {
		if f := fullAt(h.D, m, ""); f != "-" {
			Check(false, join("C11", h.Feat), "emptiness test true although the value carries information at "+f)
		}
		return
	}
	if holdsArray(h.D) {
		return
	}
	if strictEmpty(h.D, m, true) {
		Check(false, join("C11", h.Feat), "emptiness test false for an empty value")
	}
}

// holdsArray: a struct with a fixed array somewhere inside.
func holdsArray(d *D) bool {
	if d.K == KStruct {
		for _, f := range d.Fs {
			if f.D.K == KArr || f.D.K == KByteArr || holdsArray(f.D) {
				return true
			}
		}
	}
	return false
}

// fullAt names a place that carries information, "-" if none does.
func fullAt(d *D, m *M, dp string) string {
	switch d.K {
	case KStruct:
		for i, f := range d.Fs {
			if r := fullAt(f.D, m.Es[i], dot(dp, f.Go)); r != "-" {
				return r
			}
		}
		return "-"
	case KArr:
		for _, e := range m.Es {
			if r := fullAt(d.E, e, dp+"[]"); r != "-" {
				return r
			}
		}
		return "-"
	}
	if Empty(d, m) {
		return "-"
	}
	return dp
}

// strictEmpty: empty in every sense (collections inside the value nil, the value itself without elements).
func strictEmpty(d *D, m *M, top bool) bool {
	switch d.K {
	case KSlice, KMap, KBytes:
		return m.Nil || top && len(m.Es) == 0 && len(m.S) == 0
	case KStruct:
		for i, f := range d.Fs {
			if !strictEmpty(f.D, m.Es[i], false) {
				return false
			}
		}
		return true
	case KArr:
		for _, e := range m.Es {
			if !strictEmpty(d.E, e, false) {
				return false
			}
		}
		return true
	}
	return Empty(d, m)
}

// Own: what happens after decoding cannot change the decoded value.
func Own(h *H, o *Opt) {
	if h.Unm == nil {
		return
	}
	n := GenDoc(h.D, o)
	data := Doc(n)
	x := h.New()
	var err error
	if p := Guard(func() { err = h.Unm(x, data) }); p != "" {
		return
	}
	if err != nil {
		return
	}
	before := h.Conv(x)
	// the input buffer is overwritten and other documents are decoded
	for i := range data {
		data[i] = '~'
	}
	y := h.New()
	big := make([]byte, 0, 64)
	big = append(big, '"')
	for i := 0; i < 40; i++ {
		big = append(big, '@')
	}
	big = append(big, '"')
	Guard(func() { h.Unm(y, big) })
	var err2 error
	Guard(func() { err2 = h.Unm(y, Doc(n)) })
	Guard(func() { h.Unm(h.New(), big) })
	Covered()
	after := h.Conv(x)
	EventsMatching("C12", "memory")
	Compare(h.D, before, after, "C12", "", "", "content changed later", false)
	if err2 == nil {
		z := h.New()
		Guard(func() { err2 = h.Unm(z, Doc(n)) })
		if err2 == nil {
			Check(!Same(x, z), "C12", "two decoded values share memory")
		}
	}
}

// Isolated: an operation writes nothing but its own value, and hands its parser back exactly once.
func Isolated(h *H, o *Opt) {
	switch Choice(4) {
	case 0:
		if h.Unm == nil {
			return
		}
		n := GenDoc(h.D, &Opt{Lens: o.Lens, Long: o.Long, Str: 1, Wrong: true, Plain: true, Absent: true})
		data := Doc(n)
		x := h.New()
		// warm the pool with an earlier decode
		if Choice(2) == 1 {
			Guard(func() { h.Unm(h.New(), data) })
		}
		FrameBegin()
		FrameOwn(x)
		FrameWatch(data)
		var err error
		p := Guard(func() { err = h.Unm(x, data) })
		FrameEnd()
		Covered()
		Events("C13")
		Check(Puts() <= 2, "C13", "parser handed back more than once")
		if Native() {
			// once more, spoiling what is handed back to the pool at that moment
			y := h.New()
			var err2 error
			Poison(true)
			p2 := Guard(func() { err2 = h.Unm(y, Doc(n)) })
			Poison(false)
			Events("C13")
			if p != p2 || (err == nil) != (err2 == nil) || err != nil && err.Error() != err2.Error() || err == nil && Snap(x) != Snap(y) {
				Check(false, "C13", "parser memory read after the parser was handed back")
			}
		}
	case 1:
		if h.Mar == nil {
			return
		}
		x := h.Put(GenVal(h.D, o))
		FrameBegin()
		FrameWatch(x)
		Guard(func() { h.Mar(x) })
		FrameEnd()
		Covered()
		Events("C13")
	case 2:
		if h.IsZero == nil {
			return
		}
		x := h.Put(GenVal(h.D, o))
		FrameBegin()
		FrameWatch(x)
		Guard(func() { h.IsZero(x) })
		FrameEnd()
		Events("C13")
	case 3:
		if h.Reset == nil {
			return
		}
		x := h.Put(GenVal(h.D, o))
		FrameBegin()
		FrameOwn(x)
		Guard(func() { h.Reset(x) })
		FrameEnd()
		Events("C13")
	}
}

// Crash: nothing panics.
func Crash(h *H, o *Opt) {
	switch Choice(5) {
	case 0: // decoding into fresh or filled values
		if h.Unm == nil {
			return
		}
		filled := Choice(2) == 1
		n := GenDoc(h.D, &Opt{Lens: o.Lens, Long: o.Long, Str: 1, Wrong: true, Null: true, Lits: false, BadText: true, Range: true, Others: true})
		x := h.New()
		if filled {
			x = h.Put(SimpleVal(h.D, 0))
		}
		if p := Guard(func() { h.Unm(x, Doc(n)) }); p != "" {
			Check(false, "C14", "decoding: "+p)
		}
	case 1:
		if h.Mar == nil && h.MarTo == nil {
			return
		}
		x := h.Put(GenVal(h.D, o))
		encode(h, x)
	case 2:
		if h.IsZero != nil {
			x := h.Put(GenVal(h.D, o))
			if p := Guard(func() { h.IsZero(x) }); p != "" {
				Check(false, "C14", "emptiness test: "+p)
			}
		}
	case 3:
		if h.Reset != nil {
			x := h.Put(GenVal(h.D, o))
			if p := Guard(func() { h.Reset(x) }); p != "" {
				Check(false, "C14", "reset: "+p)
			}
		}
	case 4: // nil receivers
		if h.NilMar != nil {
			var b []byte
			var err error
			if p := Guard(func() { b, err = h.NilMar() }); p != "" {
				Check(false, "C14", "MarshalJSON of a nil pointer: "+p)
			} else if err != nil || string(b) != "null" {
				Check(false, "C14", "MarshalJSON of a nil pointer is not null")
			}
		}
		if h.NilTo != nil {
			w := &jwriter.Writer{}
			var err error
			if p := Guard(func() { err = h.NilTo(w) }); p != "" {
				Check(false, "C14", "MarshalTo of a nil pointer: "+p)
			} else {
				b, _ := w.BuildBytes()
				if err != nil || string(b) != "null" {
					Check(false, "C14", "MarshalTo of a nil pointer is not null")
				}
			}
		}
	}
	Covered()
}

// ReadOnly: encoding reads the value and appends to the output.
func ReadOnly(h *H, o *Opt) {
	if h.MarTo == nil {
		return
	}
	m := GenVal(h.D, o)
	x := h.Put(m)
	before := Snap(x)
	w := &jwriter.Writer{}
	w.RawString("<<")
	FrameBegin()
	FrameOwn(w)
	var e1, e2 error
	if p := Guard(func() { e1 = h.MarTo(x, w) }); p != "" {
		return
	}
	w.RawString("|")
	if p := Guard(func() { e2 = h.MarTo(x, w) }); p != "" {
		return
	}
	FrameEnd()
	EventsMatching("C20", "write to")
	Covered()
	Check((e1 == nil) == (e2 == nil), "C20", "second encoding has another outcome")
	if e1 != nil || e2 != nil {
		return
	}
	Check(before == Snap(x), "C20", "value changed by encoding")
	Compare(h.D, m, h.Conv(x), "C20", "", "", "content changed by encoding", false)
	out, err := w.BuildBytes()
	if err != nil {
		return
	}
	if len(out) < 2 || Peek(out, 0) != 0 || Peek(out, 1) != 0 || out[0] != '<' || out[1] != '<' {
		Check(false, "C20", "earlier output changed")
		return
	}
	// the two texts
	body := out[2:]
	var single []byte
	Guard(func() {
		w2 := &jwriter.Writer{}
		h.MarTo(x, w2)
		single, _ = w2.BuildBytes()
	})
	k := len(single)
	if len(body) != 2*k+1 {
		Check(multi(h.D, m) && len(body) == 2*k+1, "C20", "encoding twice does not append the same text twice")
		return
	}
	if multi(h.D, m) {
		return
	}
	Check(SameText(string(body[:k]), string(single)) && SameText(string(body[k+1:]), string(single)), "C20", "encoding twice does not append the same text twice")
}

// multi: the content has a map with several entries, whose order may differ.
func multi(d *D, m *M) bool {
	switch d.K {
	case KMap:
		if len(m.Es) > 1 {
			return true
		}
	}
	for i, e := range m.Es {
		dd := d.E
		if d.K == KStruct {
			dd = d.Fs[i].D
		}
		if dd != nil && multi(dd, e) {
			return true
		}
	}
	return false
}
