package vh

import (
	"math"
	"strconv"
)

// Strict reader of encoded output. It accepts exactly JSON (RFC 8259) and turns it into nodes; values rendered
// symbolically are taken as they are.
type rd struct {
	b   []byte
	i   int
	bad string
}

// ParseJSON reads one JSON value that must fill b.
func ParseJSON(b []byte) (*Node, string) {
	r := &rd{b: b}
	n := r.value(0)
	if r.bad != "" {
		return nil, r.bad
	}
	if r.i != len(r.b) {
		return nil, "text after the value"
	}
	return n, ""
}

func (r *rd) fail(s string) *Node {
	if r.bad == "" {
		r.bad = s
	}
	return nil
}

const (
	pInt    = 1
	pUint   = 2
	pFloat  = 3
	pJStr   = 5
	pTime   = 6
	pUUID   = 7
	pB64    = 8
	pOpaque = 11
)

func (r *rd) is(c byte) bool {
	return r.i < len(r.b) && Peek(r.b, r.i) == 0 && r.b[r.i] == c
}

func (r *rd) lit(s string) bool {
	if r.i+len(s) > len(r.b) {
		return false
	}
	for j := 0; j < len(s); j++ {
		if Peek(r.b, r.i+j) != 0 || r.b[r.i+j] != s[j] {
			return false
		}
	}
	r.i += len(s)
	return true
}

func (r *rd) value(depth int) *Node {
	if r.i >= len(r.b) {
		return r.fail("value missing")
	}
	switch Peek(r.b, r.i) {
	case 0:
	case pInt:
		u := PeekInt(r.b, r.i)
		r.i++
		n := &Num{Mag: u}
		if int64(u) < 0 {
			n.Neg = true
			n.Mag = -u
		}
		return r.num(&Node{K: NNum, Num: n})
	case pUint:
		u := PeekInt(r.b, r.i)
		r.i++
		return r.num(&Node{K: NNum, Num: &Num{Mag: u}})
	case pFloat:
		f := PeekFloat(r.b, r.i)
		n := &Num{Kind: 1, F: f}
		if PeekBits(r.b, r.i) == 32 {
			n.B32 = true
		}
		fm := PeekFmt(r.b, r.i)
		if len(fm) != 3 || fm[1:] != "-1" {
			n.Bad = true
		}
		r.i++
		return r.num(&Node{K: NNum, Num: n})
	case pJStr:
		s := PeekStr(r.b, r.i)
		r.i++
		return &Node{K: NStr, S: s}
	default:
		return r.fail("bare text where a value is expected")
	}
	c := r.b[r.i]
	switch {
	case c == '{':
		return r.object(depth)
	case c == '[':
		return r.array(depth)
	case c == '"':
		r.i++
		s := r.str()
		return &Node{K: NStr, S: s}
	case c == 'n':
		if r.lit("null") {
			return &Node{K: NNull}
		}
	case c == 't':
		if r.lit("true") {
			return &Node{K: NBool, B: true}
		}
	case c == 'f':
		if r.lit("false") {
			return &Node{K: NBool}
		}
	case c == '-' || c >= '0' && c <= '9':
		return r.number()
	}
	return r.fail("unexpected character where a value is expected")
}

// num checks that a rendered number is not glued to other digits.
func (r *rd) num(n *Node) *Node {
	if r.i < len(r.b) && Peek(r.b, r.i) != 0 {
		return r.fail("two values without separator")
	}
	return n
}

func (r *rd) digits() int {
	n := 0
	for r.i < len(r.b) && Peek(r.b, r.i) == 0 && r.b[r.i] >= '0' && r.b[r.i] <= '9' {
		r.i++
		n++
	}
	return n
}

func (r *rd) number() *Node {
	st := r.i
	neg := false
	if r.is('-') {
		neg = true
		r.i++
	}
	if r.is('0') {
		r.i++
	} else if r.digits() == 0 {
		return r.fail("malformed number")
	}
	intEnd := r.i
	if r.is('.') {
		r.i++
		if r.digits() == 0 {
			return r.fail("malformed number")
		}
	}
	if r.is('e') || r.is('E') {
		r.i++
		if r.is('+') || r.is('-') {
			r.i++
		}
		if r.digits() == 0 {
			return r.fail("malformed number")
		}
	}
	if r.i < len(r.b) && Peek(r.b, r.i) != 0 {
		return r.fail("two values without separator")
	}
	txt := string(r.b[st:r.i])
	if intEnd == r.i {
		t := txt
		if neg {
			t = txt[1:]
		}
		if u, err := strconv.ParseUint(t, 10, 64); err == nil {
			return &Node{K: NNum, Num: &Num{Neg: neg, Mag: u}}
		}
	}
	f, err := strconv.ParseFloat(txt, 64)
	if err != nil {
		return &Node{K: NNum, Num: &Num{Kind: 2, Lit: txt}}
	}
	return &Node{K: NNum, Num: &Num{Kind: 1, F: f, Lit: txt}}
}

func (r *rd) array(depth int) *Node {
	n := &Node{K: NArr}
	r.i++
	if r.is(']') {
		r.i++
		return n
	}
	for {
		e := r.value(depth + 1)
		if r.bad != "" {
			return nil
		}
		n.Es = append(n.Es, e)
		if r.is(',') {
			r.i++
			continue
		}
		if r.is(']') {
			r.i++
			return n
		}
		return r.fail("array elements not separated or array not closed")
	}
}

func (r *rd) object(depth int) *Node {
	n := &Node{K: NObj}
	r.i++
	if r.is('}') {
		r.i++
		return n
	}
	for {
		var k string
		if r.i < len(r.b) && Peek(r.b, r.i) == pJStr {
			k = PeekStr(r.b, r.i)
			r.i++
		} else if r.is('"') {
			r.i++
			k = r.str()
		} else {
			return r.fail("member name expected")
		}
		if r.bad != "" {
			return nil
		}
		if !r.is(':') {
			return r.fail("colon expected after member name")
		}
		r.i++
		e := r.value(depth + 1)
		if r.bad != "" {
			return nil
		}
		n.Ks = append(n.Ks, k)
		n.Es = append(n.Es, e)
		if r.is(',') {
			r.i++
			continue
		}
		if r.is('}') {
			r.i++
			return n
		}
		return r.fail("members not separated or object not closed")
	}
}

func hexv(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

// str reads the rest of a string literal.
func (r *rd) str() string {
	st := r.i
	var out []byte
	esc := false
	for {
		if r.i >= len(r.b) {
			r.fail("string not closed")
			return ""
		}
		if k := Peek(r.b, r.i); k != 0 {
			if k != pTime && k != pUUID && k != pB64 && k != pInt && k != pUint && k != pFloat && k != pOpaque {
				r.fail("quoted text inside a string")
				return ""
			}
			if esc {
				out = append(out, r.b[r.i])
			}
			r.i++
			continue
		}
		c := r.b[r.i]
		if c == '"' {
			var s string
			if esc {
				s = string(out)
			} else {
				s = string(r.b[st:r.i])
			}
			r.i++
			return s
		}
		if c < 0x20 {
			r.fail("control character inside a string")
			return ""
		}
		if c != '\\' {
			if esc {
				out = append(out, c)
			}
			r.i++
			continue
		}
		if !esc {
			esc = true
			out = append(out, r.b[st:r.i]...)
		}
		if r.i+1 >= len(r.b) || Peek(r.b, r.i+1) != 0 {
			r.fail("string not closed")
			return ""
		}
		e := r.b[r.i+1]
		r.i += 2
		switch e {
		case '"', '\\', '/':
			out = append(out, e)
		case 'b':
			out = append(out, '\b')
		case 'f':
			out = append(out, '\f')
		case 'n':
			out = append(out, '\n')
		case 'r':
			out = append(out, '\r')
		case 't':
			out = append(out, '\t')
		case 'u':
			u, ok := r.hex4()
			if !ok {
				r.fail("bad escape in a string")
				return ""
			}
			if u >= 0xd800 && u < 0xdc00 && r.lit("\\u") {
				l, ok := r.hex4()
				if !ok || l < 0xdc00 || l > 0xdfff {
					r.fail("bad escape in a string")
					return ""
				}
				u = 0x10000 + (u-0xd800)<<10 + (l - 0xdc00)
			}
			out = append(out, string(rune(u))...)
		default:
			r.fail("bad escape in a string")
			return ""
		}
	}
}

func (r *rd) hex4() (int, bool) {
	if r.i+4 > len(r.b) {
		return 0, false
	}
	u := 0
	for j := 0; j < 4; j++ {
		if Peek(r.b, r.i+j) != 0 {
			return 0, false
		}
		h := hexv(r.b[r.i+j])
		if h < 0 {
			return 0, false
		}
		u = u<<4 | h
	}
	r.i += 4
	return u, true
}

// Match asserts that node n states content m of a value of type d.
func Match(d *D, m *M, n *Node, props, feat, dp string) {
	ft := join(feat, feats(d))
	p := join(props, ft)
	where := " at " + dp
	switch d.K {
	case KInt, KUint:
		if n.K != NNum || n.Num.Kind != 0 {
			Check(false, p, tname(d)+" not written as an integer"+where)
			return
		}
		v := n.Num.Mag
		if n.Num.Neg {
			v = -v
			if d.K == KUint {
				Check(false, p, tname(d)+" written as a negative number"+where)
				return
			}
		}
		Check(v == m.U, p, tname(d)+" written with another value"+where)
	case KF32, KF64:
		if n.K != NNum || n.Num.Kind == 2 {
			Check(false, p, tname(d)+" not written as a number"+where)
			return
		}
		if n.Num.Bad || n.Num.B32 && d.K == KF64 {
			Check(false, p, tname(d)+" written with reduced precision"+where)
			return
		}
		f := n.Num.F
		if n.Num.Kind == 0 {
			f = float64(n.Num.Mag)
			if n.Num.Neg {
				f = -f
			}
		}
		if d.K == KF32 {
			if n.Num.Kind == 1 && n.Num.Lit != "" {
				if g, err := strconv.ParseFloat(n.Num.Lit, 32); err == nil {
					f = g
				}
			}
			Check(float32(f) == float32(m.F), p, tname(d)+" written with another value"+where)
			return
		}
		Check(f == m.F, p, tname(d)+" written with another value"+where)
	case KBool:
		if n.K != NBool {
			Check(false, p, "bool not written as true or false"+where)
			return
		}
		Check(n.B == (m.U == 1), p, "bool written with another value"+where)
	case KStr:
		if n.K != NStr {
			Check(false, p, "string not written as a string"+where)
			return
		}
		Check(SameText(n.S, m.S), p, "string written with another value"+where)
	case KBytes:
		if m.Nil && n.K == NNull {
			return
		}
		if n.K != NStr {
			Check(false, p, "bytes not written as a string"+where)
			return
		}
		if m.Nil {
			Check(isElem(dp) && n.S == "", p, "nil bytes not written as null"+where)
			return
		}
		Check(SameText(n.S, B64Text([]byte(m.S))), p, "bytes not written as their base64 text"+where)
	case KByteArr:
		if n.K != NStr {
			Check(false, p, "byte array not written as a string"+where)
			return
		}
		Check(SameText(n.S, B64Text([]byte(m.S))), p, "byte array not written as its base64 text"+where)
	case KTime:
		if n.K != NStr {
			Check(false, p, "time not written as a string"+where)
			return
		}
		l := d.Layout
		if l == "" {
			l = DefaultLayouts[0]
		}
		Check(SameText(n.S, TimeText(m.Sec, m.Ns, l)), p, "time not written in its layout"+where)
	case KUUID:
		if n.K != NStr {
			Check(false, p, "identifier not written as a string"+where)
			return
		}
		Check(SameText(n.S, UUIDText([]byte(m.S))), p, "identifier not written as its canonical text"+where)
	case KPtr:
		if m.Nil {
			Check(n.K == NNull, p, "nil pointer not written as null"+where)
			return
		}
		Match(d.E, m.Es[0], n, props, ft, dp+"*")
	case KSlice, KArr:
		if d.K == KSlice && m.Nil && !(isElem(dp) && n.K == NArr && len(n.Es) == 0) {
			Check(n.K == NNull, p, "nil slice not written as null"+where)
			return
		}
		if n.K != NArr {
			Check(false, p, "collection not written as an array"+where)
			return
		}
		if len(n.Es) != len(m.Es) {
			Check(false, p, "collection written with another length"+where)
			return
		}
		for i := range m.Es {
			Match(d.E, m.Es[i], n.Es[i], props, ft, dp+"[]")
		}
	case KMap:
		if m.Nil && !(isElem(dp) && n.K == NObj && len(n.Es) == 0) {
			Check(n.K == NNull, p, "nil map not written as null"+where)
			return
		}
		if n.K != NObj {
			Check(false, p, "map not written as an object"+where)
			return
		}
		if len(n.Es) != len(m.Es) {
			Check(false, p, "map written with another number of entries"+where)
			return
		}
		for i, k := range m.Ks {
			hit := -1
			for j, q := range n.Ks {
				if SameText(k, q) {
					hit = j
					break
				}
			}
			if hit < 0 {
				Check(false, p, "map key not written"+where)
				return
			}
			Match(d.E, m.Es[i], n.Es[hit], props, ft, dp+"{}")
		}
	case KStruct:
		if n.K != NObj {
			Check(false, p, "struct not written as an object"+where)
			return
		}
		seen := make([]bool, len(n.Ks))
		for _, f := range Flat(d) {
			pf := join(p, f.Feat)
			fp := dot(dp, f.F.Name)
			fm := m.at(f.Path)
			hit := -1
			for j, q := range n.Ks {
				if !seen[j] && SameText(q, f.F.Name) {
					hit = j
					break
				}
			}
			if f.F.Skip {
				if hit >= 0 {
					seen[hit] = true
				}
				continue
			}
			if f.F.Nested {
				pf = join(pf, "C15")
			}
			if hit < 0 {
				if !f.F.Omit {
					Check(false, pf, "member left out: "+fp)
					continue
				}
				om, open := omitted(f.F.D, fm)
				if !open {
					Check(om, pf, "non-empty omitempty member left out: "+fp)
				}
				continue
			}
			seen[hit] = true
			if f.F.Omit {
				om, open := omitted(f.F.D, fm)
				if om && !open {
					Check(false, pf, "empty omitempty member written: "+fp)
				}
			}
			g := join(ft, f.Feat)
			if f.F.Nested {
				g = join(g, "C15")
			}
			Match(f.F.D, fm, n.Es[hit], props, g, fp)
		}
		for j := range n.Ks {
			if !seen[j] {
				Check(false, p, "undeclared or repeated member written"+where)
			}
		}
	}
}

// isElem: the place is an element or a map value, where an empty collection may stand for a nil one.
func isElem(dp string) bool {
	return len(dp) > 1 && (dp[len(dp)-2:] == "[]" || dp[len(dp)-2:] == "{}")
}

// omitted: the content counts as empty for omitempty; open where the property does not say.
func omitted(d *D, m *M) (bool, bool) {
	switch d.K {
	case KInt, KUint, KBool, KF32, KF64, KStr, KTime, KUUID:
		return Empty(d, m), false
	case KPtr:
		return m.Nil, false
	case KSlice, KMap, KBytes:
		if m.Nil {
			return true, false
		}
		return false, len(m.Es) == 0 && len(m.S) == 0
	case KByteArr, KArr:
		return false, Empty(d, m)
	case KStruct:
		// a struct whose collections are empty but not nil may count as either
		e := Empty(d, m)
		return e, e && !allZero(d, m)
	}
	return false, true
}

func allZero(d *D, m *M) bool {
	switch d.K {
	case KSlice, KMap, KBytes:
		return m.Nil
	case KArr:
		return false
	case KStruct:
		for i, f := range d.Fs {
			if !allZero(f.D, m.Es[i]) {
				return false
			}
		}
	}
	return true
}

var _ = math.Pi
