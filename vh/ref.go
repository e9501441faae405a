package vh

import (
	"math"
	"strconv"
)

// Rej is a reason why a document must be rejected.
type Rej struct {
	Props, Class string
	Path         []string
}

// Ctx collects what the reference decoder says about a document.
type Ctx struct {
	Rej   []*Rej
	Doubt bool       // the properties leave acceptance open
	Alt   [][]string // where a rejection that is left open would point
	Feats string
	feat  string // features of the current position
}

func (c *Ctx) use(p string) {
	if p != "" {
		c.Feats = join(c.Feats, p)
	}
}

func (c *Ctx) doubt(path []string) {
	c.Doubt = true
	c.Alt = append(c.Alt, append([]string{}, path...))
}

func (c *Ctx) rej(prop, class string, path []string) {
	c.Rej = append(c.Rej, &Rej{Props: join(prop, c.feat), Class: class, Path: append([]string{}, path...)})
}

var kindOf = []string{"null", "boolean", "number", "string", "array", "object"}

// Dec is the reference decoder: the content document n denotes for a fresh value of type d.
func (c *Ctx) Dec(d *D, n *Node, dp string, path []string) *M {
	save := c.feat
	ft := feats(d)
	c.feat = join(c.feat, ft)
	c.use(ft)
	m := c.dec(d, n, dp, path)
	c.feat = save
	return m
}

func (c *Ctx) kind(d *D, n *Node, want int, dp string, path []string) bool {
	if n.K == want {
		return true
	}
	if n.K == NNull {
		c.rej("C06", "null accepted for plain "+tname(d)+" at "+dp, path)
	} else {
		c.rej("C03", kindOf[n.K]+" accepted for "+tname(d)+" at "+dp, path)
	}
	return false
}

func (c *Ctx) dec(d *D, n *Node, dp string, path []string) *M {
	m := Zero(d)
	m.O = "value"
	switch d.K {
	case KInt, KUint:
		if !c.kind(d, n, NNum, dp, path) {
			return m
		}
		if n.Num.Kind != 0 {
			c.rej("C02", "non-integer literal accepted for "+tname(d)+" at "+dp, path)
			return m
		}
		mag := n.Num.Mag
		if d.K == KUint {
			if n.Num.Neg && mag != 0 {
				c.rej("C02", "negative number accepted for "+tname(d)+" at "+dp, path)
				return m
			}
			if d.W < 64 && mag >= 1<<uint(d.W) {
				c.rej("C02", "number above the range of "+tname(d)+" accepted at "+dp, path)
				return m
			}
			m.U = mag
			return m
		}
		lim := uint64(1) << uint(d.W-1)
		if n.Num.Neg {
			if mag > lim {
				c.rej("C02", "number below the range of "+tname(d)+" accepted at "+dp, path)
				return m
			}
			m.U = -mag
			return m
		}
		if mag >= lim {
			c.rej("C02", "number above the range of "+tname(d)+" accepted at "+dp, path)
			return m
		}
		m.U = mag
		return m
	case KF32, KF64:
		if !c.kind(d, n, NNum, dp, path) {
			return m
		}
		var f float64
		switch n.Num.Kind {
		case 0:
			f = float64(n.Num.Mag)
			if n.Num.Neg {
				f = -f
			}
		case 1:
			f = n.Num.F
		case 2:
			var err error
			f, err = strconv.ParseFloat(n.Num.Lit, 64)
			if err != nil {
				c.rej("C02", "number outside the float range accepted for "+tname(d)+" at "+dp, path)
				return m
			}
		}
		if d.K == KF32 {
			if f > math.MaxFloat32 || f < -math.MaxFloat32 {
				if f >= 0x1p128 {
					c.rej("C02", "number above the range of float32 accepted at "+dp, path)
				} else if f <= -0x1p128 {
					c.rej("C02", "number below the range of float32 accepted at "+dp, path)
				} else {
					c.doubt(path)
					m.O = "any"
				}
				return m
			}
			f = float64(float32(f))
		}
		m.F = f
		return m
	case KBool:
		if !c.kind(d, n, NBool, dp, path) {
			return m
		}
		if n.B {
			m.U = 1
		}
		return m
	case KStr:
		if !c.kind(d, n, NStr, dp, path) {
			return m
		}
		m.S = n.S
		return m
	case KBytes, KByteArr:
		if n.K == NNull {
			c.use("C06")
			m.O = "null"
			return m
		}
		if !c.kind(d, n, NStr, dp, path) {
			return m
		}
		raw := ""
		if n.Ann != nil && n.Ann.Form == 1 {
			raw = n.Ann.Raw
		} else if len(n.S) != 0 {
			if n.Ann == nil && newlines(n.S) {
				c.doubt(path)
				m.Nil = false
				return m
			}
			c.rej("C18", "text that is not base64 accepted for "+tname(d)+" at "+dp, path)
			return m
		}
		if d.K == KByteArr {
			if len(raw) != d.N {
				if len(raw) < d.N {
					c.rej("C18", "too few bytes accepted for a byte array at "+dp, path)
				} else {
					c.rej("C18", "too many bytes accepted for a byte array at "+dp, path)
				}
				return m
			}
		}
		m.Nil = false
		m.S = raw
		return m
	case KTime:
		if !c.kind(d, n, NStr, dp, path) {
			return m
		}
		if n.Ann == nil || n.Ann.Form != 3 {
			c.rej("C17", "text that is no time accepted at "+dp, path)
			return m
		}
		ok := false
		if d.Layout != "" {
			ok = d.Layout == n.Ann.Layout
		} else {
			for _, l := range DefaultLayouts {
				if l == n.Ann.Layout {
					ok = true
				}
			}
		}
		if !ok {
			c.rej("C17", "time in another layout accepted at "+dp, path)
			return m
		}
		m.Sec, m.Ns = n.Ann.Sec, n.Ann.Ns
		return m
	case KUUID:
		if !c.kind(d, n, NStr, dp, path) {
			return m
		}
		if n.Ann != nil && n.Ann.Form == 5 {
			c.doubt(path)
			m.S = n.Ann.Raw
			return m
		}
		if n.Ann == nil || n.Ann.Form != 2 {
			c.rej("C18", "text that is no identifier accepted at "+dp, path)
			return m
		}
		m.S = n.Ann.Raw
		return m
	case KPtr:
		if n.K == NNull {
			c.use("C06")
			m.O = "null"
			return m
		}
		m.Nil = false
		m.Es = []*M{c.Dec(d.E, n, dp+"*", path)}
		return m
	case KSlice, KArr:
		if n.K == NNull {
			c.use("C06")
			m.O = "null"
			return m
		}
		if !c.kind(d, n, NArr, dp, path) {
			return m
		}
		if d.K == KArr {
			if len(n.Es) > d.N {
				c.rej("C01", "array longer than the Go array accepted at "+dp, path)
				return m
			}
			if len(n.Es) < d.N {
				c.doubt(path)
				m.O = "any"
			}
		}
		m.Nil = false
		for i, e := range n.Es {
			v := c.elem(d.E, e, dp+"[]", append(path, strconv.Itoa(i)))
			if d.K == KArr {
				m.Es[i] = v
			} else {
				m.Es = append(m.Es, v)
			}
		}
		return m
	case KMap:
		if n.K == NNull {
			c.use("C06")
			m.O = "null"
			return m
		}
		if !c.kind(d, n, NObj, dp, path) {
			return m
		}
		m.Nil = false
		for i, e := range n.Es {
			m.Ks = append(m.Ks, n.Ks[i])
			m.Es = append(m.Es, c.elem(d.E, e, dp+"{}", append(path, n.Ks[i])))
		}
		return m
	case KStruct:
		if n.K == NNull {
			c.doubt(path)
			m.O = "null"
			return m
		}
		if !c.kind(d, n, NObj, dp, path) {
			return m
		}
		c.object(d, n, m, dp, path)
		return m
	}
	return m
}

// elem decodes an element or map value; a null for a nullable element type other than a pointer is left open.
func (c *Ctx) elem(d *D, n *Node, dp string, path []string) *M {
	if n.K == NNull {
		switch d.K {
		case KSlice, KMap, KArr, KBytes, KByteArr, KStruct:
			c.doubt(path)
		}
	}
	return c.Dec(d, n, dp, path)
}

func newlines(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] == '\n' || s[i] == '\r' {
			return true
		}
	}
	return false
}

func (c *Ctx) object(d *D, n *Node, m *M, dp string, path []string) {
	ms := Flat(d)
	cnt := make([]int, len(ms))
	val := make([]*Node, len(ms))
	for i, k := range n.Ks {
		hit := -1
		for j, f := range ms {
			if !f.F.Skip && SameText(k, f.F.Name) {
				hit = j
				break
			}
		}
		if hit < 0 {
			c.use("C04")
			if d.Strict {
				c.rej("C04", "undeclared member accepted by a strict type at "+dp, append(path, k))
			}
			continue
		}
		cnt[hit]++
		if cnt[hit] == 2 {
			c.rej("C04", "repeated member "+ms[hit].F.Name+" accepted at "+dp, append(path, k))
		}
		if cnt[hit] == 1 {
			val[hit] = n.Es[i]
		}
	}
	for j, f := range ms {
		if f.F.Skip {
			continue
		}
		v := val[j]
		fd := f.F.D
		save := c.feat
		c.feat = join(c.feat, f.Feat)
		fp := dot(dp, f.F.Name)
		if v == nil {
			if f.F.Req {
				c.use("C05")
				c.rej("C05", "missing required member accepted: "+fp, path)
			} else if f.F.Def != nil {
				c.use("C05")
				dm := *f.F.Def
				dm.O = "default"
				m.setAt(f.Path, &dm)
			} else {
				z := Zero(fd)
				z.O = "absent"
				m.setAt(f.Path, z)
			}
			c.feat = save
			continue
		}
		c.use(f.Feat)
		if v.K == NNull && (f.F.Req || f.F.Def != nil) && nullable(fd) {
			c.doubt(append(path, f.F.Name))
			z := Zero(fd)
			z.O = "any"
			m.setAt(f.Path, z)
			c.feat = save
			continue
		}
		if f.F.Nested {
			c.feat = join(c.feat, "C15")
			c.use("C15")
		}
		m.setAt(f.Path, c.Dec(fd, v, fp, append(path, f.F.Name)))
		c.feat = save
	}
}

func nullable(d *D) bool {
	switch d.K {
	case KPtr, KSlice, KMap, KArr, KBytes, KByteArr, KStruct:
		return true
	}
	return false
}

func dot(a, b string) string {
	if a == "" {
		return b
	}
	return a + "." + b
}

// Compare asserts that got equals exp. The property blamed depends on where the expected content comes from.
func Compare(d *D, exp, got *M, props, feat, dp, what string, loose bool) {
	ft := join(feat, feats(d))
	p := join(props, ft)
	switch exp.O {
	case "any":
		return
	case "null":
		props = "C06," + props
		p = join(props, ft)
	case "absent", "default":
		props = "C05," + props
		p = join(props, ft)
	}
	why := what + " at " + dp
	if exp.O != "" && exp.O != "value" {
		why = what + " (" + exp.O + ") at " + dp
	}
	switch d.K {
	case KInt, KUint, KBool:
		Check(exp.U == got.U, p, tname(d)+" "+why)
	case KF32, KF64:
		Check(exp.F == got.F, p, tname(d)+" "+why)
	case KStr, KByteArr, KUUID:
		Check(SameText(exp.S, got.S), p, tname(d)+" "+why)
	case KBytes:
		Check(SameText(exp.S, got.S), p, tname(d)+" "+why)
		if !loose {
			Check(exp.Nil == got.Nil, p, "nil "+tname(d)+" "+why)
		}
	case KTime:
		if loose && exp.Sec == -62135596800 && shortYear(d.Layout) {
			return // the layout cannot express the zero time
		}
		Check(exp.Sec == got.Sec && exp.Ns == got.Ns, p, tname(d)+" "+why)
	case KPtr:
		if exp.Nil != got.Nil {
			Check(false, p, "nil pointer "+why)
			return
		}
		if !exp.Nil {
			Compare(d.E, exp.Es[0], got.Es[0], props, ft, dp+"*", what, loose)
		}
	case KSlice, KArr:
		if !loose && d.K == KSlice && exp.O != "value" && exp.O != "" {
			Check(exp.Nil == got.Nil || len(exp.Es) == 0 && len(got.Es) == 0, p, "nil slice "+why)
		}
		if len(exp.Es) != len(got.Es) {
			Check(false, p, "length of "+tname(d)+" "+why)
			return
		}
		for i := range exp.Es {
			Compare(d.E, exp.Es[i], got.Es[i], props, ft, dp+"[]", what, loose)
		}
	case KMap:
		if len(exp.Es) != len(got.Es) {
			Check(false, p, "length of map "+why)
			return
		}
		for i, k := range exp.Ks {
			hit := -1
			for j, q := range got.Ks {
				if SameText(k, q) {
					hit = j
					break
				}
			}
			if hit < 0 {
				Check(false, p, "map key "+why)
				return
			}
			Compare(d.E, exp.Es[i], got.Es[hit], props, ft, dp+"{}", what, loose)
		}
	case KStruct:
		for i, f := range d.Fs {
			g := ft
			fp := dp
			if f.Inline {
				g = join(g, "C15")
			} else {
				fp = dot(dp, f.Name)
				if f.Skip {
					fp = dot(dp, f.Go)
				}
			}
			if f.Nested {
				g = join(g, "C15")
			}
			Compare(f.D, exp.Es[i], got.Es[i], props, g, fp, what, loose)
		}
	}
}

// DefaultLayouts are the documented layouts of a time field without a declared one.
var DefaultLayouts = []string{
	"2006-01-02T15:04:05.999999999Z07:00",
	"2006-01-02T15:04:05Z07:00",
	"2006-01-02 15:04:05Z07:00",
	"02.01.2006 15:04:05Z07:00",
}
