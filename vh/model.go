package vh

import "github.com/mailru/easyjson/jwriter"

const (
	NNull = iota
	NBool
	NNum
	NStr
	NArr
	NObj
)

// Num is a JSON number: kind 0 an integer literal, 1 a literal with exponent denoting F, 2 the literal Lit.
type Num struct {
	Kind int
	Neg  bool
	Mag  uint64
	F    float64
	Lit  string
	B32  bool // printed with the precision of a 32-bit float
	Bad  bool // printed with reduced precision
}

// Ann says what a text node denotes.
type Ann struct {
	Form   int // 1 base64 of Raw, 2 canonical identifier, 3 time, 4 unreadable as anything, 5 other identifier form
	Raw    string
	Sec    int64
	Ns     uint64
	Layout string
}

type Node struct {
	K   int
	B   bool
	Num *Num
	S   string
	Ks  []string
	Es  []*Node
	Ann *Ann
}

const (
	KInt = iota
	KUint
	KF32
	KF64
	KBool
	KStr
	KBytes
	KByteArr
	KTime
	KUUID
	KPtr
	KSlice
	KArr
	KMap
	KStruct
)

// D describes the JSON shape of a Go type, read from its declaration.
type D struct {
	K      int
	W      int
	N      int
	E      *D
	Fs     []*F
	Layout string // declared layout, empty if none
	Strict bool
	Named  bool // reached through a type declared from another one
	Ext    bool // type of another package
	Dir    bool // the type has its own directive
	Rec    bool // refers back to an enclosing type
}

type F struct {
	Go, Name       string
	D              *D
	Omit, Req      bool
	Def            *M
	Skip           bool // json:"-"
	Inline, Nested bool
}

// M is the content of a value.
type M struct {
	Nil bool
	U   uint64
	F   float64
	S   string
	Sec int64
	Ns  uint64
	Es  []*M
	Ks  []string
	O   string // where the expected content comes from
	Cap bool   // give the slice spare capacity
}

// H binds a type's methods.
type H struct {
	Name   string
	D      *D
	Feat   string
	Big    bool
	New    func() any
	Put    func(m *M) any
	Conv   func(x any) *M
	Unm    func(x any, b []byte) error
	Mar    func(x any) ([]byte, error)
	MarTo  func(x any, w *jwriter.Writer) error
	NilMar func() ([]byte, error)
	NilTo  func(w *jwriter.Writer) error
	IsZero func(x any) bool
	Reset  func(x any)
	As     *H   // counterpart written with the denoted types
	AsF    bool // the counterpart holds the denoted type in a member f
}

// Zero is the content of the zero value.
func Zero(d *D) *M {
	m := &M{}
	switch d.K {
	case KBytes, KPtr, KSlice, KMap:
		m.Nil = true
	case KByteArr:
		m.S = string(make([]byte, d.N))
	case KUUID:
		m.S = string(make([]byte, 16))
	case KTime:
		m.Sec = -62135596800
	case KArr:
		for i := 0; i < d.N; i++ {
			m.Es = append(m.Es, Zero(d.E))
		}
	case KStruct:
		for _, f := range d.Fs {
			m.Es = append(m.Es, Zero(f.D))
		}
	}
	return m
}

// Clone copies the strings of a content so that it survives changes to the value's memory.
func Copy(s string) string { return string([]byte(s)) }

// Empty: the content carries no information.
func Empty(d *D, m *M) bool {
	switch d.K {
	case KInt, KUint, KBool:
		return m.U == 0
	case KF32, KF64:
		return m.F == 0
	case KStr:
		return len(m.S) == 0
	case KBytes:
		return len(m.S) == 0
	case KByteArr, KUUID:
		for i := 0; i < len(m.S); i++ {
			if m.S[i] != 0 {
				return false
			}
		}
		return true
	case KTime:
		return m.Sec == -62135596800 && m.Ns == 0
	case KPtr:
		return m.Nil
	case KSlice, KMap:
		return len(m.Es) == 0
	case KArr:
		for _, e := range m.Es {
			if !Empty(d.E, e) {
				return false
			}
		}
		return true
	case KStruct:
		for i, f := range d.Fs {
			if !Empty(f.D, m.Es[i]) {
				return false
			}
		}
		return true
	}
	return false
}

// Flat lists the members of a struct's JSON object: inlined structs contribute their own members.
type Mem struct {
	F    *F
	Path []int // field indices from the struct
	Feat string
}

func Flat(d *D) []*Mem { return flat(d, nil, "") }

func flat(d *D, pre []int, feat string) []*Mem {
	var r []*Mem
	for i, f := range d.Fs {
		p := append(append([]int{}, pre...), i)
		if f.Inline {
			ft := join(feat, "C15")
			r = append(r, flat(f.D, p, ft)...)
			continue
		}
		r = append(r, &Mem{F: f, Path: p, Feat: feat})
	}
	return r
}

func (m *M) at(p []int) *M {
	for _, i := range p {
		m = m.Es[i]
	}
	return m
}

func (m *M) setAt(p []int, v *M) {
	for _, i := range p[:len(p)-1] {
		m = m.Es[i]
	}
	m.Es[p[len(p)-1]] = v
}

func join(a, b string) string {
	if a == "" {
		return b
	}
	if b == "" {
		return a
	}
	return a + "," + b
}

// feats names the properties that speak about this kind of type.
func feats(d *D) string {
	r := ""
	switch d.K {
	case KTime:
		r = "C17"
	case KBytes, KByteArr, KUUID:
		r = "C18"
	}
	if d.Ext {
		r = join(r, "C15")
	}
	return r
}

var kindNames = []string{"int", "uint", "float32", "float64", "bool", "string", "bytes", "byte array", "time", "uuid", "pointer", "slice", "array", "map", "struct"}

func tname(d *D) string {
	s := kindNames[d.K]
	if (d.K == KInt || d.K == KUint) && d.W != 64 {
		switch d.W {
		case 8:
			s += "8"
		case 16:
			s += "16"
		case 32:
			s += "32"
		}
	}
	return s
}
