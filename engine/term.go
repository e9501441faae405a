package main

import (
	"fmt"
	"math"
	"math/bits"
	"strings"
)

// Terms are hash-consed per worker. Sorts: 0 Bool, 1..64 bit-vectors, -32/-64 floats.
type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLShr
	OAShr
	OULt
	OULe
	OSLt
	OSLe
	OConcat
	OExtract // c = hi<<8|lo
	OZExt
	OSExt
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFLt
	OFLe
	OFEq
	OFToF
	OS2F
	OU2F
	OF2S
	OF2U
	OBits2F
	OFIsNaN
	OFIsInf
	OFAbs
)

type Term struct {
	op   Op
	sort int
	a    [3]*Term
	c    uint64
	name string
	id   int
	// solver bookkeeping
	defd int
	// evaluation cache
	evGen int
	evVal uint64
}

type tkey struct {
	op      Op
	sort    int
	a, b, d int
	c       uint64
	name    string
}

type Terms struct {
	tab  map[tkey]*Term
	next int
	gen  int
	T, F *Term
	vars []*Term
}

func NewTerms() *Terms {
	t := &Terms{tab: map[tkey]*Term{}, next: 1}
	t.T = t.Const(0, 1)
	t.F = t.Const(0, 0)
	return t
}

func (t *Terms) mk(op Op, sort int, c uint64, name string, as ...*Term) *Term {
	k := tkey{op: op, sort: sort, c: c, name: name}
	if len(as) > 0 {
		k.a = as[0].id
	}
	if len(as) > 1 {
		k.b = as[1].id
	}
	if len(as) > 2 {
		k.d = as[2].id
	}
	if x, ok := t.tab[k]; ok {
		return x
	}
	x := &Term{op: op, sort: sort, c: c, name: name, id: t.next}
	t.next++
	copy(x.a[:], as)
	t.tab[k] = x
	return x
}

func mask(w int, v uint64) uint64 {
	switch {
	case w == 0:
		return v & 1
	case w == -32:
		return v & 0xffffffff
	case w < 0 || w >= 64:
		return v
	}
	return v & (1<<uint(w) - 1)
}

func sext(w int, v uint64) int64 {
	if w >= 64 || w <= 0 {
		return int64(v)
	}
	sh := uint(64 - w)
	return int64(v<<sh) >> sh
}

func (t *Terms) Const(sort int, v uint64) *Term { return t.mk(OConst, sort, mask(sort, v), "") }
func (t *Terms) Bool(b bool) *Term {
	if b {
		return t.T
	}
	return t.F
}
func (t *Terms) Var(name string, sort int) *Term { return t.mk(OVar, sort, 0, name) }

func (x *Term) isConst() bool { return x.op == OConst }

func (t *Terms) Not(a *Term) *Term {
	if a.isConst() {
		return t.Bool(a.c == 0)
	}
	if a.op == ONot {
		return a.a[0]
	}
	return t.mk(ONot, 0, 0, "", a)
}
func (t *Terms) And(a, b *Term) *Term {
	switch {
	case a == t.F || b == t.F:
		return t.F
	case a == t.T:
		return b
	case b == t.T, a == b:
		return a
	case t.Not(a) == b:
		return t.F
	}
	return t.mk(OAnd, 0, 0, "", a, b)
}
func (t *Terms) Or(a, b *Term) *Term {
	switch {
	case a == t.T || b == t.T:
		return t.T
	case a == t.F:
		return b
	case b == t.F, a == b:
		return a
	case t.Not(a) == b:
		return t.T
	}
	return t.mk(OOr, 0, 0, "", a, b)
}
func (t *Terms) Ite(c, a, b *Term) *Term {
	switch {
	case c == t.T:
		return a
	case c == t.F:
		return b
	case a == b:
		return a
	}
	if a.sort == 0 {
		if a == t.T && b == t.F {
			return c
		}
		if a == t.F && b == t.T {
			return t.Not(c)
		}
	}
	return t.mk(OIte, a.sort, 0, "", c, a, b)
}

// Eq is identity (for floats: same value bits, so NaN equals itself and 0 differs from -0).
func (t *Terms) Eq(a, b *Term) *Term {
	if a == b {
		return t.T
	}
	if a.isConst() && b.isConst() {
		return t.Bool(a.c == b.c)
	}
	if a.sort == 0 {
		if a.isConst() {
			a, b = b, a
		}
		if b == t.T {
			return a
		}
		if b == t.F {
			return t.Not(a)
		}
	}
	if a.sort < 0 {
		if a.op == OBits2F && b.op == OBits2F && a.a[0].op == OVar && b.a[0].op == OVar {
			// fall through: semantic equality differs for NaN payloads only
		}
	}
	// sext/zext against a constant
	for i := 0; i < 2; i++ {
		if b.isConst() && (a.op == OZExt || a.op == OSExt) {
			w := a.a[0].sort
			lo := mask(w, b.c)
			var back uint64
			if a.op == OZExt {
				back = lo
			} else {
				back = mask(a.sort, uint64(sext(w, lo)))
			}
			if back != b.c {
				return t.F
			}
			return t.Eq(a.a[0], t.Const(w, lo))
		}
		a, b = b, a
	}
	if (a.op == OZExt && b.op == OZExt || a.op == OSExt && b.op == OSExt) && a.a[0].sort == b.a[0].sort {
		return t.Eq(a.a[0], b.a[0])
	}
	if a.id > b.id {
		a, b = b, a
	}
	return t.mk(OEq, 0, 0, "", a, b)
}

func (t *Terms) Bin(op Op, a, b *Term) *Term {
	w := a.sort
	rs := w
	switch op {
	case OULt, OULe, OSLt, OSLe, OFLt, OFLe, OFEq:
		rs = 0
	case OConcat:
		rs = a.sort + b.sort
	}
	if a.isConst() && b.isConst() {
		if v, ok := evalBin(op, w, b.sort, a.c, b.c); ok {
			return t.Const(rs, v)
		}
	}
	switch op {
	case OFLt, OFLe, OFEq:
		if r := t.fcmp(op, a, b); r != nil {
			return r
		}
	case OAdd, OBOr, OBXor, OSub, OShl, OLShr, OAShr:
		if b.isConst() && b.c == 0 {
			return a
		}
		if (op == OAdd || op == OBOr || op == OBXor) && a.isConst() && a.c == 0 {
			return b
		}
		if op == OSub && a == b {
			return t.Const(w, 0)
		}
	case OMul:
		if b.isConst() && b.c == 1 {
			return a
		}
		if a.isConst() && a.c == 1 {
			return b
		}
	case OBAnd:
		if a == b {
			return a
		}
		if b.isConst() && b.c == mask(w, ^uint64(0)) {
			return a
		}
		if b.isConst() && b.c == 0 {
			return b
		}
		if a.isConst() {
			return t.Bin(op, b, a)
		}
		// zext(x) & c where c covers x entirely
		if b.isConst() && a.op == OZExt && b.c&mask(a.a[0].sort, ^uint64(0)) == 0 {
			return t.Const(w, 0)
		}
	case OULt, OSLt:
		if a == b {
			return t.F
		}
		if op == OULt && b.isConst() && b.c == 0 {
			return t.F
		}
		if op == OULt && a.op == OZExt && b.isConst() {
			iw := a.a[0].sort
			if b.c > mask(iw, ^uint64(0)) {
				return t.T
			}
		}
	case OULe, OSLe:
		if a == b {
			return t.T
		}
	}
	return t.mk(op, rs, 0, "", a, b)
}

func (t *Terms) Extract(a *Term, hi, lo int) *Term {
	w := hi - lo + 1
	if w == a.sort {
		return a
	}
	if a.isConst() {
		return t.Const(w, a.c>>uint(lo))
	}
	switch a.op {
	case OZExt, OSExt:
		if lo == 0 {
			iw := a.a[0].sort
			if w == iw {
				return a.a[0]
			}
			if w < iw {
				return t.Extract(a.a[0], hi, lo)
			}
			if a.op == OZExt {
				return t.ZExt(a.a[0], w)
			}
			return t.SExt(a.a[0], w)
		}
		if a.op == OZExt && lo >= a.a[0].sort {
			return t.Const(w, 0)
		}
		if hi < a.a[0].sort {
			return t.Extract(a.a[0], hi, lo)
		}
	case OConcat:
		lw := a.a[1].sort
		if hi < lw {
			return t.Extract(a.a[1], hi, lo)
		}
		if lo >= lw {
			return t.Extract(a.a[0], hi-lw, lo-lw)
		}
	case OExtract:
		l0 := int(a.c & 0xff)
		return t.Extract(a.a[0], hi+l0, lo+l0)
	case OIte:
		if a.a[1].isConst() || a.a[2].isConst() {
			return t.Ite(a.a[0], t.Extract(a.a[1], hi, lo), t.Extract(a.a[2], hi, lo))
		}
	}
	return t.mk(OExtract, w, uint64(hi)<<8|uint64(lo), "", a)
}
func (t *Terms) Concat(a, b *Term) *Term {
	if a.op == OExtract && b.op == OExtract && a.a[0] == b.a[0] {
		ah, al := int(a.c>>8), int(a.c&0xff)
		bh, bl := int(b.c>>8), int(b.c&0xff)
		if al == bh+1 {
			return t.Extract(a.a[0], ah, bl)
		}
	}
	if a.isConst() && a.c == 0 {
		return t.ZExt(b, a.sort+b.sort)
	}
	return t.Bin(OConcat, a, b)
}
func (t *Terms) ZExt(a *Term, w int) *Term {
	if w == a.sort {
		return a
	}
	if a.isConst() {
		return t.Const(w, a.c)
	}
	if a.op == OZExt {
		return t.ZExt(a.a[0], w)
	}
	return t.mk(OZExt, w, 0, "", a)
}
func (t *Terms) SExt(a *Term, w int) *Term {
	if w == a.sort {
		return a
	}
	if a.isConst() {
		return t.Const(w, uint64(sext(a.sort, a.c)))
	}
	if a.op == OSExt {
		return t.SExt(a.a[0], w)
	}
	if a.op == OZExt {
		return t.ZExt(a.a[0], w)
	}
	return t.mk(OSExt, w, 0, "", a)
}

// Un builds unary operators and float conversions (sort = result sort).
func (t *Terms) Un(op Op, sort int, a *Term) *Term {
	if a.isConst() {
		if v, ok := evalUn(op, sort, a.sort, a.c); ok {
			return t.Const(sort, v)
		}
	}
	switch op {
	case OFIsNaN:
		if n := t.fnan(a); n != nil {
			return n
		}
	case OFIsInf:
		if b := t.fbits(a); b != nil {
			w, inf, sign := fparams(a.sort)
			return t.Eq(t.Bin(OBAnd, b, t.Const(w, sign-1)), t.Const(w, inf))
		}
	case OFNeg:
		if a.op == OFNeg {
			return a.a[0]
		}
	}
	if op == OFToF {
		if a.sort == sort {
			return a
		}
		// widening then narrowing is the identity
		if a.op == OFToF && a.a[0].sort == sort && sort == -32 {
			return a.a[0]
		}
	}
	return t.mk(op, sort, 0, "", a)
}

func toF(sort int, v uint64) float64 {
	if sort == -32 {
		return float64(math.Float32frombits(uint32(v)))
	}
	return math.Float64frombits(v)
}
func fromF(sort int, f float64) uint64 {
	if sort == -32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}
func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func evalUn(op Op, sort, as int, a uint64) (uint64, bool) {
	switch op {
	case ONot:
		return 1 - a, true
	case OBNot:
		return mask(sort, ^a), true
	case ONeg:
		return mask(sort, -a), true
	case OFNeg:
		return fromF(sort, -toF(as, a)), true
	case OFAbs:
		return fromF(sort, math.Abs(toF(as, a))), true
	case OFToF:
		return fromF(sort, toF(as, a)), true
	case OS2F:
		if sort == -32 {
			return uint64(math.Float32bits(float32(sext(as, a)))), true
		}
		return fromF(sort, float64(sext(as, a))), true
	case OU2F:
		if sort == -32 {
			return uint64(math.Float32bits(float32(a))), true
		}
		return fromF(sort, float64(a)), true
	case OF2S:
		return mask(sort, uint64(int64(toF(as, a)))), true
	case OF2U:
		return mask(sort, uint64(toF(as, a))), true
	case OBits2F:
		return a, true
	case OFIsNaN:
		return b2u(math.IsNaN(toF(as, a))), true
	case OFIsInf:
		return b2u(math.IsInf(toF(as, a), 0)), true
	}
	return 0, false
}

func evalBin(op Op, w, bw int, a, b uint64) (uint64, bool) {
	switch op {
	case OAdd:
		return mask(w, a+b), true
	case OSub:
		return mask(w, a-b), true
	case OMul:
		return mask(w, a*b), true
	case OUDiv:
		if b == 0 {
			return mask(w, ^uint64(0)), true
		}
		return a / b, true
	case OURem:
		if b == 0 {
			return a, true
		}
		return a % b, true
	case OSDiv:
		x, y := sext(w, a), sext(w, b)
		if y == 0 {
			if x >= 0 {
				return mask(w, ^uint64(0)), true
			}
			return 1, true
		}
		if y == -1 {
			return mask(w, uint64(-x)), true
		}
		return mask(w, uint64(x/y)), true
	case OSRem:
		x, y := sext(w, a), sext(w, b)
		if y == 0 {
			return a, true
		}
		if y == -1 {
			return 0, true
		}
		return mask(w, uint64(x%y)), true
	case OBAnd:
		return a & b, true
	case OBOr:
		return a | b, true
	case OBXor:
		return a ^ b, true
	case OShl:
		if b >= uint64(w) {
			return 0, true
		}
		return mask(w, a<<b), true
	case OLShr:
		if b >= uint64(w) {
			return 0, true
		}
		return a >> b, true
	case OAShr:
		x := sext(w, a)
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return mask(w, uint64(x>>b)), true
	case OULt:
		return b2u(a < b), true
	case OULe:
		return b2u(a <= b), true
	case OSLt:
		return b2u(sext(w, a) < sext(w, b)), true
	case OSLe:
		return b2u(sext(w, a) <= sext(w, b)), true
	case OConcat:
		return a<<uint(bw) | b, true
	case OAnd:
		return a & b, true
	case OOr:
		return a | b, true
	case OFAdd, OFSub, OFMul, OFDiv:
		x, y := toF(w, a), toF(w, b)
		if w == -32 {
			p, q := float32(x), float32(y)
			var r float32
			switch op {
			case OFAdd:
				r = p + q
			case OFSub:
				r = p - q
			case OFMul:
				r = p * q
			case OFDiv:
				r = p / q
			}
			return uint64(math.Float32bits(r)), true
		}
		var r float64
		switch op {
		case OFAdd:
			r = x + y
		case OFSub:
			r = x - y
		case OFMul:
			r = x * y
		case OFDiv:
			r = x / y
		}
		return math.Float64bits(r), true
	case OFLt:
		return b2u(toF(w, a) < toF(w, b)), true
	case OFLe:
		return b2u(toF(w, a) <= toF(w, b)), true
	case OFEq:
		return b2u(toF(w, a) == toF(w, b)), true
	}
	return 0, false
}

// Eval under a model (vars missing from it are 0).
func (t *Terms) Eval(x *Term, m map[*Term]uint64) uint64 {
	t.gen++
	return t.ev(x, m)
}
func (t *Terms) ev(x *Term, m map[*Term]uint64) uint64 {
	if x.op == OConst {
		return x.c
	}
	if x.evGen == t.gen {
		return x.evVal
	}
	var r uint64
	switch x.op {
	case OVar:
		r = mask(x.sort, m[x])
	case OIte:
		if t.ev(x.a[0], m) == 1 {
			r = t.ev(x.a[1], m)
		} else {
			r = t.ev(x.a[2], m)
		}
	case OEq:
		p, q := t.ev(x.a[0], m), t.ev(x.a[1], m)
		s := x.a[0].sort
		if s < 0 {
			if math.IsNaN(toF(s, p)) && math.IsNaN(toF(s, q)) {
				r = 1
			} else {
				r = b2u(p == q)
			}
		} else {
			r = b2u(p == q)
		}
	case OExtract:
		r = mask(x.sort, t.ev(x.a[0], m)>>uint(x.c&0xff))
	case OZExt:
		r = t.ev(x.a[0], m)
	case OSExt:
		r = mask(x.sort, uint64(sext(x.a[0].sort, t.ev(x.a[0], m))))
	default:
		if x.a[1] == nil {
			r, _ = evalUn(x.op, x.sort, x.a[0].sort, t.ev(x.a[0], m))
		} else {
			r, _ = evalBin(x.op, x.a[0].sort, x.a[1].sort, t.ev(x.a[0], m), t.ev(x.a[1], m))
		}
	}
	x.evGen = t.gen
	x.evVal = r
	return r
}

func sortStr(s int) string {
	switch {
	case s == 0:
		return "Bool"
	case s == -32:
		return "(_ FloatingPoint 8 24)"
	case s == -64:
		return "(_ FloatingPoint 11 53)"
	}
	return fmt.Sprintf("(_ BitVec %d)", s)
}

func fpSort(s int) string {
	if s == -32 {
		return "8 24"
	}
	return "11 53"
}

func constStr(s int, c uint64) string {
	switch {
	case s == 0:
		if c == 1 {
			return "true"
		}
		return "false"
	case s == -32:
		return fmt.Sprintf("((_ to_fp 8 24) #x%08x)", c)
	case s == -64:
		return fmt.Sprintf("((_ to_fp 11 53) #x%016x)", c)
	case s%4 == 0:
		return fmt.Sprintf("#x%0*x", s/4, c)
	}
	return fmt.Sprintf("#b%0*b", s, c)
}

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul",
	OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot",
	ONeg: "bvneg", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", OULt: "bvult", OULe: "bvule", OSLt: "bvslt", OSLe: "bvsle",
	OConcat: "concat", OFNeg: "fp.neg", OFLt: "fp.lt", OFLe: "fp.leq", OFEq: "fp.eq", OFIsNaN: "fp.isNaN", OFIsInf: "fp.isInfinite", OFAbs: "fp.abs",
	OFAdd: "fp.add RNE", OFSub: "fp.sub RNE", OFMul: "fp.mul RNE", OFDiv: "fp.div RNE"}

// ref is the name by which other terms mention x.
func (x *Term) ref() string {
	switch x.op {
	case OConst:
		return constStr(x.sort, x.c)
	case OVar:
		return "|" + x.name + "|"
	}
	return fmt.Sprintf("t%d", x.id)
}

func (x *Term) body() string {
	var h string
	switch x.op {
	case OExtract:
		h = fmt.Sprintf("(_ extract %d %d)", x.c>>8, x.c&0xff)
	case OZExt:
		h = fmt.Sprintf("(_ zero_extend %d)", x.sort-x.a[0].sort)
	case OSExt:
		h = fmt.Sprintf("(_ sign_extend %d)", x.sort-x.a[0].sort)
	case OFToF, OS2F:
		h = fmt.Sprintf("(_ to_fp %s) RNE", fpSort(x.sort))
	case OU2F:
		h = fmt.Sprintf("(_ to_fp_unsigned %s) RNE", fpSort(x.sort))
	case OF2S:
		h = fmt.Sprintf("(_ fp.to_sbv %d) RTZ", x.sort)
	case OF2U:
		h = fmt.Sprintf("(_ fp.to_ubv %d) RTZ", x.sort)
	case OBits2F:
		h = fmt.Sprintf("(_ to_fp %s)", fpSort(x.sort))
	default:
		h = opNames[x.op]
		if h == "" {
			panic(fmt.Sprintf("op %d", x.op))
		}
	}
	var sb strings.Builder
	sb.WriteByte('(')
	sb.WriteString(h)
	for _, a := range x.a {
		if a != nil {
			sb.WriteByte(' ')
			sb.WriteString(a.ref())
		}
	}
	sb.WriteByte(')')
	return sb.String()
}

var _ = bits.Len
