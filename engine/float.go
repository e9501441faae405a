package main

import "math"

// Float comparisons are decided on bit patterns wherever the operands are patterns, so that the solver sees
// bit-vector arithmetic only; conversions from integers are compared through their range.

func fparams(sort int) (w int, inf, sign uint64) {
	if sort == -32 {
		return 32, 0x7f800000, 0x80000000
	}
	return 64, 0x7ff0000000000000, 0x8000000000000000
}

// fbits is the bit pattern of a float term, nil if it is not a pattern.
func (t *Terms) fbits(f *Term) *Term {
	w, _, sign := fparams(f.sort)
	switch f.op {
	case OConst:
		return t.Const(w, f.c)
	case OBits2F:
		return f.a[0]
	case OFNeg:
		if b := t.fbits(f.a[0]); b != nil {
			return t.Bin(OBXor, b, t.Const(w, sign))
		}
	case OFAbs:
		if b := t.fbits(f.a[0]); b != nil {
			return t.Bin(OBAnd, b, t.Const(w, sign-1))
		}
	case OIte:
		x, y := t.fbits(f.a[1]), t.fbits(f.a[2])
		if x != nil && y != nil {
			return t.Ite(f.a[0], x, y)
		}
	}
	return nil
}

// fnan: f is not a number; nil if that has to be left to the float theory.
func (t *Terms) fnan(f *Term) *Term {
	if b := t.fbits(f); b != nil {
		w, inf, sign := fparams(f.sort)
		return t.Bin(OULt, t.Const(w, inf), t.Bin(OBAnd, b, t.Const(w, sign-1)))
	}
	switch f.op {
	case OS2F, OU2F:
		return t.F
	case OFNeg, OFAbs, OFToF:
		return t.fnan(f.a[0])
	case OIte:
		x, y := t.fnan(f.a[1]), t.fnan(f.a[2])
		if x != nil && y != nil {
			return t.Ite(f.a[0], x, y)
		}
	}
	return nil
}

// fzero: f equals zero.
func (t *Terms) fzero(f *Term) *Term {
	if b := t.fbits(f); b != nil {
		w, _, sign := fparams(f.sort)
		return t.Eq(t.Bin(OBAnd, b, t.Const(w, sign-1)), t.Const(w, 0))
	}
	switch f.op {
	case OS2F, OU2F:
		return t.Eq(f.a[0], t.Const(f.a[0].sort, 0))
	case OFNeg, OFAbs:
		return t.fzero(f.a[0])
	case OIte:
		x, y := t.fzero(f.a[1]), t.fzero(f.a[2])
		if x != nil && y != nil {
			return t.Ite(f.a[0], x, y)
		}
	case OFToF:
		g := f.a[0]
		if f.sort == -64 || g.op == OS2F || g.op == OU2F {
			return t.fzero(g)
		}
		if g.op == OFNeg || g.op == OFAbs {
			return t.fzero(t.Un(OFToF, f.sort, g.a[0]))
		}
		if g.op == OIte {
			x, y := t.fzero(t.Un(OFToF, f.sort, g.a[1])), t.fzero(t.Un(OFToF, f.sort, g.a[2]))
			if x != nil && y != nil {
				return t.Ite(g.a[0], x, y)
			}
			return nil
		}
		if b := t.fbits(g); b != nil {
			return t.Bin(OULe, t.Bin(OBAnd, b, t.Const(64, 1<<63-1)), t.Const(64, math.Float64bits(0x1p-150)))
		}
	}
	return nil
}

// frange bounds a float term that comes from an integer.
func frange(f *Term) (lo, hi float64, ok bool) {
	switch f.op {
	case OU2F:
		w := f.a[0].sort
		return 0, math.Ldexp(1, w), true
	case OS2F:
		w := f.a[0].sort
		return -math.Ldexp(1, w-1), math.Ldexp(1, w-1), true
	case OFNeg:
		l, h, ok := frange(f.a[0])
		return -h, -l, ok
	case OFToF:
		return frange(f.a[0])
	case OIte:
		l1, h1, o1 := frange(f.a[1])
		l2, h2, o2 := frange(f.a[2])
		return math.Min(l1, l2), math.Max(h1, h2), o1 && o2
	}
	return 0, 0, false
}

// fcmp lowers a comparison; nil if it has to be left to the float theory.
func (t *Terms) fcmp(op Op, a, b *Term) *Term {
	if a == b {
		n := t.fnan(a)
		switch {
		case op == OFLt:
			return t.F
		case n != nil:
			return t.Not(n)
		}
		return nil
	}
	// a widened value against a widened value or an exactly representable constant
	if a.sort == -64 {
		na, nb := narrow(t, a), narrow(t, b)
		if na != nil && nb != nil && (a.op == OFToF || b.op == OFToF) {
			return t.Bin(op, na, nb)
		}
	}
	for i := 0; i < 2; i++ {
		if b.isConst() {
			c := toF(b.sort, b.c)
			if c == 0 && op == OFEq {
				if z := t.fzero(a); z != nil {
					return z
				}
			}
			if lo, hi, ok := frange(a); ok {
				switch op {
				case OFEq:
					if c < lo || c > hi {
						return t.F
					}
				case OFLt, OFLe:
					// i == 0: a op b, else b op a
					if i == 0 && hi < c || i == 1 && c < lo {
						return t.T
					}
					if i == 0 && lo > c || i == 1 && c > hi {
						return t.F
					}
				}
			}
			if a.op == OIte && t.fbits(a) == nil {
				x, y := t.Bin(op, a.a[1], b), t.Bin(op, a.a[2], b)
				if i == 1 {
					x, y = t.Bin(op, b, a.a[1]), t.Bin(op, b, a.a[2])
				}
				return t.Ite(a.a[0], x, y)
			}
		}
		a, b = b, a
	}
	x, y := t.fbits(a), t.fbits(b)
	if x == nil || y == nil {
		return nil
	}
	w, _, sign := fparams(a.sort)
	ok := t.And(t.Not(t.fnan(a)), t.Not(t.fnan(b)))
	abs := t.Const(w, sign-1)
	zero := t.Const(w, 0)
	bothZero := t.And(t.Eq(t.Bin(OBAnd, x, abs), zero), t.Eq(t.Bin(OBAnd, y, abs), zero))
	key := func(v *Term) *Term {
		if v.isConst() {
			if v.c&sign != 0 {
				return t.Const(w, ^v.c)
			}
			return t.Const(w, v.c|sign)
		}
		return t.Ite(t.Bin(OULt, v, t.Const(w, sign)), t.Bin(OBOr, v, t.Const(w, sign)), t.Bin(OBXor, v, t.Const(w, ^uint64(0))))
	}
	switch op {
	case OFEq:
		return t.And(ok, t.Or(t.Eq(x, y), bothZero))
	case OFLt:
		return t.And(ok, t.And(t.Not(bothZero), t.Bin(OULt, key(x), key(y))))
	}
	return t.And(ok, t.Or(bothZero, t.Bin(OULe, key(x), key(y))))
}

// narrow is the 32-bit float a widened term or exact constant stands for.
func narrow(t *Terms, f *Term) *Term {
	if f.op == OFToF && f.a[0].sort == -32 {
		return f.a[0]
	}
	if f.isConst() {
		v := math.Float64frombits(f.c)
		if float64(float32(v)) == v {
			return t.Const(-32, uint64(math.Float32bits(float32(v))))
		}
	}
	return nil
}

// Finite: f is neither infinite nor not a number.
func (t *Terms) Finite(f *Term) *Term {
	if b := t.fbits(f); b != nil {
		w, inf, _ := fparams(f.sort)
		return t.Not(t.Eq(t.Bin(OBAnd, b, t.Const(w, inf)), t.Const(w, inf)))
	}
	if _, _, ok := frange(f); ok && f.sort == -64 {
		return t.T
	}
	return t.Not(t.Or(t.Un(OFIsNaN, 0, f), t.Un(OFIsInf, 0, f)))
}
