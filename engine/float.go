package main

import (
	"math"
	"math/big"
)

// Float is a floating-point value: either concrete, or an exact rational
// num/den that the hardware value equals after at most one correctly rounded
// operation, or an exact integer square root form, or opaque.
//
// The rational form is only used where |num| and den are small enough that
// floor, ceil and truncation of the rounded value agree with those of the
// exact value (|num| < 2^52, den < 2^20).
type Float struct {
	sym  uint8 // 0 concrete, 1 rational, 2 sqrt(num) 3 opaque
	c    float64
	num  *Term // 64-bit signed
	den  int64
	nrnd int // number of roundings so far (0: exact)
}

var floatZero = &Float{}

func (in *Interp) mkF(c float64) *Float { return &Float{c: c} }

func (in *Interp) opaque(why string) *Float {
	in.path.opaque[why]++
	return &Float{sym: 3}
}

// rat views f as num/den.
func (in *Interp) rat(f *Float) (num *Term, den int64, nrnd int, ok bool) {
	switch f.sym {
	case 0:
		if math.IsInf(f.c, 0) || math.IsNaN(f.c) {
			return nil, 0, 0, false
		}
		r := new(big.Rat)
		r.SetFloat64(f.c)
		if !r.Num().IsInt64() || !r.Denom().IsInt64() || r.Denom().Int64() >= 1<<20 {
			return nil, 0, 0, false
		}
		return in.st.Const(64, uint64(r.Num().Int64())), r.Denom().Int64(), 0, true
	case 1:
		return f.num, f.den, f.nrnd, true
	}
	return nil, 0, 0, false
}

const ratLim = 1 << 52

func fitsRat(t *Term) bool { return t.smin > -ratLim && t.smax < ratLim }

func (in *Interp) mkRat(num *Term, den int64, nrnd int, why string) *Float {
	if num.isConst() {
		v := num.sval()
		if v > -ratLim && v < ratLim && nrnd == 0 {
			return &Float{c: float64(v) / float64(den)}
		}
	}
	if !fitsRat(num) || den >= 1<<20 || nrnd > 1 {
		return in.opaque(why)
	}
	return &Float{sym: 1, num: num, den: den, nrnd: nrnd}
}

func isPow2(d int64) bool { return d > 0 && d&(d-1) == 0 }

func (in *Interp) fadd(a, b *Float, sub bool) *Float {
	an, ad, ar, ok1 := in.rat(a)
	bn, bd, br, ok2 := in.rat(b)
	if !ok1 || !ok2 {
		return in.opaque("float add")
	}
	st := in.st
	// common denominator
	g := gcd(ad, bd)
	l := ad / g * bd
	if l >= 1<<20 {
		return in.opaque("float add den")
	}
	x := st.Mul(an, st.Const(64, uint64(l/ad)))
	y := st.Mul(bn, st.Const(64, uint64(l/bd)))
	if !fitsRat(x) || !fitsRat(y) {
		return in.opaque("float add range")
	}
	var n *Term
	if sub {
		n = st.Sub(x, y)
	} else {
		n = st.Add(x, y)
	}
	// A dyadic sum of small numbers is exact; adding a dyadic constant to a
	// once-rounded quotient keeps the floor/ceil/trunc guarantee (see DESIGN).
	r := ar + br
	if r == 0 && !isPow2(l) {
		r = 1
	}
	return in.mkRat(n, l, r, "float add rounding")
}

func gcd(a, b int64) int64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func (in *Interp) fmulF(a, b *Float) *Float {
	if a == b && a.sym == 2 {
		return in.opaque("sqrt squared")
	}
	an, ad, ar, ok1 := in.rat(a)
	bn, bd, br, ok2 := in.rat(b)
	if !ok1 || !ok2 || ar != 0 || br != 0 || ad*bd >= 1<<20 {
		return in.opaque("float mul")
	}
	if !mulFits(an, bn) {
		return in.opaque("float mul range")
	}
	n := in.st.Mul(an, bn)
	r := 0
	if !isPow2(ad * bd) {
		r = 1
	}
	return in.mkRat(n, ad*bd, r, "float mul rounding")
}

func mulFits(a, b *Term) bool {
	m := func(t *Term) uint64 { return maxU(absU(t.smin), absU(t.smax)) }
	x, y := m(a), m(b)
	return x == 0 || y < ratLim/x
}

func (in *Interp) fdivF(a, b *Float) *Float {
	an, ad, ar, ok1 := in.rat(a)
	bn, bd, br, ok2 := in.rat(b)
	if !ok1 || !ok2 || ar != 0 || br != 0 || !bn.isConst() || bn.sval() == 0 {
		return in.opaque("float div")
	}
	d := bn.sval()
	neg := d < 0
	if neg {
		d = -d
	}
	c := in.st.Const(64, uint64(bd))
	if !mulFits(an, c) || d > 1<<20 || ad*d >= 1<<20 {
		return in.opaque("float div range")
	}
	n := in.st.Mul(an, c)
	if neg {
		n = in.st.Neg(n)
	}
	r := 0
	if !isPow2(ad * d) {
		r = 1
	}
	return in.mkRat(n, ad*d, r, "float div rounding")
}

func (in *Interp) fneg(a *Float) *Float {
	switch a.sym {
	case 0:
		return in.mkF(-a.c)
	case 1:
		return &Float{sym: 1, num: in.st.Neg(a.num), den: a.den, nrnd: a.nrnd}
	}
	return in.opaque("float neg")
}

// fcmp returns (a<b, a==b) as terms; nil when not decidable exactly.
func (in *Interp) fcmp(a, b *Float) (lt, eq *Term) {
	if a.sym == 2 || b.sym == 2 {
		// sqrt(n) against a non-negative rational constant zero only
		if a.sym == 2 && b.sym == 0 && b.c == 0 {
			return in.st.fls, in.st.Eq(a.num, in.st.Const(64, 0))
		}
		if b.sym == 2 && a.sym == 0 && a.c == 0 {
			return in.st.Not(in.st.Eq(b.num, in.st.Const(64, 0))), in.st.Eq(b.num, in.st.Const(64, 0))
		}
		return nil, nil
	}
	an, ad, ar, ok1 := in.rat(a)
	bn, bd, br, ok2 := in.rat(b)
	if !ok1 || !ok2 || (ar+br > 0 && !(ar == 0 || br == 0)) {
		return nil, nil
	}
	st := in.st
	ca, cb := st.Const(64, uint64(bd)), st.Const(64, uint64(ad))
	if !mulFits(an, ca) || !mulFits(bn, cb) {
		return nil, nil
	}
	x, y := st.Mul(an, ca), st.Mul(bn, cb)
	return st.Slt(x, y), st.Eq(x, y)
}

// ftoi truncates toward zero to a 64-bit integer.
func (in *Interp) ftoi(f *Float) *Term {
	st := in.st
	switch f.sym {
	case 1:
		if f.den == 1 {
			return f.num
		}
		return st.Sdiv(f.num, st.Const(64, uint64(f.den)))
	case 2:
		return in.isqrt(f.num)
	}
	// opaque: any value
	v := in.fresh("opaque_float_to_int", 64)
	return v
}

// isqrt returns floor(sqrt(n)) for 0 <= n < 2^52 as a fresh variable pinned by
// r*r <= n < (r+1)^2. (The correctly rounded float64 square root truncates to
// the same integer for n < 2^52.)
func (in *Interp) isqrt(n *Term) *Term {
	st := in.st
	if n.isConst() {
		return st.Const(64, uint64(int64(math.Sqrt(float64(n.sval())))))
	}
	hi := int64(math.Sqrt(float64(n.smax))) + 1
	lo := int64(math.Sqrt(float64(max64(n.smin, 0)))) - 1
	if lo < 0 {
		lo = 0
	}
	k := "isqrt#" + itoa(int(n.id))
	if r := in.path.derived[k]; r != nil {
		return r
	}
	r := in.newVarRange("isqrt", 64, lo, hi, false)
	in.assumeRaw(st.Sle(st.Mul(r, r), n))
	r1 := st.Add(r, st.Const(64, 1))
	in.assumeRaw(st.Slt(n, st.Mul(r1, r1)))
	in.path.derived[k] = r
	return r
}

func (in *Interp) ffloor(f *Float, ceil bool) *Float {
	switch f.sym {
	case 0:
		if ceil {
			return in.mkF(math.Ceil(f.c))
		}
		return in.mkF(math.Floor(f.c))
	case 1:
		st := in.st
		d := st.Const(64, uint64(f.den))
		if f.den == 1 {
			return f
		}
		q, r := st.Sdiv(f.num, d), st.Srem(f.num, d)
		if ceil {
			q = st.Add(q, st.Ite(st.Slt(st.Const(64, 0), r), st.Const(64, 1), st.Const(64, 0)))
		} else {
			q = st.Sub(q, st.Ite(st.Slt(r, st.Const(64, 0)), st.Const(64, 1), st.Const(64, 0)))
		}
		return in.mkRat(q, 1, 0, "floor range")
	}
	return in.opaque("floor")
}

func (in *Interp) mergeFloat(c *Term, x, y *Float) (Value, bool) {
	if x == y || (x.sym == 0 && y.sym == 0 && math.Float64bits(x.c) == math.Float64bits(y.c)) {
		return x, true
	}
	xn, xd, xr, ok1 := in.rat(x)
	yn, yd, yr, ok2 := in.rat(y)
	if !ok1 || !ok2 || xd != yd || (x.sym == 0 && y.sym == 0 && x.c == 0) {
		return nil, false
	}
	r := xr
	if yr > r {
		r = yr
	}
	return &Float{sym: 1, num: in.st.Ite(c, xn, yn), den: xd, nrnd: r}, true
}
