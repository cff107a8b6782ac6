package main

import (
	"encoding/binary"
	"math"
	"sort"
)

// An integer polynomial normal form for bit-vector terms whose arithmetic is
// known (from intervals) not to wrap. The value of the polynomial is the signed
// value of the term. It makes terms comparable across widths and shapes: a
// 32-bit division in the code and a 64-bit one in an oracle become one term.

const (
	polyMaxDeg  = 3
	polyMaxTerm = 14
)

type mono [polyMaxDeg]*Term // sorted by id, nil padded at the end

type pterm struct {
	m mono
	c int64
}

type poly struct {
	c0 int64
	t  []pterm
}

func monoLess(a, b *mono) bool {
	for i := range a {
		x, y := tid(a[i]), tid(b[i])
		if x != y {
			return x < y
		}
	}
	return false
}

func (m *mono) deg() int {
	n := 0
	for n < len(m) && m[n] != nil {
		n++
	}
	return n
}

func polyNorm(p *poly) *poly {
	sort.Slice(p.t, func(i, j int) bool { return monoLess(&p.t[i].m, &p.t[j].m) })
	out := p.t[:0]
	for i := 0; i < len(p.t); {
		c := p.t[i].c
		j := i + 1
		for ; j < len(p.t) && p.t[j].m == p.t[i].m; j++ {
			var ok bool
			if c, ok = addS(c, p.t[j].c); !ok {
				return nil
			}
		}
		if c != 0 {
			out = append(out, pterm{p.t[i].m, c})
		}
		i = j
	}
	p.t = out
	if len(p.t) > polyMaxTerm {
		return nil
	}
	return p
}

func polyScale(p *poly, k int64) *poly {
	if k == 0 {
		return &poly{}
	}
	c, ok := mulS(p.c0, k)
	if !ok {
		return nil
	}
	r := &poly{c0: c, t: make([]pterm, len(p.t))}
	for i, x := range p.t {
		if r.t[i].c, ok = mulS(x.c, k); !ok {
			return nil
		}
		r.t[i].m = x.m
	}
	return r
}

func polyAdd(p, q *poly) *poly {
	c, ok := addS(p.c0, q.c0)
	if !ok {
		return nil
	}
	r := &poly{c0: c, t: make([]pterm, 0, len(p.t)+len(q.t))}
	r.t = append(append(r.t, p.t...), q.t...)
	return polyNorm(r)
}

func polySub(p, q *poly) *poly {
	n := polyScale(q, -1)
	if n == nil {
		return nil
	}
	return polyAdd(p, n)
}

func polyMul(p, q *poly) *poly {
	if len(p.t) == 0 {
		return polyScale(q, p.c0)
	}
	if len(q.t) == 0 {
		return polyScale(p, q.c0)
	}
	if len(p.t)*len(q.t) > 2*polyMaxTerm {
		return nil
	}
	a, b := polyScale(p, q.c0), polyScale(&poly{t: q.t}, p.c0)
	if a == nil || b == nil {
		return nil
	}
	r := &poly{c0: a.c0}
	r.t = append(append(r.t, a.t...), b.t...)
	for _, x := range p.t {
		for _, y := range q.t {
			dx, dy := x.m.deg(), y.m.deg()
			if dx+dy > polyMaxDeg {
				return nil
			}
			var m mono
			copy(m[:], x.m[:dx])
			copy(m[dx:], y.m[:dy])
			s := m[:dx+dy]
			sort.Slice(s, func(i, j int) bool { return s[i].id < s[j].id })
			c, ok := mulS(x.c, y.c)
			if !ok {
				return nil
			}
			r.t = append(r.t, pterm{m, c})
		}
	}
	return polyNorm(r)
}

func polyAtom(t *Term) *poly { return &poly{t: []pterm{{mono{t}, 1}}} }

// exact reports whether the signed value of the Add/Sub/Mul/Shl node is the
// integer result of the operation.
func exact(t *Term) bool {
	a, b, w := t.a, t.b, t.w
	in := func(lo, hi int64) bool { return lo >= sminOf(w) && hi <= smaxOf(w) }
	switch t.op {
	case OpAdd:
		lo, ok1 := addS(a.smin, b.smin)
		hi, ok2 := addS(a.smax, b.smax)
		return ok1 && ok2 && in(lo, hi)
	case OpSub:
		if b.smin == math.MinInt64 {
			return false
		}
		lo, ok1 := addS(a.smin, -b.smax)
		hi, ok2 := addS(a.smax, -b.smin)
		return ok1 && ok2 && in(lo, hi)
	case OpMul:
		for _, x := range [2]int64{a.smin, a.smax} {
			for _, y := range [2]int64{b.smin, b.smax} {
				p, ok := mulS(x, y)
				if !ok || !in(p, p) {
					return false
				}
			}
		}
		return true
	case OpShl:
		k := b.val
		return b.isConst() && k < uint64(w)-1 && a.smin >= sminOf(w)>>k && a.smax <= smaxOf(w)>>k
	}
	return false
}

// poly returns the normal form of a bit-vector term (never nil).
func (s *Store) poly(t *Term) *poly {
	if t.pl != nil {
		return t.pl
	}
	var p *poly
	switch t.op {
	case OpConst:
		p = &poly{c0: t.sval()}
	case OpAdd:
		if exact(t) {
			p = polyAdd(s.poly(t.a), s.poly(t.b))
		}
	case OpSub:
		if exact(t) {
			p = polySub(s.poly(t.a), s.poly(t.b))
		}
	case OpMul:
		if exact(t) {
			p = polyMul(s.poly(t.a), s.poly(t.b))
		}
	case OpShl:
		if exact(t) {
			p = polyScale(s.poly(t.a), 1<<t.b.val)
		}
	case OpSext:
		p = s.poly(t.a)
	case OpZext:
		if t.a.smin >= 0 {
			p = s.poly(t.a)
		} else if t.w < 64 {
			p = polyAtom(s.Zext(t.a, 64))
		}
	case OpTrunc:
		if t.a.smin >= sminOf(t.w) && t.a.smax <= smaxOf(t.w) {
			p = s.poly(t.a)
		}
	}
	if p == nil {
		p = polyAtom(t)
	}
	t.pl = p
	return p
}

// interval returns bounds of the value of p.
func (p *poly) interval() (lo, hi int64, ok bool) {
	lo, hi = p.c0, p.c0
	for _, x := range p.t {
		l, h := int64(1), int64(1)
		d := x.m.deg()
		for i := 0; i < d; i++ {
			a := x.m[i]
			al, ah := a.smin, a.smax
			if i+1 < d && x.m[i+1] == a { // a square
				i++
				q1, o1 := mulS(al, al)
				q2, o2 := mulS(ah, ah)
				if !o1 || !o2 {
					return 0, 0, false
				}
				ah = max64(q1, q2)
				if al <= 0 && a.smax >= 0 {
					al = 0
				} else {
					al = min64(q1, q2)
				}
			}
			nl, nh := int64(math.MaxInt64), int64(math.MinInt64)
			for _, u := range [2]int64{l, h} {
				for _, v := range [2]int64{al, ah} {
					q, o := mulS(u, v)
					if !o {
						return 0, 0, false
					}
					nl, nh = min64(nl, q), max64(nh, q)
				}
			}
			l, h = nl, nh
		}
		q1, o1 := mulS(l, x.c)
		q2, o2 := mulS(h, x.c)
		if !o1 || !o2 {
			return 0, 0, false
		}
		if lo, ok = addS(lo, min64(q1, q2)); !ok {
			return 0, 0, false
		}
		if hi, ok = addS(hi, max64(q1, q2)); !ok {
			return 0, 0, false
		}
	}
	return lo, hi, true
}

func (p *poly) key(pre byte) string {
	b := make([]byte, 0, 9+len(p.t)*20)
	b = append(b, pre)
	b = binary.LittleEndian.AppendUint64(b, uint64(p.c0))
	for _, x := range p.t {
		for _, a := range x.m {
			b = binary.LittleEndian.AppendUint32(b, uint32(tid(a)))
		}
		b = binary.LittleEndian.AppendUint64(b, uint64(x.c))
	}
	return string(b)
}

// lead is the sign of the leading coefficient.
func (p *poly) lead() int64 {
	c := p.c0
	if len(p.t) > 0 {
		c = p.t[0].c
	}
	if c < 0 {
		return -1
	}
	return 1
}

func gcd64(a, b uint64) uint64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// linear rebuilds sum of monomials (all of degree 1) as a 64-bit term.
func (s *Store) linear(c0 int64, ts []pterm) *Term {
	var r *Term
	for _, x := range ts {
		v := s.Mul(s.Sext(x.m[0], 64), s.Const(64, uint64(x.c)))
		if r == nil {
			r = v
		} else {
			r = s.rawAdd(r, v)
		}
	}
	if r == nil {
		return s.Const(64, uint64(c0))
	}
	return s.rawAdd(r, s.Const(64, uint64(c0)))
}

// cmpPoly tries to decide or simplify a - b ? 0. op is OpEq or OpSlt.
func (s *Store) cmpPoly(op Op, a, b *Term) *Term {
	if s.noPoly {
		return nil
	}
	pa, pb := s.poly(a), s.poly(b)
	d := polySub(pa, pb)
	if d == nil {
		return nil
	}
	if len(d.t) == 0 {
		if op == OpEq {
			return s.Bool(d.c0 == 0)
		}
		return s.Bool(d.c0 < 0)
	}
	lo, hi, ok := d.interval()
	if ok {
		if op == OpEq && (lo > 0 || hi < 0) {
			return s.fls
		}
		if op == OpSlt {
			if hi < 0 {
				return s.tru
			}
			if lo >= 0 {
				return s.fls
			}
		}
	}
	if !ok || lo < -1<<61 || hi > 1<<61 {
		return nil
	}
	g := uint64(0)
	for _, x := range d.t {
		g = gcd64(g, absU(x.c))
	}
	if op == OpEq && absU(d.c0)%g != 0 {
		return s.fls
	}
	if len(d.t) > 1 || d.t[0].m[1] != nil {
		q := &poly{t: d.t}
		neg := q.lead() < 0
		if neg {
			q = polyScale(q, -1)
		}
		if q != nil {
			if rep, ok := s.vnp[q.key('p')]; ok {
				if rep.t == a && b.isConst() || rep.t == b && a.isConst() {
					return nil
				}
				// rep.t - rep.c = +-(d - d.c0): d ? 0
				s.inPoly++
				defer func() { s.inPoly-- }()
				rt := s.Sext(rep.t, 64)
				if rep.neg == neg { // rep.t - rep.c + d.c0 ? 0
					k, o := addS(rep.c, -d.c0)
					if !o {
						return nil
					}
					if op == OpEq {
						return s.Eq(rt, s.Const(64, uint64(k)))
					}
					return s.Slt(rt, s.Const(64, uint64(k)))
				}
				k, o := addS(rep.c, d.c0) // -(rep.t-rep.c) + d.c0 ? 0
				if !o {
					return nil
				}
				if op == OpEq {
					return s.Eq(rt, s.Const(64, uint64(k)))
				}
				return s.Slt(s.Const(64, uint64(k)), rt)
			}
		}
	}
	if len(d.t) > 4 {
		return nil
	}
	for _, x := range d.t {
		if x.m[1] != nil {
			return nil
		}
	}
	if len(pa.t) > 0 && len(pb.t) > 0 && pa.t[0].m[1] == nil && len(pa.t)+len(pb.t) <= len(d.t) && g == 1 && a.op != OpAdd && b.op != OpAdd && a.op != OpSub && b.op != OpSub {
		return nil // nothing cancels
	}
	// divide by the content
	var pos, neg []pterm
	for _, x := range d.t {
		c := x.c / int64(g)
		if c > 0 {
			pos = append(pos, pterm{x.m, c})
		} else {
			neg = append(neg, pterm{x.m, -c})
		}
	}
	// g*S + c0 < 0  <=>  S < ceil(-c0/g) ; g*S + c0 == 0 <=> S == -c0/g
	k := -d.c0
	q := k / int64(g)
	if k%int64(g) != 0 && k > 0 {
		q++
	}
	s.inPoly++
	defer func() { s.inPoly-- }()
	// sum(pos) - sum(neg) < q
	var l, r *Term
	switch {
	case len(neg) == 0:
		l, r = s.linear(0, pos), s.Const(64, uint64(q))
	case len(pos) == 0:
		l, r = s.Const(64, uint64(-q)), s.linear(0, neg)
	default:
		l, r = s.linear(0, pos), s.linear(q, neg)
	}
	if op == OpEq {
		return s.Eq(l, r)
	}
	return s.Slt(l, r)
}

type divRep struct {
	t    *Term
	sign int64
}

// divCanon returns the representative of a/b or a%b (signed, truncating) if one
// with the same polynomial operands exists; register stores a new one.
func (s *Store) divKey(pre byte, a, b *Term) (key string, sign int64) {
	pa, pb := s.poly(a), s.poly(b)
	sa, sb := pa.lead(), pb.lead()
	if sa < 0 {
		if pa = polyScale(pa, -1); pa == nil {
			return "", 0
		}
	}
	if sb < 0 {
		if pb = polyScale(pb, -1); pb == nil {
			return "", 0
		}
	}
	sign = sa
	if pre == 'q' {
		sign = sa * sb
	}
	return pa.key(pre) + pb.key('/'), sign
}

func (s *Store) divLookup(key string, sign int64, w uint8) *Term {
	d, ok := s.divs[key]
	if !ok {
		return nil
	}
	t := d.t
	if t.w > w {
		if t.smin < sminOf(w) || t.smax > smaxOf(w) {
			return nil
		}
		t = s.truncFit(t, w)
	} else {
		t = s.Sext(t, w)
	}
	if d.sign != sign {
		if t.smin == sminOf(w) {
			return nil
		}
		t = s.Neg(t)
	}
	return t
}

// build makes a w-bit term with the value of p (which fits in w bits).
func (s *Store) build(p *poly, w uint8) *Term {
	var r *Term
	for _, x := range p.t {
		var v *Term
		for _, a := range x.m {
			if a == nil {
				break
			}
			e := s.Sext(a, w)
			if a.w > w {
				e = s.Trunc(a, w)
			}
			if v == nil {
				v = e
			} else {
				v = s.Mul(v, e)
			}
		}
		v = s.Mul(v, s.Const(w, uint64(x.c)))
		if r == nil {
			r = v
		} else {
			r = s.rawAdd(r, v)
		}
	}
	if r == nil {
		return s.Const(w, uint64(p.c0))
	}
	return s.rawAdd(r, s.Const(w, uint64(p.c0)))
}

// ashrPoly moves the part of a value that is a multiple of 2^k out of an
// arithmetic shift right by k: (2^k*A + B) >> k = A + B>>k.
func (s *Store) ashrPoly(a *Term, k uint64) *Term {
	if s.noPoly || k >= 62 {
		return nil
	}
	p := s.poly(a)
	if len(p.t) == 0 || len(p.t) == 1 && p.t[0].m[0] == a {
		return nil
	}
	hi := &poly{c0: p.c0 >> k}
	lo := &poly{c0: p.c0 & (1<<k - 1)}
	for _, x := range p.t {
		if x.c&(1<<k-1) != 0 {
			lo.t = append(lo.t, x)
			continue
		}
		hi.t = append(hi.t, pterm{x.m, x.c >> k})
	}
	if len(hi.t) == 0 && hi.c0 == 0 {
		return nil
	}
	for _, x := range p.t {
		for _, m := range x.m {
			if m != nil && m.w > a.w && (m.smin < sminOf(a.w) || m.smax > smaxOf(a.w)) {
				return nil
			}
		}
	}
	if len(lo.t) == 0 {
		return s.build(hi, a.w)
	}
	if l, h, ok := lo.interval(); !ok || l < sminOf(a.w) || h > smaxOf(a.w) {
		return nil
	}
	b := s.build(lo, a.w)
	if s.poly(b).key(0) != lo.key(0) { // its intervals do not show that it cannot wrap
		return nil
	}
	return s.Add(s.build(hi, a.w), s.Ashr(b, s.Const(a.w, k)))
}

// vnGet returns the representative registered under key, at width w.
func (s *Store) vnGet(key string, w uint8) *Term {
	t := s.vn[key]
	if t == nil {
		return nil
	}
	if t.w > w {
		if t.smin < sminOf(w) || t.smax > smaxOf(w) {
			return nil
		}
		return s.truncFit(t, w)
	}
	return s.Sext(t, w)
}

// polySimp replaces a sum or product whose normal form is a constant or a
// single atom, and otherwise by the first term with that normal form (up to
// a constant and the sign).
func (s *Store) polySimp(t *Term) *Term {
	if s.noPoly || t.op != OpAdd && t.op != OpSub && t.op != OpMul {
		return t
	}
	p := s.poly(t)
	if len(p.t) == 0 {
		return s.Const(t.w, uint64(p.c0))
	}
	if len(p.t) == 1 && p.t[0].m[1] == nil {
		a := p.t[0].m[0]
		if a == t {
			return t
		}
		if p.c0 == 0 && p.t[0].c == 1 {
			if a.w <= t.w {
				return s.Sext(a, t.w)
			} else if a.smin >= sminOf(t.w) && a.smax <= smaxOf(t.w) {
				return s.truncFit(a, t.w)
			}
		}
		return t
	}
	if lo, hi, ok := p.interval(); ok && (lo > t.smin || hi < t.smax) {
		if t = s.boundTo(t, lo, hi); t.isConst() {
			return t
		}
	}
	q := &poly{t: p.t}
	neg := q.lead() < 0
	if neg {
		if q = polyScale(q, -1); q == nil {
			return t
		}
	}
	key := q.key('p')
	rep, ok := s.vnp[key]
	if !ok {
		if t.op == OpAdd && t.b.isConst() {
			s.vnp[key] = polyRep{t.a, p.c0 - t.b.sval(), neg}
		} else {
			s.vnp[key] = polyRep{t, p.c0, neg}
		}
		return t
	}
	r := rep.t
	if r.w > t.w {
		if r.smin < sminOf(t.w) || r.smax > smaxOf(t.w) {
			return t
		}
		r = s.truncFit(r, t.w)
	} else {
		r = s.Sext(r, t.w)
	}
	// rep = +-q + rep.c ; t = +-q + c
	if rep.neg == neg {
		return s.rawAdd(r, s.Const(t.w, uint64(p.c0-rep.c)))
	}
	return s.rawSub(s.Const(t.w, uint64(p.c0+rep.c)), r)
}

type polyRep struct {
	t   *Term
	c   int64
	neg bool
}

func (s *Store) vnIte(t *Term) *Term {
	if s.noPoly {
		return t
	}
	key := "i" + string(binary.LittleEndian.AppendUint32(nil, uint32(t.a.id))) + s.poly(t.b).key(':') + s.poly(t.c).key(':')
	if r := s.vnGet(key, t.w); r != nil {
		return r
	}
	s.vn[key] = t
	return t
}

func (s *Store) resetVN() {
	clear(s.vn)
	clear(s.vnp)
	clear(s.divs)
	s.pc.reset()
}

// truncFit truncates a value that fits, without pushing the truncation inwards.
func (s *Store) truncFit(t *Term, w uint8) *Term {
	if t.op == OpConst || t.op == OpSext && t.a.w <= w || t.op == OpZext && t.a.w <= w {
		return s.Trunc(t, w)
	}
	return s.mk(tkey{op: OpTrunc, w: w}, t, nil, nil)
}
