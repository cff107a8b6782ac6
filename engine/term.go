package main

import (
	"fmt"
	"math"
	"math/bits"
	"os"
)

// Op is a term operator. All terms are bit-vectors (w > 0) or booleans (w == 0).
type Op uint8

const (
	OpVar Op = iota
	OpConst
	OpNot // bool
	OpAnd
	OpOr
	OpIte
	OpEq
	OpUlt
	OpSlt
	OpAdd
	OpSub
	OpMul
	OpUdiv
	OpUrem
	OpSdiv
	OpSrem
	OpBAnd
	OpBOr
	OpBXor
	OpShl
	OpLshr
	OpAshr
	OpZext
	OpSext
	OpTrunc
)

var opNames = [...]string{"var", "const", "not", "and", "or", "ite", "=", "bvult", "bvslt", "bvadd", "bvsub", "bvmul",
	"bvudiv", "bvurem", "bvsdiv", "bvsrem", "bvand", "bvor", "bvxor", "bvshl", "bvlshr", "bvashr", "zext", "sext", "trunc"}

// Term is a hash-consed node. Intervals are sound over-approximations of the
// value both as an unsigned and as a signed number.
type Term struct {
	op      Op
	w       uint8
	id      int32
	a, b, c *Term
	val     uint64 // OpConst: value; OpVar: index
	umin    uint64
	umax    uint64
	smin    int64
	smax    int64
	name    string
	evGen   int32
	emGen   int32
	evVal   uint64
	nvars   bool  // contains a variable
	nn      uint8 // natural width for emission (0: not fixed yet)
	nu      bool
	pl      *poly // integer normal form, when computed
}

type tkey struct {
	op      Op
	w       uint8
	a, b, c int32
	val     uint64
}

// Store creates terms for one worker.
type Store struct {
	tab    map[tkey]*Term
	vars   map[string]*Term
	next   int32
	tru    *Term
	fls    *Term
	small  [65][]*Term
	divs   map[string]divRep
	vn     map[string]*Term
	vnp    map[string]polyRep
	noPoly bool
	inPoly int
	evGen  int32
	pc     pieces
}

func NewStore() *Store {
	s := &Store{tab: make(map[tkey]*Term, 1<<14), vars: map[string]*Term{}, divs: map[string]divRep{}, vn: map[string]*Term{}, vnp: map[string]polyRep{}, pc: newPieces(), noPoly: os.Getenv("VNOPOLY") != ""}
	s.tru = s.mk(tkey{op: OpConst, w: 0, val: 1}, nil, nil, nil)
	s.fls = s.mk(tkey{op: OpConst, w: 0, val: 0}, nil, nil, nil)
	return s
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<w - 1
}

func sx(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	return int64(v<<(64-w)) >> (64 - w)
}

func smaxOf(w uint8) int64 { return int64(mask(w) >> 1) }
func sminOf(w uint8) int64 { return -int64(mask(w)>>1) - 1 }

func (t *Term) isConst() bool { return t.op == OpConst }
func (t *Term) isTrue() bool  { return t.op == OpConst && t.w == 0 && t.val == 1 }
func (t *Term) isFalse() bool { return t.op == OpConst && t.w == 0 && t.val == 0 }
func (t *Term) sval() int64   { return sx(t.val, t.w) }

func tid(t *Term) int32 {
	if t == nil {
		return -1
	}
	return t.id
}

func (s *Store) mk(k tkey, a, b, c *Term) *Term {
	k.a, k.b, k.c = tid(a), tid(b), tid(c)
	if t := s.tab[k]; t != nil {
		return t
	}
	t := &Term{op: k.op, w: k.w, id: s.next, a: a, b: b, c: c, val: k.val}
	s.next++
	s.bounds(t)
	if t.w > 0 && t.op != OpConst && t.umin == t.umax {
		// interval says constant
		s.next--
		ct := s.Const(t.w, t.umin)
		s.tab[k] = ct
		return ct
	}
	s.tab[k] = t
	return t
}

func (s *Store) Const(w uint8, v uint64) *Term {
	if w == 0 {
		if v != 0 {
			return s.tru
		}
		return s.fls
	}
	v &= mask(w)
	if v < 512 {
		if s.small[w] == nil {
			s.small[w] = make([]*Term, 512)
		}
		if t := s.small[w][v]; t != nil {
			return t
		}
		t := s.mk(tkey{op: OpConst, w: w, val: v}, nil, nil, nil)
		s.small[w][v] = t
		return t
	}
	return s.mk(tkey{op: OpConst, w: w, val: v}, nil, nil, nil)
}

func (s *Store) Bool(b bool) *Term {
	if b {
		return s.tru
	}
	return s.fls
}

// Var returns the variable with the given (path-unique) name.
func (s *Store) Var(name string, w uint8) *Term {
	key := fmt.Sprintf("%s:%d", name, w)
	if t := s.vars[key]; t != nil {
		return t
	}
	t := &Term{op: OpVar, w: w, id: s.next, name: name, nvars: true}
	s.next++
	if w > 0 {
		t.umax = mask(w)
		t.smin, t.smax = sminOf(w), smaxOf(w)
	}
	s.vars[key] = t
	return t
}

// ---- intervals ----

func addS(a, b int64) (int64, bool) {
	c := a + b
	if (a > 0 && b > 0 && c < 0) || (a < 0 && b < 0 && c >= 0) {
		return 0, false
	}
	return c, true
}

func mulS(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	hi, lo := bits.Mul64(absU(a), absU(b))
	if hi != 0 {
		return 0, false
	}
	if (a < 0) != (b < 0) {
		if lo > 1<<63 {
			return 0, false
		}
		return int64(-lo), true
	}
	if lo > math.MaxInt64 {
		return 0, false
	}
	return int64(lo), true
}

func absU(a int64) uint64 {
	if a < 0 {
		return uint64(-a)
	}
	return uint64(a)
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}
func max64(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

// bounds computes the intervals of a new term.
func (s *Store) bounds(t *Term) {
	w := t.w
	if t.op != OpConst {
		t.nvars = true
	}
	if w == 0 {
		return
	}
	t.umin, t.umax = 0, mask(w)
	t.smin, t.smax = sminOf(w), smaxOf(w)
	a, b := t.a, t.b
	setU := func(lo, hi uint64) {
		if lo > t.umin {
			t.umin = lo
		}
		if hi < t.umax {
			t.umax = hi
		}
	}
	setS := func(lo, hi int64) {
		if lo > t.smin {
			t.smin = lo
		}
		if hi < t.smax {
			t.smax = hi
		}
	}
	switch t.op {
	case OpConst:
		setU(t.val, t.val)
		setS(t.sval(), t.sval())
		return
	case OpIte:
		setU(minU(b.umin, t.c.umin), maxU(b.umax, t.c.umax))
		setS(min64(b.smin, t.c.smin), max64(b.smax, t.c.smax))
	case OpAdd:
		if hi := a.umax + b.umax; hi >= a.umax && hi <= mask(w) {
			setU(a.umin+b.umin, hi)
		}
		lo, ok1 := addS(a.smin, b.smin)
		hi, ok2 := addS(a.smax, b.smax)
		if ok1 && ok2 && lo >= sminOf(w) && hi <= smaxOf(w) {
			setS(lo, hi)
		}
	case OpSub:
		if a.umin >= b.umax {
			setU(a.umin-b.umax, a.umax-b.umin)
		}
		if b.smin != math.MinInt64 {
			lo, ok1 := addS(a.smin, -b.smax)
			hi, ok2 := addS(a.smax, -b.smin)
			if ok1 && ok2 && lo >= sminOf(w) && hi <= smaxOf(w) {
				setS(lo, hi)
			}
		}
	case OpMul:
		h, l := bits.Mul64(a.umax, b.umax)
		if h == 0 && l <= mask(w) {
			setU(a.umin*b.umin, l)
		}
		ok := true
		lo, hi := int64(math.MaxInt64), int64(math.MinInt64)
		for _, x := range [2]int64{a.smin, a.smax} {
			for _, y := range [2]int64{b.smin, b.smax} {
				p, o := mulS(x, y)
				ok = ok && o
				lo, hi = min64(lo, p), max64(hi, p)
			}
		}
		if a == b {
			lo = max64(lo, 0)
		}
		if ok && lo >= sminOf(w) && hi <= smaxOf(w) {
			setS(lo, hi)
		}
	case OpUdiv:
		if b.umin > 0 {
			setU(a.umin/b.umax, a.umax/b.umin)
		}
	case OpUrem:
		if b.umin > 0 {
			setU(0, minU(a.umax, b.umax-1))
		}
	case OpSdiv:
		if b.smin > 0 || b.smax < 0 {
			if !(a.smin == sminOf(w) && b.smin <= -1 && b.smax >= -1) {
				lo, hi := int64(math.MaxInt64), int64(math.MinInt64)
				for _, x := range [2]int64{a.smin, a.smax} {
					for _, y := range [2]int64{b.smin, b.smax} {
						q := x / y
						lo, hi = min64(lo, q), max64(hi, q)
					}
				}
				if a.smin <= 0 && a.smax >= 0 {
					lo, hi = min64(lo, 0), max64(hi, 0)
				}
				setS(lo, hi)
			}
		} else if a.smin != math.MinInt64 && a.smin > sminOf(w) {
			m := max64(a.smax, -a.smin)
			setS(-m, m)
		}
	case OpSrem:
		if b.smin > 0 || b.smax < 0 || true {
			// |r| <= |a| and |r| < |b| (b != 0)
			mb := int64(math.MaxInt64)
			if b.smin != math.MinInt64 {
				mb = max64(b.smax, -b.smin) - 1
			}
			if b.smin > 0 || b.smax < 0 {
				hi := min64(max64(a.smax, 0), mb)
				lo := int64(0)
				if a.smin < 0 {
					if a.smin == math.MinInt64 {
						lo = -mb
					} else {
						lo = max64(a.smin, -mb)
					}
				}
				setS(lo, hi)
			}
		}
	case OpBAnd:
		setU(0, minU(a.umax, b.umax))
		if a.smin >= 0 || b.smin >= 0 {
			m := smaxOf(w)
			if a.smin >= 0 {
				m = min64(m, a.smax)
			}
			if b.smin >= 0 {
				m = min64(m, b.smax)
			}
			setS(0, m)
		} else if a.smax < 0 && b.smax < 0 {
			setS(sminOf(w), -1)
		}
		// x & const: align bounds when mask clears low bits
		if b.isConst() {
			m := b.val
			lowz := uint64(bits.TrailingZeros64(m))
			if ^m&mask(w) == (uint64(1)<<lowz)-1 { // high mask
				setU(a.umin&m, a.umax&m)
				setS(a.smin&^int64((1<<lowz)-1), a.smax&^int64((1<<lowz)-1))
			} else if m&(m+1) == 0 { // low mask
				if a.umin&^m == a.umax&^m {
					setU(a.umin&m, a.umax&m)
				}
			}
		}
	case OpBOr:
		n := bits.Len64(a.umax | b.umax)
		setU(maxU(a.umin, b.umin), mask(uint8(n)))
		if n == 0 {
			setU(0, 0)
		}
		if a.smax < 0 || b.smax < 0 {
			setS(sminOf(w), -1)
		}
	case OpBXor:
		n := bits.Len64(a.umax | b.umax)
		if n < 64 {
			setU(0, 1<<n-1)
		}
	case OpShl:
		if b.isConst() && b.val < uint64(w) {
			k := b.val
			if a.umax <= mask(w)>>k {
				setU(a.umin<<k, a.umax<<k)
			}
			if a.smin >= sminOf(w)>>k && a.smax <= smaxOf(w)>>k {
				setS(a.smin<<k, a.smax<<k)
			}
		} else if b.umax < uint64(w) {
			k := b.umax
			if a.umax <= mask(w)>>k {
				setU(a.umin<<b.umin, a.umax<<k)
			}
		}
	case OpLshr:
		if b.umax < uint64(w) {
			setU(a.umin>>b.umax, a.umax>>b.umin)
		} else {
			setU(0, a.umax)
		}
	case OpAshr:
		if b.isConst() && b.val < uint64(w) {
			setS(a.smin>>b.val, a.smax>>b.val)
		} else {
			setS(min64(a.smin, 0), max64(a.smax, 0))
			if a.smax < 0 {
				setS(sminOf(w), -1)
			}
		}
	case OpZext:
		setU(a.umin, a.umax)
	case OpSext:
		setS(a.smin, a.smax)
	case OpTrunc:
		if a.umax <= mask(w) {
			setU(a.umin, a.umax)
		}
		if a.smin >= sminOf(w) && a.smax <= smaxOf(w) {
			setS(a.smin, a.smax)
		}
	}
	s.reconcile(t)
}

func (s *Store) reconcile(t *Term) {
	w := t.w
	for i := 0; i < 2; i++ {
		if t.umax <= uint64(smaxOf(w)) { // non-negative
			t.smin = max64(t.smin, int64(t.umin))
			t.smax = min64(t.smax, int64(t.umax))
		} else if t.umin > uint64(smaxOf(w)) { // negative
			t.smin = max64(t.smin, sx(t.umin, w))
			t.smax = min64(t.smax, sx(t.umax, w))
		}
		if t.smin >= 0 {
			t.umin = maxU(t.umin, uint64(t.smin))
			t.umax = minU(t.umax, uint64(t.smax))
		} else if t.smax < 0 {
			t.umin = maxU(t.umin, uint64(t.smin)&mask(w))
			t.umax = minU(t.umax, uint64(t.smax)&mask(w))
		}
	}
}

func minU(a, b uint64) uint64 {
	if a < b {
		return a
	}
	return b
}
func maxU(a, b uint64) uint64 {
	if a > b {
		return a
	}
	return b
}

// ---- boolean constructors ----

func (s *Store) Not(a *Term) *Term {
	if a.isConst() {
		return s.Bool(a.val == 0)
	}
	if a.op == OpNot {
		return a.a
	}
	return s.mk(tkey{op: OpNot}, a, nil, nil)
}

func (s *Store) And(a, b *Term) *Term {
	if a.isFalse() || b.isFalse() {
		return s.fls
	}
	if a.isTrue() {
		return b
	}
	if b.isTrue() || a == b {
		return a
	}
	if (a.op == OpNot && a.a == b) || (b.op == OpNot && b.a == a) {
		return s.fls
	}
	if a.id > b.id {
		a, b = b, a
	}
	return s.mk(tkey{op: OpAnd}, a, b, nil)
}

func (s *Store) Or(a, b *Term) *Term {
	if a.isTrue() || b.isTrue() {
		return s.tru
	}
	if a.isFalse() {
		return b
	}
	if b.isFalse() || a == b {
		return a
	}
	if (a.op == OpNot && a.a == b) || (b.op == OpNot && b.a == a) {
		return s.tru
	}
	if a.id > b.id {
		a, b = b, a
	}
	return s.mk(tkey{op: OpOr}, a, b, nil)
}

func (s *Store) Implies(a, b *Term) *Term { return s.Or(s.Not(a), b) }

func (s *Store) Ite(c, a, b *Term) *Term {
	t := s.rawIte(c, a, b)
	if t.w > 0 && t.op == OpIte {
		return s.vnIte(t)
	}
	return t
}

func (s *Store) rawIte(c, a, b *Term) *Term {
	if c.isTrue() {
		return a
	}
	if c.isFalse() {
		return b
	}
	if a == b {
		return a
	}
	if c.op == OpNot {
		return s.Ite(c.a, b, a)
	}
	if a.w != b.w {
		panic(fmt.Sprintf("ite width mismatch %d %d", a.w, b.w))
	}
	if a.w == 0 {
		if a.isTrue() {
			return s.Or(c, b)
		}
		if a.isFalse() {
			return s.And(s.Not(c), b)
		}
		if b.isTrue() {
			return s.Or(s.Not(c), a)
		}
		if b.isFalse() {
			return s.And(c, a)
		}
	}
	if a.op == OpIte && a.a == c {
		a = a.b
	}
	if b.op == OpIte && b.a == c {
		b = b.c
	}
	if a == b {
		return a
	}
	return s.mk(tkey{op: OpIte, w: a.w}, c, a, b)
}

// ---- comparisons ----

func (s *Store) Eq(a, b *Term) *Term {
	if a == b {
		return s.tru
	}
	if a.w != b.w {
		panic(fmt.Sprintf("eq width mismatch %d %d", a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return s.Bool(a.val == b.val)
	}
	if a.w == 0 {
		if a.isConst() {
			a, b = b, a
		}
		if b.isTrue() {
			return a
		}
		if b.isFalse() {
			return s.Not(a)
		}
	} else {
		if a.umax < b.umin || b.umax < a.umin || a.smax < b.smin || b.smax < a.smin {
			return s.fls
		}
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			switch a.op {
			case OpZext:
				if b.val <= mask(a.a.w) {
					return s.Eq(a.a, s.Const(a.a.w, b.val))
				}
				return s.fls
			case OpSext:
				if v := b.sval(); v >= sminOf(a.a.w) && v <= smaxOf(a.a.w) {
					return s.Eq(a.a, s.Const(a.a.w, uint64(v)))
				}
				return s.fls
			case OpAdd:
				if a.b.isConst() {
					return s.Eq(a.a, s.Const(a.w, b.val-a.b.val))
				}
			case OpIte:
				if a.b.isConst() && a.c.isConst() {
					x, y := a.b.val == b.val, a.c.val == b.val
					switch {
					case x && !y:
						return a.a
					case y && !x:
						return s.Not(a.a)
					case !x && !y:
						return s.fls
					}
				}
				if a.b.isConst() || a.c.isConst() {
					return s.Ite(a.a, s.Eq(a.b, b), s.Eq(a.c, b))
				}
			case OpSub:
				if b.val == 0 {
					return s.Eq(a.a, a.b)
				}
			}
		} else {
			if a.op == OpZext && b.op == OpZext && a.a.w == b.a.w {
				return s.Eq(a.a, b.a)
			}
			if a.op == OpSext && b.op == OpSext && a.a.w == b.a.w {
				return s.Eq(a.a, b.a)
			}
			if a.op == OpAdd && b.op == OpAdd && a.b == b.b {
				return s.Eq(a.a, b.a)
			}
			if a.op == OpAdd && a.b.isConst() && a.a == b {
				return s.Bool(a.b.val == 0)
			}
			if b.op == OpAdd && b.b.isConst() && b.a == a {
				return s.Bool(b.b.val == 0)
			}
		}
	}
	if a.w > 0 && s.inPoly == 0 {
		if t := s.cmpPoly(OpEq, a, b); t != nil {
			return t
		}
	}
	if a.id > b.id && !b.isConst() {
		a, b = b, a
	}
	return s.mk(tkey{op: OpEq}, a, b, nil)
}

func (s *Store) Ult(a, b *Term) *Term {
	if a == b {
		return s.fls
	}
	if a.umax < b.umin {
		return s.tru
	}
	if a.umin >= b.umax {
		return s.fls
	}
	if b.isConst() && b.val == 1 {
		return s.Eq(a, s.Const(a.w, 0))
	}
	if a.op == OpZext && b.op == OpZext && a.a.w == b.a.w {
		return s.Ult(a.a, b.a)
	}
	if a.op == OpZext && b.isConst() && b.val <= mask(a.a.w) {
		return s.Ult(a.a, s.Const(a.a.w, b.val))
	}
	if b.op == OpZext && a.isConst() && a.val <= mask(b.a.w) {
		return s.Ult(s.Const(b.a.w, a.val), b.a)
	}
	if s.inPoly == 0 && a.smin >= 0 && b.smin >= 0 {
		if t := s.cmpPoly(OpSlt, a, b); t != nil {
			return t
		}
	}
	return s.mk(tkey{op: OpUlt}, a, b, nil)
}

func (s *Store) noSOvf(t *Term) bool { // t is OpAdd with const b and no signed overflow
	lo, ok1 := addS(t.a.smin, t.b.smin)
	hi, ok2 := addS(t.a.smax, t.b.smax)
	return ok1 && ok2 && lo >= sminOf(t.w) && hi <= smaxOf(t.w)
}

func (s *Store) Slt(a, b *Term) *Term {
	if a == b {
		return s.fls
	}
	if a.smax < b.smin {
		return s.tru
	}
	if a.smin >= b.smax {
		return s.fls
	}
	if a.op == OpAdd && a.b.isConst() && b.isConst() && s.noSOvf(a) {
		if d, ok := addS(b.sval(), -a.b.sval()); ok && a.b.sval() != math.MinInt64 && d >= sminOf(a.w) && d <= smaxOf(a.w) {
			return s.Slt(a.a, s.Const(a.w, uint64(d)))
		}
	}
	if b.op == OpAdd && b.b.isConst() && a.isConst() && s.noSOvf(b) {
		if d, ok := addS(a.sval(), -b.b.sval()); ok && b.b.sval() != math.MinInt64 && d >= sminOf(a.w) && d <= smaxOf(a.w) {
			return s.Slt(s.Const(a.w, uint64(d)), b.a)
		}
	}
	if a.op == OpSext && b.op == OpSext && a.a.w == b.a.w {
		return s.Slt(a.a, b.a)
	}
	if a.op == OpSext && b.isConst() {
		if v := b.sval(); v >= sminOf(a.a.w) && v <= smaxOf(a.a.w) {
			return s.Slt(a.a, s.Const(a.a.w, uint64(v)))
		}
	}
	if b.op == OpSext && a.isConst() {
		if v := a.sval(); v >= sminOf(b.a.w) && v <= smaxOf(b.a.w) {
			return s.Slt(s.Const(b.a.w, uint64(v)), b.a)
		}
	}
	if a.smin >= 0 && b.smin >= 0 {
		return s.Ult(a, b)
	}
	if s.inPoly == 0 {
		if t := s.cmpPoly(OpSlt, a, b); t != nil {
			return t
		}
	}
	return s.mk(tkey{op: OpSlt}, a, b, nil)
}

func (s *Store) Ule(a, b *Term) *Term { return s.Not(s.Ult(b, a)) }
func (s *Store) Sle(a, b *Term) *Term { return s.Not(s.Slt(b, a)) }

// ---- arithmetic ----

func evalOp(op Op, w uint8, x, y uint64) uint64 {
	m := mask(w)
	switch op {
	case OpAdd:
		return (x + y) & m
	case OpSub:
		return (x - y) & m
	case OpMul:
		return (x * y) & m
	case OpUdiv:
		if y == 0 {
			return m
		}
		return x / y
	case OpUrem:
		if y == 0 {
			return x
		}
		return x % y
	case OpSdiv:
		sx_, sy := sx(x, w), sx(y, w)
		if sy == 0 {
			if sx_ < 0 {
				return 1
			}
			return m
		}
		if sy == -1 {
			return uint64(-sx_) & m
		}
		return uint64(sx_/sy) & m
	case OpSrem:
		sx_, sy := sx(x, w), sx(y, w)
		if sy == 0 {
			return x
		}
		if sy == -1 {
			return 0
		}
		return uint64(sx_%sy) & m
	case OpBAnd:
		return x & y
	case OpBOr:
		return x | y
	case OpBXor:
		return x ^ y
	case OpShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OpLshr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OpAshr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sx(x, w)>>y) & m
	}
	panic("evalOp")
}

func (s *Store) Add(a, b *Term) *Term { return s.polySimp(s.rawAdd(a, b)) }

func (s *Store) rawAdd(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return s.Const(a.w, a.val+b.val)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.val == 0 {
			return a
		}
		if a.op == OpAdd && a.b.isConst() {
			return s.rawAdd(a.a, s.Const(a.w, a.b.val+b.val))
		}
		if a.op == OpIte && a.b.isConst() && a.c.isConst() {
			return s.Ite(a.a, s.Const(a.w, a.b.val+b.val), s.Const(a.w, a.c.val+b.val))
		}
		return s.mk(tkey{op: OpAdd, w: a.w}, a, b, nil)
	}
	// pull constants out: (x + c) + y -> (x+y)+c
	if a.op == OpAdd && a.b.isConst() {
		return s.rawAdd(s.rawAdd(a.a, b), a.b)
	}
	if b.op == OpAdd && b.b.isConst() {
		return s.rawAdd(s.rawAdd(a, b.a), b.b)
	}
	if a.op == OpSub && a.b == b {
		return a.a
	}
	if b.op == OpSub && b.b == a {
		return b.a
	}
	if a.id > b.id {
		a, b = b, a
	}
	return s.mk(tkey{op: OpAdd, w: a.w}, a, b, nil)
}

func (s *Store) Sub(a, b *Term) *Term { return s.polySimp(s.rawSub(a, b)) }

func (s *Store) rawSub(a, b *Term) *Term {
	if a == b {
		return s.Const(a.w, 0)
	}
	if b.isConst() {
		return s.rawAdd(a, s.Const(a.w, -b.val))
	}
	if a.op == OpAdd && a.b.isConst() {
		return s.rawAdd(s.rawSub(a.a, b), a.b)
	}
	if b.op == OpAdd && b.b.isConst() {
		return s.rawAdd(s.rawSub(a, b.a), s.Const(a.w, -b.b.val))
	}
	if a.op == OpAdd {
		if a.a == b {
			return a.b
		}
		if a.b == b {
			return a.a
		}
	}
	if b.op == OpSub && b.a == a {
		return b.b
	}
	return s.mk(tkey{op: OpSub, w: a.w}, a, b, nil)
}

func (s *Store) Neg(a *Term) *Term { return s.Sub(s.Const(a.w, 0), a) }

func (s *Store) Mul(a, b *Term) *Term { return s.polySimp(s.rawMul(a, b)) }

func (s *Store) rawMul(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return s.Const(a.w, a.val*b.val)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		switch {
		case b.val == 0:
			return b
		case b.val == 1:
			return a
		case b.val == mask(b.w):
			return s.Neg(a)
		case b.val&(b.val-1) == 0:
			return s.Shl(a, s.Const(a.w, uint64(bits.TrailingZeros64(b.val))))
		}
		if a.op == OpIte && a.b.isConst() && a.c.isConst() {
			return s.Ite(a.a, s.Const(a.w, a.b.val*b.val), s.Const(a.w, a.c.val*b.val))
		}
		return s.mk(tkey{op: OpMul, w: a.w}, a, b, nil)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return s.mk(tkey{op: OpMul, w: a.w}, a, b, nil)
}

func (s *Store) bin(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return s.Const(a.w, evalOp(op, a.w, a.val, b.val))
	}
	return s.mk(tkey{op: op, w: a.w}, a, b, nil)
}

func (s *Store) Udiv(a, b *Term) *Term {
	if b.isConst() && b.val != 0 {
		if b.val == 1 {
			return a
		}
		if b.val&(b.val-1) == 0 {
			return s.Lshr(a, s.Const(a.w, uint64(bits.TrailingZeros64(b.val))))
		}
	}
	if b.umin > a.umax {
		return s.Const(a.w, 0)
	}
	return s.bin(OpUdiv, a, b)
}

func (s *Store) Urem(a, b *Term) *Term {
	if b.isConst() && b.val != 0 && b.val&(b.val-1) == 0 {
		return s.BAnd(a, s.Const(a.w, b.val-1))
	}
	if b.umin > a.umax {
		return a
	}
	return s.bin(OpUrem, a, b)
}

// Sdiv truncates (Go semantics); the divisor is known to be non-zero.
func (s *Store) Sdiv(a, b *Term) *Term { return s.sdivrem('q', a, b, s.rawSdiv) }

func (s *Store) sdivrem(pre byte, a, b *Term, f func(a, b *Term) *Term) *Term {
	if s.noPoly || a.isConst() && b.isConst() || a.smin == sminOf(a.w) || b.smin <= 0 && b.smax >= 0 && b.smin == sminOf(b.w) {
		return f(a, b)
	}
	key, sign := s.divKey(pre, a, b)
	if key == "" {
		return f(a, b)
	}
	if t := s.divLookup(key, sign, a.w); t != nil {
		return t
	}
	t := f(a, b)
	s.divs[key] = divRep{t, sign}
	return t
}

func (s *Store) rawSdiv(a, b *Term) *Term {
	if a.smin >= 0 && b.smin >= 0 {
		return s.Udiv(a, b)
	}
	if b.isConst() {
		v := b.sval()
		if v == 1 {
			return a
		}
		if v == -1 {
			return s.Neg(a)
		}
		// exact multiple: (x << k) / 2^k with no overflow
		if v > 0 && v&(v-1) == 0 {
			k := uint64(bits.TrailingZeros64(uint64(v)))
			if a.op == OpShl && a.b.isConst() && a.b.val >= k && a.a.smin >= sminOf(a.w)>>a.b.val && a.a.smax <= smaxOf(a.w)>>a.b.val {
				return s.Shl(a.a, s.Const(a.w, a.b.val-k))
			}
			if a.smax <= 0 && a.smin > sminOf(a.w) {
				return s.Neg(s.Lshr(s.Neg(a), s.Const(a.w, k)))
			}
			if a.isConst() {
				return s.bin(OpSdiv, a, b)
			}
			if a.smin > sminOf(a.w) {
				// (a + ((a>>w-1) & (2^k-1))) >> k, as arithmetic
				bias := s.BAnd(s.Ashr(a, s.Const(a.w, uint64(a.w-1))), s.Const(a.w, uint64(v)-1))
				q := s.Ashr(s.Add(a, bias), s.Const(a.w, k))
				if nz := s.boundTo(q, a.smin/v, a.smax/v); nz != nil {
					return nz
				}
				return q
			}
		}
	}
	return s.bin(OpSdiv, a, b)
}

// boundTo tightens the interval of a term that is known (by construction) to
// lie in [lo, hi]. Terms are shared, so this is only sound for facts that hold
// unconditionally.
func (s *Store) boundTo(t *Term, lo, hi int64) *Term {
	if t.isConst() {
		return t
	}
	if lo == hi {
		return s.Const(t.w, uint64(lo))
	}
	t.smin, t.smax = max64(t.smin, lo), min64(t.smax, hi)
	s.reconcile(t)
	return t
}

func (s *Store) Srem(a, b *Term) *Term { return s.sdivrem('r', a, b, s.rawSrem) }

func (s *Store) rawSrem(a, b *Term) *Term {
	if a.smin >= 0 && b.smin >= 0 {
		return s.Urem(a, b)
	}
	if a.smin >= 0 && b.isConst() && b.sval() < 0 && b.sval() > sminOf(b.w) {
		return s.Urem(a, s.Const(a.w, uint64(-b.sval())))
	}
	if b.isConst() {
		v := b.sval()
		if v < 0 && v > sminOf(b.w) {
			v = -v
		}
		if v == 1 {
			return s.Const(a.w, 0)
		}
		if v > 0 && v&(v-1) == 0 && !a.isConst() && a.smin > sminOf(a.w) {
			r := s.Sub(a, s.Mul(s.Sdiv(a, s.Const(a.w, uint64(v))), s.Const(a.w, uint64(v))))
			lo, hi := -(v - 1), v-1
			if a.smin >= 0 {
				lo = 0
			}
			if a.smax <= 0 {
				hi = 0
			}
			return s.boundTo(r, lo, hi)
		}
	}
	return s.bin(OpSrem, a, b)
}

func (s *Store) BAnd(a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if a == b {
		return a
	}
	if b.isConst() {
		if a.isConst() {
			return s.Const(a.w, a.val&b.val)
		}
		if b.val == 0 {
			return b
		}
		if b.val == mask(a.w) {
			return a
		}
		if b.val&(b.val+1) == 0 && a.umax <= b.val {
			return a
		}
		if a.op == OpBAnd && a.b.isConst() {
			return s.BAnd(a.a, s.Const(a.w, a.b.val&b.val))
		}
		if a.op == OpZext {
			if b.val&mask(a.a.w) == mask(a.a.w) {
				return a
			}
			return s.Zext(s.BAnd(a.a, s.Const(a.a.w, b.val)), a.w)
		}
		return s.mk(tkey{op: OpBAnd, w: a.w}, a, b, nil)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return s.mk(tkey{op: OpBAnd, w: a.w}, a, b, nil)
}

func (s *Store) BOr(a, b *Term) *Term {
	if r := s.joinPieces(a, b); r != nil {
		return r
	}
	if a.isConst() {
		a, b = b, a
	}
	if a == b {
		return a
	}
	if b.isConst() {
		if a.isConst() {
			return s.Const(a.w, a.val|b.val)
		}
		if b.val == 0 {
			return a
		}
		if b.val == mask(a.w) {
			return b
		}
		return s.mk(tkey{op: OpBOr, w: a.w}, a, b, nil)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return s.mk(tkey{op: OpBOr, w: a.w}, a, b, nil)
}

func (s *Store) BXor(a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if a == b {
		return s.Const(a.w, 0)
	}
	if b.isConst() {
		if a.isConst() {
			return s.Const(a.w, a.val^b.val)
		}
		if b.val == 0 {
			return a
		}
		return s.mk(tkey{op: OpBXor, w: a.w}, a, b, nil)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return s.mk(tkey{op: OpBXor, w: a.w}, a, b, nil)
}

func (s *Store) Shl(a, b *Term) *Term {
	r := s.shl1(a, b)
	if b.isConst() {
		s.noteShl(r, a, b.val)
	}
	return r
}

func (s *Store) shl1(a, b *Term) *Term {
	if b.isConst() {
		if b.val == 0 {
			return a
		}
		if b.val >= uint64(a.w) {
			return s.Const(a.w, 0)
		}
		if a.op == OpShl && a.b.isConst() {
			return s.Shl(a.a, s.Const(a.w, a.b.val+b.val))
		}
		if a.op == OpAdd && a.b.isConst() {
			return s.Add(s.Shl(a.a, b), s.Const(a.w, a.b.val<<b.val))
		}
	}
	return s.bin(OpShl, a, b)
}

func (s *Store) Lshr(a, b *Term) *Term {
	r := s.lshr1(a, b)
	if b.isConst() {
		s.noteShr(r, a, b.val)
	}
	return r
}

func (s *Store) lshr1(a, b *Term) *Term {
	if b.isConst() {
		if b.val == 0 {
			return a
		}
		if b.val >= uint64(a.w) {
			return s.Const(a.w, 0)
		}
		if a.op == OpZext {
			if b.val >= uint64(a.a.w) {
				return s.Const(a.w, 0)
			}
			return s.Zext(s.Lshr(a.a, s.Const(a.a.w, b.val)), a.w)
		}
	}
	return s.bin(OpLshr, a, b)
}

func (s *Store) Ashr(a, b *Term) *Term {
	r := s.ashr1(a, b)
	if b.isConst() {
		s.noteShr(r, a, b.val)
	}
	return r
}

func (s *Store) ashr1(a, b *Term) *Term {
	if b.isConst() && b.val < uint64(a.w) && b.val > 0 && !a.isConst() && !s.noPoly {
		if t := s.ashrPoly(a, b.val); t != nil {
			return t
		}
		key := s.poly(a).key(byte(b.val))
		if t := s.vnGet(key, a.w); t != nil {
			return t
		}
		t := s.rawAshr(a, b)
		s.vn[key] = t
		return t
	}
	return s.rawAshr(a, b)
}

func (s *Store) rawAshr(a, b *Term) *Term {
	if a.smin >= 0 {
		return s.Lshr(a, b)
	}
	if b.isConst() {
		if b.val == 0 {
			return a
		}
		if b.val >= uint64(a.w) {
			b = s.Const(a.w, uint64(a.w-1))
		}
		if a.op == OpAshr && a.b.isConst() {
			return s.Ashr(a.a, s.Const(a.w, minU(a.b.val+b.val, uint64(a.w-1))))
		}
		if a.op == OpShl && a.b.isConst() && a.b.val == b.val && a.a.smin >= sminOf(a.w)>>b.val && a.a.smax <= smaxOf(a.w)>>b.val {
			return a.a
		}
	}
	return s.bin(OpAshr, a, b)
}

func (s *Store) Zext(a *Term, w uint8) *Term {
	return s.noteExt(s.zext1(a, w), a, false)
}

func (s *Store) zext1(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return s.Const(w, a.val)
	}
	if a.op == OpZext {
		return s.Zext(a.a, w)
	}
	return s.mk(tkey{op: OpZext, w: w}, a, nil, nil)
}

func (s *Store) Sext(a *Term, w uint8) *Term {
	return s.noteExt(s.sext1(a, w), a, true)
}

func (s *Store) sext1(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return s.Const(w, uint64(a.sval()))
	}
	if a.smin >= 0 {
		return s.Zext(a, w)
	}
	if a.op == OpSext {
		return s.Sext(a.a, w)
	}
	return s.mk(tkey{op: OpSext, w: w}, a, nil, nil)
}

func (s *Store) Trunc(a *Term, w uint8) *Term {
	return s.noteTrunc(s.trunc1(a, w), a)
}

func (s *Store) trunc1(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return s.Const(w, a.val)
	}
	switch a.op {
	case OpZext, OpSext:
		if a.a.w == w {
			return a.a
		}
		if a.a.w > w {
			return s.Trunc(a.a, w)
		}
		if a.op == OpZext {
			return s.Zext(a.a, w)
		}
		return s.Sext(a.a, w)
	case OpTrunc:
		return s.Trunc(a.a, w)
	case OpAdd:
		return s.Add(s.Trunc(a.a, w), s.Trunc(a.b, w))
	case OpSub:
		return s.Sub(s.Trunc(a.a, w), s.Trunc(a.b, w))
	case OpIte:
		if a.b.isConst() && a.c.isConst() {
			return s.Ite(a.a, s.Trunc(a.b, w), s.Trunc(a.c, w))
		}
	case OpMul:
		// keep the wide product: its interval is better known
		if a.smin >= sminOf(w) && a.smax <= smaxOf(w) {
			break
		}
		return s.Mul(s.Trunc(a.a, w), s.Trunc(a.b, w))
	case OpBAnd:
		return s.BAnd(s.Trunc(a.a, w), s.Trunc(a.b, w))
	case OpBOr:
		return s.BOr(s.Trunc(a.a, w), s.Trunc(a.b, w))
	}
	return s.mk(tkey{op: OpTrunc, w: w}, a, nil, nil)
}

// ---- evaluation under a model ----

// Model maps variable names to values.
type Model map[string]uint64

// NewEval starts a new evaluation generation (call when the model changes).
func (s *Store) NewEval() { s.evGen++ }

func (s *Store) Eval(t *Term, m Model) uint64 {
	if t.op == OpConst {
		return t.val
	}
	if t.evGen == s.evGen {
		return t.evVal
	}
	var v uint64
	switch t.op {
	case OpVar:
		v = m[t.name] & mask(t.w)
		if t.w == 0 {
			v = m[t.name] & 1
		}
	case OpNot:
		v = 1 - s.Eval(t.a, m)
	case OpAnd:
		v = s.Eval(t.a, m) & s.Eval(t.b, m)
	case OpOr:
		v = s.Eval(t.a, m) | s.Eval(t.b, m)
	case OpIte:
		if s.Eval(t.a, m) != 0 {
			v = s.Eval(t.b, m)
		} else {
			v = s.Eval(t.c, m)
		}
	case OpEq:
		if s.Eval(t.a, m) == s.Eval(t.b, m) {
			v = 1
		}
	case OpUlt:
		if s.Eval(t.a, m) < s.Eval(t.b, m) {
			v = 1
		}
	case OpSlt:
		if sx(s.Eval(t.a, m), t.a.w) < sx(s.Eval(t.b, m), t.a.w) {
			v = 1
		}
	case OpZext:
		v = s.Eval(t.a, m)
	case OpSext:
		v = uint64(sx(s.Eval(t.a, m), t.a.w)) & mask(t.w)
	case OpTrunc:
		v = s.Eval(t.a, m) & mask(t.w)
	default:
		v = evalOp(t.op, t.w, s.Eval(t.a, m), s.Eval(t.b, m))
	}
	t.evGen, t.evVal = s.evGen, v
	return v
}

func (t *Term) String() string { return t.str(6) }

func (t *Term) str(d int) string {
	switch t.op {
	case OpConst:
		if t.w == 0 {
			return fmt.Sprint(t.val == 1)
		}
		return fmt.Sprint(t.sval())
	case OpVar:
		return t.name
	}
	if d == 0 {
		return fmt.Sprintf("t%d", t.id)
	}
	r := "(" + opNames[t.op]
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			r += " " + x.str(d-1)
		}
	}
	return r + ")"
}
