package main

import (
	"context"
	"fmt"
	"math/bits"
	"os"
	"os/exec"
	"strings"
	"time"
)

// An over-approximation of a query: every sum or product of several variables
// is replaced by a fresh variable with the interval of the expression (the same
// variable for expressions that are equal up to sign and a constant). If the
// approximation is unsatisfiable, so is the query.

type abstracter struct {
	st   *Store
	memo map[*Term]*Term
	vars map[string]*Term
	side []*Term
	n    int
}

func (ab *abstracter) term(t *Term) *Term {
	if t.op == OpConst || t.op == OpVar {
		return t
	}
	if r := ab.memo[t]; r != nil {
		return r
	}
	r := ab.build(t)
	ab.memo[t] = r
	return r
}

// cutPoly returns a 64-bit term for the value of p with one variable for its
// primitive part, or nil.
func (ab *abstracter) cutPoly(p *poly) *Term {
	s := ab.st
	if len(p.t) == 0 || len(p.t) == 1 && p.t[0].m[1] == nil {
		return nil
	}
	g := uint64(0)
	for i := range p.t {
		g = gcd64(g, absU(p.t[i].c))
		for _, a := range p.t[i].m {
			if a != nil && a.op != OpVar && !(a.a != nil && a.b == nil && a.a.op == OpVar) {
				return nil
			}
		}
	}
	f := int64(g)
	if p.lead() < 0 {
		f = -f
	}
	q := &poly{t: make([]pterm, len(p.t))}
	for i, x := range p.t {
		q.t[i] = pterm{x.m, x.c / f}
	}
	lo, hi, ok := q.interval()
	if !ok || lo == hi || lo < -1<<50 || hi > 1<<50 {
		return nil
	}
	key := q.key('p')
	v := ab.vars[key]
	if v == nil {
		rng := uint64(hi) - uint64(lo)
		k := uint8(bits.Len64(rng))
		raw := s.Var(fmt.Sprintf("$abs%d", ab.n), k)
		ab.n++
		ab.side = append(ab.side, s.Not(s.Ult(s.Const(k, rng), raw)))
		v = s.rawAdd(s.Zext(raw, 64), s.Const(64, uint64(lo)))
		ab.vars[key] = v
	}
	return s.rawAdd(s.rawMul(v, s.Const(64, uint64(f))), s.Const(64, uint64(p.c0)))
}

func (ab *abstracter) cut(t *Term) *Term {
	s := ab.st
	switch t.op {
	case OpAdd, OpSub, OpMul:
		if r := ab.cutPoly(s.poly(t)); r != nil {
			return s.Trunc(r, t.w)
		}
	case OpEq, OpSlt, OpUlt:
		if t.a.w == 0 || t.op == OpUlt && (t.a.smin < 0 || t.b.smin < 0) {
			return nil
		}
		d := polySub(s.poly(t.a), s.poly(t.b))
		if d == nil {
			return nil
		}
		if r := ab.cutPoly(d); r != nil {
			if t.op == OpEq {
				return s.Eq(r, s.Const(64, 0))
			}
			return s.Slt(r, s.Const(64, 0))
		}
	}
	return nil
}

func (ab *abstracter) build(t *Term) *Term {
	s := ab.st
	if c := ab.cut(t); c != nil {
		return c
	}
	a := ab.term(t.a)
	var b, c *Term
	if t.b != nil {
		b = ab.term(t.b)
	}
	if t.c != nil {
		c = ab.term(t.c)
	}
	switch t.op {
	case OpNot:
		return s.Not(a)
	case OpAnd:
		return s.And(a, b)
	case OpOr:
		return s.Or(a, b)
	case OpIte:
		return s.Ite(a, b, c)
	case OpEq:
		return s.Eq(a, b)
	case OpUlt:
		return s.Ult(a, b)
	case OpSlt:
		return s.Slt(a, b)
	case OpAdd:
		return s.rawAdd(a, b)
	case OpSub:
		return s.rawSub(a, b)
	case OpMul:
		return s.rawMul(a, b)
	case OpUdiv:
		return s.Udiv(a, b)
	case OpUrem:
		return s.Urem(a, b)
	case OpSdiv:
		return s.rawSdiv(a, b)
	case OpSrem:
		return s.rawSrem(a, b)
	case OpBAnd:
		return s.BAnd(a, b)
	case OpBOr:
		return s.BOr(a, b)
	case OpBXor:
		return s.BXor(a, b)
	case OpShl:
		return s.Shl(a, b)
	case OpLshr:
		return s.Lshr(a, b)
	case OpAshr:
		return s.rawAshr(a, b)
	case OpZext:
		return s.Zext(a, t.w)
	case OpSext:
		return s.Sext(a, t.w)
	case OpTrunc:
		return s.Trunc(a, t.w)
	}
	panic("abstract")
}

// abstractScript returns the script of the approximation, or "" if nothing is
// abstracted.
func (s *Store) abstractScript(pc []*Term, extra *Term) string {
	old := s.noPoly
	s.noPoly = true
	defer func() { s.noPoly = old }()
	ab := &abstracter{st: s, memo: map[*Term]*Term{}, vars: map[string]*Term{}}
	var out []*Term
	for _, t := range pc {
		out = append(out, ab.term(t))
	}
	if extra != nil {
		extra = ab.term(extra)
	}
	if ab.n == 0 {
		return ""
	}
	return Script(append(out, ab.side...), extra, nil, false, false)
}

// abstractUnsat reports whether the approximation of the query is refuted.
func (s *Store) abstractUnsat(pc []*Term, extra *Term, timeout time.Duration) bool {
	src := s.abstractScript(pc, extra)
	if src == "" {
		return false
	}
	f, err := os.CreateTemp("", "q*.smt2")
	if err != nil {
		return false
	}
	f.WriteString(src)
	f.Close()
	defer os.Remove(f.Name())
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	out, _ := exec.CommandContext(ctx, z3bin, f.Name()).Output()
	if os.Getenv("VABS") != "" && !strings.HasPrefix(string(out), "unsat") {
		os.WriteFile(os.Getenv("VABS"), []byte(src), 0o644)
	}
	return strings.HasPrefix(string(out), "unsat")
}
