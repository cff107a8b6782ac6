package main

import (
	"fmt"
	"math/rand"
	"strings"
)

// selfTest compares the term simplifier, the intervals, the narrowed and the
// full-width emission with the reference evaluation on random terms.
func selfTest(n int, seed int64) int {
	rnd := rand.New(rand.NewSource(seed))
	bad := 0
	for it := 0; it < n; it++ {
		st := NewStore()
		type pr struct {
			t *Term
			v uint64
		}
		var pool []pr
		m := Model{}
		var vars []*Term
		consts := []uint64{0, 1, 2, 3, 63, 64, 0x7f, 0x80, 0xff, 0xffff, 0x7fffffff, 0x80000000, 0xffffffff, ^uint64(0), 1 << 63}
		for i := 0; i < 4; i++ {
			w := []uint8{1, 8, 16, 32, 64, 7, 12}[rnd.Intn(7)]
			v := st.Var(fmt.Sprintf("x%d", i), w)
			val := rnd.Uint64() >> uint(rnd.Intn(64)) & mask(w)
			if rnd.Intn(4) == 0 {
				val = consts[rnd.Intn(len(consts))] & mask(w)
			}
			m[v.name] = val
			vars = append(vars, v)
			pool = append(pool, pr{v, val})
		}
		small := it%2 == 1
		if small {
			// few variables with small intervals, so that nothing wraps
			pool = nil
			for i := 0; i < 3; i++ {
				v := st.Var(fmt.Sprintf("s%d", i), 7)
				val := rnd.Uint64() & 127
				lo := uint64(rnd.Intn(3)) * 64
				m[v.name] = val
				vars = append(vars, v)
				for _, w := range []uint8{32, 64} {
					pool = append(pool, pr{st.Sub(st.Zext(v, w), st.Const(w, lo)), (val - lo) & mask(w)})
				}
			}
		}
		get := func(w uint8) pr {
			if w != 0 && small && rnd.Intn(4) == 0 {
				c := uint64([]int{1, 2, 3, 16, 63, 64, -1, -64, 128, -5}[rnd.Intn(10)]) & mask(w)
				return pr{st.Const(w, c), c}
			}
			if w != 0 && rnd.Intn(4) == 0 && !small {
				c := consts[rnd.Intn(len(consts))] & mask(w)
				if rnd.Intn(2) == 0 {
					c = rnd.Uint64() >> uint(rnd.Intn(64)) & mask(w)
				}
				return pr{st.Const(w, c), c}
			}
			for k := 0; k < 30; k++ {
				p := pool[rnd.Intn(len(pool))]
				if p.t.w == w {
					return p
				}
			}
			if w == 0 {
				return pr{st.tru, 1}
			}
			p := pool[rnd.Intn(len(pool))]
			for p.t.w == 0 {
				p = pool[rnd.Intn(len(pool))]
			}
			switch {
			case p.t.w == w:
				return p
			case p.t.w > w:
				return pr{st.Trunc(p.t, w), p.v & mask(w)}
			case rnd.Intn(2) == 0:
				return pr{st.Zext(p.t, w), p.v}
			}
			return pr{st.Sext(p.t, w), uint64(sx(p.v, p.t.w)) & mask(w)}
		}
		b2 := func(b bool) uint64 {
			if b {
				return 1
			}
			return 0
		}
		for i := 0; i < 25; i++ {
			w := []uint8{8, 16, 32, 64}[rnd.Intn(4)]
			if small {
				w = []uint8{32, 64}[rnd.Intn(2)]
			}
			x, y := get(w), get(w)
			var r pr
			switch rnd.Intn(20) {
			case 0, 1:
				r = pr{st.Add(x.t, y.t), (x.v + y.v) & mask(w)}
			case 2:
				r = pr{st.Sub(x.t, y.t), (x.v - y.v) & mask(w)}
			case 3:
				r = pr{st.Mul(x.t, y.t), (x.v * y.v) & mask(w)}
			case 4, 5, 6, 7:
				if y.v == 0 {
					continue
				}
				sxv, sy := sx(x.v, w), sx(y.v, w)
				switch rnd.Intn(4) {
				case 0:
					r = pr{st.Udiv(x.t, y.t), x.v / y.v}
				case 1:
					r = pr{st.Urem(x.t, y.t), x.v % y.v}
				case 2:
					r = pr{st.Sdiv(x.t, y.t), uint64(sxv/sy) & mask(w)}
				case 3:
					r = pr{st.Srem(x.t, y.t), uint64(sxv%sy) & mask(w)}
				}
			case 8:
				r = pr{st.BAnd(x.t, y.t), x.v & y.v}
			case 9:
				r = pr{st.BOr(x.t, y.t), x.v | y.v}
			case 10:
				r = pr{st.BXor(x.t, y.t), x.v ^ y.v}
			case 11, 12, 13:
				sh := pr{st.Const(w, uint64(rnd.Intn(int(w)+2))), 0}
				sh.v = sh.t.val
				if rnd.Intn(3) == 0 {
					sh = y
				}
				switch rnd.Intn(3) {
				case 0:
					r = pr{st.Shl(x.t, sh.t), x.v << sh.v & mask(w)}
				case 1:
					r = pr{st.Lshr(x.t, sh.t), x.v >> sh.v}
				case 2:
					r = pr{st.Ashr(x.t, sh.t), uint64(sx(x.v, w)>>sh.v) & mask(w)}
				}
			case 14:
				r = pr{st.Eq(x.t, y.t), b2(x.v == y.v)}
			case 15:
				r = pr{st.Ult(x.t, y.t), b2(x.v < y.v)}
			case 16:
				r = pr{st.Slt(x.t, y.t), b2(sx(x.v, w) < sx(y.v, w))}
			case 17:
				c := get(0)
				v := y.v
				if c.v != 0 {
					v = x.v
				}
				r = pr{st.Ite(c.t, x.t, y.t), v}
			case 18:
				a, b := get(0), get(0)
				switch rnd.Intn(4) {
				case 0:
					r = pr{st.And(a.t, b.t), a.v & b.v}
				case 1:
					r = pr{st.Or(a.t, b.t), a.v | b.v}
				case 2:
					r = pr{st.Not(a.t), a.v ^ 1}
				case 3:
					r = pr{st.Eq(a.t, b.t), b2(a.v == b.v)}
				}
			case 19:
				lo, hi := int64(rnd.Intn(300)-150), int64(0)
				hi = lo + int64(rnd.Intn(500))
				_ = hi
				continue
			}
			pool = append(pool, r)
			st.NewEval()
			if g := st.Eval(r.t, m); g != r.v {
				fmt.Printf("eval mismatch: %v = %d want %d under %v\n", r.t, g, r.v, m)
				bad++
			}
			if r.t.w > 0 && (r.v < r.t.umin || r.v > r.t.umax || sx(r.v, r.t.w) < r.t.smin || sx(r.v, r.t.w) > r.t.smax) {
				fmt.Printf("interval mismatch: %v [%d %d] [%d %d] val %d\n", r.t, r.t.umin, r.t.umax, r.t.smin, r.t.smax, r.v)
				bad++
			}
		}
		if n > 1000 && it%50 > 1 {
			continue
		}
		// solver: pc fixes the variables, every term must have its value
		s := selfSolver(st, it)
		var pc []*Term
		for _, v := range vars {
			pc = append(pc, eqRaw(st, v, m[v.name]))
		}
		all := st.tru
		for _, p := range pool {
			if p.t.w == 0 {
				if p.v != 0 {
					all = st.mk(tkey{op: OpAnd}, all, p.t, nil)
				} else {
					all = st.mk(tkey{op: OpAnd}, all, st.mk(tkey{op: OpNot}, p.t, nil, nil), nil)
				}
			} else {
				all = st.mk(tkey{op: OpAnd}, all, eqRaw(st, p.t, p.v), nil)
			}
		}
		r, _ := s.Check(pc, all, vars, 5000)
		if r != Sat {
			fmt.Printf("emission mismatch (narrowed): seed %d it %d: %v\n", seed, it, r)
			bad++
		}
		r, _ = s.Check(pc, st.mk(tkey{op: OpNot}, all, nil, nil), vars, 5000)
		if r != Unsat {
			fmt.Printf("emission mismatch (narrowed, neg): seed %d it %d: %v\n", seed, it, r)
			bad++
		}
		s.Close()
		if it%20 == 0 {
			src := Script(pc, all, vars, true, false)
			if !strings.Contains(src, "check-sat") {
				bad++
			}
			if st.abstractUnsat(pc, all, 10e9) {
				fmt.Printf("abstraction mismatch seed %d it %d\n", seed, it)
				bad++
			}
			r, _, _ := Portfolio(pc, all, vars, 10e9, nil)
			if r != Sat {
				fmt.Printf("portfolio mismatch seed %d it %d %v\n", seed, it, r)
				bad++
			}
		}
	}
	fmt.Printf("selftest: %d rounds, %d mismatches\n", n, bad)
	return bad
}

func selfSolver(st *Store, it int) *Solver { return NewSolver(st) }

func eqRaw(st *Store, t *Term, v uint64) *Term {
	return st.mk(tkey{op: OpEq}, t, st.Const(t.w, v), nil)
}
