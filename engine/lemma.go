package main

import (
	"context"
	"fmt"
	"go/types"
	"math/bits"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// A lemma says that a function of integers, called with some constants and
// some variables of limited width (or multiples of them), returns one of the
// variables times a constant. It is found by executing the function symbolically for variables
// of that width, and asking a solver; such calls then need no execution.

type lemma struct {
	arg int   // the index of the leaf that is returned, or -1: no lemma
	k   int64 // times this
	dot bool  // or the value of dotShape
}

type lemmas struct {
	mu     sync.Mutex
	ok     map[*ssa.Function]bool
	m      map[string]*lemmaEnt
	proved []string
}

type lemmaEnt struct {
	once sync.Once
	l    lemma
}

var theLemmas = lemmas{ok: map[*ssa.Function]bool{}, m: map[string]*lemmaEnt{}}

func intLike(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsInteger != 0
	case *types.Array:
		return u.Len() <= 4 && intLike(u.Elem())
	}
	return false
}

// fieldPaths lists the integer fields that are read of what a pointer points
// to, or nil if it is used for anything else.
func fieldPaths(p *ssa.Parameter) (r [][]int) {
	pt, ok := p.Type().Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	if _, ok := pt.Elem().Underlying().(*types.Struct); !ok {
		return nil
	}
	var visit func(v ssa.Value, path []int) bool
	visit = func(v ssa.Value, path []int) bool {
		for _, u := range *v.Referrers() {
			switch x := u.(type) {
			case *ssa.DebugRef:
			case *ssa.FieldAddr:
				if !visit(x, append(append([]int(nil), path...), x.Field)) {
					return false
				}
			case *ssa.UnOp:
				b, ok := x.Type().Underlying().(*types.Basic)
				if len(path) == 0 || !ok || b.Info()&types.IsInteger == 0 {
					return false
				}
				r = append(r, path)
			default:
				return false
			}
		}
		return true
	}
	if !visit(p, nil) {
		return nil
	}
	return r
}

// eligible functions depend on nothing but their arguments, and integer fields
// of what these point to.
func (l *lemmas) eligible(fn *ssa.Function, deep int) bool {
	l.mu.Lock()
	v, ok := l.ok[fn]
	l.mu.Unlock()
	if ok {
		return v
	}
	v = l.check(fn, deep)
	l.mu.Lock()
	l.ok[fn] = v
	l.mu.Unlock()
	return v
}

func (l *lemmas) check(fn *ssa.Function, deep int) bool {
	if deep > 3 || len(fn.FreeVars) > 0 || len(fn.Blocks) == 0 || len(fn.Blocks) > 40 || len(fn.Params) == 0 {
		return false
	}
	r := fn.Signature.Results()
	if r.Len() != 1 {
		return false
	}
	if b, ok := r.At(0).Type().Underlying().(*types.Basic); !ok || b.Info()&(types.IsInteger|types.IsBoolean) == 0 {
		return false
	} else if b.Info()&types.IsBoolean != 0 && deep == 0 {
		return false
	}
	for _, p := range fn.Params {
		if deep > 0 {
			if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
				continue
			}
		}
		if !intLike(p.Type()) && (deep > 0 || fieldPaths(p) == nil) {
			return false
		}
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			for _, op := range ins.Operands(nil) {
				if *op == nil {
					continue
				}
				if _, ok := (*op).(*ssa.Global); ok {
					return false
				}
			}
			switch x := ins.(type) {
			case *ssa.Alloc:
				if x.Heap {
					return false
				}
			case *ssa.Call:
				f := x.Call.StaticCallee()
				if f == nil || !l.eligible(f, deep+1) {
					return false
				}
			case *ssa.BinOp, *ssa.UnOp, *ssa.Convert, *ssa.ChangeType, *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Phi, *ssa.Store, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Index, *ssa.DebugRef:
			default:
				return false
			}
		}
	}
	return true
}

// leaves lists the terms of an argument.
func (in *Interp) leaves(v Value, out *[]*Term) bool {
	switch x := v.(type) {
	case *Term:
		*out = append(*out, x)
		return true
	case *ArrayV:
		for i := 0; i < x.ti.n; i++ {
			if !in.leaves(x.get(in, i), out) {
				return false
			}
		}
		return true
	}
	return false
}

// width is the number of bits of a variable that can have the term's values.
func lemmaWidth(t *Term) uint8 {
	n := bits.Len64(absU(t.smin))
	if m := bits.Len64(absU(t.smax)); m > n {
		n = m
	}
	n++
	for _, w := range []int{8, 12, 16, 20, 24, 28, 32, 34, 40, 48} {
		if n <= w && uint8(w) <= t.w {
			return uint8(w)
		}
	}
	return t.w
}

// unscaled returns the largest factor of a term, and the rest.
func (in *Interp) unscaled(t *Term) (uint64, *Term) {
	p := in.st.poly(t)
	if p == nil || len(p.t) == 0 {
		return 1, t
	}
	g := absU(p.c0)
	for _, x := range p.t {
		g = gcd64(g, absU(x.c))
	}
	if g < 2 || g > 1<<24 {
		return 1, t
	}
	q := &poly{c0: p.c0 / int64(g), t: make([]pterm, len(p.t))}
	for i, x := range p.t {
		q.t[i] = pterm{x.m, x.c / int64(g)}
	}
	y := in.st.build(q, t.w)
	if y == nil {
		return 1, t
	}
	return g, y
}

// byLemma returns the value of a call for which there is a lemma.
func (in *Interp) byLemma(fn *ssa.Function, args []Value) Value {
	if in.initMode > 0 || noLemmas || in.inLemma || !in.w.eng.track(fn) || !theLemmas.eligible(fn, 0) {
		return nil
	}
	var ls []*Term
	var key strings.Builder
	fmt.Fprintf(&key, "%s(", fn)
	for i, a := range args {
		if p, ok := a.(*Ptr); ok {
			if p.alts != nil || p.isNil() {
				return nil
			}
			for _, path := range fieldPaths(fn.Params[i]) {
				var v Value = p
				for _, f := range path {
					v = in.fieldAddr(v.(*Ptr), f)
				}
				t, ok := in.loadPtr(v.(*Ptr)).(*Term)
				if !ok || !t.isConst() {
					return nil
				}
				fmt.Fprintf(&key, "%v=%d; ", path, t.sval())
			}
		} else if !in.leaves(a, &ls) {
			return nil
		}
	}
	sym := false
	gs := make([]uint64, len(ls))
	for i, t := range ls {
		if !t.isConst() {
			gs[i], ls[i] = in.unscaled(t)
			t = ls[i]
		}
		if i > 0 {
			key.WriteString(", ")
		}
		if t.isConst() {
			fmt.Fprintf(&key, "%d", t.sval())
		} else {
			sym = true
			if gs[i] > 1 {
				fmt.Fprintf(&key, "%d*", gs[i])
			}
			fmt.Fprintf(&key, "x%d:%d", i, lemmaWidth(t))
		}
	}
	key.WriteString(")")
	if !sym {
		return nil
	}
	k := key.String()
	theLemmas.mu.Lock()
	e := theLemmas.m[k]
	if e == nil {
		e = &lemmaEnt{}
		theLemmas.m[k] = e
	}
	theLemmas.mu.Unlock()
	e.once.Do(func() {
		e.l = in.proveLemma(fn, args, ls, gs)
		if e.l.dot {
			theLemmas.mu.Lock()
			theLemmas.proved = append(theLemmas.proved, fmt.Sprintf("%s = the rounded scalar product", strings.ReplaceAll(k, "github.com/golang/freetype/", "")))
			theLemmas.mu.Unlock()
		} else if e.l.arg >= 0 {
			s := ""
			if e.l.k != 1 {
				s = fmt.Sprintf("%d*", e.l.k)
			}
			theLemmas.mu.Lock()
			theLemmas.proved = append(theLemmas.proved, fmt.Sprintf("%s = %sx%d", strings.ReplaceAll(k, "github.com/golang/freetype/", ""), s, e.l.arg))
			theLemmas.mu.Unlock()
		}
	})
	w := uint8(tinfo(fn.Signature.Results().At(0).Type()).w)
	if e.l.dot {
		in.w.funcs[fn]++
		return in.dotShape(ls, gs, w)
	}
	if e.l.arg < 0 {
		return nil
	}
	t := ls[e.l.arg]
	if t.w < w {
		t = in.st.Sext(t, w)
	} else if t.w > w {
		t = in.st.Trunc(t, w)
	}
	if e.l.k != 1 {
		t = in.st.Mul(in.st.Const(w, uint64(e.l.k)), t)
	}
	in.w.funcs[fn]++
	return t
}

var noLemmas = os.Getenv("VNOLEMMA") != ""

func (in *Interp) proveLemma(fn *ssa.Function, args []Value, ls []*Term, gs []uint64) (l lemma) {
	l.arg = -1
	vars := make([]*Term, len(ls))
	n := 0
	var raws []*Term
	var build func(v Value) Value
	build = func(v Value) Value {
		switch x := v.(type) {
		case *Term:
			i := n
			n++
			if x.isConst() {
				vars[i] = x
			} else {
				k := lemmaWidth(ls[i])
				raw := in.st.Var(fmt.Sprintf("$lem%d.%d", i, k), k)
				raws = append(raws, raw)
				vars[i] = in.st.Sext(raw, x.w)
				if gs[i] > 1 {
					return in.st.Mul(in.st.Const(x.w, gs[i]), vars[i])
				}
			}
			return vars[i]
		case *ArrayV:
			ts := make([]Value, x.ti.n)
			for i := range ts {
				ts[i] = build(x.get(in, i))
			}
			return &ArrayV{x.ti, ts}
		case *Ptr:
			return x
		}
		panic("lemma")
	}
	var vals []Value
	for _, a := range args {
		vals = append(vals, build(a))
	}
	// execute on a path of its own
	sp, sEra, sNow, jStart := in.path, in.regionEra, in.eraNow, len(in.journal)
	sDepth, sDD, sCur, sIns, sCP := in.depth, in.deferDepth, in.cur, in.curIns, in.curPanic
	sSpec, sG := in.specDepth, in.guards
	sMerged := in.w.mergedAtStop
	p := newPath(&Harness{Name: "lemma", opts: map[string]string{}, qtime: 3000, htime: 10000})
	p.mergeLevel = 3
	p.vars = raws
	p.stepLimit = 20000
	in.path = p
	in.eraNow++
	in.regionEra = in.eraNow
	in.specDepth = 1
	in.guards = nil
	in.inLemma = true
	var res Value
	func() {
		defer func() {
			if r := recover(); r != nil {
				if os.Getenv("VDEBUG") != "" {
					fmt.Fprintln(os.Stderr, "lemma", fn, r)
				}
				switch r.(type) {
				case specAbort, pathEnd, *targetPanic:
					res = nil
				default:
					panic(r)
				}
			}
		}()
		res = in.callFn(fn, vals, nil)
	}()
	clean := len(p.pc) == 0
	in.rollback(jStart)
	in.path, in.regionEra, in.eraNow = sp, sEra, sNow+1
	in.depth, in.deferDepth, in.cur, in.curIns, in.curPanic = sDepth, sDD, sCur, sIns, sCP
	in.specDepth, in.guards = sSpec, sG
	in.w.mergedAtStop = sMerged
	in.inLemma = false
	r, ok := res.(*Term)
	if !ok || !clean || r.isConst() {
		return
	}
	for i, v := range vars {
		if v.isConst() {
			continue
		}
		t := v
		if t.w < r.w {
			t = in.st.Sext(t, r.w)
		} else if t.w > r.w {
			t = in.st.Trunc(t, r.w)
		}
		m := Model{}
		for _, v := range raws {
			m[v.name] = 0
		}
		one := vars[i]
		for one.op != OpVar {
			one = one.a
		}
		m[one.name] = 1
		in.st.NewEval()
		k := sx(in.st.Eval(r, m), r.w)
		in.st.NewEval()
		in.w.evID = -1
		if k == 0 || k < -1<<20 || k > 1<<20 {
			continue
		}
		u := t
		if k != 1 {
			u = in.st.Mul(in.st.Const(r.w, uint64(k)), t)
		}
		q := in.st.Not(in.st.Eq(r, u))
		if q.isFalse() || !q.isTrue() && lemmaLikely(in, q, raws) && lemmaUnsat(q) {
			return lemma{arg: i, k: k}
		}
	}
	if len(vars) == 4 && vars[2].isConst() && vars[3].isConst() {
		wide := false
		for i := range vars {
			wide = wide || gs[i] > 1<<10 || !vars[i].isConst() && lemmaWidth(ls[i]) > 20
		}
		if wide {
			return
		}
		q := in.st.Not(in.st.Eq(r, in.dotShape(vars, gs, r.w)))
		if q.isFalse() || !q.isTrue() && lemmaLikely(in, q, raws) && lemmaUnsat(q) {
			return lemma{arg: -1, dot: true}
		}
	}
	return
}

// dotShape is (ac+bd)/0x4000 of terms a, b, c, d, rounded to nearest, halves
// away from 0.
func (in *Interp) dotShape(ls []*Term, gs []uint64, w uint8) *Term {
	var v [4]*Term
	for i, t := range ls {
		if t.w < 64 {
			t = in.st.Sext(t, 64)
		}
		if gs[i] > 1 {
			t = in.st.Mul(in.st.Const(64, gs[i]), t)
		}
		v[i] = t
	}
	s := in.st.Add(in.st.Mul(v[0], v[2]), in.st.Mul(v[1], v[3]))
	neg := in.st.Ite(in.st.Slt(s, in.st.Const(64, 0)), in.st.Const(64, ^uint64(0)), in.st.Const(64, 0))
	s = in.st.Add(in.st.Add(s, neg), in.st.Const(64, 0x2000))
	return in.st.Trunc(in.st.Ashr(s, in.st.Const(64, 14)), w)
}

// lemmaLikely tries a few values.
func lemmaLikely(in *Interp, q *Term, vars []*Term) bool {
	for _, x := range []uint64{1, 0, 7, 129, ^uint64(0), 0x7654321, ^uint64(0x654), 1 << 31} {
		m := Model{}
		for i, v := range vars {
			m[v.name] = (x + uint64(i)*3) & mask(v.w)
		}
		in.st.NewEval()
		bad := in.st.Eval(q, m) != 0
		if bad {
			in.st.NewEval()
			in.w.evID = -1
			return false
		}
	}
	in.st.NewEval()
	in.w.evID = -1
	return true
}

func lemmaUnsat(q *Term) bool {
	f, err := os.CreateTemp("", "q*.smt2")
	if err != nil {
		return false
	}
	f.WriteString(Script(nil, q, nil, false, false))
	f.Close()
	defer os.Remove(f.Name())
	ctx, cancel := context.WithTimeout(context.Background(), 10*time.Second)
	defer cancel()
	out, _ := exec.CommandContext(ctx, z3bin, f.Name()).Output()
	return strings.HasPrefix(string(out), "unsat")
}
