package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// event is one logged decision of a path.
//
//	T,F  both sides feasible, this side taken    t,f  the other side is infeasible
//	M    merged   N  not merged                  C v  value chosen (others remain)   D v  value excluded
//	c v  last value (no other)                   k    implicit check proved          K    check assumed after a candidate
//	P    the failing side of a check is explored p    check holds on this side (failing side explored elsewhere)
//	a    assumption feasible                     q    assertions checked             x v  upper bound found
type event struct {
	k byte
	v uint64
}

type workItem struct {
	h     *Harness
	log   []event
	model Model
}

type pendAssert struct {
	cond  *Term
	label string
	at    string
}

type input struct {
	name string
	t    *Term
}

type obs struct {
	label string
	t     *Term
}

// Path is the state of one symbolic path.
type Path struct {
	h           *Harness
	log         []event
	pos         int
	replayEnd   int
	pc          []*Term
	facts       map[*Term]bool
	factLog     []*Term
	side        map[*Term]bool
	vars        []*Term
	model       Model
	steps       int
	calls       int
	stepLimit   int
	limitIsHang bool
	allocLimit  int
	mergeLevel  int
	conc        bool
	names       map[string]int
	inputs      []input
	obs         []obs
	snaps       []*snapshot
	pend        []pendAssert
	derived     map[string]*Term
	opaque      map[string]int
	unknowns    int
	nAsserts    int
	reached     map[string]bool
	mid         int64
}

func newPath(h *Harness) *Path {
	return &Path{h: h, facts: map[*Term]bool{}, side: map[*Term]bool{}, names: map[string]int{}, derived: map[string]*Term{},
		opaque: map[string]int{}, reached: map[string]bool{}, stepLimit: 2_000_000, allocLimit: 1 << 20, mergeLevel: 1}
}

func (p *Path) replaying() bool { return p.pos < p.replayEnd }
func (p *Path) peek() byte      { return p.log[p.pos].k }
func (p *Path) next() event {
	e := p.log[p.pos]
	p.pos++
	return e
}

type replayMismatch struct{ msg string }

func (in *Interp) expect(ks string) event {
	p := in.path
	e := p.next()
	if !strings.ContainsRune(ks, rune(e.k)) {
		panic(pathEnd{"mismatch", fmt.Sprintf("replay: got %c want %s at %s", e.k, ks, in.where())})
	}
	return e
}

func (in *Interp) record(e event) {
	in.path.log = append(in.path.log, e)
	in.path.pos++
}

// addPC adds a conjunct to the path condition.
func (in *Interp) addPC(c *Term) {
	p := in.path
	if c.isTrue() {
		return
	}
	if c.op == OpAnd {
		in.addPC(c.a)
		in.addPC(c.b)
		return
	}
	if v, ok := p.facts[c]; ok && v {
		return
	}
	p.pc = append(p.pc, c)
	in.addFact(c)
}

func (in *Interp) addFact(c *Term) {
	p := in.path
	set := func(t *Term, v bool) {
		if _, ok := p.facts[t]; !ok {
			p.facts[t] = v
			p.factLog = append(p.factLog, t)
		}
	}
	set(c, true)
	if c.op == OpNot {
		set(c.a, false)
	} else {
		set(in.st.Not(c), false)
	}
}

// assumeRaw adds an unconditional side condition (about a fresh variable).
func (in *Interp) assumeRaw(c *Term) {
	if c.isTrue() {
		return
	}
	p := in.path
	if p.side[c] {
		return
	}
	p.side[c] = true
	p.pc = append(p.pc, c)
	if p.model != nil {
		in.needModelCheck(c)
	}
}

// needModelCheck drops the model if it does not satisfy a new side condition.
func (in *Interp) needModelCheck(c *Term) {
	p := in.path
	if v, ok := in.eval(c); ok && v == 0 {
		p.model = nil
	}
}

func (in *Interp) eval(t *Term) (uint64, bool) {
	p := in.path
	if p.model == nil {
		return 0, false
	}
	in.useModel(p.model)
	return in.st.Eval(t, p.model), true
}

func (in *Interp) useModel(m Model) {
	if in.w.evID != in.path.mid {
		in.st.NewEval()
		in.w.evID = in.path.mid
	}
}

func (in *Interp) setModel(m Model) {
	in.path.model = m
	in.w.midCount++
	in.path.mid = in.w.midCount
}

// query decides pc /\ extra.
func (in *Interp) query(extra *Term) (Result, Model) {
	if extra != nil && extra.isFalse() {
		return Unsat, nil
	}
	p := in.path
	w := in.w
	if w.eng.expired() {
		panic(pathEnd{"time", "time budget"})
	}
	tq := time.Now()
	// a model must satisfy the query under the engine's own semantics
	valid := func(m Model) bool {
		in.st.NewEval()
		w.evID = -1
		defer in.st.NewEval()
		for _, t := range p.pc {
			if in.st.Eval(t, m) == 0 {
				return false
			}
		}
		return extra == nil || in.st.Eval(extra, m) != 0
	}
	r, m := in.solver.Check(p.pc, extra, p.vars, p.h.qtime)
	if r == Sat && !valid(m) {
		fmt.Fprintf(os.Stderr, "engine: a model of the incremental solver does not satisfy the query and is ignored\n")
		in.solver.Restart()
		r, m = Unknown, nil
	}
	if d := time.Since(tq); slowQ > 0 && d.Seconds() > slowQ {
		fmt.Fprintf(os.Stderr, "slow: %v in %.2fs at %s %v\n", r, d.Seconds(), in.where(), p.choices())
	}
	if r == Unknown {
		t0 := time.Now()
		if in.st.abstractUnsat(p.pc, extra, 3*time.Second) {
			r = Unsat
			in.solver.nabs++
		}
		in.solver.dur += time.Since(t0)
		if os.Getenv("VDEBUG") != "" {
			fmt.Fprintf(os.Stderr, "abstract: %v in %.1fs at %s\n", r, time.Since(t0).Seconds(), in.where())
		}
	}
	if r == Unknown {
		t0 := time.Now()
		var who string
		r, m, who = Portfolio(p.pc, extra, p.vars, time.Duration(p.h.htime)*time.Millisecond, valid)
		in.solver.dur += time.Since(t0)
		in.solver.nport++
		if os.Getenv("VDEBUG") != "" {
			fmt.Fprintf(os.Stderr, "portfolio: %v by %s in %.1fs at %s\n", r, who, time.Since(t0).Seconds(), in.where())
		}
	}
	if r == Unknown {
		p.unknowns++
		atomic.AddInt64(&w.eng.nUnknown, 1)
	}
	return r, m
}

// feasible reports which sides of c are feasible (unknown counts as feasible).
// The path model is set to one that satisfies the returned true side, if both.
func (in *Interp) feasible(c *Term) (bool, bool) {
	if v, ok := in.eval(c); ok {
		if v != 0 {
			r, _ := in.query(in.st.Not(c))
			return true, r != Unsat
		}
		r, _ := in.query(c)
		return r != Unsat, true
	}
	r1, m1 := in.query(c)
	if r1 == Unsat {
		return false, true
	}
	if m1 != nil && in.specDepth == 0 {
		in.setModel(m1)
	}
	r2, _ := in.query(in.st.Not(c))
	return true, r2 != Unsat
}

func (in *Interp) forced(c *Term, v bool) {
	k := byte('f')
	if v {
		k = 't'
		in.addFact(c)
	} else {
		in.addFact(in.st.Not(c))
	}
	in.record(event{k: k})
}

// branch decides a symbolic condition.
func (in *Interp) branch(c *Term) bool {
	if c.isConst() {
		return c.val != 0
	}
	p := in.path
	if v, ok := p.facts[c]; ok {
		return v
	}
	nc := in.st.Not(c)
	if p.replaying() {
		e := in.expect("TFtf")
		switch e.k {
		case 'T':
			in.addPC(c)
			return true
		case 'F':
			in.addPC(nc)
			return false
		case 't':
			in.addFact(c)
			return true
		}
		in.addFact(nc)
		return false
	}
	in.w.nBranches++
	var rt, rf Result = Unknown, Unknown
	var mt, mf Model
	if v, ok := in.eval(c); ok {
		if v != 0 {
			rt, mt = Sat, p.model
			rf, mf = in.query(nc)
		} else {
			rf, mf = Sat, p.model
			rt, mt = in.query(c)
		}
	} else {
		rt, mt = in.query(c)
		if rt == Unsat {
			rf = Sat
		} else {
			rf, mf = in.query(nc)
		}
	}
	if rt == Unsat && rf == Unsat {
		panic(pathEnd{"infeasible", "branch"})
	}
	if rt == Unsat {
		in.forced(c, false)
		return false
	}
	if rf == Unsat {
		in.forced(c, true)
		return true
	}
	if in.specDepth > 0 {
		panic(specAbort{"fork"})
	}
	// take the side that has a model
	take := true
	if mt == nil && mf != nil {
		take = false
	}
	alt := append(append(make([]event, 0, len(p.log)+1), p.log...), event{})
	if take {
		alt[len(alt)-1].k = 'F'
		in.w.eng.push(workItem{p.h, alt, mf})
		in.record(event{k: 'T'})
		in.addPC(c)
		if mt == nil {
			p.model = nil
		} else if v, ok := in.eval(c); !ok || v == 0 {
			in.setModel(mt)
		}
		return true
	}
	alt[len(alt)-1].k = 'T'
	in.w.eng.push(workItem{p.h, alt, mt})
	in.record(event{k: 'F'})
	in.addPC(nc)
	if v, ok := in.eval(nc); !ok || v == 0 {
		in.setModel(mf)
	}
	return false
}

// concretize forks over the feasible values of t.
func (in *Interp) concretize(t *Term) uint64 {
	if t.isConst() {
		return t.val
	}
	p := in.path
	for {
		if p.replaying() {
			e := in.expect("CDc")
			v := in.st.Const(t.w, e.v)
			switch e.k {
			case 'D':
				in.addPC(in.st.Not(in.st.Eq(t, v)))
				continue
			case 'C':
				in.addPC(in.st.Eq(t, v))
			case 'c':
				in.addFact(in.st.Eq(t, v))
			}
			return e.v
		}
		if p.model == nil {
			r, m := in.query(nil)
			if r == Unsat {
				if in.specDepth > 0 {
					panic(specAbort{"infeasible"})
				}
				panic(pathEnd{"infeasible", "concretize"})
			}
			if r == Unknown {
				panic(pathEnd{"unknown", "concretize at " + in.where()})
			}
			in.setModel(m)
		}
		val, _ := in.eval(t)
		c := in.st.Eq(t, in.st.Const(t.w, val))
		r, m := in.query(in.st.Not(c))
		if r == Unsat {
			in.record(event{'c', val})
			in.addFact(c)
			return val
		}
		if in.specDepth > 0 {
			panic(specAbort{"concretize"})
		}
		alt := append(append(make([]event, 0, len(p.log)+1), p.log...), event{'D', val})
		in.w.eng.push(workItem{p.h, alt, m})
		in.record(event{'C', val})
		in.addPC(c)
		return val
	}
}

// check handles an implicit run-time check (bounds, nil, division, size).
func (in *Interp) check(ok *Term, msg string) {
	if ok.isTrue() {
		return
	}
	p := in.path
	if v, has := p.facts[ok]; has {
		if v {
			return
		}
		in.throw(msg)
	}
	if ok.isFalse() {
		in.throw(msg)
	}
	if p.replaying() {
		e := in.expect("kKPp")
		switch e.k {
		case 'k':
			in.addFact(ok)
		case 'K', 'p':
			in.addPC(ok)
		case 'P':
			in.addPC(in.st.Not(ok))
			in.throw(msg)
		}
		return
	}
	in.w.nChecks++
	bad := in.st.Not(ok)
	r, m := in.query(bad)
	if r == Unsat {
		in.record(event{k: 'k'})
		in.addFact(ok)
		return
	}
	if in.specDepth > 0 {
		panic(specAbort{"check"})
	}
	if in.deferDepth > 0 {
		// explore the panic as a path of its own
		alt := append(append(make([]event, 0, len(p.log)+1), p.log...), event{k: 'P'})
		in.w.eng.push(workItem{p.h, alt, m})
		in.record(event{k: 'p'})
	} else {
		if r == Sat {
			in.candidate("panic", msg+" at "+in.where(), m)
		}
		in.record(event{k: 'K'})
	}
	in.addPC(ok)
	if v, has := in.eval(ok); !has || v == 0 {
		r, m := in.query(nil)
		if r == Unsat {
			panic(pathEnd{"panic", msg})
		}
		in.setModel(m)
	}
}

// maxOf finds an upper bound of t (unsigned) by asking the solver.
func (in *Interp) maxOf(t *Term, lim int) uint64 {
	p := in.path
	if p.replaying() {
		return in.expect("x").v
	}
	b := uint64(64)
	for b < uint64(lim) {
		if r, _ := in.query(in.st.Ult(in.st.Const(t.w, b), t)); r == Unsat {
			break
		}
		b *= 4
	}
	if b > uint64(lim) {
		b = uint64(lim)
	}
	in.record(event{'x', b})
	return b
}

func (in *Interp) assume(c *Term) {
	if c.isTrue() {
		return
	}
	in.flush()
	p := in.path
	if c.isFalse() {
		panic(pathEnd{"assume", ""})
	}
	if v, ok := p.facts[c]; ok {
		if v {
			return
		}
		panic(pathEnd{"assume", ""})
	}
	if in.specDepth > 0 {
		panic(specAbort{"assume"})
	}
	if p.replaying() {
		in.expect("a")
		in.addPC(c)
		return
	}
	if v, ok := in.eval(c); !ok || v == 0 {
		r, m := in.query(c)
		if r == Unsat {
			panic(pathEnd{"assume", ""})
		}
		in.setModel(m)
	}
	in.record(event{k: 'a'})
	in.addPC(c)
}

func (in *Interp) assert(c *Term, label string) {
	in.path.nAsserts++
	if c.isTrue() {
		in.w.nTrivial++
		return
	}
	if len(in.guards) > 0 {
		g := in.st.tru
		for _, x := range in.guards {
			g = in.st.And(g, x)
		}
		c = in.st.Implies(g, c)
		if c.isTrue() {
			return
		}
	}
	if v, ok := in.path.facts[c]; ok && v {
		return
	}
	in.path.pend = append(in.path.pend, pendAssert{c, label, ""})
	if in.path.h.eager && in.specDepth == 0 {
		in.flush()
	}
}

// flush decides the pending assertions.
func (in *Interp) flush() {
	p := in.path
	if len(p.pend) == 0 {
		return
	}
	if in.specDepth > 0 {
		panic(specAbort{"flush"})
	}
	if p.replaying() {
		in.expect("q")
		p.pend = p.pend[:0]
		return
	}
	pend := append([]pendAssert(nil), p.pend...)
	p.pend = p.pend[:0]
	in.record(event{k: 'q'})
	in.decide(pend)
}

func (in *Interp) decide(pend []pendAssert) {
	p := in.path
	st := in.st
	var rest []pendAssert
	seen := map[*Term]bool{}
	for _, a := range pend {
		if seen[a.cond] {
			continue
		}
		seen[a.cond] = true
		if v, ok := in.eval(a.cond); ok && v == 0 {
			in.candidate("assert", a.label, p.model)
			continue
		}
		rest = append(rest, a)
	}
	for len(rest) > 0 {
		bad := st.fls
		for _, a := range rest {
			bad = st.Or(bad, st.Not(a.cond))
		}
		in.w.nAssertQ++
		r, m := in.query(bad)
		switch r {
		case Unsat:
			atomic.AddInt64(&in.w.eng.nProved, int64(len(rest)))
			return
		case Unknown:
			if len(rest) == 1 {
				in.w.eng.undecided(p.h, rest[0].label)
				return
			}
			// one by one
			for _, a := range rest {
				in.decide([]pendAssert{a})
			}
			return
		}
		in.st.NewEval()
		in.w.evID = -1
		var keep []pendAssert
		for _, a := range rest {
			if in.st.Eval(a.cond, m) == 0 {
				in.candidate("assert", a.label, m)
			} else {
				keep = append(keep, a)
			}
		}
		in.st.NewEval()
		rest = keep
	}
}

// candidate records a possible violation with the inputs that cause it.
func (in *Interp) candidate(kind, msg string, m Model) {
	p := in.path
	if p.h == nil {
		panic(pathEnd{"unsupported", "panic in initialiser: " + msg})
	}
	c := &Candidate{Harness: p.h.Name, Kind: kind, Msg: msg, Inputs: in.inputVals(m), Approx: len(p.opaque) > 0}
	in.w.eng.addCandidate(p.h, c)
}

func (in *Interp) inputVals(m Model) map[string]int64 {
	if m == nil {
		return nil
	}
	in.st.NewEval()
	in.w.evID = -1
	r := map[string]int64{}
	if in.w.eng.thorough {
		r["$thorough"] = 1
	}
	for _, i := range in.path.inputs {
		r[i.name] = sx(in.st.Eval(i.t, m), maxw(i.t.w, 1))
		if i.t.w == 0 {
			r[i.name] = int64(in.st.Eval(i.t, m))
		}
	}
	in.st.NewEval()
	return r
}

// ---- variables ----

func (in *Interp) uniq(name string) string {
	p := in.path
	n := p.names[name]
	p.names[name] = n + 1
	if n > 0 {
		return fmt.Sprintf("%s#%d", name, n)
	}
	return name
}

func (in *Interp) fresh(name string, w uint8) *Term {
	v := in.st.Var(in.uniq("$"+name), w)
	in.path.vars = append(in.path.vars, v)
	return v
}

// newVarRange makes a variable with lo <= x <= hi (signed) of width w.
func (in *Interp) newVarRange(name string, w uint8, lo, hi int64, isInput bool) *Term {
	st := in.st
	nm := in.uniq(name)
	var x *Term
	if lo == hi {
		x = st.Const(w, uint64(lo))
	} else if lo == sminOf(w) && hi == smaxOf(w) {
		x = st.Var(nm, w)
		in.path.vars = append(in.path.vars, x)
	} else {
		rng := uint64(hi) - uint64(lo)
		k := uint8(1)
		for mask(k) < rng {
			k++
		}
		if k > w {
			k = w
		}
		raw := st.Var(fmt.Sprintf("%s[%d,%d]", nm, lo, hi), k)
		in.path.vars = append(in.path.vars, raw)
		if mask(k) != rng {
			// raw <= rng, and the interval of raw says so from now on
			c := st.mk(tkey{op: OpNot}, st.mk(tkey{op: OpUlt}, st.Const(k, rng), raw, nil), nil, nil)
			in.assumeRaw(c)
			x = st.Add(st.Zext(raw, w), st.Const(w, uint64(lo)))
			if x != raw {
				st.boundTo(x, lo, hi)
			}
		} else {
			x = st.Add(st.Zext(raw, w), st.Const(w, uint64(lo)))
		}
	}
	if isInput {
		in.path.inputs = append(in.path.inputs, input{nm, x})
	}
	return x
}

// ---- engine ----

type Candidate struct {
	Harness string
	Kind    string
	Msg     string
	Inputs  map[string]int64
	Approx  bool
	Result  string
	Known   string
}

// Harness is one entry point with its options.
type Harness struct {
	Name    string
	Pkg     string
	fn      *ssa.Function
	opts    map[string]string
	merge   int
	steps   int
	qtime   int
	htime   int
	eager   bool
	conc    bool
	hang    bool
	stores  bool // merge small regions with stores without asking the solver
	alloc   int
	maxCand int
	stats   HStats
	mu      sync.Mutex
	cands   map[string]*Candidate
	ncand   map[string]int
	work    []workItem
	spent   time.Duration
	weight  float64
	samples []*Sample
}

type Sample struct {
	Harness string
	Inputs  map[string]int64
	Obs     []string
	Approx  bool
}

type HStats struct {
	Paths     int64
	Done      int64
	Ends      map[string]int64
	Undecided map[string]int64
	Opaque    map[string]int64
	Reached   map[string]int64
	Asserts   int64
	Steps     int64
	Cut       int // paths the engine gave up on whose inputs ran natively
	Events    int64
}

type Engine struct {
	prog       *ssa.Program
	mu         sync.Mutex
	cond       *sync.Cond
	hs         []*Harness
	nwork      int
	busy       int
	deadline   time.Time
	quit       atomic.Bool
	stop       bool
	nUnknown   int64
	nProved    int64
	trackPfx   string
	workers    []*Worker
	trackMu    sync.Mutex
	trackC     map[*ssa.Function]bool
	maxSamples int
	thorough   bool
}

type Worker struct {
	id                                                          int
	eng                                                         *Engine
	in                                                          *Interp
	evID, midCount                                              int64
	mergedAtStop                                                bool
	lastPanic                                                   string
	funcs                                                       map[*ssa.Function]int
	nMerges, nMergeFail, nBranches, nChecks, nAssertQ, nTrivial int64
	sv                                                          SolverStats
}

type SolverStats struct {
	Queries, Sat, Unsat, Unknown, Portfolio int64
	Time                                    time.Duration
}

// firstOnly ends the exploration shortly after the first candidate (for
// experiments).
var firstOnly = os.Getenv("VFIRST") != ""

func (e *Engine) expired() bool { return e.quit.Load() || time.Now().After(e.deadline) }

func (e *Engine) track(fn *ssa.Function) bool {
	e.trackMu.Lock()
	defer e.trackMu.Unlock()
	v, ok := e.trackC[fn]
	if !ok {
		pkg := fn.Pkg
		if pkg == nil && fn.Origin() != nil {
			pkg = fn.Origin().Pkg
		}
		if pkg != nil {
			path := pkg.Pkg.Path()
			if strings.HasPrefix(path, e.trackPfx) && !strings.Contains(path, "zzverif") && !strings.HasSuffix(path, "/vsym") {
				f := e.prog.Fset.Position(fn.Pos()).Filename
				v = !strings.Contains(f, "zzverif")
			}
		}
		e.trackC[fn] = v
	}
	return v
}

func (e *Engine) push(w workItem) {
	e.mu.Lock()
	w.h.work = append(w.h.work, w)
	e.nwork++
	e.mu.Unlock()
	e.cond.Signal()
}

func (e *Engine) undecided(h *Harness, label string) {
	h.mu.Lock()
	h.stats.Undecided[label]++
	h.mu.Unlock()
}

func (e *Engine) addCandidate(h *Harness, c *Candidate) {
	h.mu.Lock()
	defer h.mu.Unlock()
	key := c.Kind + "|" + c.Msg
	h.ncand[key]++
	n := h.ncand[key]
	// keep a few examples per kind of violation: some may be known findings
	if firstOnly && c.Inputs != nil {
		e.quit.Store(true)
	}
	if n <= h.maxCand {
		h.cands[fmt.Sprintf("%s|%d", key, n)] = c
	}
}

func (e *Engine) run(hs []*Harness, nw int, budget time.Duration) {
	e.cond = sync.NewCond(&e.mu)
	e.deadline = time.Now().Add(budget)
	e.trackC = map[*ssa.Function]bool{}
	e.hs = hs
	for _, h := range hs {
		e.push(workItem{h: h})
	}
	var wg sync.WaitGroup
	for i := 0; i < nw; i++ {
		w := &Worker{id: i, eng: e, funcs: map[*ssa.Function]int{}}
		e.workers = append(e.workers, w)
		wg.Add(1)
		go func() {
			defer wg.Done()
			w.loop()
		}()
	}
	wg.Wait()
}

func (w *Worker) loop() {
	e := w.eng
	for {
		e.mu.Lock()
		for e.nwork == 0 && e.busy > 0 && !e.stop {
			e.cond.Wait()
		}
		if e.nwork == 0 || e.stop {
			e.mu.Unlock()
			e.cond.Broadcast()
			break
		}
		// The harness that has used the least time goes first, so that every
		// harness gets its share of a bounded budget.
		var best *Harness
		for _, h := range e.hs {
			if len(h.work) > 0 && (best == nil || h.spent.Seconds()/h.weight < best.spent.Seconds()/best.weight) {
				best = h
			}
		}
		k := len(best.work) - 1
		it := best.work[k]
		best.work[k] = workItem{}
		best.work = best.work[:k]
		e.nwork--
		e.busy++
		best.spent += time.Millisecond // so that idle workers spread out
		e.mu.Unlock()
		t0 := time.Now()
		if e.expired() {
			it.h.mu.Lock()
			it.h.stats.Ends["time"]++
			it.h.mu.Unlock()
		} else {
			if w.runItem(it, false) {
				// terms are shared between paths, so a replay can differ in what
				// folds; a fresh term store settles it
				w.collect()
				w.in.solver.Close()
				w.in = nil
				w.runItem(it, true)
			}
		}
		e.mu.Lock()
		e.busy--
		it.h.spent += time.Since(t0)
		if e.busy == 0 && e.nwork == 0 {
			e.cond.Broadcast()
		}
		e.mu.Unlock()
	}
	if w.in != nil {
		w.collect()
		w.in.solver.Close()
	}
}

func (w *Worker) collect() {
	s := w.in.solver
	w.sv.Queries += s.nq
	w.sv.Sat += s.nsat
	w.sv.Unsat += s.nunsat
	w.sv.Unknown += s.nunk
	w.sv.Portfolio += s.nport
	w.sv.Time += s.dur
	s.nq, s.nsat, s.nunsat, s.nunk, s.nport, s.dur = 0, 0, 0, 0, 0, 0
}

// runItem explores one path. It reports whether the path should be retried.
func (w *Worker) runItem(it workItem, last bool) (retry bool) {
	if w.in == nil || w.in.st.next > 3_000_000 {
		if w.in != nil {
			w.collect()
			w.in.solver.Close()
		}
		w.in = NewInterp(w)
		w.in.solver = NewSolver(w.in.st)
	}
	in := w.in
	h := it.h
	p := newPath(h)
	p.log = append([]event(nil), it.log...)
	p.replayEnd = len(p.log)
	m0 := it.model
	if m0 == nil && len(it.log) == 0 {
		m0 = Model{}
	}
	p.mergeLevel = h.merge
	p.stepLimit = h.steps
	p.limitIsHang = h.hang
	p.allocLimit = h.alloc
	p.conc = h.conc
	in.path = p
	in.setModel(m0)
	in.eraNow, in.regionEra = 1, 1
	in.journal = in.journal[:0]
	in.depth, in.deferDepth, in.specDepth = 0, 0, 0
	in.guards = nil
	in.curPanic = nil
	in.cur, in.curIns = nil, nil
	in.mergePtrs = h.opts["mergeptrs"] != "0"
	w.evID = -1
	in.st.NewEval()
	in.st.resetVN()
	end, msg := w.execPath(h, p)
	in.rollback(0)
	if end == "mismatch" && !last {
		return true
	}
	h.mu.Lock()
	h.stats.Paths++
	if msg != "" {
		end += ": " + msg
	}
	h.stats.Ends[end]++
	for k, v := range p.opaque {
		h.stats.Opaque[k] += int64(v)
	}
	for k := range p.reached {
		h.stats.Reached[k]++
	}
	h.stats.Asserts += int64(p.nAsserts)
	h.stats.Steps += int64(p.steps)
	h.stats.Events += int64(len(p.log))
	h.mu.Unlock()
	return false
}

func (w *Worker) execPath(h *Harness, p *Path) (end, msg string) {
	in := w.in
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case pathEnd:
				end, msg = x.kind, x.msg
			case *targetPanic:
				end = "panic"
				m := p.model
				func() {
					defer func() { recover() }()
					if m == nil {
						_, m = in.query(nil)
					}
				}()
				if m != nil {
					in.candidate("panic", x.msg, m)
				} else {
					end, msg = "panic-undecided", x.msg
				}
			case specAbort:
				end, msg = "unsupported", "stray speculation abort: "+x.why
			default:
				if os.Getenv("VDEBUG") != "" {
					panic(r)
				}
				end, msg = "engine", fmt.Sprint(r)+" at "+in.where()
			}
			// assertions made before the path was cut short still count
			if len(p.pend) > 0 && end != "time" && end != "mismatch" {
				func() {
					defer func() {
						if r := recover(); r != nil {
							end, msg = "time", "time budget"
						}
					}()
					in.specDepth = 0
					in.guards = nil
					if !p.replaying() {
						in.decide(append([]pendAssert(nil), p.pend...))
					}
				}()
			}
			// nothing is known of the rest of the path: its inputs are run on the
			// real code, which fails the check if an assertion does there
			if end == "limit" || end == "unsupported" || end == "engine" || end == "unknown" {
				func() {
					defer func() { recover() }()
					in.specDepth = 0
					in.guards = nil
					w.cutSample(h, p)
				}()
			}
		}
	}()
	in.callFn(h.fn, nil, nil)
	in.flush()
	// a sample for native validation
	h.mu.Lock()
	n := h.stats.Done
	h.stats.Done++
	want := n < 40 || (n < 4000 && n%97 == 0)
	want = want && len(h.samples) < w.eng.maxSamples
	h.mu.Unlock()
	if want {
		m := p.model
		if m == nil {
			_, m = in.query(nil)
		}
		if m != nil {
			s := &Sample{Harness: h.Name, Inputs: in.inputVals(m), Approx: len(p.opaque) > 0}
			in.st.NewEval()
			w.evID = -1
			for _, o := range p.obs {
				s.Obs = append(s.Obs, fmt.Sprintf("%s=%d", o.label, sx(in.st.Eval(o.t, m), maxw(o.t.w, 1))))
			}
			in.st.NewEval()
			h.mu.Lock()
			h.samples = append(h.samples, s)
			h.mu.Unlock()
		}
	}
	return "done", ""
}

// cutSample keeps the inputs of a path that the engine gave up on.
func (w *Worker) cutSample(h *Harness, p *Path) {
	h.mu.Lock()
	want := h.stats.Cut < 12 && !p.replaying()
	if want {
		h.stats.Cut++
	}
	h.mu.Unlock()
	if !want {
		return
	}
	m := p.model
	if m == nil {
		_, m = w.in.query(nil)
	}
	if m != nil {
		s := &Sample{Harness: h.Name, Inputs: w.in.inputVals(m), Approx: true}
		h.mu.Lock()
		h.samples = append(h.samples, s)
		h.mu.Unlock()
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

var _ = types.Typ

// slowQ is the time of queries to report, in seconds.
var slowQ, _ = strconv.ParseFloat(os.Getenv("VSLOW"), 64)

// choices are the values of the narrow variables of the path.
func (p *Path) choices() string {
	s := ""
	for _, v := range p.vars {
		if v.w <= 8 {
			if p.model != nil {
				s += fmt.Sprintf(" %s=%d", v.name, p.model[v.name])
			}
		}
	}
	return s
}
