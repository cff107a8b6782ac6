package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type targetPanic struct {
	v   Value // *Iface
	msg string
	pos token.Pos
}

type pathEnd struct {
	kind string
	msg  string
}

type specAbort struct{ why string }

type deferred struct {
	fn   Value
	args []Value
	call *ssa.CallCommon
}

type frame struct {
	fi        *FuncInfo
	regs      []Value
	defers    []deferred
	result    Value
	pan       *targetPanic
	recovered bool
	caller    *frame
	returned  bool
}

type Interp struct {
	w          *Worker
	st         *Store
	solver     *Solver
	prog       *ssa.Program
	eraNow     uint32
	regionEra  uint32
	journal    []jent
	consts     []Value
	globals    map[*ssa.Global]*Cell
	inited     map[*ssa.Package]bool
	intrin     map[*ssa.Function]intrinsic
	path       *Path
	depth      int
	deferDepth int
	curPanic   *frame
	nilSlice   *Slice
	mergePtrs  bool
	specDepth  int
	guards     []*Term
	inLemma    bool
	initMode   int
	cur        *frame
	curIns     ssa.Instruction
	noMerge    map[ssa.Instruction]int
}

func NewInterp(w *Worker) *Interp {
	in := &Interp{w: w, prog: w.eng.prog, st: NewStore()}
	in.globals = map[*ssa.Global]*Cell{}
	in.inited = map[*ssa.Package]bool{}
	in.intrin = map[*ssa.Function]intrinsic{}
	in.noMerge = map[ssa.Instruction]int{}
	z := in.st.Const(64, 0)
	in.nilSlice = &Slice{nil, z, z, z}
	return in
}

func itoa(i int) string { return strconv.Itoa(i) }

func (in *Interp) unsupported(msg string) {
	panic(pathEnd{"unsupported", msg + " at " + in.where()})
}

func (in *Interp) where() string {
	if in.curIns == nil {
		return "?"
	}
	pos := in.curIns.Pos()
	s := ""
	if in.cur != nil {
		s = in.cur.fi.fn.String()
		if pos == token.NoPos {
			// nearest instruction with a position
			for _, i := range in.curIns.Block().Instrs {
				if i.Pos() != token.NoPos {
					pos = i.Pos()
				}
				if i == in.curIns {
					break
				}
			}
		}
	}
	if pos != token.NoPos {
		p := in.prog.Fset.Position(pos)
		s += fmt.Sprintf(" (%s:%d)", shortFile(p.Filename), p.Line)
	}
	return s
}

func shortFile(f string) string {
	return strings.TrimPrefix(f, "/repo/")
}

// get reads an operand.
func (in *Interp) get(fr *frame, o opref) Value {
	switch o.kind {
	case oReg:
		return fr.regs[o.i]
	case oConst:
		for o.i >= len(in.consts) {
			in.consts = append(in.consts, make([]Value, o.i+64-len(in.consts))...)
		}
		v := in.consts[o.i]
		if v == nil {
			v = in.constVal(o.v.(*ssa.Const))
			in.consts[o.i] = v
		}
		return v
	case oGlobal:
		return &Ptr{c: in.global(o.v.(*ssa.Global))}
	case oFunc:
		return &FuncV{fn: o.v.(*ssa.Function)}
	case oBuiltin:
		return &FuncV{bi: o.v.(*ssa.Builtin)}
	}
	return nil
}

func (in *Interp) constVal(c *ssa.Const) Value {
	ti := tinfo(c.Type())
	if c.Value == nil {
		return in.zero(ti)
	}
	switch ti.kind {
	case KInt:
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return in.st.Const(ti.w, uint64(i))
		}
		u, _ := constant.Uint64Val(v)
		return in.st.Const(ti.w, u)
	case KBool:
		return in.st.Bool(constant.BoolVal(c.Value))
	case KFloat:
		f, _ := constant.Float64Val(c.Value)
		if ti.f32 {
			f = float64(float32(f))
		}
		return in.mkF(f)
	case KString:
		if c.Value.Kind() == constant.String {
			return &Str{s: constant.StringVal(c.Value)}
		}
		i, _ := constant.Int64Val(c.Value)
		return &Str{s: string(rune(i))}
	case KIface:
		return nilIface
	}
	in.unsupported("constant " + c.String())
	return nil
}

func (in *Interp) global(g *ssa.Global) *Cell {
	c := in.globals[g]
	if c == nil {
		in.ensureInit(g.Pkg)
		if c = in.globals[g]; c == nil {
			c = &Cell{ti: tinfo(derefT(g.Type())), n: tinfo(derefT(g.Type())).n}
			in.globals[g] = c
		}
	}
	return c
}

// ensureInit runs a package's initialisers (not those of its imports, which
// run when first needed).
func (in *Interp) ensureInit(p *ssa.Package) {
	if p == nil || in.inited[p] {
		return
	}
	in.inited[p] = true
	path := p.Pkg.Path()
	switch path {
	case "runtime", "os", "syscall", "reflect", "internal/cpu", "unsafe", "internal/poll", "time":
		return
	}
	buildMu.Lock()
	p.Build()
	buildMu.Unlock()
	init := p.Func("init")
	if init == nil {
		return
	}
	se, sr, sp, sd := in.eraNow, in.regionEra, in.path, in.depth
	scur, sins := in.cur, in.curIns
	sspec, sg := in.specDepth, in.guards
	in.eraNow, in.regionEra, in.depth = 0, 0, 0
	in.initMode++
	in.specDepth = 0
	in.guards = nil
	in.path = newPath(nil)
	in.path.stepLimit = 50_000_000
	defer func() {
		in.initMode--
		in.eraNow, in.regionEra, in.path, in.depth = se, sr, sp, sd
		in.cur, in.curIns = scur, sins
		in.specDepth, in.guards = sspec, sg
		if r := recover(); r != nil {
			if pe, ok := r.(pathEnd); ok {
				panic(pathEnd{"unsupported", "init of " + path + ": " + pe.msg})
			}
			panic(r)
		}
	}()
	in.callFn(init, nil, nil)
}

// ---- calls ----

func (in *Interp) callFn(fn *ssa.Function, args []Value, env []Value) Value {
	it, ok := in.intrin[fn]
	if !ok {
		it = findIntrinsic(fn)
		in.intrin[fn] = it
	}
	if it != nil {
		return it(in, fn, args)
	}
	if in.initMode > 0 && fn.Name() == "init" && fn.Pkg != nil && fn.Synthetic == "package initializer" && in.depth > 0 {
		return Tuple{} // imports are initialised lazily
	}
	if v := in.byLemma(fn, args); v != nil {
		return v
	}
	fi := funcInfo(fn)
	if len(fi.blocks) == 0 {
		in.unsupported("call of external function " + fn.String())
	}
	in.depth++
	if in.depth > 1200 {
		in.stepFail("recursion depth")
	}
	in.path.calls++
	if in.w.eng.track(fn) {
		in.w.funcs[fn]++
	}
	fr := &frame{fi: fi, regs: make([]Value, fi.nregs), caller: in.cur}
	for i, p := range fi.params {
		fr.regs[p] = args[i]
	}
	for i, p := range fi.fvs {
		fr.regs[p] = env[i]
	}
	scur, sins := in.cur, in.curIns
	in.cur = fr
	if fn.Recover != nil || hasDefer(fi) {
		in.runDeferring(fr)
	} else {
		in.run(fr, fi.blocks[0], nil, nil)
	}
	in.cur, in.curIns = scur, sins
	in.depth--
	return fr.result
}

func hasDefer(fi *FuncInfo) bool {
	for _, b := range fi.blocks {
		for _, c := range b.body {
			if _, ok := c.ins.(*ssa.Defer); ok {
				return true
			}
		}
	}
	return false
}

func (in *Interp) runDeferring(fr *frame) {
	depth := in.depth
	in.deferDepth++
	dd := in.deferDepth
	func() {
		defer func() {
			if r := recover(); r != nil {
				tp, ok := r.(*targetPanic)
				if !ok {
					panic(r)
				}
				in.depth = depth
				in.deferDepth = dd
				in.cur = fr
				fr.pan = tp
			}
		}()
		in.run(fr, fr.fi.blocks[0], nil, nil)
	}()
	for fr.pan != nil && len(fr.defers) > 0 {
		func() {
			defer func() {
				if r := recover(); r != nil {
					tp, ok := r.(*targetPanic)
					if !ok {
						panic(r)
					}
					in.depth = depth
					in.deferDepth = dd
					in.cur = fr
					fr.pan = tp
					fr.recovered = false
				}
			}()
			d := fr.defers[len(fr.defers)-1]
			fr.defers = fr.defers[:len(fr.defers)-1]
			sp := in.curPanic
			in.curPanic = fr
			in.callDeferred(d)
			in.curPanic = sp
			if fr.recovered {
				fr.pan = nil
			}
		}()
	}
	in.deferDepth--
	if fr.pan != nil {
		in.depth--
		panic(fr.pan)
	}
	if fr.recovered && !fr.returned {
		// remaining defers run normally, then the recover block returns
		for len(fr.defers) > 0 {
			d := fr.defers[len(fr.defers)-1]
			fr.defers = fr.defers[:len(fr.defers)-1]
			in.callDeferred(d)
		}
		if rb := fr.fi.fn.Recover; rb != nil {
			in.run(fr, fr.fi.blocks[rb.Index], nil, nil)
		} else {
			fr.result = in.zero(tinfo(fr.fi.fn.Signature.Results()))
		}
	}
}

func (in *Interp) callDeferred(d deferred) {
	in.callValue(d.fn, d.args)
}

func (in *Interp) callValue(f Value, args []Value) Value {
	fv := f.(*FuncV)
	if fv.bi != nil {
		return in.builtin(fv.bi, args, nil)
	}
	if fv.fn == nil {
		in.throw("invalid memory address or nil pointer dereference (nil func)")
	}
	return in.callFn(fv.fn, args, fv.env)
}

// throw raises a run-time panic.
func (in *Interp) throw(msg string) {
	if in.specDepth > 0 {
		panic(specAbort{"panic"})
	}
	panic(&targetPanic{v: &Iface{types.Typ[types.String], &Str{s: "runtime error: " + msg}}, msg: "runtime error: " + msg + " at " + in.where()})
}

// ---- block execution ----

func (in *Interp) run(fr *frame, cb *cBlock, prev *ssa.BasicBlock, stop *ssa.BasicBlock) (last *ssa.BasicBlock) {
	p := in.path
	for {
		if cb.b == stop {
			return prev
		}
		// phis
		if len(cb.phis) > 0 && prev != nil {
			in.doPhis(fr, cb, prev)
		}
		p.steps += len(cb.body)
		if p.steps > p.stepLimit {
			in.stepFail("steps")
		}
		var next *ssa.BasicBlock
		for k := range cb.body {
			ci := &cb.body[k]
			in.curIns = ci.ins
			switch x := ci.ins.(type) {
			case *ssa.Jump:
				next = cb.b.Succs[0]
			case *ssa.If:
				c := in.get(fr, ci.ops[0]).(*Term)
				if !c.isConst() {
					if v, ok := in.path.facts[c]; ok {
						c = in.st.Bool(v)
					}
				}
				if c.isConst() {
					if c.val != 0 {
						next = cb.b.Succs[0]
					} else {
						next = cb.b.Succs[1]
					}
					break
				}
				if nb, np, done, ok := in.tryMerge(fr, cb, x, c); ok {
					if done {
						return nil
					}
					if nb == stop {
						// phis of stop are done by the caller, which needs
						// the predecessor: the merge already set them
						in.w.mergedAtStop = true
						return np
					}
					cb = fr.fi.blocks[nb.Index]
					prev = nil // phis already done
					next = nil
					goto again
				}
				if in.branch(c) {
					next = cb.b.Succs[0]
				} else {
					next = cb.b.Succs[1]
				}
			case *ssa.Return:
				switch len(ci.ops) {
				case 0:
					fr.result = Tuple{}
				case 1:
					fr.result = in.get(fr, ci.ops[0])
				default:
					t := make(Tuple, len(ci.ops))
					for i, o := range ci.ops {
						t[i] = in.get(fr, o)
					}
					fr.result = t
				}
				fr.returned = true
				return nil
			case *ssa.Panic:
				if in.specDepth > 0 {
					panic(specAbort{"panic"})
				}
				v := in.get(fr, ci.ops[0])
				panic(&targetPanic{v: v, msg: "panic: " + in.showPanic(v) + " at " + in.where(), pos: x.Pos()})
			default:
				in.exec(fr, ci)
			}
		}
		prev = cb.b
		cb = fr.fi.blocks[next.Index]
		continue
	again:
	}
}

func (in *Interp) doPhis(fr *frame, cb *cBlock, prev *ssa.BasicBlock) {
	k := -1
	for i, p := range cb.b.Preds {
		if p == prev {
			k = i
			break
		}
	}
	if len(cb.phis) == 1 {
		fr.regs[cb.phis[0].dst] = in.get(fr, cb.phis[0].ops[k])
		return
	}
	tmp := make([]Value, len(cb.phis))
	for i := range cb.phis {
		tmp[i] = in.get(fr, cb.phis[i].ops[k])
	}
	for i := range cb.phis {
		fr.regs[cb.phis[i].dst] = tmp[i]
	}
}

func (in *Interp) showPanic(v Value) string {
	if i, ok := v.(*Iface); ok && i.t != nil {
		switch y := i.v.(type) {
		case *Str:
			if y.bs == nil {
				return y.s
			}
		}
		return i.t.String()
	}
	return "?"
}

// stepFail ends a path that ran out of budget.
func (in *Interp) stepFail(what string) {
	if in.specDepth > 0 {
		panic(specAbort{"budget"})
	}
	if in.path.limitIsHang {
		in.candidate("hang", "does not terminate within "+itoa(in.path.stepLimit)+" steps ("+what+") at "+in.where(), in.path.model)
	}
	panic(pathEnd{"limit", what + " at " + in.where()})
}

// tryMerge attempts to execute both sides of a branch and join the results at
// the immediate post-dominator. ok=false: fork instead.
func (in *Interp) tryMerge(fr *frame, cb *cBlock, x *ssa.If, c *Term) (next, prev *ssa.BasicBlock, returned, ok bool) {
	p := in.path
	lvl := p.mergeLevel
	if lvl == 0 || cb.region == nil {
		return
	}
	pure := cb.pureRegion
	if !pure {
		if lvl < 2 {
			return
		}
		if lvl == 2 && (cb.hasLoop || cb.regionSize > 8) {
			return
		}
		if cb.ipdom == nil && (fr.fi.fn.Recover != nil || hasDefer(fr.fi)) {
			return
		}
		if lvl == 3 && cb.ipdom == nil && cb.hasLoop && cb.regionSize > 60 {
			return
		}
	}
	if p.replaying() {
		switch p.peek() {
		case 'N':
			p.next()
			return
		case 'M':
			p.next()
		case 't', 'f', 'T', 'F':
			return // a forced or forked branch decided before merging
		default:
			panic(fmt.Sprintf("replay mismatch at merge: %c", p.peek()))
		}
	} else {
		if in.noMerge[x] >= 3 && !pure {
			p.log = append(p.log, event{k: 'N'})
			p.pos++
			return
		}
		if (!pure || cb.ipdom == nil) && !(cb.storeRegion && p.h.stores) {
			// only merge when both sides are feasible
			ft, ff := in.feasible(c)
			if !ft || !ff {
				in.forced(c, ft)
				if ft {
					return cb.b.Succs[0], nil, false, in.enter(fr, cb.b.Succs[0], cb.b)
				}
				return cb.b.Succs[1], nil, false, in.enter(fr, cb.b.Succs[1], cb.b)
			}
		}
		p.log = append(p.log, event{k: 'M'})
		p.pos++
	}
	logStart := p.pos - 1
	rt, okT := in.spec(fr, cb, c, 0)
	var rf specResult
	okF := false
	if okT {
		rf, okF = in.spec(fr, cb, in.st.Not(c), 1)
	}
	if okT && okF {
		if in.joinSpec(fr, cb, c, rt, rf) {
			in.w.nMerges++
			if rt.returned {
				return nil, nil, true, true
			}
			return cb.ipdom, nil, false, true
		}
	}
	// failed
	if p.replayEnd > logStart+1 {
		panic("merge failed during replay at " + in.where())
	}
	in.noMerge[x]++
	in.w.nMergeFail++
	if in.specDepth > 0 {
		panic(specAbort{"nested"})
	}
	p.log = append(p.log[:logStart], event{k: 'N'})
	p.pos = logStart + 1
	return
}

// enter prepares the phis of a block reached by a forced branch.
func (in *Interp) enter(fr *frame, b, from *ssa.BasicBlock) bool {
	cb := fr.fi.blocks[b.Index]
	if len(cb.phis) > 0 {
		in.doPhis(fr, cb, from)
	}
	return true
}

type specResult struct {
	regs     []Value
	live     []Value // of cb.liveOut
	writes   map[*Cell]Value
	order    []*Cell
	result   Value
	returned bool
	pc       []*Term
}

func (in *Interp) spec(fr *frame, cb *cBlock, cond *Term, side int) (res specResult, ok bool) {
	p := in.path
	saved := append([]Value(nil), fr.regs...)
	sEra, jStart := in.regionEra, len(in.journal)
	sDepth, sDD, sCur, sIns, sCP := in.depth, in.deferDepth, in.cur, in.curIns, in.curPanic
	nGuard := len(in.guards)
	pcStart := len(p.pc)
	factStart := len(p.factLog)
	in.eraNow++
	in.regionEra = in.eraNow
	in.specDepth++
	in.guards = append(in.guards, cond)
	sModel, sMid := p.model, p.mid
	in.addPC(cond)
	if v, ok := in.eval(cond); ok && v == 0 {
		p.model = nil
	}
	nd := len(fr.defers)
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(specAbort); is {
					ok = false
					return
				}
				panic(r)
			}
		}()
		fr.returned = false
		in.w.mergedAtStop = false
		first := cb.b.Succs[side]
		var last *ssa.BasicBlock
		if first == cb.ipdom {
			last = cb.b
		} else {
			last = in.run(fr, fr.fi.blocks[first.Index], cb.b, cb.ipdom)
		}
		if len(fr.defers) != nd {
			panic(specAbort{"defer"})
		}
		res.returned = fr.returned
		if fr.returned {
			res.result = fr.result
		} else if cb.ipdom != nil {
			jb := fr.fi.blocks[cb.ipdom.Index]
			if len(jb.phis) > 0 && !(in.w.mergedAtStop && last == nil) {
				in.doPhis(fr, jb, last)
			}
			in.w.mergedAtStop = false
			for i := range jb.phis {
				res.regs = append(res.regs, fr.regs[jb.phis[i].dst])
			}
			for _, i := range cb.liveOut {
				res.live = append(res.live, fr.regs[i])
			}
		}
		ok = true
	}()
	if ok && res.returned && cb.ipdom != nil {
		ok = false
	}
	// collect writes, then undo
	if ok {
		res.writes = map[*Cell]Value{}
		for i := jStart; i < len(in.journal); i++ {
			c := in.journal[i].c
			if _, seen := res.writes[c]; !seen {
				res.order = append(res.order, c)
			}
			res.writes[c] = c.v
		}
	}
	p.model, p.mid = sModel, sMid
	in.rollback(jStart)
	copy(fr.regs, saved)
	fr.returned = false
	fr.defers = fr.defers[:nd]
	in.regionEra = sEra
	in.specDepth--
	in.guards = in.guards[:nGuard]
	in.depth, in.deferDepth, in.cur, in.curIns, in.curPanic = sDepth, sDD, sCur, sIns, sCP
	// keep side conditions, drop guards
	keep := p.pc[:pcStart:pcStart]
	for _, t := range p.pc[pcStart:] {
		if p.side[t] {
			keep = append(keep, t)
		}
	}
	p.pc = append([]*Term(nil), keep...)
	for i := len(p.factLog) - 1; i >= factStart; i-- {
		t := p.factLog[i]
		if !p.side[t] {
			delete(p.facts, t)
		}
	}
	p.factLog = p.factLog[:factStart]
	return
}

func (in *Interp) joinSpec(fr *frame, cb *cBlock, c *Term, a, b specResult) bool {
	if a.returned != b.returned {
		return false
	}
	var result Value
	var phis, live []Value
	if a.returned {
		v, ok := in.merge(c, a.result, b.result)
		if !ok {
			return false
		}
		result = v
	} else {
		for i := range a.regs {
			v, ok := in.merge(c, a.regs[i], b.regs[i])
			if !ok {
				return false
			}
			phis = append(phis, v)
		}
		for i := range a.live {
			v := a.live[i]
			if v == nil {
				v = b.live[i]
			} else if b.live[i] != nil {
				var ok bool
				if v, ok = in.merge(c, v, b.live[i]); !ok {
					return false
				}
			}
			live = append(live, v)
		}
	}
	type wr struct {
		c *Cell
		v Value
	}
	var ws []wr
	do := func(cell *Cell, av, bv Value, aok, bok bool) bool {
		base := cell.v
		if !aok {
			av = base
		}
		if !bok {
			bv = base
		}
		if av == nil {
			av = in.zero(cell.ti)
		}
		if bv == nil {
			bv = in.zero(cell.ti)
		}
		v, ok := in.merge(c, av, bv)
		if !ok {
			return false
		}
		ws = append(ws, wr{cell, v})
		return true
	}
	for _, cell := range a.order {
		bv, bok := b.writes[cell]
		if !do(cell, a.writes[cell], bv, true, bok) {
			return false
		}
	}
	for _, cell := range b.order {
		if _, dup := a.writes[cell]; dup {
			continue
		}
		if !do(cell, nil, b.writes[cell], false, true) {
			return false
		}
	}
	for _, w := range ws {
		in.set(w.c, w.v)
	}
	if a.returned {
		fr.result = result
		fr.returned = true
	} else if cb.ipdom != nil {
		jb := fr.fi.blocks[cb.ipdom.Index]
		for i := range jb.phis {
			fr.regs[jb.phis[i].dst] = phis[i]
		}
		for i, r := range cb.liveOut {
			fr.regs[r] = live[i]
		}
	}
	return true
}

// ---- instructions ----

func (in *Interp) exec(fr *frame, ci *cInstr) {
	switch x := ci.ins.(type) {
	case *ssa.BinOp:
		fr.regs[ci.dst] = in.binop(x.Op, x.X.Type(), in.get(fr, ci.ops[0]), in.get(fr, ci.ops[1]), x.Y.Type())
	case *ssa.UnOp:
		fr.regs[ci.dst] = in.unop(x, ci, in.get(fr, ci.ops[0]))
	case *ssa.Call:
		fr.regs[ci.dst] = in.call(fr, ci, &x.Call)
	case *ssa.Store:
		in.storePtr(in.get(fr, ci.ops[0]).(*Ptr), in.get(fr, ci.ops[1]))
	case *ssa.FieldAddr:
		p := in.get(fr, ci.ops[0]).(*Ptr)
		fr.regs[ci.dst] = in.fieldAddr(p, x.Field)
	case *ssa.Field:
		fr.regs[ci.dst] = in.get(fr, ci.ops[0]).(*Struct).f[x.Field]
	case *ssa.IndexAddr:
		fr.regs[ci.dst] = in.indexAddr(in.get(fr, ci.ops[0]), in.idx(in.get(fr, ci.ops[1]).(*Term), x.Index.Type()))
	case *ssa.Index:
		fr.regs[ci.dst] = in.index(in.get(fr, ci.ops[0]), in.idx(in.get(fr, ci.ops[1]).(*Term), x.Index.Type()))
	case *ssa.Convert:
		fr.regs[ci.dst] = in.convert(in.get(fr, ci.ops[0]), x.X.Type(), x.Type())
	case *ssa.ChangeType:
		fr.regs[ci.dst] = in.get(fr, ci.ops[0])
	case *ssa.MakeInterface:
		fr.regs[ci.dst] = &Iface{x.X.Type(), in.get(fr, ci.ops[0])}
	case *ssa.ChangeInterface:
		fr.regs[ci.dst] = in.get(fr, ci.ops[0])
	case *ssa.Extract:
		fr.regs[ci.dst] = in.get(fr, ci.ops[0]).(Tuple)[x.Index]
	case *ssa.Alloc:
		fr.regs[ci.dst] = &Ptr{c: in.newCell(tinfo(derefT(x.Type())))}
	case *ssa.Slice:
		var lo, hi, mx Value
		base := in.get(fr, ci.ops[0])
		// Operands: X, Low, High, Max (nil ones are skipped as oNone)
		ops := []ssa.Value{x.Low, x.High, x.Max}
		vals := make([]*Term, 3)
		k := 1
		for i, o := range ops {
			if k < len(ci.ops) {
				if o != nil {
					vals[i] = in.idx(in.get(fr, ci.ops[k]).(*Term), o.Type())
				}
				k++
			}
		}
		_, _, _ = lo, hi, mx
		fr.regs[ci.dst] = in.slice(base, vals[0], vals[1], vals[2], x.X.Type())
	case *ssa.MakeSlice:
		l := in.idx(in.get(fr, ci.ops[0]).(*Term), x.Len.Type())
		c := in.idx(in.get(fr, ci.ops[1]).(*Term), x.Cap.Type())
		fr.regs[ci.dst] = in.makeSlice(tinfo(x.Type().Underlying().(*types.Slice).Elem()), l, c)
	case *ssa.MakeMap:
		c := in.newCell(&TInfo{kind: KMap})
		c.v = []mapEnt{}
		fr.regs[ci.dst] = &MapV{c, tinfo(x.Type().Underlying().(*types.Map).Elem())}
	case *ssa.MapUpdate:
		in.mapUpdate(in.get(fr, ci.ops[0]).(*MapV), in.get(fr, ci.ops[1]), in.get(fr, ci.ops[2]))
	case *ssa.Lookup:
		fr.regs[ci.dst] = in.lookup(x, in.get(fr, ci.ops[0]), in.get(fr, ci.ops[1]))
	case *ssa.TypeAssert:
		fr.regs[ci.dst] = in.typeAssert(x, in.get(fr, ci.ops[0]).(*Iface))
	case *ssa.MakeClosure:
		env := make([]Value, len(ci.ops)-1)
		for i := range env {
			env[i] = in.get(fr, ci.ops[i+1])
		}
		fr.regs[ci.dst] = &FuncV{fn: x.Fn.(*ssa.Function), env: env}
	case *ssa.Defer:
		if in.specDepth > 0 {
			panic(specAbort{"defer"})
		}
		fn, args := in.resolve(fr, ci, &x.Call)
		fr.defers = append(fr.defers, deferred{fn: fn, args: args})
	case *ssa.RunDefers:
		for len(fr.defers) > 0 {
			d := fr.defers[len(fr.defers)-1]
			fr.defers = fr.defers[:len(fr.defers)-1]
			sp := in.curPanic
			in.curPanic = nil
			in.callDeferred(d)
			in.curPanic = sp
		}
	case *ssa.Range:
		v := in.get(fr, ci.ops[0])
		pos := 0
		switch y := v.(type) {
		case *Str:
			fr.regs[ci.dst] = &IterV{str: y, pos: &pos}
		case *MapV:
			var e []mapEnt
			if y.cell != nil {
				e = y.cell.v.([]mapEnt)
			}
			fr.regs[ci.dst] = &IterV{ents: e, pos: &pos}
		default:
			in.unsupported("range")
		}
	case *ssa.Next:
		if in.specDepth > 0 {
			panic(specAbort{"next"})
		}
		fr.regs[ci.dst] = in.iterNext(x, in.get(fr, ci.ops[0]).(*IterV))
	case *ssa.SliceToArrayPointer:
		s := in.get(fr, ci.ops[0]).(*Slice)
		n := derefT(x.Type()).Underlying().(*types.Array).Len()
		in.check(in.st.Sle(in.st.Const(64, uint64(n)), s.len), "slice to array conversion out of range")
		off := in.concretize(s.off)
		if off != 0 || s.arr == nil || s.arr.n != int(n) {
			in.unsupported("slice to array pointer with offset")
		}
		fr.regs[ci.dst] = &Ptr{c: s.arr}
	case *ssa.Go, *ssa.Select, *ssa.Send, *ssa.MakeChan:
		in.unsupported(fmt.Sprintf("%T", ci.ins))
	default:
		in.unsupported(fmt.Sprintf("instruction %T", ci.ins))
	}
}

// idx converts an index operand of any integer type to 64 bits.
func (in *Interp) idx(t *Term, ty types.Type) *Term {
	if t.w == 64 {
		return t
	}
	if tinfo(ty).signed {
		return in.st.Sext(t, 64)
	}
	return in.st.Zext(t, 64)
}

func (in *Interp) resolve(fr *frame, ci *cInstr, cc *ssa.CallCommon) (Value, []Value) {
	v := in.get(fr, ci.ops[0])
	var args []Value
	if cc.IsInvoke() {
		recv := v.(*Iface)
		if recv.t == nil {
			in.throw("invalid memory address or nil pointer dereference (nil interface)")
		}
		fn := in.prog.LookupMethod(recv.t, cc.Method.Pkg(), cc.Method.Name())
		if fn == nil {
			in.unsupported("method lookup " + cc.Method.Name())
		}
		args = append(args, recv.v)
		for _, o := range ci.ops[1:] {
			args = append(args, in.get(fr, o))
		}
		return &FuncV{fn: fn}, args
	}
	args = make([]Value, 0, len(ci.ops)-1)
	for _, o := range ci.ops[1:] {
		args = append(args, in.get(fr, o))
	}
	return v, args
}

func (in *Interp) call(fr *frame, ci *cInstr, cc *ssa.CallCommon) Value {
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		args := make([]Value, 0, len(ci.ops)-1)
		for _, o := range ci.ops[1:] {
			args = append(args, in.get(fr, o))
		}
		return in.builtin(bi, args, ci)
	}
	fn, args := in.resolve(fr, ci, cc)
	fv := fn.(*FuncV)
	if fv.bi != nil {
		return in.builtin(fv.bi, args, ci)
	}
	if fv.fn == nil {
		in.throw("nil func call")
	}
	r := in.callFn(fv.fn, args, fv.env)
	in.cur, in.curIns = fr, ci.ins
	return r
}

func (in *Interp) typeAssert(x *ssa.TypeAssert, v *Iface) Value {
	var ok bool
	var res Value
	if _, isI := x.AssertedType.Underlying().(*types.Interface); isI {
		ok = v.t != nil && types.Implements(v.t, x.AssertedType.Underlying().(*types.Interface))
		res = v
	} else {
		ok = v.t != nil && types.Identical(v.t, x.AssertedType)
		res = v.v
	}
	if !ok {
		if !x.CommaOk {
			in.throw("interface conversion")
		}
		return Tuple{in.zero(tinfo(x.AssertedType)), in.st.fls}
	}
	if x.CommaOk {
		return Tuple{res, in.st.tru}
	}
	return res
}

func (in *Interp) fieldAddr(p *Ptr, f int) Value {
	if p.alts == nil {
		if p.c == nil {
			in.throw("invalid memory address or nil pointer dereference")
		}
		return &Ptr{c: p.c.kid(f)}
	}
	p = in.nonNil(p)
	alts := make([]PtrAlt, len(p.alts))
	for i, a := range p.alts {
		alts[i] = PtrAlt{a.cond, a.c.kid(f)}
	}
	return &Ptr{alts: alts}
}

// nonNil checks that no alternative is nil and drops nil ones.
func (in *Interp) nonNil(p *Ptr) *Ptr {
	for i, a := range p.alts {
		if a.c == nil {
			in.check(in.st.Not(a.cond), "invalid memory address or nil pointer dereference")
			alts := append(append([]PtrAlt{}, p.alts[:i]...), p.alts[i+1:]...)
			if len(alts) == 1 {
				return &Ptr{alts: []PtrAlt{{in.st.tru, alts[0].c}}}
			}
			return &Ptr{alts: alts}
		}
	}
	return p
}

func (in *Interp) loadPtr(p *Ptr) Value {
	if p.alts == nil {
		if p.c == nil {
			in.throw("invalid memory address or nil pointer dereference")
		}
		return in.load(p.c)
	}
	p = in.nonNil(p)
	vals := make([]Value, len(p.alts))
	for i, a := range p.alts {
		vals[i] = in.load(a.c)
	}
	return in.select_(p.alts, vals)
}

// select_ muxes values over exclusive alternatives, forking if they cannot be
// merged.
func (in *Interp) select_(alts []PtrAlt, vals []Value) Value {
	if r, ok := in.mux(alts, vals); ok {
		return r
	}
	if in.specDepth > 0 {
		panic(specAbort{"unmergeable load"})
	}
	for i := 0; i < len(alts)-1; i++ {
		if in.branch(alts[i].cond) {
			return vals[i]
		}
	}
	return vals[len(vals)-1]
}

func (in *Interp) mux(alts []PtrAlt, vals []Value) (Value, bool) {
	// group equal terms
	type grp struct {
		v    Value
		cond *Term
		n    int
	}
	var gs []grp
	if _, isT := vals[0].(*Term); isT {
		pos := map[*Term]int{}
		for i, v := range vals {
			t := v.(*Term)
			if k, ok := pos[t]; ok {
				gs[k].cond = in.st.Or(gs[k].cond, alts[i].cond)
				gs[k].n++
				continue
			}
			pos[t] = len(gs)
			gs = append(gs, grp{t, alts[i].cond, 1})
		}
		best := 0
		for i := range gs {
			if gs[i].n > gs[best].n {
				best = i
			}
		}
		last := len(gs) - 1
		gs[best], gs[last] = gs[last], gs[best]
	} else {
		for i, v := range vals {
			gs = append(gs, grp{v, alts[i].cond, 1})
		}
	}
	r := gs[len(gs)-1].v
	for i := len(gs) - 2; i >= 0; i-- {
		v, ok := in.merge(gs[i].cond, gs[i].v, r)
		if !ok {
			return nil, false
		}
		r = v
	}
	return r, true
}

func (in *Interp) storePtr(p *Ptr, v Value) {
	if p.alts == nil {
		if p.c == nil {
			in.throw("invalid memory address or nil pointer dereference")
		}
		in.store(p.c, v)
		return
	}
	p = in.nonNil(p)
	news := make([]Value, len(p.alts))
	for i, a := range p.alts {
		m, ok := in.merge(a.cond, v, in.load(a.c))
		if !ok {
			if in.specDepth > 0 {
				panic(specAbort{"unmergeable store"})
			}
			for k := 0; k < len(p.alts)-1; k++ {
				if in.branch(p.alts[k].cond) {
					in.store(p.alts[k].c, v)
					return
				}
			}
			in.store(p.alts[len(p.alts)-1].c, v)
			return
		}
		news[i] = m
	}
	for i, a := range p.alts {
		in.store(a.c, news[i])
	}
}

const maxAlts = 1024

// elem returns a pointer to element i of arr, where i is known to be within
// [0, n).
func (in *Interp) elem(arr *Cell, i *Term) *Ptr {
	if i.isConst() {
		return &Ptr{c: arr.kid(int(i.val))}
	}
	lo, hi := i.umin, i.umax
	if hi >= uint64(arr.n) {
		hi = uint64(arr.n) - 1
	}
	if lo > hi || hi-lo >= maxAlts || (in.path.conc && in.specDepth == 0) {
		return &Ptr{c: arr.kid(int(in.concretize(i)))}
	}
	alts := make([]PtrAlt, 0, hi-lo+1)
	for k := lo; ; k++ {
		c := in.st.Eq(i, in.st.Const(64, k))
		if f, ok := in.path.facts[c]; ok {
			c = in.st.Bool(f)
		}
		if c.isTrue() {
			return &Ptr{c: arr.kid(int(k))}
		}
		if !c.isFalse() {
			alts = append(alts, PtrAlt{c, arr.kid(int(k))})
		}
		if k == hi {
			break
		}
	}
	if len(alts) == 0 {
		panic(pathEnd{"infeasible", "index"})
	}
	return &Ptr{alts: alts}
}

func (in *Interp) indexAddr(base Value, i *Term) Value {
	switch b := base.(type) {
	case *Slice:
		in.check(in.st.Ult(i, b.len), "index out of range")
		if b.arr == nil {
			panic(pathEnd{"infeasible", "nil slice index"})
		}
		return in.elem(b.arr, in.st.Add(b.off, i))
	case *Ptr:
		if b.alts != nil {
			b = in.nonNil(b)
			// concretize the index first
			var alts []PtrAlt
			in.check(in.st.Ult(i, in.st.Const(64, uint64(b.alts[0].c.n))), "index out of range")
			for _, a := range b.alts {
				e := in.elem(a.c, i)
				if e.alts == nil {
					alts = append(alts, PtrAlt{a.cond, e.c})
					continue
				}
				for _, ea := range e.alts {
					alts = append(alts, PtrAlt{in.st.And(a.cond, ea.cond), ea.c})
				}
			}
			return &Ptr{alts: alts}
		}
		if b.c == nil {
			in.throw("invalid memory address or nil pointer dereference")
		}
		in.check(in.st.Ult(i, in.st.Const(64, uint64(b.c.n))), "index out of range")
		return in.elem(b.c, i)
	}
	in.unsupported(fmt.Sprintf("indexaddr %T", base))
	return nil
}

func (in *Interp) index(base Value, i *Term) Value {
	switch b := base.(type) {
	case *ArrayV:
		in.check(in.st.Ult(i, in.st.Const(64, uint64(b.ti.n))), "index out of range")
		if i.isConst() {
			return b.get(in, int(i.val))
		}
		return in.muxIndex(i, b.ti.n, func(k int) Value { return b.get(in, k) })
	case *Str:
		in.check(in.st.Ult(i, in.st.Const(64, uint64(b.Len()))), "index out of range")
		bs := b
		if i.isConst() {
			if bs.bs == nil {
				return in.st.Const(8, uint64(bs.s[i.val]))
			}
			return bs.bs[i.val]
		}
		all := in.strBytes(bs)
		return in.muxIndex(i, len(all), func(k int) Value { return all[k] })
	}
	in.unsupported(fmt.Sprintf("index %T", base))
	return nil
}

func (in *Interp) muxIndex(i *Term, n int, f func(int) Value) Value {
	var alts []PtrAlt
	var vals []Value
	for k := 0; k < n; k++ {
		c := in.st.Eq(i, in.st.Const(64, uint64(k)))
		if c.isFalse() {
			continue
		}
		alts = append(alts, PtrAlt{cond: c})
		vals = append(vals, f(k))
	}
	if len(alts) == 0 {
		panic(pathEnd{"infeasible", "index"})
	}
	return in.select_(alts, vals)
}

func (in *Interp) slice(base Value, lo, hi, mx *Term, ty types.Type) Value {
	st := in.st
	z := st.Const(64, 0)
	if lo == nil {
		lo = z
	}
	switch b := base.(type) {
	case *Str:
		n := st.Const(64, uint64(b.Len()))
		if hi == nil {
			hi = n
		}
		in.check(st.Ule(hi, n), "slice bounds out of range")
		in.check(st.Ule(lo, hi), "slice bounds out of range")
		l, h := in.concretize(lo), in.concretize(hi)
		if b.bs == nil {
			return &Str{s: b.s[l:h]}
		}
		return in.mkStr(b.bs[l:h])
	case *Slice:
		if hi == nil {
			hi = b.len
		}
		if mx == nil {
			mx = b.cap
		} else {
			in.check(st.Ule(mx, b.cap), "slice bounds out of range")
		}
		in.check(st.Ule(hi, mx), "slice bounds out of range")
		in.check(st.Ule(lo, hi), "slice bounds out of range")
		if b.arr == nil {
			return b
		}
		return &Slice{b.arr, st.Add(b.off, lo), st.Sub(hi, lo), st.Sub(mx, lo)}
	case *Ptr:
		if b.alts != nil {
			b = &Ptr{c: in.pickAlt(b)}
		}
		if b.c == nil {
			in.throw("invalid memory address or nil pointer dereference")
		}
		n := st.Const(64, uint64(b.c.n))
		if hi == nil {
			hi = n
		}
		if mx == nil {
			mx = n
		} else {
			in.check(st.Ule(mx, n), "slice bounds out of range")
		}
		in.check(st.Ule(hi, mx), "slice bounds out of range")
		in.check(st.Ule(lo, hi), "slice bounds out of range")
		return &Slice{b.c, lo, st.Sub(hi, lo), st.Sub(mx, lo)}
	}
	in.unsupported(fmt.Sprintf("slice %T", base))
	return nil
}

func (in *Interp) pickAlt(p *Ptr) *Cell {
	p = in.nonNil(p)
	if in.specDepth > 0 {
		panic(specAbort{"pick"})
	}
	for k := 0; k < len(p.alts)-1; k++ {
		if in.branch(p.alts[k].cond) {
			return p.alts[k].c
		}
	}
	return p.alts[len(p.alts)-1].c
}

func (in *Interp) makeSlice(elem *TInfo, l, c *Term) Value {
	st := in.st
	lim := in.path.allocLimit
	in.check(st.And(st.Sle(st.Const(64, 0), l), st.Sle(l, st.Const(64, uint64(lim)))), "allocation size out of range (more than "+itoa(lim)+" elements)")
	if c != l {
		in.check(st.And(st.Sle(l, c), st.Sle(c, st.Const(64, uint64(lim)))), "makeslice: cap out of range")
	}
	n := lim
	if c.smax < int64(lim) {
		n = int(max64(c.smax, 0))
	}
	if !c.isConst() && n > 4096 {
		// a tighter bound for the backing store
		n = int(in.maxOf(c, n))
	}
	arr := in.newArray(elem, n)
	return &Slice{arr, st.Const(64, 0), l, c}
}

func (in *Interp) unop(x *ssa.UnOp, ci *cInstr, v Value) Value {
	switch x.Op {
	case token.MUL:
		return in.loadPtr(v.(*Ptr))
	case token.NOT:
		return in.st.Not(v.(*Term))
	case token.SUB:
		switch y := v.(type) {
		case *Term:
			return in.st.Neg(y)
		case *Float:
			return in.fneg(y)
		}
	case token.XOR:
		t := v.(*Term)
		return in.st.BXor(t, in.st.Const(t.w, mask(t.w)))
	}
	in.unsupported("unop " + x.Op.String())
	return nil
}

func (in *Interp) binop(op token.Token, ty types.Type, a, b Value, yty types.Type) Value {
	st := in.st
	switch x := a.(type) {
	case *Term:
		y := b.(*Term)
		if x.w == 0 {
			switch op {
			case token.EQL:
				return st.Eq(x, y)
			case token.NEQ:
				return st.Not(st.Eq(x, y))
			case token.AND:
				return st.And(x, y)
			case token.OR:
				return st.Or(x, y)
			case token.XOR:
				return st.Not(st.Eq(x, y))
			}
		}
		sg := tinfo(ty).signed
		switch op {
		case token.ADD:
			return st.Add(x, y)
		case token.SUB:
			return st.Sub(x, y)
		case token.MUL:
			return st.Mul(x, y)
		case token.QUO, token.REM:
			in.check(st.Not(st.Eq(y, st.Const(y.w, 0))), "integer divide by zero")
			if y.isConst() && y.val == 0 {
				panic(pathEnd{"infeasible", "div"})
			}
			if op == token.QUO {
				if sg {
					return st.Sdiv(x, y)
				}
				return st.Udiv(x, y)
			}
			if sg {
				return st.Srem(x, y)
			}
			return st.Urem(x, y)
		case token.AND:
			return st.BAnd(x, y)
		case token.OR:
			return st.BOr(x, y)
		case token.XOR:
			return st.BXor(x, y)
		case token.AND_NOT:
			return st.BAnd(x, st.BXor(y, st.Const(y.w, mask(y.w))))
		case token.SHL, token.SHR:
			yi := tinfo(yty)
			if yi.signed {
				in.check(st.Sle(st.Const(y.w, 0), y), "negative shift amount")
			}
			var n *Term
			if y.w > x.w {
				if y.umax < uint64(x.w) {
					n = st.Trunc(y, x.w)
				} else {
					big := st.Ule(st.Const(y.w, uint64(x.w)), y)
					n = st.Ite(big, st.Const(x.w, uint64(x.w)), st.Trunc(y, x.w))
				}
			} else {
				n = st.Zext(y, x.w)
			}
			if op == token.SHL {
				return st.Shl(x, n)
			}
			if sg {
				return st.Ashr(x, n)
			}
			return st.Lshr(x, n)
		case token.EQL:
			return st.Eq(x, y)
		case token.NEQ:
			return st.Not(st.Eq(x, y))
		case token.LSS:
			if sg {
				return st.Slt(x, y)
			}
			return st.Ult(x, y)
		case token.LEQ:
			if sg {
				return st.Sle(x, y)
			}
			return st.Ule(x, y)
		case token.GTR:
			if sg {
				return st.Slt(y, x)
			}
			return st.Ult(y, x)
		case token.GEQ:
			if sg {
				return st.Sle(y, x)
			}
			return st.Ule(y, x)
		}
	case *Float:
		y := b.(*Float)
		if x.sym == 0 && y.sym == 0 {
			f32 := tinfo(ty).f32
			rnd := func(v float64) Value {
				if f32 {
					v = float64(float32(v))
				}
				return in.mkF(v)
			}
			switch op {
			case token.ADD:
				return rnd(x.c + y.c)
			case token.SUB:
				return rnd(x.c - y.c)
			case token.MUL:
				return rnd(x.c * y.c)
			case token.QUO:
				return rnd(x.c / y.c)
			case token.EQL:
				return st.Bool(x.c == y.c)
			case token.NEQ:
				return st.Bool(x.c != y.c)
			case token.LSS:
				return st.Bool(x.c < y.c)
			case token.LEQ:
				return st.Bool(x.c <= y.c)
			case token.GTR:
				return st.Bool(x.c > y.c)
			case token.GEQ:
				return st.Bool(x.c >= y.c)
			}
		}
		switch op {
		case token.ADD:
			return in.fadd(x, y, false)
		case token.SUB:
			return in.fadd(x, y, true)
		case token.MUL:
			return in.fmulF(x, y)
		case token.QUO:
			return in.fdivF(x, y)
		}
		lt, eq := in.fcmp(x, y)
		if lt == nil {
			in.path.opaque["float compare"]++
			return in.fresh("opaque_float_cmp", 0)
		}
		switch op {
		case token.EQL:
			return eq
		case token.NEQ:
			return st.Not(eq)
		case token.LSS:
			return lt
		case token.LEQ:
			return st.Or(lt, eq)
		case token.GTR:
			return st.Not(st.Or(lt, eq))
		case token.GEQ:
			return st.Not(lt)
		}
	case *Str:
		y := b.(*Str)
		switch op {
		case token.ADD:
			if x.bs == nil && y.bs == nil {
				return &Str{s: x.s + y.s}
			}
			return in.mkStr(append(append([]*Term{}, in.strBytes(x)...), in.strBytes(y)...))
		case token.EQL:
			return in.equal(a, b)
		case token.NEQ:
			return st.Not(in.equal(a, b))
		}
		if x.bs == nil && y.bs == nil {
			switch op {
			case token.LSS:
				return st.Bool(x.s < y.s)
			case token.LEQ:
				return st.Bool(x.s <= y.s)
			case token.GTR:
				return st.Bool(x.s > y.s)
			case token.GEQ:
				return st.Bool(x.s >= y.s)
			}
		}
	default:
		switch op {
		case token.EQL:
			return in.equal(a, b)
		case token.NEQ:
			return st.Not(in.equal(a, b))
		}
	}
	in.unsupported(fmt.Sprintf("binop %v on %T", op, a))
	return nil
}

func (in *Interp) equal(a, b Value) *Term {
	st := in.st
	switch x := a.(type) {
	case *Term:
		return st.Eq(x, b.(*Term))
	case *Float:
		return in.binop(token.EQL, types.Typ[types.Float64], a, b, nil).(*Term)
	case *Str:
		y := b.(*Str)
		if x.Len() != y.Len() {
			return st.fls
		}
		if x.bs == nil && y.bs == nil {
			return st.Bool(x.s == y.s)
		}
		xb, yb := in.strBytes(x), in.strBytes(y)
		r := st.tru
		for i := range xb {
			r = st.And(r, st.Eq(xb[i], yb[i]))
		}
		return r
	case *Ptr:
		y := b.(*Ptr)
		if x.alts == nil && y.alts == nil {
			return st.Bool(x.c == y.c)
		}
		xs, ys := x.alts, y.alts
		if xs == nil {
			xs = []PtrAlt{{st.tru, x.c}}
		}
		if ys == nil {
			ys = []PtrAlt{{st.tru, y.c}}
		}
		r := st.fls
		for _, p := range xs {
			for _, q := range ys {
				if p.c == q.c {
					r = st.Or(r, st.And(p.cond, q.cond))
				}
			}
		}
		return r
	case *Slice:
		y := b.(*Slice)
		if x.arr != nil && y.arr != nil {
			in.unsupported("slice comparison")
		}
		return st.Bool(x.arr == nil && y.arr == nil)
	case *Iface:
		y := b.(*Iface)
		if x.t == nil || y.t == nil {
			return st.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return st.fls
		}
		return in.equal(x.v, y.v)
	case *FuncV:
		y := b.(*FuncV)
		return st.Bool((x.fn == nil && x.bi == nil) == (y.fn == nil && y.bi == nil) && (x.fn == nil || y.fn == nil))
	case *MapV:
		y := b.(*MapV)
		return st.Bool(x.cell == y.cell)
	case *Struct:
		y := b.(*Struct)
		r := st.tru
		for i := range x.f {
			r = st.And(r, in.equal(x.f[i], y.f[i]))
		}
		return r
	case *ArrayV:
		y := b.(*ArrayV)
		r := st.tru
		for i := 0; i < x.ti.n; i++ {
			r = st.And(r, in.equal(x.get(in, i), y.get(in, i)))
		}
		return r
	}
	in.unsupported(fmt.Sprintf("comparison of %T", a))
	return nil
}

func (in *Interp) convert(v Value, from, to types.Type) Value {
	ft, tt := tinfo(from), tinfo(to)
	st := in.st
	switch x := v.(type) {
	case *Term:
		switch tt.kind {
		case KInt:
			if tt.w == x.w {
				return x
			}
			if tt.w < x.w {
				return st.Trunc(x, tt.w)
			}
			if ft.signed {
				return st.Sext(x, tt.w)
			}
			return st.Zext(x, tt.w)
		case KFloat:
			if x.isConst() {
				var f float64
				if ft.signed {
					f = float64(x.sval())
				} else {
					f = float64(x.val)
				}
				if tt.f32 {
					f = float64(float32(f))
				}
				return in.mkF(f)
			}
			y := x
			if x.w < 64 {
				if ft.signed {
					y = st.Sext(x, 64)
				} else {
					y = st.Zext(x, 64)
				}
			} else if !ft.signed && x.smin < 0 {
				return in.opaque("uint64 to float")
			}
			if !fitsRat(y) || tt.f32 {
				return in.opaque("int to float range")
			}
			return &Float{sym: 1, num: y, den: 1}
		case KString:
			c := in.concretize(x)
			if ft.signed {
				return &Str{s: string(rune(sx(c, x.w)))}
			}
			return &Str{s: string(rune(c))}
		}
	case *Float:
		switch tt.kind {
		case KFloat:
			if x.sym == 0 && tt.f32 {
				return in.mkF(float64(float32(x.c)))
			}
			if tt.f32 {
				return in.opaque("float32")
			}
			return x
		case KInt:
			if x.sym == 0 {
				var r uint64
				if tt.w == 64 && !tt.signed {
					r = uint64(x.c)
				} else {
					r = uint64(int64(x.c))
				}
				return st.Const(tt.w, r)
			}
			return st.Trunc(in.ftoi(x), tt.w)
		}
	case *Str:
		if tt.kind == KSlice {
			if e := tt.t.Underlying().(*types.Slice).Elem(); tinfo(e).w == 8 {
				bs := in.strBytes(x)
				arr := in.newArray(tinfo(e), len(bs))
				for i, b := range bs {
					arr.kid(i).v = b
				}
				n := st.Const(64, uint64(len(bs)))
				return &Slice{arr, st.Const(64, 0), n, n}
			} else if x.bs == nil {
				rs := []rune(x.s)
				arr := in.newArray(tinfo(e), len(rs))
				for i, r := range rs {
					arr.kid(i).v = st.Const(32, uint64(r))
				}
				n := st.Const(64, uint64(len(rs)))
				return &Slice{arr, st.Const(64, 0), n, n}
			}
		}
		if tt.kind == KString {
			return x
		}
	case *Slice:
		if tt.kind == KString {
			n := int(in.concretize(x.len))
			e := ft.t.Underlying().(*types.Slice).Elem()
			if tinfo(e).w == 8 {
				bs := make([]*Term, n)
				for i := range bs {
					bs[i] = in.loadPtr(in.elem(x.arr, st.Add(x.off, st.Const(64, uint64(i))))).(*Term)
				}
				return in.mkStr(bs)
			}
		}
		if tt.kind == KSlice {
			return x
		}
	case *Ptr:
		return x
	}
	in.unsupported(fmt.Sprintf("convert %v to %v", from, to))
	return nil
}

// ---- maps ----

func (in *Interp) mapUpdate(m *MapV, k, v Value) {
	if m.cell == nil {
		in.throw("assignment to entry in nil map")
	}
	es := m.cell.v.([]mapEnt)
	ne := append([]mapEnt(nil), es...)
	for i, e := range es {
		eq := in.equal(e.k, k)
		if in.branchSpecOK(eq) {
			ne[i].v = v
			in.set(m.cell, ne)
			return
		}
	}
	ne = append(ne, mapEnt{k, v})
	in.set(m.cell, ne)
}

func (in *Interp) branchSpecOK(c *Term) bool {
	if c.isConst() {
		return c.val != 0
	}
	return in.branch(c)
}

func (in *Interp) lookup(x *ssa.Lookup, m, k Value) Value {
	switch y := m.(type) {
	case *Str:
		return in.index(y, in.idx(k.(*Term), x.Index.Type()))
	case *MapV:
		mt := x.X.Type().Underlying().(*types.Map)
		var r Value
		ok := false
		if y.cell != nil {
			for _, e := range y.cell.v.([]mapEnt) {
				if in.branchSpecOK(in.equal(e.k, k)) {
					r, ok = e.v, true
					break
				}
			}
		}
		if !ok {
			r = in.zero(tinfo(mt.Elem()))
		}
		if x.CommaOk {
			return Tuple{r, in.st.Bool(ok)}
		}
		return r
	}
	in.unsupported("lookup")
	return nil
}

func (in *Interp) iterNext(x *ssa.Next, it *IterV) Value {
	st := in.st
	if x.IsString {
		s := it.str
		if *it.pos >= s.Len() {
			return Tuple{st.fls, st.Const(64, 0), st.Const(32, 0)}
		}
		p := *it.pos
		if s.bs != nil {
			b := s.bs[p]
			if !b.isConst() || b.val >= 0x80 {
				if !in.branch(st.Ult(b, st.Const(8, 0x80))) {
					in.unsupported("range over non-ASCII symbolic string")
				}
			}
			*it.pos++
			return Tuple{st.tru, st.Const(64, uint64(p)), st.Zext(b, 32)}
		}
		for i, r := range s.s[p:] {
			if i == 0 {
				n := len(s.s) - p
				for j := range s.s[p:] {
					if j > 0 {
						n = j
						break
					}
				}
				*it.pos += n
				return Tuple{st.tru, st.Const(64, uint64(p)), st.Const(32, uint64(r))}
			}
		}
	}
	tup := x.Type().(*types.Tuple)
	if *it.pos >= len(it.ents) {
		r := Tuple{st.fls, nil, nil}
		for i := 1; i < 3; i++ {
			if b, ok := tup.At(i).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
				continue
			}
			r[i] = in.zero(tinfo(tup.At(i).Type()))
		}
		return r
	}
	e := it.ents[*it.pos]
	*it.pos++
	return Tuple{st.tru, e.k, e.v}
}

// ---- builtins ----

func (in *Interp) builtin(bi *ssa.Builtin, args []Value, ci *cInstr) Value {
	st := in.st
	switch bi.Name() {
	case "len":
		switch x := args[0].(type) {
		case *Slice:
			return x.len
		case *Str:
			return st.Const(64, uint64(x.Len()))
		case *MapV:
			if x.cell == nil {
				return st.Const(64, 0)
			}
			return st.Const(64, uint64(len(x.cell.v.([]mapEnt))))
		case *ArrayV:
			return st.Const(64, uint64(x.ti.n))
		case *Ptr:
			return st.Const(64, uint64(x.c.n))
		}
	case "cap":
		switch x := args[0].(type) {
		case *Slice:
			return x.cap
		case *Ptr:
			return st.Const(64, uint64(x.c.n))
		}
	case "append":
		return in.doAppend(args, ci)
	case "copy":
		return in.doCopy(args)
	case "delete":
		m := args[0].(*MapV)
		if m.cell == nil {
			return Tuple{}
		}
		es := m.cell.v.([]mapEnt)
		for i, e := range es {
			if in.branchSpecOK(in.equal(e.k, args[1])) {
				ne := append(append([]mapEnt(nil), es[:i]...), es[i+1:]...)
				in.set(m.cell, ne)
				break
			}
		}
		return Tuple{}
	case "panic":
		in.throw("panic")
	case "recover":
		if fr := in.curPanic; fr != nil && fr.pan != nil && !fr.recovered {
			fr.recovered = true
			v := fr.pan.v
			in.w.lastPanic = fr.pan.msg
			if v == nil {
				return nilIface
			}
			return v
		}
		return nilIface
	case "min", "max":
		sig := ci.ti
		r := args[0]
		for _, a := range args[1:] {
			switch x := r.(type) {
			case *Term:
				y := a.(*Term)
				var lt *Term
				if sig.signed {
					lt = st.Slt(x, y)
				} else {
					lt = st.Ult(x, y)
				}
				if bi.Name() == "min" {
					r = st.Ite(lt, x, y)
				} else {
					r = st.Ite(lt, y, x)
				}
			case *Float:
				y := a.(*Float)
				if x.sym != 0 || y.sym != 0 {
					in.unsupported("float min")
				}
				if bi.Name() == "min" {
					r = in.mkF(math.Min(x.c, y.c))
				} else {
					r = in.mkF(math.Max(x.c, y.c))
				}
			}
		}
		return r
	case "ssa:wrapnilchk":
		p := args[0].(*Ptr)
		if p.isNil() {
			in.throw("value method called using nil pointer")
		}
		return p
	case "print", "println":
		return Tuple{}
	case "clear":
		switch x := args[0].(type) {
		case *MapV:
			if x.cell != nil {
				in.set(x.cell, []mapEnt{})
			}
			return Tuple{}
		case *Slice:
			n := int(in.concretize(x.len))
			for i := 0; i < n; i++ {
				in.storePtr(in.elem(x.arr, st.Add(x.off, st.Const(64, uint64(i)))), in.zero(x.arr.ti.elem))
			}
			return Tuple{}
		}
	}
	in.unsupported("builtin " + bi.Name())
	return nil
}

func (in *Interp) sliceElems(v Value, n int) []Value {
	r := make([]Value, n)
	switch x := v.(type) {
	case *Slice:
		for i := range r {
			r[i] = in.loadPtr(in.elem(x.arr, in.st.Add(x.off, in.st.Const(64, uint64(i)))))
		}
	case *Str:
		bs := in.strBytes(x)
		for i := range r {
			r[i] = bs[i]
		}
	}
	return r
}

func (in *Interp) lenOf(v Value) *Term {
	switch x := v.(type) {
	case *Slice:
		return x.len
	case *Str:
		return in.st.Const(64, uint64(x.Len()))
	}
	in.unsupported("len")
	return nil
}

func (in *Interp) doAppend(args []Value, ci *cInstr) Value {
	st := in.st
	s := args[0].(*Slice)
	if len(args) == 1 {
		return s
	}
	n := int(in.concretize(in.lenOf(args[1])))
	if n == 0 {
		return s
	}
	elem := tinfo(ci.ti.t.Underlying().(*types.Slice).Elem())
	vals := in.sliceElems(args[1], n)
	newLen := st.Add(s.len, st.Const(64, uint64(n)))
	if s.arr != nil {
		fits := st.Sle(newLen, s.cap)
		if fits.isTrue() && (!s.len.isConst() || !s.off.isConst()) && in.specDepth >= 0 {
			base := st.Add(s.off, s.len)
			for i, v := range vals {
				in.storePtr(in.elem(s.arr, st.Add(base, st.Const(64, uint64(i)))), v)
			}
			return &Slice{s.arr, s.off, newLen, s.cap}
		}
	}
	l := int(in.concretize(s.len))
	c := int(in.concretize(s.cap))
	if l+n <= c {
		off := int(in.concretize(s.off))
		for i, v := range vals {
			in.store(s.arr.kid(off+l+i), v)
		}
		return &Slice{s.arr, st.Const(64, uint64(off)), st.Const(64, uint64(l+n)), st.Const(64, uint64(c))}
	}
	nc := c * 2
	if nc < l+n {
		nc = l + n
	}
	if nc < 8 && elem.w > 0 {
		nc = 8
	}
	if nc > in.path.allocLimit {
		in.stepFail("append")
	}
	arr := in.newArray(elem, nc)
	old := in.sliceElems(s, l)
	for i, v := range old {
		in.store(arr.kid(i), v)
	}
	for i, v := range vals {
		in.store(arr.kid(l+i), v)
	}
	return &Slice{arr, st.Const(64, 0), st.Const(64, uint64(l+n)), st.Const(64, uint64(nc))}
}

func (in *Interp) doCopy(args []Value) Value {
	st := in.st
	d := args[0].(*Slice)
	sl := in.lenOf(args[1])
	n := st.Ite(st.Slt(d.len, sl), d.len, sl)
	if !n.isConst() {
		if n.umax > 64 || in.path.conc {
			n = st.Const(64, in.concretize(n))
		} else {
			// guarded copy
			src := args[1].(*Slice)
			m := int(n.umax)
			if src.arr == nil || d.arr == nil {
				return n
			}
			type pr struct {
				p *Ptr
				v Value
				g *Term
			}
			var prs []pr
			for i := 0; i < m; i++ {
				k := st.Const(64, uint64(i))
				g := st.Slt(k, n)
				di, si := st.Add(d.off, k), st.Add(src.off, k)
				if di.umin >= uint64(d.arr.n) || si.umin >= uint64(src.arr.n) {
					break
				}
				prs = append(prs, pr{in.elem(d.arr, di), in.loadPtr(in.elem(src.arr, si)), g})
			}
			for _, q := range prs {
				v, ok := in.merge(q.g, q.v, in.loadPtr(q.p))
				if !ok {
					in.unsupported("guarded copy")
				}
				in.storePtr(q.p, v)
			}
			return n
		}
	}
	k := int(n.val)
	vals := in.sliceElems(args[1], k)
	for i, v := range vals {
		in.storePtr(in.elem(d.arr, st.Add(d.off, st.Const(64, uint64(i)))), v)
	}
	return n
}
