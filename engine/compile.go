package main

import (
	"go/token"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type opKind uint8

const (
	oReg opKind = iota
	oConst
	oGlobal
	oFunc
	oBuiltin
	oNone
)

type opref struct {
	kind opKind
	i    int
	v    ssa.Value
}

type cInstr struct {
	ins ssa.Instruction
	dst int
	ops []opref
	ti  *TInfo // type of the result
}

type cBlock struct {
	b      *ssa.BasicBlock
	phis   []cInstr
	body   []cInstr
	ipdom  *ssa.BasicBlock // nil: exit
	pure   bool            // only side-effect-free instructions
	region map[*ssa.BasicBlock]bool
	other  bool // the block has impure instructions other than stores
	// storeRegion: the region is acyclic, small, and pure apart from stores
	storeRegion bool
	pureRegion  bool // region between the If here and ipdom is pure and acyclic
	regionSize  int
	hasLoop     bool
	liveOut     []int // registers set within a region that loops and used after it
}

type FuncInfo struct {
	fn        *ssa.Function
	nregs     int
	regs      map[ssa.Value]int
	blocks    []*cBlock
	params    []int
	fvs       []int
	isHarness bool
}

var (
	fiMu    sync.Mutex
	fis     = map[*ssa.Function]*FuncInfo{}
	constN  int
	constMu sync.Mutex
	constID = map[*ssa.Const]int{}
	buildMu sync.Mutex
)

func funcInfo(fn *ssa.Function) *FuncInfo {
	fiMu.Lock()
	defer fiMu.Unlock()
	if fi := fis[fn]; fi != nil {
		return fi
	}
	buildMu.Lock()
	if fn.Blocks == nil && fn.Pkg != nil {
		fn.Pkg.Build()
	} else if fn.Blocks == nil && fn.Origin() != nil && fn.Origin().Pkg != nil {
		fn.Origin().Pkg.Build()
	}
	buildMu.Unlock()
	fi := &FuncInfo{fn: fn}
	idx := map[ssa.Value]int{}
	fi.regs = idx
	reg := func(v ssa.Value) int {
		i, ok := idx[v]
		if !ok {
			i = fi.nregs
			fi.nregs++
			idx[v] = i
		}
		return i
	}
	for _, p := range fn.Params {
		fi.params = append(fi.params, reg(p))
	}
	for _, p := range fn.FreeVars {
		fi.fvs = append(fi.fvs, reg(p))
	}
	mkref := func(v ssa.Value) opref {
		switch x := v.(type) {
		case nil:
			return opref{kind: oNone}
		case *ssa.Const:
			constMu.Lock()
			id, ok := constID[x]
			if !ok {
				id = constN
				constN++
				constID[x] = id
			}
			constMu.Unlock()
			return opref{oConst, id, v}
		case *ssa.Global:
			return opref{oGlobal, 0, v}
		case *ssa.Function:
			return opref{oFunc, 0, v}
		case *ssa.Builtin:
			return opref{oBuiltin, 0, v}
		}
		return opref{oReg, reg(v), v}
	}
	for _, b := range fn.Blocks {
		cb := &cBlock{b: b, pure: true}
		for _, ins := range b.Instrs {
			if _, ok := ins.(*ssa.DebugRef); ok {
				continue
			}
			ci := cInstr{ins: ins, dst: -1}
			if v, ok := ins.(ssa.Value); ok {
				ci.dst = reg(v)
				if _, isRange := ins.(*ssa.Range); !isRange {
					ci.ti = tinfo(v.Type())
				}
			}
			var rands []*ssa.Value
			rands = ins.Operands(rands)
			for _, r := range rands {
				if *r == nil {
					ci.ops = append(ci.ops, opref{kind: oNone})
				} else {
					ci.ops = append(ci.ops, mkref(*r))
				}
			}
			if _, ok := ins.(*ssa.Phi); ok {
				cb.phis = append(cb.phis, ci)
				continue
			}
			cb.body = append(cb.body, ci)
			was := cb.pure
			cb.pure = true
			switch x := ins.(type) {
			case *ssa.BinOp, *ssa.Convert, *ssa.FieldAddr, *ssa.Field, *ssa.IndexAddr, *ssa.Index, *ssa.Jump, *ssa.If,
				*ssa.Extract, *ssa.ChangeType, *ssa.Slice, *ssa.Return:
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					cb.pure = false
				}
			case *ssa.Call:
				bi, ok := x.Call.Value.(*ssa.Builtin)
				if !ok || (bi.Name() != "len" && bi.Name() != "cap" && bi.Name() != "min" && bi.Name() != "max") {
					cb.pure = false
				}
			default:
				cb.pure = false
			}
			if _, ok := ins.(*ssa.Store); !ok && !cb.pure {
				cb.other = true
			}
			cb.pure = cb.pure && was
		}
		fi.blocks = append(fi.blocks, cb)
	}
	fi.postdom()
	fis[fn] = fi
	return fi
}

func (fi *FuncInfo) postdom() {
	bl := fi.fn.Blocks
	n := len(bl)
	if n == 0 {
		return
	}
	// post-dominator sets as bitsets; node n is the virtual exit
	words := (n + 1 + 63) / 64
	sets := make([][]uint64, n+1)
	full := make([]uint64, words)
	for i := 0; i <= n; i++ {
		full[i/64] |= 1 << (i % 64)
	}
	for i := range sets {
		sets[i] = append([]uint64(nil), full...)
	}
	for i := range sets[n] {
		sets[n][i] = 0
	}
	sets[n][n/64] = 1 << (n % 64)
	succs := func(i int) []int {
		b := bl[i]
		if len(b.Succs) == 0 {
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Panic); ok {
				return nil
			}
			return []int{n}
		}
		var r []int
		for _, s := range b.Succs {
			r = append(r, s.Index)
		}
		return r
	}
	// blocks that can reach the exit
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			nw := append([]uint64(nil), full...)
			any := false
			for _, s := range succs(i) {
				any = true
				for k := range nw {
					nw[k] &= sets[s][k]
				}
			}
			if !any {
				continue
			}
			nw[i/64] |= 1 << (i % 64)
			for k := range nw {
				if nw[k] != sets[i][k] {
					changed = true
				}
			}
			sets[i] = nw
		}
	}
	cnt := func(i int) int {
		c := 0
		for _, w := range sets[i] {
			for ; w != 0; w &= w - 1 {
				c++
			}
		}
		return c
	}
	for i, cb := range fi.blocks {
		if len(bl[i].Succs) != 2 {
			continue
		}
		// ipdom: the strict post-dominator with the largest set
		best, bc := n, -1
		for j := 0; j < n; j++ {
			if j != i && sets[i][j/64]&(1<<(j%64)) != 0 {
				if c := cnt(j); c > bc {
					best, bc = j, c
				}
			}
		}
		if best != n {
			cb.ipdom = bl[best]
		}
		// region
		reg := map[*ssa.BasicBlock]bool{}
		pure, loop, other := true, false, false
		var walk func(b *ssa.BasicBlock)
		walk = func(b *ssa.BasicBlock) {
			if b == cb.ipdom || reg[b] {
				return
			}
			if b == bl[i] {
				loop = true
				return
			}
			reg[b] = true
			if !fi.blocks[b.Index].pure {
				pure = false
			}
			if fi.blocks[b.Index].other || len(b.Succs) == 0 {
				other = true
			}
			if len(b.Succs) == 0 {
				if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); !ok {
					pure = false
				}
			}
			for _, s := range b.Succs {
				walk(s)
			}
		}
		for _, s := range bl[i].Succs {
			walk(s)
		}
		if !loop {
			loop = hasCycle(reg, bl[i].Succs, cb.ipdom)
		}
		if loop && cb.ipdom != nil {
			fi.findLiveOut(cb, reg)
		}
		cb.region = reg
		cb.regionSize = len(reg)
		cb.hasLoop = loop
		cb.storeRegion = !other && !loop && len(reg) <= 6 && cb.ipdom != nil
		cb.pureRegion = pure && !loop && len(reg) <= 12
	}
}

// findLiveOut notes the registers that the blocks of a region, with the branch
// block if the region returns to it, set and later blocks use. (In a region
// without a cycle, these are the phis of its post-dominator.)
func (fi *FuncInfo) findLiveOut(cb *cBlock, reg map[*ssa.BasicBlock]bool) {
	in := func(b *ssa.BasicBlock) bool { return b == cb.b || reg[b] }
	for _, b := range fi.fn.Blocks {
		if !in(b) {
			continue
		}
		for _, ins := range b.Instrs {
			v, ok := ins.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			live := false
			for _, r := range *v.Referrers() {
				if _, ok := r.(*ssa.DebugRef); ok {
					continue
				}
				if ph, ok := r.(*ssa.Phi); ok && r.Block() == cb.ipdom {
					for k, e := range ph.Edges {
						if e == v && !in(ph.Block().Preds[k]) {
							live = true
						}
					}
				} else if !in(r.Block()) {
					live = true
				}
			}
			if i, ok := fi.regs[v]; ok && live {
				cb.liveOut = append(cb.liveOut, i)
			}
		}
	}
}

func hasCycle(reg map[*ssa.BasicBlock]bool, starts []*ssa.BasicBlock, stop *ssa.BasicBlock) bool {
	state := map[*ssa.BasicBlock]int{}
	var dfs func(b *ssa.BasicBlock) bool
	dfs = func(b *ssa.BasicBlock) bool {
		if b == stop || !reg[b] {
			return false
		}
		switch state[b] {
		case 1:
			return true
		case 2:
			return false
		}
		state[b] = 1
		for _, s := range b.Succs {
			if dfs(s) {
				return true
			}
		}
		state[b] = 2
		return false
	}
	for _, s := range starts {
		if dfs(s) {
			return true
		}
	}
	return false
}

func derefT(t types.Type) types.Type {
	return t.Underlying().(*types.Pointer).Elem()
}
