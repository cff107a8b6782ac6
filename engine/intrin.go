package main

import (
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(in *Interp, fn *ssa.Function, args []Value) Value

const vsymPath = "github.com/golang/freetype/vsym."

func findIntrinsic(fn *ssa.Function) intrinsic {
	name := fn.String()
	if fn.Origin() != nil {
		name = fn.Origin().String()
	}
	if strings.HasPrefix(name, vsymPath) {
		return vsymFuncs[name[len(vsymPath):]]
	}
	if it := stdFuncs[name]; it != nil {
		return it
	}
	return nil
}

func concStr(in *Interp, v Value) string {
	s := v.(*Str)
	if s.bs != nil {
		return "?"
	}
	return s.s
}

func concInt(in *Interp, v Value) int64 {
	t := v.(*Term)
	if !t.isConst() {
		return sx(in.concretize(t), t.w)
	}
	return t.sval()
}

func boolInput(in *Interp, name string) *Term {
	nm := in.uniq(name)
	v := in.st.Var(nm, 1)
	in.path.vars = append(in.path.vars, v)
	b := in.st.Eq(v, in.st.Const(1, 1))
	in.path.inputs = append(in.path.inputs, input{nm, b})
	return b
}

var vsymFuncs map[string]intrinsic

func init() {
	full := func(w uint8, signed bool) intrinsic {
		return func(in *Interp, fn *ssa.Function, a []Value) Value {
			nm := in.uniq(concStr(in, a[0]))
			v := in.st.Var(nm, w)
			in.path.vars = append(in.path.vars, v)
			x := v
			in.path.inputs = append(in.path.inputs, input{nm, x})
			return v
		}
	}
	vsymFuncs = map[string]intrinsic{
		"Int": func(in *Interp, fn *ssa.Function, a []Value) Value {
			return in.newVarRange(concStr(in, a[0]), 64, concInt(in, a[1]), concInt(in, a[2]), true)
		},
		"I32": func(in *Interp, fn *ssa.Function, a []Value) Value {
			return in.newVarRange(concStr(in, a[0]), 32, concInt(in, a[1]), concInt(in, a[2]), true)
		},
		"U8":   full(8, false),
		"U16":  full(16, false),
		"U32":  full(32, false),
		"Bool": func(in *Interp, fn *ssa.Function, a []Value) Value { return boolInput(in, concStr(in, a[0])) },
		"Bytes": func(in *Interp, fn *ssa.Function, a []Value) Value {
			n := int(concInt(in, a[1]))
			arr := in.newArray(tinfo(types.Typ[types.Uint8]), n)
			name := in.uniq(concStr(in, a[0]))
			for i := 0; i < n; i++ {
				nm := name + "." + itoa(i)
				v := in.st.Var(nm, 8)
				in.path.vars = append(in.path.vars, v)
				in.path.inputs = append(in.path.inputs, input{nm, v})
				arr.kid(i).v = v
			}
			k := in.st.Const(64, uint64(n))
			return &Slice{arr, in.st.Const(64, 0), k, k}
		},
		"Choice": func(in *Interp, fn *ssa.Function, a []Value) Value {
			v := in.newVarRange(concStr(in, a[0]), 64, 0, concInt(in, a[1])-1, true)
			return in.st.Const(64, in.concretize(v))
		},
		"Pick": func(in *Interp, fn *ssa.Function, a []Value) Value {
			return in.st.Const(64, in.concretize(a[0].(*Term)))
		},
		"Assume": func(in *Interp, fn *ssa.Function, a []Value) Value {
			in.assume(a[0].(*Term))
			return Tuple{}
		},
		"Assert": func(in *Interp, fn *ssa.Function, a []Value) Value {
			in.assert(a[0].(*Term), concStr(in, a[1]))
			return Tuple{}
		},
		"Check": func(in *Interp, fn *ssa.Function, a []Value) Value {
			in.flush()
			return Tuple{}
		},
		"Observe": func(in *Interp, fn *ssa.Function, a []Value) Value {
			if in.specDepth > 0 {
				panic(specAbort{"observe"})
			}
			in.path.obs = append(in.path.obs, obs{concStr(in, a[0]), a[1].(*Term)})
			return Tuple{}
		},
		"Snapshot": func(in *Interp, fn *ssa.Function, a []Value) Value {
			if in.specDepth > 0 {
				panic(specAbort{"snapshot"})
			}
			s := &snapshot{seen: map[*Cell]bool{}, had: map[*Cell]bool{}}
			in.snap(s, a[0])
			in.path.snaps = append(in.path.snaps, s)
			return in.st.Const(64, uint64(len(in.path.snaps)-1))
		},
		"Unchanged": func(in *Interp, fn *ssa.Function, a []Value) Value {
			if in.specDepth > 0 {
				panic(specAbort{"snapshot"})
			}
			return in.unchanged(in.path.snaps[concInt(in, a[0])])
		},
		"Reach": func(in *Interp, fn *ssa.Function, a []Value) Value {
			if in.specDepth == 0 {
				in.path.reached[concStr(in, a[0])] = true
			}
			return Tuple{}
		},
		"Merge": func(in *Interp, fn *ssa.Function, a []Value) Value {
			in.path.mergeLevel = int(concInt(in, a[0]))
			return Tuple{}
		},
		"Skip": func(in *Interp, fn *ssa.Function, a []Value) Value {
			in.flush()
			panic(pathEnd{"assume", ""})
		},
		"Thorough": func(in *Interp, fn *ssa.Function, a []Value) Value { return in.st.Bool(in.w.eng.thorough) },
		"Symbolic": func(in *Interp, fn *ssa.Function, a []Value) Value { return in.st.tru },
		// If is a branch-free conditional.
		"If": func(in *Interp, fn *ssa.Function, a []Value) Value {
			return in.st.Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term))
		},
	}
}

var stdFuncs map[string]intrinsic

func fl(f func(x float64) float64) intrinsic {
	return func(in *Interp, fn *ssa.Function, a []Value) Value {
		x := a[0].(*Float)
		if x.sym != 0 {
			return in.opaque(fn.Name())
		}
		return in.mkF(f(x.c))
	}
}

func fl2(f func(x, y float64) float64) intrinsic {
	return func(in *Interp, fn *ssa.Function, a []Value) Value {
		x, y := a[0].(*Float), a[1].(*Float)
		if x.sym != 0 || y.sym != 0 {
			return in.opaque(fn.Name())
		}
		return in.mkF(f(x.c, y.c))
	}
}

func nop(in *Interp, fn *ssa.Function, a []Value) Value { return in.zeroResult(fn) }

func (in *Interp) zeroResult(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return Tuple{}
	case 1:
		return in.zero(tinfo(r.At(0).Type()))
	}
	return in.zero(tinfo(r))
}

func (in *Interp) mkError(msg string) Value {
	p := in.prog.ImportedPackage("errors")
	if p == nil {
		in.unsupported("errors package not loaded")
	}
	t := p.Type("errorString").Type()
	c := in.newCell(tinfo(t))
	in.set(c.kid(0), &Str{s: msg})
	return &Iface{types.NewPointer(t), &Ptr{c: c}}
}

var ptrTypes = map[types.Type]types.Type{}

func init() {
	tru := func(in *Interp, fn *ssa.Function, a []Value) Value { return in.st.tru }
	stdFuncs = map[string]intrinsic{
		"math.Ceil":  func(in *Interp, fn *ssa.Function, a []Value) Value { return in.ffloor(a[0].(*Float), true) },
		"math.Floor": func(in *Interp, fn *ssa.Function, a []Value) Value { return in.ffloor(a[0].(*Float), false) },
		"math.Trunc": fl(math.Trunc),
		"math.Round": fl(math.Round),
		"math.Pow":   fl2(math.Pow),
		"math.Exp":   fl(math.Exp),
		"math.Log":   fl(math.Log),
		"math.Sin":   fl(math.Sin),
		"math.Cos":   fl(math.Cos),
		"math.IsNaN": func(in *Interp, fn *ssa.Function, a []Value) Value { return in.st.Bool(math.IsNaN(a[0].(*Float).c)) },
		"math.Float64bits": func(in *Interp, fn *ssa.Function, a []Value) Value {
			x := a[0].(*Float)
			if x.sym != 0 {
				in.unsupported("Float64bits")
			}
			return in.st.Const(64, math.Float64bits(x.c))
		},
		"math.Float64frombits": func(in *Interp, fn *ssa.Function, a []Value) Value {
			return in.mkF(math.Float64frombits(in.concretize(a[0].(*Term))))
		},
		"math.Abs": func(in *Interp, fn *ssa.Function, a []Value) Value {
			x := a[0].(*Float)
			switch x.sym {
			case 0:
				return in.mkF(math.Abs(x.c))
			case 1:
				return in.mkRat(in.absT(x.num), x.den, x.nrnd, "abs")
			}
			return in.opaque("abs")
		},
		"math.Sqrt": func(in *Interp, fn *ssa.Function, a []Value) Value {
			x := a[0].(*Float)
			if x.sym == 0 {
				return in.mkF(math.Sqrt(x.c))
			}
			if x.sym == 1 && x.den == 1 && x.nrnd == 0 && x.num.smin >= 0 {
				return &Float{sym: 2, num: x.num}
			}
			return in.opaque("sqrt")
		},
		"math.Hypot": func(in *Interp, fn *ssa.Function, a []Value) Value {
			x, y := a[0].(*Float), a[1].(*Float)
			if x.sym == 0 && y.sym == 0 {
				return in.mkF(math.Hypot(x.c, y.c))
			}
			if x.sym == 0 && x.c == 0 && y.sym == 1 {
				return in.mkRat(in.absT(y.num), y.den, y.nrnd, "abs")
			}
			if y.sym == 0 && y.c == 0 && x.sym == 1 {
				return in.mkRat(in.absT(x.num), x.den, x.nrnd, "abs")
			}
			return in.opaque("hypot")
		},
		"(*sync.Mutex).Lock":      nop,
		"(*sync.Mutex).Unlock":    nop,
		"(*sync.Mutex).TryLock":   tru,
		"(*sync.RWMutex).Lock":    nop,
		"(*sync.RWMutex).Unlock":  nop,
		"(*sync.RWMutex).RLock":   nop,
		"(*sync.RWMutex).RUnlock": nop,
		"fmt.Sprintf":             func(in *Interp, fn *ssa.Function, a []Value) Value { return &Str{s: "<fmt>"} },
		"fmt.Sprint":              func(in *Interp, fn *ssa.Function, a []Value) Value { return &Str{s: "<fmt>"} },
		"fmt.Errorf":              func(in *Interp, fn *ssa.Function, a []Value) Value { return in.mkError("<fmt>") },
		"fmt.Println":             nop,
		"fmt.Printf":              nop,
		"fmt.Print":               nop,
		"strconv.Itoa": func(in *Interp, fn *ssa.Function, a []Value) Value {
			t := a[0].(*Term)
			if t.isConst() {
				return &Str{s: itoa(int(t.sval()))}
			}
			return &Str{s: "<int>"}
		},
		"runtime.KeepAlive": nop,
		"(*sync.Once).Do": func(in *Interp, fn *ssa.Function, a []Value) Value {
			c := a[0].(*Ptr).c
			// the first field tree holds some integer; use its first leaf
			leaf := c
			for leaf.ti.kind == KStruct {
				leaf = leaf.kid(0)
			}
			for leaf.ti.kind == KArray {
				leaf = leaf.kid(0)
			}
			if leaf.v != nil {
				return Tuple{}
			}
			in.set(leaf, in.st.Const(maxw(leaf.ti.w, 8), 1))
			in.callValue(a[1], nil)
			return Tuple{}
		},
	}
}

func (in *Interp) absT(t *Term) *Term {
	st := in.st
	return st.Ite(st.Slt(t, st.Const(t.w, 0)), st.Neg(t), t)
}
