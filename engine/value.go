package main

import (
	"fmt"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Value is one of: *Term (integers, booleans), *Float, *Str, *Ptr, *Slice,
// *Struct, *ArrayV, *Iface, *FuncV, *MapV, Tuple, *IterV, nil (zero of
// func/interface kinds is a typed nil).
type Value interface{}

type Kind uint8

const (
	KInt Kind = iota
	KBool
	KFloat
	KString
	KPtr
	KSlice
	KStruct
	KArray
	KIface
	KFunc
	KMap
	KChan
	KTuple
	KUnsafe
	KComplex
)

// TInfo describes a type.
type TInfo struct {
	t      types.Type
	kind   Kind
	w      uint8
	signed bool
	fields []*TInfo
	elem   *TInfo
	n      int
	f32    bool
}

var tinfoMu sync.RWMutex
var tinfos = map[types.Type]*TInfo{}

func tinfo(t types.Type) *TInfo {
	tinfoMu.RLock()
	ti := tinfos[t]
	tinfoMu.RUnlock()
	if ti != nil {
		return ti
	}
	ti = mkTinfo(t)
	tinfoMu.Lock()
	if old := tinfos[t]; old != nil {
		ti = old
	} else {
		tinfos[t] = ti
	}
	tinfoMu.Unlock()
	return ti
}

func mkTinfo(t types.Type) *TInfo {
	ti := &TInfo{t: t}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		ti.kind = KInt
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			ti.kind = KBool
		case types.Int, types.Int64, types.UntypedInt:
			ti.w, ti.signed = 64, true
		case types.Int32, types.UntypedRune:
			ti.w, ti.signed = 32, true
		case types.Int16:
			ti.w, ti.signed = 16, true
		case types.Int8:
			ti.w, ti.signed = 8, true
		case types.Uint, types.Uint64, types.Uintptr:
			ti.w = 64
		case types.Uint32:
			ti.w = 32
		case types.Uint16:
			ti.w = 16
		case types.Uint8:
			ti.w = 8
		case types.Float64, types.UntypedFloat:
			ti.kind = KFloat
		case types.Float32:
			ti.kind = KFloat
			ti.f32 = true
		case types.String, types.UntypedString:
			ti.kind = KString
		case types.UnsafePointer:
			ti.kind = KUnsafe
		case types.Complex128, types.Complex64, types.UntypedComplex:
			ti.kind = KComplex
		case types.UntypedNil, types.Invalid: // (Invalid: an unused component of a Next)
			ti.kind = KPtr
		default:
			panic(fmt.Sprintf("basic type %v", t))
		}
	case *types.Pointer:
		ti.kind = KPtr
	case *types.Slice:
		ti.kind = KSlice
	case *types.Struct:
		ti.kind = KStruct
		for i := 0; i < u.NumFields(); i++ {
			ti.fields = append(ti.fields, tinfo(u.Field(i).Type()))
		}
	case *types.Array:
		ti.kind = KArray
		ti.elem = tinfo(u.Elem())
		ti.n = int(u.Len())
	case *types.Interface:
		ti.kind = KIface
	case *types.Signature:
		ti.kind = KFunc
	case *types.Map:
		ti.kind = KMap
	case *types.Chan:
		ti.kind = KChan
	case *types.Tuple:
		ti.kind = KTuple
		for i := 0; i < u.Len(); i++ {
			ti.fields = append(ti.fields, tinfo(u.At(i).Type()))
		}
	default:
		panic(fmt.Sprintf("type %T", u))
	}
	return ti
}

// Cell is a memory location. Scalars hold v; structs and arrays have kids
// that are created on first use and hold the zero value until written.
type Cell struct {
	ti   *TInfo
	v    Value
	kids []*Cell
	big  map[int]*Cell
	n    int
	era  uint32
}

type Ptr struct {
	c    *Cell // nil: nil pointer (when alts == nil)
	alts []PtrAlt
}

type PtrAlt struct {
	cond *Term // exclusive and exhaustive over the alternatives
	c    *Cell // nil: nil pointer
}

type Slice struct {
	arr           *Cell // nil for a nil slice
	off, len, cap *Term // 64-bit
}

type Struct struct{ f []Value }
type ArrayV struct {
	ti *TInfo
	e  []Value
}
type Iface struct {
	t types.Type
	v Value
}
type FuncV struct {
	fn  *ssa.Function
	bi  *ssa.Builtin
	env []Value
}
type Tuple []Value

type Str struct {
	s  string
	bs []*Term // non-nil: symbolic bytes
}

func (s *Str) Len() int {
	if s.bs != nil {
		return len(s.bs)
	}
	return len(s.s)
}

type mapEnt struct{ k, v Value }

// MapV is a map object; its state is an immutable entry list held in a cell so
// that the journal covers it.
type MapV struct {
	cell *Cell // v: []mapEnt
	ti   *TInfo
}

type IterV struct {
	str  *Str
	ents []mapEnt
	pos  *int
}

var nilPtr = &Ptr{}
var nilIface = &Iface{}
var nilFunc = &FuncV{}
var nilMap = &MapV{}

func (p *Ptr) isNil() bool { return p.c == nil && p.alts == nil }

// ---- memory ----

const bigArray = 8192

func (in *Interp) newCell(ti *TInfo) *Cell {
	return &Cell{ti: ti, era: in.eraNow, n: ti.n}
}

func (in *Interp) newArray(elem *TInfo, n int) *Cell {
	ti := &TInfo{kind: KArray, elem: elem, n: n}
	return &Cell{ti: ti, n: n, era: in.eraNow}
}

func (c *Cell) kid(i int) *Cell {
	if c.ti.kind == KArray {
		if c.n > bigArray {
			if c.big == nil {
				c.big = map[int]*Cell{}
			}
			k := c.big[i]
			if k == nil {
				k = &Cell{ti: c.ti.elem, n: c.ti.elem.n, era: c.era}
				c.big[i] = k
			}
			return k
		}
		if c.kids == nil {
			c.kids = make([]*Cell, c.n)
		}
		k := c.kids[i]
		if k == nil {
			k = &Cell{ti: c.ti.elem, n: c.ti.elem.n, era: c.era}
			c.kids[i] = k
		}
		return k
	}
	if c.kids == nil {
		c.kids = make([]*Cell, len(c.ti.fields))
	}
	k := c.kids[i]
	if k == nil {
		k = &Cell{ti: c.ti.fields[i], n: c.ti.fields[i].n, era: c.era}
		c.kids[i] = k
	}
	return k
}

// peek is kid without creating it.
func (c *Cell) peek(i int) *Cell {
	if c.n > bigArray && c.ti.kind == KArray {
		return c.big[i]
	}
	if c.kids == nil {
		return nil
	}
	return c.kids[i]
}

func (in *Interp) zero(ti *TInfo) Value {
	switch ti.kind {
	case KInt:
		return in.st.Const(ti.w, 0)
	case KBool:
		return in.st.fls
	case KFloat:
		return floatZero
	case KString:
		return emptyStr
	case KPtr, KUnsafe:
		return nilPtr
	case KSlice:
		return in.nilSlice
	case KIface:
		return nilIface
	case KFunc:
		return nilFunc
	case KMap:
		return nilMap
	case KStruct:
		fs := make([]Value, len(ti.fields))
		for i, f := range ti.fields {
			fs[i] = in.zero(f)
		}
		return &Struct{fs}
	case KArray:
		return &ArrayV{ti: ti} // e == nil: all zero
	case KTuple:
		fs := make(Tuple, len(ti.fields))
		for i, f := range ti.fields {
			fs[i] = in.zero(f)
		}
		return fs
	case KChan:
		return nilPtr
	}
	in.unsupported("zero value of " + fmt.Sprint(ti.t))
	return nil
}

var emptyStr = &Str{}

func (a *ArrayV) get(in *Interp, i int) Value {
	if a.e == nil || a.e[i] == nil {
		return in.zero(a.ti.elem)
	}
	return a.e[i]
}

// load reads a concrete cell.
func (in *Interp) load(c *Cell) Value {
	switch c.ti.kind {
	case KStruct:
		fs := make([]Value, len(c.ti.fields))
		for i := range fs {
			if k := c.peek(i); k != nil {
				fs[i] = in.load(k)
			} else {
				fs[i] = in.zero(c.ti.fields[i])
			}
		}
		return &Struct{fs}
	case KArray:
		if c.kids == nil && c.big == nil {
			return &ArrayV{ti: c.ti}
		}
		if c.n > bigArray {
			in.unsupported("copy of a huge array")
		}
		es := make([]Value, c.n)
		for i := range es {
			if k := c.peek(i); k != nil {
				es[i] = in.load(k)
			}
		}
		return &ArrayV{ti: c.ti, e: es}
	}
	if c.v == nil {
		return in.zero(c.ti)
	}
	return c.v
}

type jent struct {
	c   *Cell
	old Value
}

func (in *Interp) set(c *Cell, v Value) {
	if c.era < in.regionEra {
		in.journal = append(in.journal, jent{c, c.v})
	}
	c.v = v
}

// store writes a value to a concrete cell.
func (in *Interp) store(c *Cell, v Value) {
	switch c.ti.kind {
	case KStruct:
		s := v.(*Struct)
		for i := range c.ti.fields {
			in.store(c.kid(i), s.f[i])
		}
		return
	case KArray:
		a := v.(*ArrayV)
		if a.e == nil && c.kids == nil && c.big == nil {
			return
		}
		for i := 0; i < c.n; i++ {
			if a.e == nil || a.e[i] == nil {
				if k := c.peek(i); k != nil {
					in.store(k, in.zero(c.ti.elem))
				}
				continue
			}
			in.store(c.kid(i), a.e[i])
		}
		return
	}
	in.set(c, v)
}

func (in *Interp) rollback(to int) {
	for i := len(in.journal) - 1; i >= to; i-- {
		in.journal[i].c.v = in.journal[i].old
	}
	in.journal = in.journal[:to]
}

// merge returns ite(c, a, b), if the two values can be merged.
func (in *Interp) merge(c *Term, a, b Value) (Value, bool) {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok {
			return nil, false
		}
		return in.st.Ite(c, x, y), true
	case *Float:
		y, ok := b.(*Float)
		if !ok {
			return nil, false
		}
		return in.mergeFloat(c, x, y)
	case *Str:
		y, ok := b.(*Str)
		if !ok {
			return nil, false
		}
		if x == y {
			return x, true
		}
		if x.bs == nil && y.bs == nil && x.s == y.s {
			return x, true
		}
		if x.Len() != y.Len() {
			return nil, false
		}
		xb, yb := in.strBytes(x), in.strBytes(y)
		r := make([]*Term, len(xb))
		for i := range r {
			r[i] = in.st.Ite(c, xb[i], yb[i])
		}
		return &Str{bs: r}, true
	case *Ptr:
		y, ok := b.(*Ptr)
		if !ok {
			return nil, false
		}
		if x == y || (x.alts == nil && y.alts == nil && x.c == y.c) {
			return x, true
		}
		if !in.mergePtrs {
			return nil, false
		}
		return in.mergePtr(c, x, y)
	case *Slice:
		y, ok := b.(*Slice)
		if !ok {
			return nil, false
		}
		if x == y {
			return x, true
		}
		if x.arr != y.arr {
			return nil, false
		}
		return &Slice{x.arr, in.st.Ite(c, x.off, y.off), in.st.Ite(c, x.len, y.len), in.st.Ite(c, x.cap, y.cap)}, true
	case *Struct:
		y, ok := b.(*Struct)
		if !ok || len(x.f) != len(y.f) {
			return nil, false
		}
		fs := make([]Value, len(x.f))
		for i := range fs {
			v, ok := in.merge(c, x.f[i], y.f[i])
			if !ok {
				return nil, false
			}
			fs[i] = v
		}
		return &Struct{fs}, true
	case *ArrayV:
		y, ok := b.(*ArrayV)
		if !ok {
			return nil, false
		}
		if x.e == nil && y.e == nil {
			return x, true
		}
		es := make([]Value, x.ti.n)
		for i := range es {
			v, ok := in.merge(c, x.get(in, i), y.get(in, i))
			if !ok {
				return nil, false
			}
			es[i] = v
		}
		return &ArrayV{ti: x.ti, e: es}, true
	case *Iface:
		y, ok := b.(*Iface)
		if !ok {
			return nil, false
		}
		if x == y || (x.t == nil && y.t == nil) {
			return x, true
		}
		if x.t == nil || y.t == nil || !types.Identical(x.t, y.t) {
			return nil, false
		}
		v, ok := in.merge(c, x.v, y.v)
		if !ok {
			return nil, false
		}
		return &Iface{x.t, v}, true
	case *FuncV:
		y, ok := b.(*FuncV)
		if !ok || x.fn != y.fn || x.bi != y.bi || len(x.env) != len(y.env) {
			return nil, false
		}
		env := make([]Value, len(x.env))
		for i := range env {
			v, ok := in.merge(c, x.env[i], y.env[i])
			if !ok {
				return nil, false
			}
			env[i] = v
		}
		return &FuncV{x.fn, x.bi, env}, true
	case *MapV:
		y, ok := b.(*MapV)
		if ok && (x == y || x.cell == y.cell) {
			return x, true
		}
		return nil, false
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		r := make(Tuple, len(x))
		for i := range r {
			v, ok := in.merge(c, x[i], y[i])
			if !ok {
				return nil, false
			}
			r[i] = v
		}
		return r, true
	case []mapEnt:
		y, ok := b.([]mapEnt)
		if ok && len(x) == len(y) && (len(x) == 0 || &x[0] == &y[0]) {
			return x, true
		}
		return nil, false
	case nil:
		return nil, b == nil
	}
	return nil, false
}

func (in *Interp) mergePtr(c *Term, x, y *Ptr) (Value, bool) {
	var alts []PtrAlt
	idx := map[*Cell]int{}
	add := func(g *Term, p *Ptr) {
		one := func(cond *Term, cell *Cell) {
			if cond.isFalse() {
				return
			}
			if k, ok := idx[cell]; ok {
				alts[k].cond = in.st.Or(alts[k].cond, cond)
				return
			}
			idx[cell] = len(alts)
			alts = append(alts, PtrAlt{cond, cell})
		}
		if p.alts == nil {
			one(g, p.c)
			return
		}
		for _, a := range p.alts {
			one(in.st.And(g, a.cond), a.c)
		}
	}
	add(c, x)
	add(in.st.Not(c), y)
	if len(alts) > 64 {
		return nil, false
	}
	if len(alts) == 1 {
		return &Ptr{c: alts[0].c}, true
	}
	return &Ptr{alts: alts}, true
}

func (in *Interp) strBytes(s *Str) []*Term {
	if s.bs != nil {
		return s.bs
	}
	r := make([]*Term, len(s.s))
	for i := range r {
		r[i] = in.st.Const(8, uint64(s.s[i]))
	}
	return r
}

func (in *Interp) mkStr(bs []*Term) *Str {
	b := make([]byte, len(bs))
	for i, t := range bs {
		if !t.isConst() {
			return &Str{bs: bs}
		}
		b[i] = byte(t.val)
	}
	return &Str{s: string(b)}
}
