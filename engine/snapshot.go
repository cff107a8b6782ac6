package main

import (
	"go/types"
	"sort"
)

// snapRec is what one scalar cell held when a snapshot was taken.
type snapRec struct {
	c *Cell
	v Value
}

// snapshot is the memory reachable from a value, as it was.
type snapshot struct {
	seen map[*Cell]bool
	recs []snapRec
	big  []*Cell        // arrays whose cells come into being one by one
	had  map[*Cell]bool // the cells of those that there were
}

func (in *Interp) snap(s *snapshot, v Value) {
	switch x := v.(type) {
	case *Ptr:
		if x.alts != nil {
			for _, a := range x.alts {
				if a.c != nil {
					in.snapCell(s, a.c)
				}
			}
		} else if x.c != nil {
			in.snapCell(s, x.c)
		}
	case *Slice:
		if x.arr != nil {
			in.snapCell(s, x.arr)
		}
	case *Iface:
		if x.t != nil {
			in.snap(s, x.v)
		}
	case *Struct:
		for _, f := range x.f {
			in.snap(s, f)
		}
	case *ArrayV:
		for _, f := range x.e {
			if f != nil {
				in.snap(s, f)
			}
		}
	case *FuncV:
		for _, f := range x.env {
			in.snap(s, f)
		}
	case *MapV:
		if x.cell != nil {
			in.unsupported("snapshot of a map")
		}
	}
}

func (in *Interp) snapCell(s *snapshot, c *Cell) {
	if s.seen[c] {
		return
	}
	s.seen[c] = true
	switch c.ti.kind {
	case KStruct:
		for i := range c.ti.fields {
			in.snapCell(s, c.kid(i))
		}
	case KArray:
		if c.n > bigArray {
			s.big = append(s.big, c)
			var ks []int
			for k := range c.big {
				ks = append(ks, k)
			}
			sort.Ints(ks)
			for _, k := range ks {
				s.had[c.big[k]] = true
				in.snapCell(s, c.big[k])
			}
			return
		}
		for i := 0; i < c.n; i++ {
			in.snapCell(s, c.kid(i))
		}
	default:
		v := in.load(c)
		s.recs = append(s.recs, snapRec{c, v})
		in.snap(s, v)
	}
}

// same is the condition that two scalar values are identical.
func (in *Interp) same(a, b Value) *Term {
	switch x := a.(type) {
	case *Term:
		return in.st.Eq(x, b.(*Term))
	case *Float:
		y := b.(*Float)
		return in.st.Bool(x == y || (x.sym == 0 && y.sym == 0 && x.c == y.c))
	case *Str:
		y := b.(*Str)
		if x == y {
			return in.st.tru
		}
		if x.Len() != y.Len() {
			return in.st.fls
		}
		r := in.st.tru
		xb, yb := in.strBytes(x), in.strBytes(y)
		for i := range xb {
			r = in.st.And(r, in.st.Eq(xb[i], yb[i]))
		}
		return r
	case *Ptr:
		y := b.(*Ptr)
		if x.alts == nil && y.alts == nil {
			return in.st.Bool(x.c == y.c)
		}
		alts := func(p *Ptr) []PtrAlt {
			if p.alts == nil {
				return []PtrAlt{{in.st.tru, p.c}}
			}
			return p.alts
		}
		r := in.st.fls
		for _, p := range alts(x) {
			for _, q := range alts(y) {
				if p.c == q.c {
					r = in.st.Or(r, in.st.And(p.cond, q.cond))
				}
			}
		}
		return r
	case *Slice:
		y := b.(*Slice)
		if x == y {
			return in.st.tru
		}
		if x.arr != y.arr {
			return in.st.fls
		}
		return in.st.And(in.st.Eq(x.off, y.off), in.st.And(in.st.Eq(x.len, y.len), in.st.Eq(x.cap, y.cap)))
	case *Iface:
		y := b.(*Iface)
		if x.t == nil || y.t == nil {
			return in.st.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return in.st.fls
		}
		return in.same(x.v, y.v)
	case *FuncV:
		y := b.(*FuncV)
		return in.st.Bool(x == y || (x.fn == y.fn && x.bi == y.bi && len(x.env) == 0 && len(y.env) == 0))
	case *MapV:
		return in.st.Bool(x.cell == b.(*MapV).cell)
	case *Struct:
		y := b.(*Struct)
		r := in.st.tru
		for i := range x.f {
			r = in.st.And(r, in.same(x.f[i], y.f[i]))
		}
		return r
	case *ArrayV:
		y := b.(*ArrayV)
		r := in.st.tru
		for i := 0; i < x.ti.n; i++ {
			r = in.st.And(r, in.same(x.get(in, i), y.get(in, i)))
		}
		return r
	case nil:
		return in.st.Bool(b == nil)
	}
	in.unsupported("comparison of a snapshot")
	return nil
}

func (in *Interp) unchanged(s *snapshot) *Term {
	r := in.st.tru
	for _, e := range s.recs {
		v := in.load(e.c)
		if v == e.v {
			continue
		}
		r = in.st.And(r, in.same(e.v, v))
	}
	for _, a := range s.big {
		var ks []int
		for k := range a.big {
			ks = append(ks, k)
		}
		sort.Ints(ks)
		for _, k := range ks {
			if c := a.big[k]; !s.had[c] {
				z := in.zero(c.ti)
				r = in.st.And(r, in.same(z, in.load(c)))
			}
		}
	}
	return r
}
