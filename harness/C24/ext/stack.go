package c24

import (
	"github.com/golang/freetype/vsym"
	"github.com/golang/freetype/zzverif/lib"
)

// A stack operation of the specification: the code, and what it does.
type stackOp struct {
	code []byte
	need int
	f    func(s []int32) []int32
}

func index(k int, move bool) stackOp {
	op := byte(0x25)
	if move {
		op = 0x26
	}
	return stackOp{lib.Cat(lib.Push(k), []byte{op}), k, func(s []int32) []int32 {
		n := len(s)
		x := s[n-k]
		if move {
			s = append(append([]int32{}, s[:n-k]...), s[n-k+1:]...)
		}
		return append(s, x)
	}}
}

var stackOps = []stackOp{
	{[]byte{0x20}, 1, func(s []int32) []int32 { return append(s, s[len(s)-1]) }},
	{[]byte{0x21}, 1, func(s []int32) []int32 { return s[:len(s)-1] }},
	{[]byte{0x22}, 0, func(s []int32) []int32 { return nil }},
	{[]byte{0x23}, 2, func(s []int32) []int32 {
		n := len(s)
		return append(append([]int32{}, s[:n-2]...), s[n-1], s[n-2])
	}},
	{[]byte{0x24}, 0, func(s []int32) []int32 { return append(s, int32(len(s))) }},
	{[]byte{0x8a}, 3, func(s []int32) []int32 {
		n := len(s)
		return append(append([]int32{}, s[:n-3]...), s[n-2], s[n-1], s[n-3])
	}},
	index(1, false), index(2, false), index(3, false), index(4, false),
	index(1, true), index(2, true), index(3, true), index(5, true),
	{[]byte{0x60}, 2, func(s []int32) []int32 {
		n := len(s)
		return append(append([]int32{}, s[:n-2]...), s[n-2]+s[n-1])
	}},
	{[]byte{0x7e}, 1, func(s []int32) []int32 { return s[:len(s)-1] }}, // SANGW
	{[]byte{0x7f}, 1, func(s []int32) []int32 { return s[:len(s)-1] }}, // AA
	{[]byte{0x85}, 1, func(s []int32) []int32 { return s[:len(s)-1] }}, // SCANCTRL
	{[]byte{0x8d}, 1, func(s []int32) []int32 { return s[:len(s)-1] }}, // SCANTYPE
	{[]byte{0x4d}, 0, func(s []int32) []int32 { return s }},            // FLIPON
	{[]byte{0x4e}, 0, func(s []int32) []int32 { return s }},            // FLIPOFF
}

// HStack: two stack instructions on a stack of any depth.
//
//vsym:merge=3
func HStack() {
	n := 1 + vsym.Choice("depth", 6)
	var s []int32
	var prog []byte
	for i := 0; i < n; i++ {
		v := vsym.Int("v", -0x8000, 0x7fff)
		s = append(s, int32(v))
		prog = append(prog, lib.Push(v)...)
	}
	a := stackOps[vsym.Choice("first", len(stackOps))]
	b := stackOps[4]
	if vsym.Thorough() || n == 6 {
		b = stackOps[vsym.Choice("second", len(stackOps))]
	}
	for _, o := range []stackOp{a, b} {
		if len(s) < o.need {
			vsym.Skip()
		}
		s = o.f(s)
		prog = append(prog, o.code...)
	}
	result(prog, s...)
}

// HPush: every push instruction.
//
//vsym:merge=3
func HPush() {
	s := vsym.Int("s", -0x8000, 0x7fff)
	word := vsym.Choice("words", 2) == 1
	k := vsym.Choice("count", 9)
	n := k + 1
	var prog []byte
	if long := vsym.Choice("counted", 2) == 1; long {
		n = []int{0, 1, 2, 3, 8, 9, 127, 128, 240}[k]
		prog = []byte{0x40 + byte(vsym.B2I(word)), byte(n)}
	} else if n > 8 {
		vsym.Skip()
	} else {
		prog = []byte{0xb0 + byte(8*vsym.B2I(word)+n-1)}
	}
	var vs []int32
	for i := 0; i < n; i++ {
		if n > 12 && i != 0 && i != 1 && i < n-6 {
			prog = append(prog, 0x1b) // an ELSE
			if word {
				prog = append(prog, 0x59)
				vs = append(vs, 0x1b59)
			} else {
				vs = append(vs, 0x1b)
			}
			continue
		}
		if word {
			v := vsym.Int("w", -0x8000, 0x7fff)
			prog = append(prog, byte(v>>8), byte(v))
			vs = append(vs, int32(v))
		} else {
			v := vsym.U8("b")
			prog = append(prog, v)
			vs = append(vs, int32(v))
		}
	}
	all := append([]int32{int32(s)}, vs...)
	prog = lib.Cat(lib.Push(s), prog)
	if n <= 9 {
		result(prog, all...)
		return
	}
	// the depth, the top values and the bottom ones
	prog = append(prog, 0x24)
	prog = append(prog, lib.ToY(0)...)
	for i := 0; i < 4; i++ {
		prog = append(prog, lib.ToY(1+i)...)
	}
	prog = append(prog, lib.Push(n-4)...)
	prog = append(prog, 0x25)
	prog = append(prog, lib.ToY(5)...)
	prog = append(prog, lib.Push(n-3)...)
	prog = append(prog, 0x25)
	prog = append(prog, lib.ToY(6)...)
	h := lib.Hint{Contours: [][]lib.XY{lib.Row(12)}, Prog: prog}
	ps := h.MustLoad()
	vsym.Assert(int(ps[0].Y) == n+1, "the stack's depth")
	for i := 0; i < 4; i++ {
		vsym.Assert(int32(ps[1+i].Y) == all[n-i], "the values pushed")
	}
	vsym.Assert(int32(ps[5].Y) == all[1], "the values pushed")
	vsym.Assert(int32(ps[6].Y) == all[0], "the value below")
}

// HStorage: two writes and two reads of storage.
//
//vsym:merge=3
func HStorage() {
	i, j, k := vsym.Choice("i", 3), vsym.Choice("j", 3), vsym.Choice("k", 3)
	x, px := lib.Any32("x")
	y, py := lib.Any32("y")
	m := map[int]int32{}
	m[i] = x
	m[j] = y
	result(lib.Cat(lib.Push(7), lib.Push(5*i), px, []byte{0x42}, lib.Push(5*j), py, []byte{0x42}, lib.Push(5*i), []byte{0x43}, lib.Push(5*k), []byte{0x43}), 7, m[i], m[k])
}

// HInfo: MPPEM, MPS, GETINFO, GPV and GFV.
//
//vsym:merge=3
func HInfo() {
	h := lib.Hint{Contours: [][]lib.XY{{{0, 0, true}, {0, 0, true}, {0, 0, true}, {0, 0, true}, {0, 0, true}}}, Scale: 64 * vsym.Int("ppem", 1, 400)}
	var prog []byte
	var want []int32
	s := vsym.Int("s", -0x8000, 0x7fff)
	switch vsym.Choice("op", 6) {
	case 0:
		prog, want = []byte{0x4b}, []int32{int32(h.Scale / 64)}
	case 1:
		prog, want = []byte{0x4c}, []int32{int32(h.Scale / 64)}
	case 2:
		v := vsym.Int("selector", 0, 0x7fff)
		prog = lib.Cat(lib.Push(v), []byte{0x88})
		want = []int32{int32(35*(v&1) + v>>5&1*0x1000)}
		want[0] = int32(35*(v%2) + 0x1000*(v/32%2))
	case 3: // vectors set separately
		k := vsym.Choice("vectors", 8)
		prog = []byte{0x00 + byte(k&1), 0x02 + byte(k>>1&1), 0x04 + byte(k>>2), 0x0c, 0x0d}
		unit := func(x int) (int32, int32) { return int32(0x4000 * x), int32(0x4000 * (1 - x)) }
		a, b := unit(k >> 1 & 1)
		c, d := unit(k >> 2)
		want = []int32{a, b, c, d}
	case 4: // SVTCA sets both
		k := vsym.Choice("vectors", 2)
		prog = []byte{0x00 + byte(k), 0x0c, 0x0d}
		want = []int32{int32(0x4000 * k), int32(0x4000 * (1 - k)), int32(0x4000 * k), int32(0x4000 * (1 - k))}
	case 5: // SPVFS, SFVFS, SFVTPV
		vs := [][2]int{{0x4000, 0}, {0, -0x4000}, {-0x4000, 0}, {0x2d41, 0x2d41}, {0x2d41, -0x2d41}, {-0x2666, 0x3333}}
		v, w := vs[vsym.Choice("pv", 6)], vs[vsym.Choice("fv", 6)]
		prog = lib.Cat(lib.Push(v[0], v[1]), []byte{0x0a}, lib.Push(w[0], w[1]), []byte{0x0b, 0x0c, 0x0d})
		if vsym.Choice("same", 2) == 1 {
			prog = lib.Cat(prog[:len(prog)-2], []byte{0x0e, 0x0c, 0x0d})
			w = v
		}
		want = []int32{int32(v[0]), int32(v[1]), int32(w[0]), int32(w[1])}
	}
	n := len(want)
	h.Prog = lib.Cat(lib.Push(s), prog)
	for i := n - 1; i >= 0; i-- {
		h.Prog = append(h.Prog, lib.ToY(1+i)...)
	}
	h.Prog = append(h.Prog, lib.ToY(0)...)
	ps := h.MustLoad()
	for i, w := range want {
		vsym.Assert(int32(ps[1+i].Y) == w, "the values")
	}
	vsym.Assert(int(ps[0].Y) == s, "the rest of the stack")
}

// HControlValues: RCVT, WCVTP, WCVTF and DELTAC.
//
//vsym:merge=3
func HControlValues() {
	h := lib.Hint{Contours: [][]lib.XY{{{0, 0, true}, {0, 0, true}, {0, 0, true}, {0, 0, true}, {0, 0, true}}}}
	kind := vsym.Choice("kind", 5)
	h.Scale = []int{640, 1280, 1312}[vsym.Choice("scale", vsym.If(vsym.Thorough(), 3, vsym.If(kind < 3, 1, 2)))]
	if kind < 3 {
		h.Upem = 1000
	} else if h.Scale == 1312 {
		h.Upem = 656
	}
	ppem := (h.Scale + 32) / 64
	for i := 0; i < 3; i++ {
		h.Cvt = append(h.Cvt, vsym.Int("cvt", -4000, 4000))
	}
	i := 1
	j := 1 + vsym.Choice("j", 2)
	var prog []byte
	get := func(k int) []byte { return lib.Cat(lib.Push(k), []byte{0x45}) }
	x := vsym.Int("x", -4000, 4000)
	d := 0
	switch kind {
	case 1:
		prog = lib.Cat(lib.Push(i, x), []byte{0x44})
	case 2:
		prog = lib.Cat(lib.Push(i, x), []byte{0x70})
	case 3, 4: // DELTAC with base, shift
		op := vsym.Choice("op", 3)
		rel := vsym.Choice("size", 3) - 1 // below, at or above the one named
		mag := vsym.Int("magnitude", 0, 15)
		shift := []int{3, 0, 6}[vsym.Choice("shift", vsym.If(vsym.Thorough(), 3, 2))]
		base := 9
		at := ppem + rel - 16*op - base
		if kind == 4 { // another base
			base = ppem - 16*op - 7
			at = 7 + rel
			prog = lib.Cat(lib.Push(base), []byte{0x5e})
		} else if at < 0 || at > 15 {
			vsym.Skip()
		}
		if shift != 3 {
			prog = lib.Cat(prog, lib.Push(shift), []byte{0x5f})
		}
		steps := mag - 8 + vsym.B2I(mag >= 8)
		if rel == 0 {
			d = steps * 64 >> uint(shift)
		}
		prog = lib.Cat(prog, lib.Push(at<<4|mag, i, 1), []byte{byte(0x73 + op)})
	}
	h.Prog = lib.Cat(prog, get(j), lib.ToY(1), []byte{0x24}, lib.ToY(0))
	ps := h.MustLoad()
	got := int(ps[1].Y)
	vsym.Assert(ps[0].Y == 0, "the stack's depth")
	switch {
	case i == j && kind == 1:
		vsym.Assert(got == x, "the value written")
	case i == j && kind == 2:
		lib.ScaleRef(got, x*h.Scale, h.Upem, "the value written, scaled")
	case i == j && kind > 2:
		vsym.Assert(got == h.Cvt[j]*(h.Scale/h.Upem)+d, "the control value")
	case kind > 2:
		vsym.Assert(got == h.Cvt[j]*(h.Scale/h.Upem), "the other control values")
	case i == j:
		lib.ScaleRef(got-d, h.Cvt[j]*h.Scale, h.Upem, "the control value")
	default:
		lib.ScaleRef(got, h.Cvt[j]*h.Scale, h.Upem, "the other control values")
	}
}

// HDepth: the depth of a stack of more than 255 elements, and its bottom.
//
//vsym:merge=3
func HDepth() {
	n := []int{0, 1, 40, 120}[vsym.Choice("more", 4)]
	s := vsym.Int("s", -0x8000, 0x7fff)
	prog := lib.Cat(lib.Push(s), []byte{0x40, 255}, make([]byte, 255), []byte{0x40, byte(n)}, make([]byte, n), []byte{0x24})
	prog = append(prog, lib.ToY(0)...)
	prog = lib.Cat(prog, []byte{0x24, 0x25})
	prog = append(prog, lib.ToY(1)...)
	h := lib.Hint{Contours: [][]lib.XY{lib.Row(2)}, Prog: prog, Stack: 500}
	ps := h.MustLoad()
	vsym.Assert(int(ps[0].Y) == 256+n, "the stack's depth")
	vsym.Assert(int(ps[1].Y) == s, "the value at the bottom")
}
