package c24

import (
	"github.com/golang/freetype/vsym"
	"github.com/golang/freetype/zzverif/lib"
)

func b2i(b bool) int32 { return int32(vsym.B2I(b)) }

// result runs a program and asserts that it leaves exactly the values want on
// the stack, the last one on top, and moves nothing.
func result(prog []byte, want ...int32) {
	h := lib.Hint{Contours: [][]lib.XY{lib.Row(12)}, Cvt: []int{0, 0, 0, 0}}
	check(&h, prog, want...)
}

func check(h *lib.Hint, prog []byte, want ...int32) {
	n := len(want)
	h.Prog = lib.Cat(prog, []byte{0x24}, lib.ToY(0)) // depth to point 0
	for i := n - 1; i >= 0; i-- {
		h.Prog = append(h.Prog, lib.ToY(1+i)...)
	}
	ps := h.MustLoad()
	vsym.Assert(int(ps[0].Y) == n, "the stack's depth")
	for i, w := range want {
		vsym.Assert(int32(ps[1+i].Y) == w, "the values on the stack")
	}
	for i, p := range ps {
		vsym.Assert(int(p.X) == 64*i && p.Flags&1 == 1, "the points stay")
		vsym.Assert(p.Y == 0 || i <= n, "the points stay")
	}
	vsym.Assert(len(ps) == 12, "the points stay")
}

// HCompare: comparisons of any two 32-bit values.
//
//vsym:merge=3
func HCompare() {
	s, ps := lib.Any32("s")
	x, px := lib.Any32("x")
	y, py := lib.Any32("y")
	op := byte(0x50 + vsym.Choice("op", 6))
	var w bool
	switch op {
	case 0x50:
		w = x < y
	case 0x51:
		w = x <= y
	case 0x52:
		w = x > y
	case 0x53:
		w = x >= y
	case 0x54:
		w = x == y
	case 0x55:
		w = x != y
	}
	result(lib.Cat(ps, px, py, []byte{op}), s, b2i(w))
}

// HLogic: AND, OR, NOT of any values.
//
//vsym:merge=3
func HLogic() {
	s, ps := lib.Any32("s")
	x, px := lib.Any32("x")
	y, py := lib.Any32("y")
	switch vsym.Choice("op", 3) {
	case 0:
		result(lib.Cat(ps, px, py, []byte{0x5a}), s, b2i(x != 0)*b2i(y != 0))
	case 1:
		result(lib.Cat(ps, px, py, []byte{0x5b}), s, 1-b2i(x == 0)*b2i(y == 0))
	case 2:
		result(lib.Cat(ps, px, py, []byte{0x5c}), s, x, b2i(y == 0))
	}
}

// HBinary: ADD, SUB, MAX, MIN of any values.
//
//vsym:merge=3
func HBinary() {
	s, ps := lib.Any32("s")
	x, px := lib.Any32("x")
	y, py := lib.Any32("y")
	var w int32
	op := []byte{0x60, 0x61, 0x8b, 0x8c}[vsym.Choice("op", 4)]
	switch op {
	case 0x60:
		w = x + y
	case 0x61:
		w = x - y
	case 0x8b:
		w = int32(vsym.If(x < y, int(y), int(x)))
	case 0x8c:
		w = int32(vsym.If(x < y, int(x), int(y)))
	}
	result(lib.Cat(ps, px, py, []byte{op}), s, w)
}

// HUnary: ABS, NEG, FLOOR, CEILING, NROUND of any value.
//
//vsym:merge=3
func HUnary() {
	s, ps := lib.Any32("s")
	x, px := lib.Any32("x")
	var w int32
	op := []byte{0x64, 0x65, 0x66, 0x67, 0x6c, 0x6d, 0x6e, 0x6f, 0x4f, 0x59}[vsym.Choice("op", 10)]
	switch op {
	case 0x64:
		w = int32(vsym.If(x < 0, -int(x), int(x)))
	case 0x65:
		w = -x
	case 0x66:
		w = int32(lib.FloorDiv(int(x), 64) * 64)
	case 0x67:
		w = int32(lib.CeilDiv(int(x), 64) * 64)
	default:
		w = x
	}
	result(lib.Cat(ps, px, []byte{op}), s, w)
}

// HMul: MUL of values whose product is representable.
//
//vsym:merge=3
func HMul() {
	s, ps := lib.Any32("s")
	// any x by a small y, or x times a few values of y
	y, n := vsym.Int("y", -32, 31), 0x8000
	if k := vsym.Choice("kind", vsym.If(vsym.Thorough(), 9, 5)); k >= 7 {
		n = []int{0x200, 32}[k-7]
		y = vsym.Int("long y", -0x100000/n, 0x100000/n-1)
	} else if k > 0 {
		y = []int{0x7fff, -0x8000, 64, 0x4000, -777, 1000}[k-1]
		n = 0x100000 / lib.Abs(y)
	}
	x, px := lib.AnyHi("x", n)
	py := lib.Push(y)
	if vsym.Choice("swapped", 2) == 1 {
		px, py = py, px
	}
	h := lib.Hint{Contours: [][]lib.XY{lib.Row(4)}, Prog: lib.Cat(ps, px, py, []byte{0x63}, lib.ToY(0), lib.ToY(1), []byte{0x24}, lib.ToY(2))}
	p := int64(x) * int64(int32(int16(y)))
	q := h.MustLoad()
	d := p - 64*int64(q[0].Y)
	vsym.Assert(-32 <= d && d <= 32, "the product, to nearest")
	vsym.Assert(int32(q[1].Y) == s && q[2].Y == 0, "the rest of the stack")
}

// HDiv: DIV of any value by a divisor.
//
//vsym:merge=3
func HDiv() {
	s, ps := lib.Any32("s")
	x, px := lib.Any32("x")
	y := []int{1, -1, 64, -64, 3, -7, -32768, 1000, 32767, 128, -63, 5}[vsym.Choice("divisor", vsym.If(vsym.Thorough(), 12, 8))]
	h := lib.Hint{Contours: [][]lib.XY{lib.Row(4)}, Prog: lib.Cat(ps, px, lib.Push(y), []byte{0x62}, lib.ToY(0), lib.ToY(1), []byte{0x24}, lib.ToY(2))}
	n := int(int64(x) << 6)
	a := lib.Abs(y)
	vsym.Assume(lib.Abs(n) < a<<31) // the quotient is representable
	q := h.MustLoad()
	r := n - int(q[0].Y)*y
	vsym.Assert(-a < r && r < a, "the quotient")
	vsym.Assert(r == 0 || (r < 0) == (n < 0), "the quotient, rounded toward zero")
	vsym.Assert(int32(q[1].Y) == s && q[2].Y == 0, "the rest of the stack")
}
