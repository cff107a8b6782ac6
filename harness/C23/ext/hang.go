package c23

import (
	"github.com/golang/freetype/vsym"
	"github.com/golang/freetype/zzverif/lib"
)

func fdef(n int, body ...byte) []byte {
	return lib.Cat(lib.Push(n), []byte{0x2c}, body, []byte{0x2d})
}

// HEndless: programs that never end are stopped.
//
//vsym:steps=60000000 hang=1
func HEndless() {
	kind := vsym.Choice("kind", 3)
	var prog []byte
	switch vsym.Choice("what", 9) {
	case 0: // a jump to itself
		prog = lib.Cat(lib.Push(-5), []byte{0x1c})
	case 1: // with an offset of 0
		prog = lib.Cat(lib.Push(0, 0, 0, 0), []byte{0x20, 0x1c})
		prog = append(prog, lib.Cat(lib.Push(-6), []byte{0x20, 0x20, 0x1c})...)
	case 2: // JROT
		prog = lib.Cat(lib.Push(-7, 1), []byte{0x78})
	case 3: // a function calls itself
		prog = lib.Cat(fdef(1, 0xb0, 1, 0x2b), lib.Push(1), []byte{0x2b})
	case 4: // two call each other
		prog = lib.Cat(fdef(1, 0xb0, 2, 0x2b), fdef(2, 0xb0, 1, 0x2b), lib.Push(1), []byte{0x2b})
	case 5: // often
		prog = lib.Cat(fdef(1), lib.Push(0x7fff, 0x4000), []byte{0x63}, lib.Push(1), []byte{0x2a})
	case 6: // nested
		prog = lib.Cat(fdef(1), fdef(2, 0xb8, 0x7f, 0xff, 0xb0, 1, 0x2a), fdef(3, 0xb8, 0x7f, 0xff, 0xb0, 2, 0x2a), lib.Push(0x7fff, 3), []byte{0x2a})
	case 7: // an IF and a jump back to it
		prog = lib.Cat([]byte{0xb0, 1, 0x58, 0xb8, 0xff, 0xfa, 0x1c, 0x59})
	case 8: // the stack grows
		prog = lib.Cat([]byte{0xb1, 1, 1, 0xb8, 0xff, 0xfa, 0x1c})
	}
	load(kind, prog)
}

// HLoops: loop counts are bounded by what there is to loop on.
//
//vsym:merge=3 steps=3000000 hang=1
func HLoops() {
	v, p := lib.Any32("count")
	vsym.Assume(v > 4)
	op := []byte{0x32, 0x33, 0x38, 0x39, 0x3c, 0x80}[vsym.Choice("op", 6)]
	load(2, lib.Cat(lib.Push(1, 2, 0, 1, 2, 1), p, []byte{0x17, op}))
}

// HDeltas: as are those of delta instructions.
//
//vsym:merge=3 steps=3000000 hang=1
func HDeltas() {
	v, p := lib.Any32("count")
	vsym.Assume(v > 2)
	op := []byte{0x5d, 0x71, 0x72, 0x73, 0x74, 0x75}[vsym.Choice("op", 6)]
	load(2, lib.Cat(lib.Push(1, 2, 0, 1), p, []byte{op}))
}

// HCalls: a call count of any size ends.
//
//vsym:merge=1 steps=60000000 hang=1
func HCalls() {
	n := []int{-0x8000, -1, 0, 1, 2, 1000, 0x7fff}[vsym.Choice("count", 7)]
	var prog []byte
	switch vsym.Choice("body", 4) {
	case 0:
		prog = fdef(1)
	case 1:
		prog = fdef(1, 0x20)
	case 2:
		prog = fdef(1, 0x21)
	case 3:
		prog = fdef(1, 0x1c)
	}
	load(vsym.Choice("kind", 3), lib.Cat(prog, lib.Push(1, n, 1), []byte{0x2a}))
}

// HJump: jumps out of the program or anywhere forward in it.
//
//vsym:merge=1 steps=60000000 hang=1
func HJump() {
	k := vsym.Choice("offset", 22) - 3
	d := k
	if k < -2 || k > 17 {
		d = vsym.Int("far", -0x8000, 0x7fff)
	}
	p := lib.Push(d)
	var prog []byte
	switch vsym.Choice("op", 3) {
	case 0:
		prog = lib.Cat(lib.Push(1, 2, 3), p, []byte{0x1c})
	case 1:
		prog = lib.Cat(lib.Push(1, 2, 3), p, lib.Push(7), []byte{0x78})
	case 2:
		prog = lib.Cat(lib.Push(1, 2, 3), p, lib.Push(0), []byte{0x79})
	}
	if k < -2 || k > 17 {
		vsym.Assume(d > 17 || d < -len(prog))
	}
	load(vsym.Choice("kind", 3), lib.Cat(prog, []byte{0xb1, 1, 0, 0x58, 0x20, 0x1b, 0x21, 0x59, 0x41, 1, 0x60, 0x60, 0x2c, 0x2d, 0x2d, 0x40}))
}
