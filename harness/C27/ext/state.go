package c27

import (
	"github.com/golang/freetype/vsym"
	"github.com/golang/freetype/zzverif/lib"
)

// What a control value program may set, and the glyph program inherits.
var inherited = []func(v int) []byte{
	func(v int) []byte {
		return []byte{[]byte{0x18, 0x19, 0x3d, 0x7a, 0x7c, 0x7d}[vsym.Choice("rounding", 6)]}
	},
	func(v int) []byte { return append(lib.Push(v), 0x1a) }, // minimum distance
	func(v int) []byte { return append(lib.Push(v), 0x1d) }, // cut-in
	func(v int) []byte { return append(append(lib.Push(v), 0x1f), append(lib.Push(300), 0x1e)...) },
	func(v int) []byte { return []byte{0x4e} }, // no automatic flip
	func(v int) []byte { return append(append(lib.Push(v%7), 0x5f), append(lib.Push(1), 0x5e)...) },
	func(v int) []byte { return append(lib.Push(v%256), 0x76) }, // super rounding
}

// What it may set for itself only.
var own = [][]byte{
	{0x00}, // vectors
	{0x04},
	{0x02},
	append(lib.Push(0x2d41, 0x2d41), 0x0a),
	append(lib.Push(4, 3, 2), 0x10, 0x11, 0x12), // reference points
	append(lib.Push(0), 0x13),
	append(lib.Push(0), 0x14),
	append(lib.Push(0), 0x15),
	append(lib.Push(0), 0x16),
	append(lib.Push(2), 0x17), // loop
	append(lib.Push(0, 5), 0x45, 0x21),
	append(lib.Push(1, -30, 2, 1, 2, 1, 1, 30, 0), 0x16, 0x38, 0x87, 0x06, 0x01, 0x38), // the projection vector
	append(lib.Push(1, -30, 2, 1, 1, 30, 0), 0x16, 0x38, 0x87, 0x38),                   // the dual vector
}

func stateGlyph(prep, prog []byte, x int) *lib.Hint {
	h := &lib.Hint{Twilight: 8, Cvt: []int{0, 83, 50, -40, 9}, Prep: prep, Prog: append([]byte{}, prog...)}
	pts := []lib.XY{{X: 10, Y: 3, On: true}, {X: x, Y: 70, On: true}, {X: 110, Y: -30, On: true}, {X: 230, Y: 12, On: true}, {X: 57, Y: 201, On: true}, {X: -31, Y: -44, On: true}}
	h.Contours = [][]lib.XY{pts}
	return h
}

// use is a program that depends on all of the state.
var use = [][]byte{
	append(lib.Push(5, 11, 4, 3, 2, 0, 17), 0x38, 0x33, 0xdc, 0x39, 0x38), // SHPIX, SHP, MDRP, IP, SHPIX
	append(lib.Push(1, 4, 3, 2, 1, 0, 17), 0x38, 0xfd, 0x3f, 0x32),        // SHPIX, MIRP, MIAP, SHP
	append(lib.Push(5, 1, 40, 4, 3, 2), 0xcc, 0x3c, 0x2f, 0x3a, 0x2f),     // MDRP, ALIGNRP, MDAP, MSIRP, MDAP
	append(lib.Push(4, 3, 0x0e, 2, 1), 0x5d, 0x2f, 0x39),                  // DELTAP1, MDAP, IP
	append(lib.Push(5, 4, 3, 2), 0x06, 0x2f, 0x2f),                        // SPVTL, MDAP
}

// HPrepState: a glyph program starts with what the control value program left,
// except that vectors, reference points, zones and loop start afresh.
//
//vsym:merge=3
func HPrepState() {
	x := vsym.Int("x", -200, 200)
	prog := use[vsym.Choice("program", len(use))]
	var prep, glyph []byte
	if k := vsym.Choice("setting", len(inherited)+len(own)); k < len(inherited) {
		set := inherited[k](vsym.Int("value", 0, 127))
		prep, glyph = set, append(append([]byte{}, set...), prog...)
	} else {
		prep, glyph = own[k-len(inherited)], prog
	}
	ha, hb := stateGlyph(prep, prog, x), stateGlyph(nil, glyph, x)
	ea, eb := ha.Load(), hb.Load()
	a, b := ha.Buf.Points, hb.Buf.Points
	vsym.Assert(ea == nil && eb == nil, "no error")
	vsym.Assert(len(a) == len(b), "the same points")
	if len(a) == len(b) {
		for i := range a {
			vsym.Assert(a[i] == b[i], "the same points")
		}
	}
}
