package c23

import (
	"github.com/golang/freetype/truetype"
	"github.com/golang/freetype/vsym"
	"github.com/golang/freetype/zzverif/lib"
	"golang.org/x/image/font"
)

// load runs a program as the font program, the control value program or the
// glyph program. An error is fine, a panic is not.
func load(kind int, prog []byte) {
	h := &lib.Hint{Twilight: 3, Cvt: []int{70, -30, 200}}
	h.Contours = [][]lib.XY{{{X: 0, Y: 0, On: true}, {X: 300, Y: 60}, {X: 90, Y: 500, On: true}}, {{X: 10, Y: 40, On: true}, {X: 100, Y: 160, On: true}}}
	if kind < 2 {
		h.Contours = h.Contours[1:]
	}
	switch kind {
	case 0:
		h.Fpgm = prog
	case 1:
		h.Prep = prog
	case 2:
		h.Prog = prog
	}
	if h.Prog == nil {
		h.Prog = []byte{0x30}
	}
	err := h.Load()
	if err == nil {
		vsym.Assert(len(h.Buf.Points) == 2 || kind == 2 && len(h.Buf.Points) == 5, "the points")
	}
}

// values pushes n values.
func values(n int) []byte {
	var vs []int
	for i := 0; i < n; i++ {
		vs = append(vs, vsym.Int("v", -0x8000, 0x7fff))
	}
	return lib.Push(vs...)
}

// anyOp is any instruction but jumps, which would make programs of the operands.
func anyOp() int {
	op := vsym.Choice("op", 256)
	vsym.Assume(op != 0x1c && op != 0x78 && op != 0x79)
	if !vsym.Thorough() { // one of many alike
		vsym.Assume(op < 0x91 || op == 0xb0 || op == 0xb7 || op == 0xb8 || op == 0xc0 || op == 0xdf || op == 0xe0 || op == 0xff)
	}
	return op
}

// HOp: every instruction, with any 16-bit operands, or too few.
//
//vsym:merge=3 stores=1
func HOp() {
	kind := vsym.Choice("kind", 3)
	n := vsym.Choice("depth", 7)
	if !vsym.Thorough() {
		vsym.Assume(n == 0 || n == 2 && kind != 1 || n == 5)
	}
	op := anyOp()
	load(kind, append(values(n), byte(op)))
}

// HWide: every instruction, with 32-bit operands.
//
//vsym:merge=3 stores=1
func HWide() {
	op := anyOp()
	_, a := lib.Any32("a")
	_, b := lib.Any32("b")
	load(2, lib.Cat(values(3), a, b, []byte{byte(op)}))
}

// HExtreme: every instruction, with extreme operands.
func HExtreme() {
	op := anyOp()
	ext := func() []byte {
		switch vsym.Choice("value", 5) {
		case 0:
			return lib.Push(0)
		case 1:
			return lib.Push(-1)
		case 2:
			return lib.Push32(-1 << 31)
		case 3:
			return lib.Push32(1<<31 - 1)
		}
		return lib.Push(1)
	}
	load(2, lib.Cat(lib.Push(1, 1, 2), ext(), ext(), []byte{byte(op)}))
}

// setters change the state that other instructions depend on.
var setters = []func() []byte{
	func() []byte { return lib.Cat(values(1), []byte{0x10}) },
	func() []byte { return lib.Cat(values(1), []byte{0x11}) },
	func() []byte { return lib.Cat(values(1), []byte{0x12}) },
	func() []byte { return lib.Cat(values(1), []byte{0x17}) },
	func() []byte { return lib.Cat(lib.Push(0), []byte{0x13}) },
	func() []byte { return lib.Cat(lib.Push(0), []byte{0x14}) },
	func() []byte { return lib.Cat(lib.Push(0), []byte{0x15}) },
	func() []byte { return lib.Cat(lib.Push(0), []byte{0x16}) },
	func() []byte { return lib.Cat(values(1), []byte{0x76}) },
	func() []byte { return lib.Cat(values(1), []byte{0x77}) },
	func() []byte { return lib.Cat(lib.Push(0, 0), []byte{0x0a}) },
	func() []byte { return lib.Cat(lib.Push(-0x8000, -0x8000), []byte{0x0b}) },
	func() []byte { return lib.Cat(values(1), []byte{0x5e}) },
	func() []byte { return lib.Cat(values(1), []byte{0x5f}) },
	func() []byte { return lib.Cat(values(1), []byte{0x1d}) },
	func() []byte { return lib.Cat(values(1), []byte{0x1f}, values(1), []byte{0x1e}) },
	func() []byte { return lib.Cat(values(1), []byte{0x1a}) },
	func() []byte { return []byte{0x00} },
	func() []byte { return []byte{0x7a} },
	func() []byte { return []byte{0x04, 0x03} },
}

// HState: every instruction that depends on the state, in any state.
//
//vsym:merge=3 stores=1
func HState() {
	s := setters[vsym.Choice("setter", len(setters))]
	p := s()
	var op int
	if vsym.Thorough() {
		op = anyOp()
	} else {
		ops := []int{0x06, 0x09, 0x0c, 0x0f, 0x10, 0x13, 0x16, 0x17, 0x23, 0x27, 0x29, 0x2a, 0x2b, 0x2f, 0x30, 0x31, 0x32, 0x33, 0x34, 0x35, 0x36, 0x37,
			0x38, 0x39, 0x3a, 0x3c, 0x3e, 0x3f, 0x46, 0x47, 0x48, 0x49, 0x4a, 0x5d, 0x68, 0x71, 0x73, 0x80, 0x81, 0x86, 0x87, 0xc0, 0xdf, 0xe0, 0xff}
		op = ops[vsym.Choice("op", len(ops))]
	}
	load(2, lib.Cat(values(5), p, []byte{byte(op)}))
}

// HTwoStates: combinations of states.
//
//vsym:merge=3 stores=1 tier=thorough
func HTwoStates() {
	p := setters[vsym.Choice("setter", len(setters))]()
	q := setters[vsym.Choice("second", len(setters))]()
	ops := []int{0x0f, 0x27, 0x32, 0x33, 0x34, 0x36, 0x38, 0x39, 0x3a, 0x3c, 0x3f, 0x48, 0x5d, 0x80, 0x87, 0xdf, 0xff}
	op := ops[vsym.Choice("op", len(ops))]
	load(2, lib.Cat(values(5), p, q, []byte{byte(op)}))
}

// HBytes: any bytes.
//
//vsym:merge=3 stores=1
func HBytes() {
	kind := vsym.Choice("kind", 3)
	n := 1
	if vsym.Thorough() {
		n = 2
	}
	prog := lib.Push(1, 2, 1)
	for i := 0; i < n; i++ {
		prog = append(prog, vsym.U8("byte"))
	}
	load(kind, prog)
}

// HTruncated: push instructions whose data is missing.
func HTruncated() {
	kind := vsym.Choice("kind", 3)
	k := vsym.Choice("op", 6)
	op := []byte{0x40, 0x41, 0xb0, 0xb7, 0xb8, 0xbf}[k]
	prog := []byte{op}
	need := []int{9, 9, 1, 8, 2, 16}[k]
	n := vsym.Choice("bytes", 17)
	vsym.Assume(n < need)
	for i := 0; i < n; i++ {
		prog = append(prog, vsym.U8("byte"))
	}
	if op < 0xb0 && len(prog) > 1 { // the count
		vsym.Assume(prog[1] >= 9)
	}
	load(kind, prog)
}

// HSkipped: code without its end, and ends without a beginning.
func HSkipped() {
	kind := vsym.Choice("kind", 3)
	prog := lib.Push(1, 0)
	switch vsym.Choice("what", 16) {
	case 0:
		prog = append(prog, 0x58) // IF
	case 1:
		prog = append(prog, 0x58, 0x58)
	case 2:
		prog = append(prog, 0x58, 0x40) // and a push instruction with no count
	case 3:
		prog = append(prog, 0x58, 0x41, vsym.U8("count"))
	case 4:
		prog = append(prog, 0x58, 0xb7, 0, 0x59)
	case 5:
		prog = append(prog, 0x1b) // ELSE
	case 6:
		prog = append(prog, 0x1b, 0x41, vsym.U8("count"), 0, 0, 0)
	case 7:
		prog = append(prog, 0x59) // EIF
	case 8:
		prog = append(prog, 0x2c) // FDEF
	case 9:
		prog = append(prog, 0x2c, 0x2c, 0x2d, 0x2d)
	case 10:
		prog = append(prog, 0x2c, 0x40, vsym.U8("count"), 0x2d)
	case 11:
		prog = append(prog, 0x2c, 0xbf, 0x2d)
	case 12:
		prog = append(prog, 0x2d) // ENDF
	case 13:
		prog = append(prog, 0x89, 0x2d) // IDEF
	case 14:
		prog = append(prog, 0x2c, 0x58, 0x2d, 0x2b) // a function with half an IF
	case 15:
		prog = append(prog, 0x2c, 0x41, 0x2d, 0x2b)
	}
	load(kind, prog)
}

// HSizes: with no room for anything.
//
//vsym:merge=3 stores=1
func HSizes() {
	h := &lib.Hint{}
	h.Contours = [][]lib.XY{{{X: 0, Y: 0, On: true}, {X: 300, Y: 60}, {X: 90, Y: 500, On: true}}}
	v := func() []byte { return lib.Push(vsym.Int("v", -0x8000, 0x7fff)) }
	h.Storage = vsym.Choice("storage", 2) * 20
	if h.Storage == 0 {
		h.Storage = 1
	}
	switch vsym.Choice("what", 8) {
	case 0:
		h.Prog = lib.Cat(v(), []byte{0x43}) // RS
	case 1:
		h.Prog = lib.Cat(v(), lib.Push(5), []byte{0x42}) // WS
	case 2:
		h.Prog = lib.Cat(v(), []byte{0x45}) // RCVT, no cvt
	case 3:
		h.Prog = lib.Cat(v(), lib.Push(5), []byte{0x44})
	case 4:
		h.Prog = lib.Cat(v(), lib.Push(5), []byte{0x70})
	case 5:
		h.Prog = lib.Cat(lib.Push(0, 1), []byte{0x3e})
	case 6:
		h.Prog = lib.Cat(lib.Push(0), v(), []byte{0xe0})
	case 7:
		h.Prog = lib.Cat(lib.Push(0x88), v(), lib.Push(1), []byte{0x73})
	}
	if h.Load() == nil {
		vsym.Assert(len(h.Buf.Points) == 3, "the points")
	}
}

// HStack: pushing beyond the end of the stack.
func HStack() {
	kind := vsym.Choice("kind", 3)
	h := &lib.Hint{Stack: []int{1, 255, 256, 257}[vsym.Choice("size", 4)]}
	h.Contours = [][]lib.XY{{{X: 0, Y: 0, On: true}, {X: 300, Y: 60}, {X: 90, Y: 500, On: true}}}
	fill := []int{254, 255, 256, 511, 512}[vsym.Choice("filled", 5)]
	var prog []byte
	for fill > 0 {
		n := lib.Min(fill, 250)
		prog = append(prog, 0x40, byte(n))
		for i := 0; i < n; i++ {
			prog = append(prog, 1)
		}
		fill -= n
	}
	op := []byte{0x20, 0x24, 0x0c, 0x0d, 0x4b, 0x4c, 0xb0, 0xb7, 0xb8, 0xbf, 0x40, 0x41, 0x43, 0x88, 0x25}[vsym.Choice("op", 15)]
	prog = append(prog, op, 3, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0)
	h.Prog = []byte{0x30}
	switch kind {
	case 0:
		h.Fpgm = prog
	case 1:
		h.Prep = prog
	case 2:
		h.Prog = prog
	}
	if h.Load() == nil {
		vsym.Assert(len(h.Buf.Points) == 3, "the points")
	}
}

// HCompound: the program of a compound glyph with no points at all.
//
//vsym:merge=3 stores=1
func HCompound() {
	f := lib.NewFont(3, 3, 64)
	m := lib.Maxp(3)
	f.Set("maxp", m)
	op := anyOp()
	prog := append(values(5), byte(op))
	g := []byte{0xff, 0xff, 0, 0, 0, 0, 0, 0, 0, 0}
	flags := 0x0102
	g = append(g, byte(flags>>8), byte(flags), 0, byte(vsym.Choice("component", 2)), 0, 0)
	g = append(g, byte(len(prog)>>8), byte(len(prog)))
	g = append(g, prog...)
	f.Glyphs(false, nil, lib.Outline(0, 0, nil, lib.Row(3)), g)
	t := lib.MustParse(f)
	var b truetype.GlyphBuf
	b.Load(t, 64, 2, font.HintingFull)
}
