package c22

import (
	"github.com/golang/freetype/truetype"
	"github.com/golang/freetype/vsym"
	"github.com/golang/freetype/zzverif/lib"
	"golang.org/x/image/font"
	"golang.org/x/image/math/fixed"
)

const (
	cFull = iota
	cNoPrep
	cNoFpgm
	cBadFpgm
	cBadPrep
	cSmallStack
	cPlain
	cReads
	nKind
)

// glyphProg moves point 0 by a storage value, point 1 by a control value,
// point 2 by a twilight point's position and calls a function; then it rounds.
var glyphProg = []byte{
	0x00,                   // y axis
	0xb1, 0, 1, 0x43, 0x38, // point 0 by storage 1
	0xb1, 1, 0, 0x45, 0x38, // point 1 by cvt 0
	0xb1, 2, 0, 0x15, 0xb0, 1, 0x46, 0xb0, 1, 0x15, 0x38, // point 2 by twilight point 1
}

// makeFont makes a font of a kind whose values come from v.
func makeFont(kind int, name string) *truetype.Font {
	v := func() byte { return byte(vsym.Int(name, 0, 100)) }
	f := lib.NewFont(6, 6, 64)
	prog := append([]byte{}, glyphProg...)
	maxp := lib.Maxp(6)
	lib.Put16(maxp, 24, 600)
	f.Set("cvt ", []byte{0, v(), 0, v()})
	fpgm := []byte{
		0xb0, 0, 0x2c, 0xb1, 3, v(), 0x38, 0x2d, // function 0 moves point 3
		0x00, 0xb0, 0, 0x16, 0xb1, 1, v(), 0x38, // twilight point 1
	}
	prep := []byte{
		0xb1, 1, v(), 0x42, // storage 1
		0xb1, 0, v(), 0x44, // cvt 0
		0x00, 0xb0, 0, 0x16, 0xb1, 1, 1, 0x3e, // twilight point 1 at cvt 1
		0x19, // round to half grid
	}
	prog = append(prog, 0xb0, 0, 0x2b, 0xb0, 4, 0x2f)
	prog = append(prog, 0xb1, 1, v(), 0x42, 0xb1, 0, v(), 0x44) // leaves other values in storage 1 and cvt 0
	bad := byte(0xa5)
	switch kind {
	case cNoPrep:
		prep = nil
	case cNoFpgm: // calling function 0 is an error
		fpgm = nil
	case cBadFpgm:
		fpgm = append(fpgm, bad)
	case cBadPrep:
		prep = append(prep, bad)
	case cSmallStack:
		lib.Put16(maxp, 24, 16)
		lib.Put16(maxp, 18, 0) // no storage
		prep = nil
	case cReads: // an fpgm that fails if it sees any value
		fpgm = append([]byte{0xb0, 1, 0x43, 0xb0, 0, 0x45, 0x60, 0xb0, 0, 0x45, 0x60, 0x4b, 0x60, 0xb0, 0, 0x15, 0xb0, 1, 0x46, 0x60, 0x58, bad, 0x59}, fpgm...)
	case cPlain:
		prep, fpgm, prog = nil, nil, nil
	}
	f.Set("maxp", maxp)
	if fpgm != nil {
		f.Set("fpgm", fpgm)
	}
	if prep != nil {
		f.Set("prep", prep)
	}
	many := []byte{}
	for i := 0; i < 30; i++ { // needs a stack of 300
		many = append(many, 0x40, 10, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0)
	}
	pts := []lib.XY{{0, 0, true}, {100, 0, true}, {100, 100, false}, {0, 100, true}, {-5, int(v()), true}}
	f.Metric(1, 70, 3)
	f.Metric(2, 90, 0)
	f.Glyphs(true, nil,
		lib.Outline(0, 0, prog, pts),
		lib.Compound(5, 0, lib.Comp(lib.CXY|lib.CMore, 1, 2, 3), lib.Comp(lib.CXY|lib.CScale, 1, 4, 5, -0x2000)),
		lib.Outline(0, 0, []byte{0x00, 0xb1, 0, 64, 0x38, 0x16}, pts), // fails after a move
		lib.Outline(0, 0, many, pts))
	return lib.MustParse(f)
}

type op struct{ scale, glyph, hint int }

func anyOp(name string, glyphs int) op {
	o := op{scale: 64 * (1 + 9*vsym.Choice(name+" scale", 2)), hint: vsym.Choice(name+" hinting", 2)}
	o.glyph = []int{1, 2, 3, 4, 9, 0}[vsym.Choice(name+" glyph", glyphs)]
	return o
}

func (o op) load(g *truetype.GlyphBuf, t *truetype.Font) error {
	return g.Load(t, fixed.Int26_6(o.scale), truetype.Index(o.glyph), []font.Hinting{font.HintingNone, font.HintingFull}[o.hint])
}

func samePoints(a, b []truetype.Point, what string) {
	vsym.Assert(len(a) == len(b), what)
	if len(a) == len(b) {
		for i := range a {
			vsym.Assert(a[i] == b[i], what)
		}
	}
}

func same(g, h *truetype.GlyphBuf, eg, eh error) {
	vsym.Assert((eg == nil) == (eh == nil), "the same error")
	if eg != nil || eh != nil {
		if eg != nil && eh != nil {
			vsym.Assert(eg.Error() == eh.Error(), "the same error")
		}
		return
	}
	samePoints(g.Points, h.Points, "the same points")
	samePoints(g.Unhinted, h.Unhinted, "the same unhinted points")
	samePoints(g.InFontUnits, h.InFontUnits, "the same points in font units")
	vsym.Assert(len(g.Ends) == len(h.Ends), "the same contours")
	if len(g.Ends) == len(h.Ends) {
		for i := range g.Ends {
			vsym.Assert(g.Ends[i] == h.Ends[i], "the same contours")
		}
	}
	vsym.Assert(g.Bounds == h.Bounds, "the same bounds")
	vsym.Assert(g.AdvanceWidth == h.AdvanceWidth, "the same advance width")
}

// HSameFont: the same font again, at any scales, glyphs and hinting modes.
//
//vsym:merge=3
func HSameFont() {
	t := makeFont(vsym.Choice("kind", nKind), "v")
	g := &truetype.GlyphBuf{}
	anyOp("first", vsym.If(vsym.Thorough(), 6, 4)).load(g, t)
	o := anyOp("second", vsym.If(vsym.Thorough(), 6, 2))
	eg := o.load(g, t)
	h := &truetype.GlyphBuf{}
	eh := o.load(h, t)
	same(g, h, eg, eh)
}

// HOtherFont: another font before.
//
//vsym:merge=3
func HOtherFont() {
	k := vsym.Choice("kind", nKind)
	k2 := vsym.Choice("second kind", nKind)
	t, t2 := makeFont(k, "v"), makeFont(k2, "w")
	g := &truetype.GlyphBuf{}
	a := op{640, 1 + vsym.Choice("glyph", vsym.If(vsym.Thorough(), 4, 1)), 1}
	a.load(g, t)
	b := op{640, []int{1, 4, 2, 3}[vsym.Choice("second glyph", vsym.If(vsym.Thorough(), 4, 2))], 1 - vsym.Choice("unhinted", vsym.If(vsym.Thorough(), 2, 1))}
	if vsym.Choice("rescaled", 2) == 1 {
		b.scale = 64
	}
	eg := b.load(g, t2)
	h := &truetype.GlyphBuf{}
	eh := b.load(h, t2)
	same(g, h, eg, eh)
}

// HThree: two loads before, the first font again.
//
//vsym:merge=3
func HThree() {
	t := makeFont([]int{cFull, cBadPrep, cNoPrep}[vsym.Choice("kind", 3)], "v")
	t2 := makeFont([]int{cSmallStack, cBadFpgm, cNoFpgm, cFull, cPlain, cReads}[vsym.Choice("second kind", 6)], "w")
	g := &truetype.GlyphBuf{}
	a := op{640, 1, 1}
	a.load(g, t)
	b := op{640, 1 + vsym.Choice("second glyph", 3), vsym.Choice("second hinting", 2)}
	b.load(g, t2)
	c := op{640, 1, 1}
	if vsym.Choice("rescaled", 2) == 1 {
		c.scale = 64
	}
	eg := c.load(g, t)
	h := &truetype.GlyphBuf{}
	eh := c.load(h, t)
	same(g, h, eg, eh)
}

// HAfterPlain: a glyph with any points after any other.
//
//vsym:merge=3
func HAfterPlain() {
	f := lib.NewFont(6, 6, 1)
	gs := [][]byte{nil}
	for i := 1; i < 4; i++ {
		f.Metric(i, int(vsym.U16("adv")), vsym.Int("lsb", -500, 500))
		var c []lib.XY
		for k := 0; k <= i; k++ {
			c = append(c, lib.XY{X: vsym.Int("x", -500, 500), Y: 3, On: k != 1})
		}
		gs = append(gs, lib.Outline(vsym.Int("xMin", -500, 500), 0, nil, c[:1], c[1:]))
	}
	gs = append(gs, lib.Compound(1, 0, lib.Comp(lib.CXY|lib.CMore, 1, 4, 5), lib.Comp(lib.CXY|lib.CMetrics, 3, 6, 7)), gs[1][:len(gs[1])-1])
	f.Glyphs(false, gs...)
	t := lib.MustParse(f)
	g := &truetype.GlyphBuf{}
	a := op{1, vsym.Choice("glyph", 6), vsym.Choice("hinting", 2)}
	a.load(g, t)
	b := op{1, vsym.Choice("second glyph", 5), vsym.Choice("second hinting", 2)}
	eg := b.load(g, t)
	h := &truetype.GlyphBuf{}
	eh := b.load(h, t)
	vsym.Assert(eg == nil, "a well-formed glyph loads")
	same(g, h, eg, eh)
}
