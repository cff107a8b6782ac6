package c20

import (
	"github.com/golang/freetype/truetype"
	"github.com/golang/freetype/vsym"
	"github.com/golang/freetype/zzverif/lib"
	"golang.org/x/image/font"
	"golang.org/x/image/math/fixed"
)

// load loads a glyph and checks what holds for every loaded glyph.
func load(f *lib.Font, scale, i, hint int) *truetype.GlyphBuf {
	t := lib.MustParse(f)
	g := &truetype.GlyphBuf{}
	err := g.Load(t, fixed.Int26_6(scale), truetype.Index(i), [...]font.Hinting{font.HintingNone, font.HintingFull, font.HintingVertical}[hint])
	vsym.Assert(err == nil, "a well-formed glyph loads")
	if err != nil {
		vsym.Skip()
	}
	end := 0
	for _, e := range g.Ends {
		vsym.Assert(e >= end, "contour ends in order")
		end = e
	}
	vsym.Assert(end == len(g.Points), "the last contour ends with the points")
	x0, y0, x1, y1 := 0, 0, 0, 0
	for i, p := range g.Points {
		x, y := int(p.X), int(p.Y)
		if i == 0 {
			x0, x1, y0, y1 = x, x, y, y
		}
		x0, x1 = vsym.If(x < x0, x, x0), vsym.If(x > x1, x, x1)
		y0, y1 = vsym.If(y < y0, y, y0), vsym.If(y > y1, y, y1)
	}
	if hint != 0 {
		x0, y0 = x0&^63, y0&^63
		x1, y1 = (x1+63)&^63, (y1+63)&^63
	}
	b := g.Bounds
	vsym.Assert(int(b.Min.X) == x0, "bounds: left")
	vsym.Assert(int(b.Max.X) == x1, "bounds: right")
	vsym.Assert(int(b.Min.Y) == y0, "bounds: bottom")
	vsym.Assert(int(b.Max.Y) == y1, "bounds: top")
	vsym.Assert(hint == 0 || g.AdvanceWidth&63 == 0, "hinted advance width in whole pixels")
	return g
}

// advance checks the advance width against the metric.
func advance(g *truetype.GlyphBuf, aw, scale, upem, hint int) {
	d := int(g.AdvanceWidth)*upem - aw*scale
	tol := upem
	if hint != 0 {
		tol = 65 * upem
	}
	vsym.Assert(d <= tol && d >= -tol, "the font's scaled advance width")
}

// programs that move points but no phantom points.
func program(k int) []byte {
	switch k {
	case 1: // round points 0 and 1 in x, then interpolate
		return []byte{0xb1, 1, 0, 0x2f, 0x2f, 0x31}
	case 2: // move point 0 by half a pixel up
		return []byte{0x00, 0xb1, 0, 32, 0x38}
	case 3: // move contour points by whole pixels down, round in y
		return []byte{0x00, 0xb1, 0, 0, 0x2f, 0xb8, 0xff, 0xc0, 0x38, 0x30}
	}
	return nil
}

// HSimple: any points, contours and hinting.
//
//vsym:merge=3
func HSimple() {
	f := lib.NewFont(2, 2, 1)
	np := vsym.Choice("points", vsym.If(vsym.Thorough(), 5, 3)) + 1
	nc := vsym.Choice("contours", 3) + 1
	ends := make([]int, nc)
	for i := range ends {
		ends[i] = np - 1
		if i < nc-1 {
			ends[i] = vsym.Int("end", 0, np-1)
			if i > 0 {
				vsym.Assume(ends[i] >= ends[i-1])
			}
		}
	}
	xs, ys := make([]int, np), make([]int, np)
	fl := make([]byte, np)
	for i := range xs {
		xs[i], ys[i] = vsym.Int("dx", -2000, 2000), vsym.Int("dy", -2000, 2000)
		fl[i] = vsym.U8("flag") & 0xc1
	}
	aw, lsb := int(vsym.U16("advance")), vsym.Int("lsb", -2000, 2000)
	f.Metric(1, aw, lsb)
	hint := vsym.Choice("hinting", vsym.If(vsym.Thorough(), 3, 2))
	k := 0
	if hint == 1 && np > 1 {
		k = vsym.Choice("program", 3)
	}
	f.Glyphs(nc == 2, nil, lib.Simple(vsym.Int("xMin", -2000, 2000), 0, ends, program(k), fl, append(lib.W16(xs...), lib.W16(ys...)...)))
	g := load(f, 1, 1, hint)
	vsym.Assert(len(g.Points) == np && len(g.Ends) == nc, "the glyph's points and contours")
	advance(g, aw, 1, 1, hint)
}

// HHinted: point 0 moves out of the unhinted bounds.
//
//vsym:merge=3
func HHinted() {
	f := lib.NewFont(2, 2, 1)
	x, y := vsym.Int("x", -2000, 2000), vsym.Int("y", -2000, 2000)
	k := vsym.Choice("program", 4)
	f.Glyphs(true, nil, lib.Outline(0, 0, program(k), []lib.XY{{x, y, true}, {3, 40, false}}))
	g := load(f, 1, 1, 1)
	if k == 2 {
		vsym.Assert(int(g.Points[0].Y) == y+32, "the point moved")
	}
}

// HCompound: components, some of them empty.
//
//vsym:merge=3
func HCompound() {
	f := lib.NewFont(5, 5, 1)
	n := vsym.Choice("components", 2) + 1
	aw := int(vsym.U16("advance"))
	f.Metric(3, aw, vsym.Int("lsb", -2000, 2000))
	var comps [][]byte
	for i := 0; i < n; i++ {
		fl := lib.CXY | lib.CWords
		if vsym.Choice("round", 2) == 1 {
			fl |= lib.CRound
		}
		if i < n-1 {
			fl |= lib.CMore
		}
		comps = append(comps, lib.Comp(fl, vsym.Choice("glyph", 3), vsym.Int("dx", -2000, 2000), vsym.Int("dy", -2000, 2000)))
	}
	k := vsym.Choice("program", vsym.If(vsym.Thorough(), 2, 1))
	f.Glyphs(n == 1, nil,
		lib.Outline(0, 0, program(k), []lib.XY{{1, 2, true}, {30, -40, false}}, []lib.XY{{7, 9, true}}),
		lib.Outline(0, 0, nil, []lib.XY{{-5, 6, true}}),
		lib.Compound(vsym.Int("xMin", -2000, 2000), 0, comps...))
	hint := vsym.Choice("hinting", 2)
	advance(load(f, 1, 3, hint), aw, 1, 1, hint)
}

// HAdvance: scaled advance widths.
func HAdvance() {
	upem := [...]int{1000, 2048}[vsym.Choice("upem", 2)]
	aw, scale := 0, 0
	if vsym.Choice("free", 2) == 0 {
		aw = vsym.Int("advance", 0, 20000)
		scale = [...]int{768, 777, 640}[vsym.Choice("scale", vsym.If(vsym.Thorough(), 3, 2))]
	} else {
		aw = [...]int{1001, 500, 2999}[vsym.Choice("advance", vsym.If(vsym.Thorough(), 3, 1))]
		scale = vsym.Int("scale", 0, 8000)
	}
	f := lib.NewFont(6, 2, upem)
	off := [...]int{0, 37, -900}[vsym.Choice("shift", vsym.If(vsym.Thorough(), 3, 2))]
	i := vsym.Choice("glyph", 4) // empty, simple, compound, simple beyond the long metrics
	f.Metric(i, aw, -off)
	if i > 1 {
		f = lib.NewFont(6, 4, upem)
		f.Metric(3, aw, -off)
		f.Metric(i, aw, -off)
		if i == 3 {
			i = 4
			lib.Put16(f.Get("hmtx"), 16, -off)
		}
	}
	dot := lib.Outline(0, 0, nil, []lib.XY{{5, 6, true}})
	f.Glyphs(true, nil, dot, lib.Compound(0, 0, lib.Comp(lib.CXY, 1, 2, 3)), nil, dot)
	hint := vsym.Choice("hinting", 2)
	advance(load(f, scale, i, hint), aw, scale, upem, hint)
}

// HHdmx: the device metrics win when hinting at a size they have.
func HHdmx() {
	nGlyph := []int{2, 3, 5}[vsym.Choice("glyphs", vsym.If(vsym.Thorough(), 3, 2))]
	size := (2 + nGlyph + 3) &^ 3
	switch vsym.Choice("padding", 3) {
	case 1:
		size += 4
	case 2: // records that end before the last glyph's width
		size = 1 + nGlyph
	}
	n := vsym.Choice("records", 3)
	d := make([]byte, 8, 8+n*size)
	lib.Put16(d, 2, n)
	lib.Put32(d, 4, size)
	p := vsym.Int("ppem", 1, 255)
	i := vsym.Choice("glyph", nGlyph)
	want, found := 0, false
	for k := 0; k < n; k++ {
		r := make([]byte, size)
		r[0] = vsym.U8("size")
		for j := 2; j < 2+nGlyph && j < size; j++ {
			r[j] = vsym.U8("width")
		}
		if int(r[0]) == p && !found && 2+i < size {
			want, found = 64*int(r[2+i]), true
		}
		d = append(d, r...)
	}
	f := lib.NewFont(nGlyph, nGlyph, 1000)
	f.Metric(i, 1234, 0)
	f.Set("hdmx", d)
	gs := make([][]byte, nGlyph)
	gs[1] = lib.Outline(0, 0, nil, []lib.XY{{5, 6, true}})
	f.Glyphs(true, gs...)
	hint := vsym.Choice("hinting", 3)
	g := load(f, 64*p, i, hint)
	if hint != 0 && found {
		vsym.Assert(int(g.AdvanceWidth) == want, "the device's advance width")
	} else {
		advance(g, 1234, 64*p, 1000, hint)
	}
}

// HNested: the advance of compounds of compounds, each of which takes its
// metrics from one of its components or has its own.
//
//vsym:merge=3
func HNested() {
	upem := vsym.If(vsym.Choice("scaled", 2) == 1, 3, 1)
	f := lib.NewFont(7, 7, upem)
	aw := make([]int, 7)
	for i := range aw {
		aw[i] = int(vsym.U16("advance"))
		f.Metric(i, aw[i], 10*i-30)
	}
	fl := func(my, more bool) int {
		v := lib.CXY | lib.CWords
		if my {
			v |= lib.CMetrics
		}
		if more {
			v |= lib.CMore
		}
		return v
	}
	comp := func(i, my, a, b int) []byte {
		if my == 1 {
			aw[i] = aw[a]
		} else if my == 2 {
			aw[i] = aw[b]
		}
		return lib.Compound(0, 0,
			lib.Comp(fl(my == 1, true), a, 10, 20),
			lib.Comp(fl(my == 2, false), b, 5, -7))
	}
	one := func(x int) []byte { return lib.Outline(0, 0, nil, []lib.XY{{x, 6, true}, {x + 9, 16, true}}) }
	g4 := comp(4, vsym.Choice("metrics of 4", 3), 1, 2)
	g5 := comp(5, vsym.Choice("metrics of 5", 3), 3-2*vsym.Choice("first", 2), 4)
	g6 := comp(6, vsym.Choice("metrics of 6", 3), 5, 2+2*vsym.Choice("second", 2))
	f.Glyphs(true, nil, one(1), one(2), one(3), g4, g5, g6)
	hint := vsym.Choice("hinting", 2)
	i := 4 + vsym.Choice("glyph", 3)
	advance(load(f, 2, i, hint), aw[i], 2, upem, hint)
}
