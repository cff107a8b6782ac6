package c33

import (
	"image"

	"github.com/golang/freetype"
	"github.com/golang/freetype/raster"
	"github.com/golang/freetype/truetype"
	"github.com/golang/freetype/vsym"
	"github.com/golang/freetype/zzverif/lib"
	"golang.org/x/image/font"
	"golang.org/x/image/math/fixed"
)

// The unit is a 1/64 pixel: 64 per em, size 1. All coordinates are even, so
// that midpoints are exact.

func makeFont(cs ...[]lib.XY) *truetype.Font {
	f := lib.NewFont(2, 2, 64)
	f.Set("head", lib.Head(64, -128, -128, 192, 192, 1))
	x := 1000
	for _, c := range cs {
		for _, p := range c {
			x = lib.Min(x, p.X)
		}
	}
	f.Set("hmtx", lib.W16(0, 0, 64, x))
	f.Glyphs(true, nil, lib.Outline(x, 0, nil, cs...))
	return lib.MustParse(f)
}

// size is that of the picture, in pixels; the origin is in the middle.
const size, mid = 8, 4

type picture [size][size]int

// viaFace draws the glyph with a Face.
func viaFace(t *truetype.Font, x, y int, h font.Hinting) *picture {
	f := truetype.NewFace(t, &truetype.Options{Size: 1, GlyphCacheEntries: 1, SubPixelsX: 64, SubPixelsY: 64, Hinting: h})
	dr, mask, mp, _, ok := f.Glyph(lib.P(x+64*mid, y+64*mid), 'a')
	vsym.Assert(ok, "a glyph")
	if !ok {
		vsym.Skip()
	}
	m, _ := mask.(*image.Alpha)
	p := &picture{}
	for j := 0; j < size; j++ {
		for i := 0; i < size; i++ {
			if (image.Point{X: i, Y: j}).In(dr) {
				p[j][i] = int(m.AlphaAt(mp.X+i-dr.Min.X, mp.Y+j-dr.Min.Y).A)
			}
		}
	}
	return p
}

// viaContext draws the glyph with a Context.
func viaContext(t *truetype.Font, x, y int, h font.Hinting) *picture {
	c := freetype.NewContext()
	c.SetFont(t)
	c.SetFontSize(1)
	c.SetHinting(h)
	m := image.NewAlpha(image.Rect(0, 0, size, size))
	c.SetDst(m)
	c.SetSrc(image.Opaque)
	c.SetClip(m.Bounds())
	_, err := c.DrawString("a", lib.P(x+64*mid, y+64*mid))
	vsym.Assert(err == nil, "no error")
	p := &picture{}
	for j := 0; j < size; j++ {
		for i := 0; i < size; i++ {
			p[j][i] = int(m.AlphaAt(i, j).A)
		}
	}
	return p
}

// spell spells out the implied points of a contour.
func spell(c []lib.XY) []lib.XY {
	var r []lib.XY
	for i, p := range c {
		r = append(r, p)
		if q := c[(i+1)%len(c)]; !p.On && !q.On {
			r = append(r, lib.XY{(p.X + q.X) / 2, (p.Y + q.Y) / 2, true})
		}
	}
	return r
}

// rotate starts a contour at another point.
func rotate(c []lib.XY, n int) []lib.XY {
	return append(append([]lib.XY{}, c[n:]...), c[:n]...)
}

// oracle draws contours by their definition.
func oracle(x, y int, cs ...[]lib.XY) *picture {
	r := raster.NewRasterizer(size, size)
	for _, c := range cs {
		c = spell(c)
		n := 0
		for n < len(c) && !c[n].On {
			n++
		}
		if n == len(c) {
			continue // a single point off the curve
		}
		c = rotate(c, n)
		at := func(i int) fixed.Point26_6 {
			p := c[i%len(c)]
			return fixed.Point26_6{X: fixed.Int26_6(p.X + x + 64*mid), Y: fixed.Int26_6(y + 64*mid - p.Y)}
		}
		r.Start(at(0))
		for i := 1; i <= len(c); i++ {
			if c[i%len(c)].On {
				r.Add1(at(i))
			} else {
				r.Add2(at(i), at(i+1))
				i++
			}
		}
	}
	rec := &lib.Rec{}
	r.Rasterize(rec)
	p := &picture{}
	for j := 0; j < size; j++ {
		for i := 0; i < size; i++ {
			p[j][i] = rec.At(i, j) >> 8
		}
	}
	return p
}

func same(a, b *picture, what string) {
	for j := range a {
		for i := range a[j] {
			vsym.Assert(a[j][i] == b[j][i], what)
		}
	}
}

var shapes = [...][]lib.XY{
	{{-100, -50, true}, {90, -76, true}, {110, 100, true}, {-30, 84, true}},
	{{0, 128, true}, {-128, 0, true}, {0, -128, true}, {128, 0, true}},
	{{-64, -64, true}, {128, -20, true}, {-64, 20, true}, {120, 64, true}, {0, 0, true}},
	{{-64, -64, true}, {64, -64, true}, {2, 100, true}},
	{{10, 20, true}, {-60, 90, true}},
	{{30, -30, true}},
	{{-100, 0, true}, {-50, 88, true}, {50, 88, true}, {100, 0, true}, {50, -88, true}, {-50, -88, true}},
}

// pattern sets which points are on the curve.
func pattern(c []lib.XY, bits int) []lib.XY {
	r := append([]lib.XY{}, c...)
	for i := range r {
		r[i].On = bits>>uint(i)&1 == 1
	}
	return r
}

func draw(t *truetype.Font, x, y int) (*picture, *picture) {
	return viaFace(t, x, y, font.HintingNone), viaContext(t, x, y, font.HintingNone)
}

// HPatterns: contours with any points on the curve, starting anywhere, at a
// few positions: as defined.
//
//vsym:merge=3
func HPatterns() {
	k := vsym.Choice("shape", vsym.If(vsym.Thorough(), 7, 6))
	c := shapes[k]
	c = pattern(c, vsym.Choice("pattern", 1<<uint(len(c))))
	x, y := 0, 0
	if vsym.Choice("position", 2) == 1 {
		x, y = -32, 18
	}
	want := oracle(x, y, c)
	f, g := draw(makeFont(c), x, y)
	same(f, want, "the contour as defined, by Face")
	same(g, want, "the contour as defined, by Context")
}

// HEncodings: other encodings of a contour.
//
//vsym:merge=3
func HEncodings() {
	k := vsym.Choice("shape", vsym.If(vsym.Thorough(), 7, 5))
	c := shapes[k]
	c = pattern(c, vsym.Choice("pattern", 1<<uint(len(c))))
	x, y := 7, 33
	f, g := draw(makeFont(c), x, y)
	d := c
	e := vsym.Choice("encoding", 4)
	if e&1 == 1 {
		d = spell(d)
	}
	d = rotate(d, vsym.Choice("start", len(d)))
	if e >= 2 { // close the contour explicitly, and add a redundant point
		d = append(d, d[0])
		if !d[0].On {
			vsym.Skip()
		}
	}
	f2, g2 := draw(makeFont(d), x, y)
	same(f, f2, "the same pixels by Face")
	same(g, g2, "the same pixels by Context")
}

// HSymbolic: one coordinate is any value.
//
//vsym:merge=3
func HSymbolic() {
	c := append([]lib.XY{}, [][]lib.XY{
		{{-64, -64, true}, {64, -64, true}, {64, 0, true}, {-64, 0, true}},
		{{-64, -64, true}, {64, -64, true}, {64, 64, true}},
	}[vsym.Choice("shape", 2)]...)
	v := 2 * vsym.Int("half", 1, 31)
	if vsym.Choice("axis", 2) == 0 {
		c[0].X += v
		if len(c) == 4 {
			c[3].X += v
		}
	} else {
		c[0].Y += v
		c[1].Y += v
	}
	n := len(c)
	f, g := draw(makeFont(c), 0, 0)
	d := rotate(c, vsym.Choice("start", n))
	f2, g2 := draw(makeFont(d), 0, 0)
	same(f, f2, "the same pixels by Face")
	same(g, g2, "the same pixels by Context")
	same(f, g, "the same pixels by Face and Context")
}

// HContours: several contours, in any order.
//
//vsym:merge=3
func HContours() {
	a := pattern(shapes[0], vsym.Choice("first pattern", 16))
	b := []lib.XY{{-40, -30, true}, {-30, 44, false}, {50, 40, true}, {42, -40, false}}
	b = pattern(b, []int{15, 5, 0, 6}[vsym.Choice("second pattern", 4)])
	cs := [][]lib.XY{a, b, {{0, 0, true}}, {{20, 20, false}}}
	n := 2 + vsym.Choice("degenerate", 3)
	cs = cs[:n]
	want := oracle(0, 0, cs...)
	r := vsym.Choice("order", n)
	cs = append(append([][]lib.XY{}, cs[r:]...), cs[:r]...)
	f, g := draw(makeFont(cs...), 0, 0)
	same(f, want, "the contours as defined, by Face")
	same(g, want, "the contours as defined, by Context")
}

// HCurve: a control point is any of several values: the curve's encodings
// agree.
//
//vsym:merge=3 tier=thorough
func HCurve() {
	c := pattern([]lib.XY{{-64, -64, true}, {64, -64, true}, {64, 64, true}, {-64, 64, true}}, []int{1, 5, 0, 11}[vsym.Choice("pattern", vsym.If(vsym.Thorough(), 4, 2))])
	v := 4 * vsym.Int("quarter", 1, 3)
	c[1].X += v
	if vsym.Choice("other", 2) == 1 {
		c[2].X += v
	}
	f := viaFace(makeFont(c), 0, 0, font.HintingNone)
	d := c
	if vsym.Choice("spelled out", 2) == 1 {
		d = spell(d)
	}
	d = rotate(d, vsym.Choice("start", 4))
	f2, g2 := draw(makeFont(d), 0, 0)
	same(f, f2, "the same pixels by Face")
	same(f, g2, "the same pixels by Face and Context")
}
