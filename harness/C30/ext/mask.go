package c30

import (
	"image"

	"github.com/golang/freetype/raster"
	"github.com/golang/freetype/truetype"
	"github.com/golang/freetype/vsym"
	"github.com/golang/freetype/zzverif/lib"
	"golang.org/x/image/font"
	"golang.org/x/image/math/fixed"
)

// The unit is a 1/64 pixel: 64 per em, size 1.

type glyph struct {
	pts  []lib.XY
	prog []byte
}

// makeFont has glyphs for 'a', 'b', ... and no outline for glyph 0; the
// bounding box is as given. Glyph n+1 cannot be loaded.
func makeFont(x0, y0, x1, y1 int, gs ...glyph) *truetype.Font {
	n := len(gs) + 2
	f := lib.NewFont(n, n, 64)
	f.Set("head", lib.Head(64, x0, y0, x1, y1, 1))
	ds := [][]byte{nil}
	for i, g := range gs {
		xmin := g.pts[0].X
		for _, p := range g.pts {
			xmin = lib.Min(xmin, p.X)
		}
		f.Metric(i+1, 100+7*i, 0)
		// The left side bearing is wrong on purpose for glyphs other than the first.
		ds = append(ds, lib.Outline(0, 0, g.prog, g.pts))
	}
	ds = append(ds, []byte{0xff, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0})
	f.Glyphs(true, ds...)
	return lib.MustParse(f)
}

// dot is any position in a number of pixels around the origin that is
// quantized to quantum q of n; it returns the quantized position too.
func dot(name string, n, q int) (d, quantized int) {
	s := 64 / n
	r := vsym.Int(name+" residue", -s/2, (s-1)/2)
	p := vsym.Int(name+" pixel", -3, 3)
	return 64*p + q*s + r, 64*p + q*s
}

type shot struct {
	dr    image.Rectangle
	mask  *image.Alpha
	maskp image.Point
	adv   fixed.Int26_6
	ok    bool
}

func take(f font.Face, x, y int, r rune) shot {
	dr, mask, maskp, adv, ok := f.Glyph(lib.P(x, y), r)
	s := shot{dr: dr, maskp: maskp, adv: adv, ok: ok}
	if ok {
		s.mask, _ = mask.(*image.Alpha)
		vsym.Assert(s.mask != nil, "an alpha mask")
		if s.mask == nil {
			vsym.Skip()
		}
	}
	return s
}

// at is the mask's alpha at a pixel relative to dr.Min; pixels outside the
// rectangle are not painted.
func (s *shot) at(x, y int) int {
	return int(s.mask.AlphaAt(s.maskp.X+x, s.maskp.Y+y).A)
}

func sameShot(a, b shot) {
	vsym.Assert(a.ok == b.ok, "the same success")
	if !a.ok || !b.ok {
		return
	}
	vsym.Assert(a.dr == b.dr, "the same rectangle")
	vsym.Assert(a.adv == b.adv, "the same advance")
	if a.dr == b.dr {
		w, h := a.dr.Dx(), a.dr.Dy()
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				vsym.Assert(a.at(x, y) == b.at(x, y), "the same mask pixels")
			}
		}
	}
}

const big = 10 // pixels that the oracle looks at, in each direction
const mid = 5  // where the origin is

// drawOracle asserts that the shot shows the outline at a quantized position.
func drawOracle(s shot, ps []truetype.Point, x, y int, whole bool) {
	fx, fy := x&63, y&63
	ix, iy := x>>6, y>>6
	r := raster.NewRasterizer(big, big)
	var poly []fixed.Point26_6
	for _, p := range ps {
		poly = append(poly, fixed.Point26_6{X: p.X + fixed.Int26_6(fx+64*mid), Y: fixed.Int26_6(fy+64*mid) - p.Y})
	}
	lib.Poly(r, poly...)
	rec := &lib.Rec{}
	r.Rasterize(rec)
	x0, y0 := s.dr.Min.X-ix+mid, s.dr.Min.Y-iy+mid
	w, h := s.dr.Dx(), s.dr.Dy()
	vsym.Assert(w >= 0 && h >= 0, "the rectangle's size")
	for j := 0; j < big; j++ {
		for i := 0; i < big; i++ {
			want := rec.At(i, j) >> 8
			if i >= x0 && i < x0+w && j >= y0 && j < y0+h {
				vsym.Assert(s.at(i-x0, j-y0) == want, "the outline's pixels")
			} else if whole {
				vsym.Assert(want == 0, "the whole outline is in the rectangle")
			}
		}
	}
}

var subs = [...]int{4, 1, 2, 64, 8}

// HQuantize: any dot position near a few quanta of the allowed granularities;
// a fixed outline that touches the font's bounding box.
//
//vsym:merge=3
func HQuantize() {
	tri := glyph{pts: []lib.XY{{-30, -20, true}, {90, 10, true}, {20, 70, true}}}
	t := makeFont(-30, -20, 90, 70, tri, glyph{pts: []lib.XY{{0, 0, true}, {64, 0, true}, {64, 64, true}, {0, 64, true}}})
	o := &truetype.Options{Size: 1, GlyphCacheEntries: 1}
	nx, ny := 4, 1
	if k := vsym.Choice("subpixels x", 6); k < 5 {
		o.SubPixelsX, nx = subs[k], subs[k]
	}
	if k := vsym.Choice("subpixels y", 6); k < 5 {
		o.SubPixelsY, ny = subs[k], subs[k]
	}
	face := truetype.NewFace(t, o)
	last := vsym.Choice("last", 2)
	x, qx := dot("x", nx, last*(nx-1))
	y, qy := dot("y", ny, (1-last)*(ny/2))
	g := &truetype.GlyphBuf{}
	i := 1 + vsym.Choice("glyph", 2)
	if g.Load(t, 64, truetype.Index(i), font.HintingNone) != nil {
		vsym.Skip()
	}
	s := take(face, x, y, rune('a'+i-1))
	vsym.Assert(s.ok, "a glyph")
	if !s.ok {
		return
	}
	vsym.Assert(s.adv == g.AdvanceWidth, "the glyph's advance")
	drawOracle(s, g.Points, qx, qy, true)
}

// rect is a rectangular outline.
func rect(x0, y0, x1, y1 int) []lib.XY {
	return []lib.XY{{x0, y0, true}, {x1, y0, true}, {x1, y1, true}, {x0, y1, true}}
}

// HOutline: an outline with any position of one edge, at the edges of a
// bounding box that fits it exactly.
//
//vsym:merge=3
func HOutline() {
	q := vsym.Choice("quantum", 4)
	x, qx := dot("x", 4, q)
	y, qy := dot("y", 2, q/2)
	c := []int{-30, -20, 90, 70}
	k := vsym.Choice("edge", 4)
	c[k] = 64*(vsym.Choice("pixel", 2)+[]int{-2, -2, 1, 1}[k]) + vsym.Int("c", 0, 63) - []int{qx & 63, qy & 63}[k%2]
	x0, y0, x1, y1 := c[0], c[1], c[2], c[3]
	if vsym.Choice("box", 2) == 1 { // roomy
		x0, y0, x1, y1 = -192, -192, 192, 192
	}
	t := makeFont(x0, y0, x1, y1, glyph{pts: rect(c[0], c[1], c[2], c[3])})
	face := truetype.NewFace(t, &truetype.Options{Size: 1, GlyphCacheEntries: 1, SubPixelsY: 2})
	s := take(face, x, y, 'a')
	vsym.Assert(s.ok, "a glyph")
	if !s.ok {
		return
	}
	g := &truetype.GlyphBuf{}
	if g.Load(t, 64, 1, font.HintingNone) != nil {
		vsym.Skip()
	}
	drawOracle(s, g.Points, qx, qy, true)
}

// HHinted: hinting moves an edge.
//
//vsym:merge=3
func HHinted() {
	x, qx := dot("x", 4, vsym.Choice("quantum", 4))
	a := vsym.Choice("axis", 2)
	v := vsym.Int("shift", -63, 0)
	if a == 1 {
		v -= qx & 63
	}
	if vsym.Choice("pixel", 2) == 1 {
		v += 64
	}
	prog := lib.Cat([]byte{byte(a), 0x40, 2, 0, byte(1 + 2*a), 0xb0, 2, 0x17}, lib.Push(v), []byte{0x38})
	t := makeFont(-64, -64, 64, 64, glyph{rect(-64, -64, 64, 64), prog})
	face := truetype.NewFace(t, &truetype.Options{Size: 1, GlyphCacheEntries: 1, Hinting: font.HintingFull})
	s := take(face, x, 0, 'a')
	vsym.Assert(s.ok, "a glyph")
	if !s.ok {
		return
	}
	g := &truetype.GlyphBuf{}
	if g.Load(t, 64, 1, font.HintingFull) != nil {
		vsym.Skip()
	}
	p0 := int(g.Points[0].Y)
	if a == 1 {
		p0 = int(g.Points[0].X)
	}
	vsym.Assert(p0 == -64+v, "the edge is moved")
	drawOracle(s, g.Points, qx, 0, true)
}

// HWrongBox: the font's bounding box is wrong in any way.
//
//vsym:merge=3
func HWrongBox() {
	b := []int{0, 0, 64, 64}
	if vsym.Choice("negative", 2) == 1 {
		b = []int{20, 30, -100, -100}
	}
	k := vsym.Choice("side", 4)
	b[k] = []int{-130, -64, 0, 50, 200, -200}[vsym.Choice("value", 6)]
	t := makeFont(b[0], b[1], b[2], b[3], glyph{pts: rect(-64, -64, 64+vsym.Int("c", 0, 63), 90)})
	face := truetype.NewFace(t, &truetype.Options{Size: 1, GlyphCacheEntries: 2})
	x, qx := dot("x", 4, 0)
	s := take(face, x, 0, 'a')
	vsym.Assert(s.ok, "a glyph")
	if !s.ok {
		return
	}
	g := &truetype.GlyphBuf{}
	if g.Load(t, 64, 1, font.HintingNone) != nil {
		vsym.Skip()
	}
	drawOracle(s, g.Points, qx, 0, false)
}

type call struct{ x, y, r int }

// HHistory: glyphs drawn before, in caches of several sizes.
//
//vsym:merge=3
func HHistory() {
	big := glyph{pts: []lib.XY{{-64, -64, true}, {128, -60, true}, {128, 128, true}, {-60, 128, true}}}
	c := vsym.Int("c", 0, 63) // the outlines of both glyphs depend on it
	small := glyph{pts: rect(0, 10, 64+c, 60)}
	other := glyph{pts: rect(-20, -64+c, 30, 100)}
	t := makeFont(-64, -64, 128, 128, big, small, other, big, small, other, glyph{pts: []lib.XY{{5, 5, true}, {9, 90, true}, {90, 9, true}}})
	conf := [...][3]int{{4, 1, 1}, {4, 1, 4}, {1, 2, 2}, {1, 2, 1}, {64, 2, 8}, {2, 4, 16}, {1, 1, 64}}[vsym.Choice("configuration", vsym.If(vsym.Thorough(), 7, 4))]
	nx, ny := conf[0], conf[1]
	o := &truetype.Options{Size: 1, SubPixelsX: nx, SubPixelsY: ny, GlyphCacheEntries: conf[2]}
	face := truetype.NewFace(t, o)
	one := func(name string) (x, y int, r rune) {
		q := vsym.Choice(name+" quantum", vsym.If(vsym.Thorough(), 3, 2))
		x, _ = dot(name+" x", nx, []int{0, nx / 2, 0}[q])
		y, _ = dot(name+" y", ny, []int{0, ny - 1, ny / 2}[q])
		return x, y, []rune{'a', 'b', 'e', 'c', 'h', '?'}[vsym.Choice(name+" rune", vsym.If(vsym.Thorough(), 6, 4))]
	}
	n := vsym.If(vsym.Thorough(), 2, 1)
	for i := 0; i < n; i++ {
		x, y, r := one("before")
		take(face, x, y, r)
	}
	x, y, r := one("last")
	s := take(face, x, y, r)
	sameShot(s, take(truetype.NewFace(t, o), x, y, r))
}

// HSequence: a sequence of glyphs at any positions: every one is as if drawn
// first, also when drawn again after all the others.
//
//vsym:merge=3
func HSequence() {
	a := glyph{pts: []lib.XY{{-64, -64, true}, {128, -60, true}, {128, 128, true}, {-60, 128, true}}}
	b := glyph{pts: rect(0, 10, 64+vsym.Int("c", 0, 31), 60)}
	t := makeFont(-64, -64, 128, 128, a, b, a, b, b, a)
	e := 1 << uint(vsym.Choice("entries", 5))
	o := &truetype.Options{Size: 1, SubPixelsX: 2, SubPixelsY: 4, GlyphCacheEntries: e}
	face, fresh := truetype.NewFace(t, o), func() font.Face { return truetype.NewFace(t, o) }
	seqs := [...][]call{
		{{0, 0, 'a'}, {0, 0, 'b'}, {0, 0, 'a'}, {0, 0, 'c'}, {0, 0, 'a'}},
		{{0, 16, 'a'}, {0, 0, 'b'}, {32, 0, 'a'}, {32, 48, 'b'}, {0, 16, 'a'}},
		{{0, 0, 'd'}, {32, 32, 'c'}, {0, 32, 'd'}, {0, 48, 'e'}, {32, 32, 'c'}},
		{{0, 0, '?'}, {32, 0, '?'}, {0, 0, 'f'}, {0, 0, 'g'}, {32, 0, '?'}},
		{{0, 16, 'a'}, {0, 48, 'a'}, {32, 48, 'a'}, {0, 48, 'a'}, {0, 0, 'a'}, {0, 32, 'a'}},
		{{0, 48, 'b'}, {0, 48, 'g'}, {32, 0, 'b'}, {0, 0, 'g'}, {0, 48, 'b'}},
	}
	dx, dy := 64*vsym.Int("px", -2, 2)+vsym.Int("dx", -16, 15), 64*vsym.Int("py", -2, 2)+vsym.Int("dy", -8, 7)
	for _, c := range seqs[vsym.Choice("sequence", len(seqs))] {
		s := take(face, c.x+dx, c.y+dy, rune(c.r))
		sameShot(s, take(fresh(), c.x+dx, c.y+dy, rune(c.r)))
	}
}

// HFine: neighbouring positions at the finest granularities are told apart.
//
//vsym:merge=3
func HFine() {
	a := glyph{pts: []lib.XY{{-64, -64, true}, {128, -60, true}, {128, 128, true}, {-60, 100, true}}}
	t := makeFont(-64, -64, 128, 128, a)
	n := []int{16, 32, 64, 8}[vsym.Choice("granularity", 4)]
	s := 64 / n
	nx, ny := n, 1
	vertical := vsym.Choice("vertical", 2) == 1
	if vertical {
		nx, ny = ny, nx
	}
	o := &truetype.Options{Size: 1, SubPixelsX: nx, SubPixelsY: ny, GlyphCacheEntries: 1 << uint(vsym.Choice("entries", 2))}
	face := truetype.NewFace(t, o)
	o64 := *o
	o64.SubPixelsX, o64.SubPixelsY = 1+63*vsym.B2I(!vertical), 1+63*vsym.B2I(vertical)
	q := vsym.Choice("bit", 6)
	if 1<<uint(q) < s {
		vsym.Skip()
	}
	at := []int{60 - 60%s, 60 - 60%s ^ 1<<uint(q), 60 - 60%s}
	d := vsym.Int("d", -s/2, (s-1)/2)
	x64, y64 := at[1], 7
	if vertical {
		x64, y64 = 7, at[1]
	}
	sameShot(take(truetype.NewFace(t, o), x64, y64, 'a'), take(truetype.NewFace(t, &o64), x64, y64, 'a'))
	for _, y := range at {
		x := 7
		if vertical {
			y += d
		} else {
			x, y = y+d, x
		}
		sameShot(take(face, x, y, 'a'), take(truetype.NewFace(t, o), x, y, 'a'))
	}
}
