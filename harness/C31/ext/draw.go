package c31

import (
	"image"
	"image/color"

	"github.com/golang/freetype"
	"github.com/golang/freetype/raster"
	"github.com/golang/freetype/truetype"
	"github.com/golang/freetype/vsym"
	"github.com/golang/freetype/zzverif/lib"
	"golang.org/x/image/font"
	"golang.org/x/image/math/fixed"
)

// The unit is a 1/64 pixel: 64 per em, size 1.

func kern(ps ...[3]int) []byte {
	b := make([]byte, 18+6*len(ps))
	lib.Put16(b, 2, 1)
	lib.Put16(b, 6, 14+6*len(ps))
	lib.Put16(b, 8, 1)
	lib.Put16(b, 10, len(ps))
	for i, p := range ps {
		lib.Put16(b, 18+6*i, p[0])
		lib.Put16(b, 20+6*i, p[1])
		lib.Put16(b, 22+6*i, p[2])
	}
	return b
}

func rect(x0, y0, x1, y1 int) []lib.XY {
	return []lib.XY{{x0, y0, true}, {x1, y0, true}, {x1, y1, true}, {x0, y1, true}}
}

// makeFont has outlines for 'a', 'b', ..., with the given advances.
func makeFont(adv []int, kerns [][3]int, gs ...[]lib.XY) *truetype.Font {
	return boxed(128, adv, kerns, gs...)
}

// boxed is such a font whose bounding box, right or wrong, is box wide each way.
func boxed(box int, adv []int, kerns [][3]int, gs ...[]lib.XY) *truetype.Font {
	n := len(gs) + 1
	f := lib.NewFont(n+1, n+1, 64)
	f.Set("head", lib.Head(64, -box, -box, box, box, 1))
	ds := [][]byte{nil}
	for i, g := range gs {
		f.Metric(i+1, adv[i], 0)
		if g == nil {
			ds = append(ds, nil)
			continue
		}
		x := g[0].X
		for _, p := range g {
			x = lib.Min(x, p.X)
		}
		ds = append(ds, lib.Outline(x, 0, nil, g))
		lib.Put16(f.Get("hmtx"), 4*(i+1)+2, x)
	}
	ds = append(ds, []byte{0xff, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}) // cannot be loaded
	f.Metric(0, 33, 0)
	f.Glyphs(true, ds...)
	if kerns != nil {
		f.Set("kern", kern(kerns...))
	}
	return lib.MustParse(f)
}

func context(t *truetype.Font, size float64, h font.Hinting) *freetype.Context {
	c := freetype.NewContext()
	c.SetFont(t)
	c.SetFontSize(size)
	c.SetHinting(h)
	return c
}

func hinting() font.Hinting {
	return []font.Hinting{font.HintingNone, font.HintingVertical, font.HintingFull}[vsym.Choice("hinting", 3)]
}

// HExtent: the returned point, for any start, advances and kerning.
//
//vsym:merge=3
func HExtent() {
	k := vsym.Choice("symbolic", 3)
	adv := []int{100, 70}
	kn := []int{-9, 13}
	if k == 0 {
		adv[0] = vsym.Int("advance", 0, 65535)
	} else if k == 1 {
		kn[0] = vsym.Int("kern", -32768, 32767)
	} else {
		adv[1] = vsym.Int("advance", 0, 2000)
		kn[1] = vsym.Int("kern", -2000, 2000)
	}
	t := makeFont(adv, [][3]int{{0, 2, -21}, {1, 0, 40}, {1, 2, kn[0]}, {2, 1, kn[1]}}, nil, nil)
	h := hinting()
	size := []int{1, 5}[vsym.Choice("size", 2)]
	c := context(t, float64(size), h)
	s := []string{"ab", "aba", "", "a?b", "bb", "b\xffa"}[vsym.Choice("text", 6)]
	x, y := vsym.Int("x", -100000, 100000), vsym.Int("y", -100000, 100000)
	x, y = x&^15, y&^63 // so that few glyphs of the string share a cache entry
	p, err := c.DrawString(s, lib.P(x, y))
	vsym.Assert(err == nil, "no error")
	prev := -1
	want := x
	for _, r := range s {
		i := 0
		if r == 'a' || r == 'b' {
			i = int(r-'a') + 1
		}
		a, kv := 33, 0
		if i > 0 {
			a = adv[i-1]
		}
		if prev == 1 && i == 2 {
			kv = kn[0]
		} else if prev == 2 && i == 1 {
			kv = kn[1]
		} else if prev == 0 && i == 2 {
			kv = -21
		} else if prev == 1 && i == 0 {
			kv = 40
		}
		a *= size
		kv *= size
		if h != font.HintingNone {
			a = (a + 32) &^ 63
			kv = (kv + 32) &^ 63
		}
		want += a + kv
		prev = i
	}
	vsym.Assert(int(p.X) == want, "the start advanced by advance widths and kerning")
	vsym.Assert(int(p.Y) == y, "the baseline is unchanged")
}

// HNoFont: no font, or a font that was taken away.
func HNoFont() {
	c := freetype.NewContext()
	if vsym.Choice("had a font", 2) == 1 {
		c.SetFont(makeFont([]int{64}, nil, rect(0, 0, 64, 64)))
		c.SetFont(nil)
	}
	dst := image.NewRGBA(image.Rect(-2, -2, 3, 3))
	c.SetDst(dst)
	c.SetSrc(image.Black)
	c.SetClip(dst.Bounds())
	c.SetDPI(90)
	c.SetFontSize(float64(vsym.Choice("size", 3)))
	_, err := c.DrawString([]string{"a", "", "ab"}[vsym.Choice("text", 3)], lib.P(vsym.Int("x", -100, 100), 0))
	vsym.Assert(err != nil, "an error without a font")
	for _, b := range dst.Pix {
		vsym.Assert(b == 0, "nothing is drawn")
	}
}

// HBadGlyph: a glyph that cannot be loaded is an error, before and after good
// ones.
func HBadGlyph() {
	t := makeFont([]int{64}, nil, rect(0, 0, 64, 64))
	c := context(t, 1, hinting())
	dst := image.NewRGBA(image.Rect(0, 0, 2, 2))
	c.SetDst(dst)
	c.SetSrc(image.Black)
	c.SetClip(dst.Bounds())
	s := []string{"b", "ab", "ba"}[vsym.Choice("text", 3)]
	_, err := c.DrawString(s, lib.P(vsym.Int("x", -100, 100)*64, 64))
	vsym.Assert(err != nil, "an error")
	p, err := c.DrawString("a", lib.P(0, 64))
	vsym.Assert(err == nil && p.X == 64, "the next string is drawn")
	vsym.Assert(dst.RGBAAt(0, 0).A == 0xff, "the next string is drawn")
}

// picture is an image whose pixels are all different, and some any value.
func picture(r image.Rectangle, v ...byte) *image.RGBA {
	m := image.NewRGBA(r)
	for i := range m.Pix {
		m.Pix[i] = byte(200 - 3*i)
		if i%4 == 3 {
			m.Pix[i] = byte(255 - i/4)
		} else if len(v) > 0 && i < 60 {
			m.Pix[i] = v[i%len(v)]
		}
	}
	return m
}

// clipCase draws a string with a clip rectangle and without.
func clipCase(dr, clip image.Rectangle, text string, at fixed.Point26_6, src image.Image, v ...byte) {
	t := makeFont([]int{130, 90, 64}, nil, rect(-64, -30, 80, 90), rect(0, -64, 64, 75), []lib.XY{{-70, -30, true}, {64, 20, true}, {90, 120, true}, {3, 40, true}})
	c := context(t, 1, font.HintingNone)
	pic := func() *image.RGBA {
		if v == nil {
			return image.NewRGBA(dr)
		}
		return picture(dr, v...)
	}
	before, clipped, free := pic(), pic(), pic()
	c.SetSrc(src)
	c.SetDst(clipped)
	c.SetClip(clip)
	p, err := c.DrawString(text, at)
	vsym.Assert(err == nil, "no error")
	d := context(t, 1, font.HintingNone)
	d.SetSrc(src)
	d.SetDst(free)
	d.SetClip(dr.Union(image.Rect(-20, -20, 30, 30)))
	p2, err2 := d.DrawString(text, at)
	vsym.Assert(err2 == nil, "no error")
	vsym.Assert(p == p2, "the clip does not change the extent")
	for y := dr.Min.Y; y < dr.Max.Y; y++ {
		for x := dr.Min.X; x < dr.Max.X; x++ {
			got, was, all := clipped.RGBAAt(x, y), before.RGBAAt(x, y), free.RGBAAt(x, y)
			if (image.Point{X: x, Y: y}).In(clip) {
				vsym.Assert(got == all, "inside the clip as without")
			} else {
				vsym.Assert(got == was, "unchanged outside the clip")
			}
		}
	}
}

// HClip: any clip rectangle's edge, any colours.
//
//vsym:merge=3
func HClip() {
	dr := image.Rect(-1, -2, 5, 4)
	e := [4]int{-1, -2, 5, 4}
	k := vsym.Choice("edge", 4)
	e[k] = vsym.Choice("clip edge", 7) + []int{-2, -3, -1, -2}[k]
	if vsym.Choice("other edges", 2) == 1 {
		e[(k+1)%4] += 1 - 2*((k+1)/2%2)
		e[(k+2)%4] += 2 * (1 - 2*((k+2)/2%2))
	}
	clip := image.Rectangle{image.Point{e[0], e[1]}, image.Point{e[2], e[3]}}
	text := []string{"ab", "c", "cba"}[vsym.Choice("text", vsym.If(vsym.Thorough(), 3, 2))]
	a, b := vsym.U8("a"), vsym.U8("b")
	var src image.Image = image.NewUniform(color.RGBA{a, 80, b, 200})
	if vsym.Choice("source", 2) == 1 {
		src = picture(image.Rect(0, 0, 5, 5), a, b)
	}
	clipCase(dr, clip, text, lib.P(64, 64), src, vsym.U8("c"), vsym.U8("d"), 7)
}

// HClipPen: any pen position, with a clip in the middle.
//
//vsym:merge=3
func HClipPen() {
	dr := image.Rect(0, 0, 6, 5)
	clip := []image.Rectangle{image.Rect(1, 1, 4, 3), image.Rect(2, 0, 6, 9), image.Rect(-9, 2, 3, 5), image.Rect(3, 3, 3, 4), image.Rect(4, 4, 1, 1)}[vsym.Choice("clip", 5)]
	x := 64*vsym.Choice("x pixel", 4) - 64
	y := 64*vsym.Choice("y pixel", 3) + 64
	if vsym.Choice("axis", 2) == 0 {
		x += vsym.Int("x", 1, 15)
	} else {
		y += vsym.Int("y", 31, 37)
	}
	clipCase(dr, clip, "a", lib.P(x, y), image.White)
}

// HPlace: a glyph is painted at its pen position, also when that is negative.
//
//vsym:merge=3
func HPlace() {
	h := hinting()
	o := [...][]lib.XY{rect(-64, -64, 64, 64), rect(0, -30, 70, 50)}
	t := boxed([]int{128, 0, -64}[vsym.Choice("box", 3)], []int{64, 70}, nil, o[0], o[1])
	c := context(t, 1, h)
	dst := image.NewRGBA(image.Rect(-4, -4, 6, 6))
	c.SetDst(dst)
	c.SetSrc(image.White)
	c.SetClip(dst.Bounds())
	x, y := 64*(vsym.Choice("x pixel", 3)-2), 64*(vsym.Choice("y pixel", 2)-1)
	i := 0
	switch vsym.Choice("axis", 4) {
	case 0:
		x += vsym.Int("x", 1, 63)
	case 1:
		y += vsym.Int("y", 1, 63)
	case 2:
		i = 1
		x += 40
		y += 17
	case 3:
		i = 1
		x += vsym.Int("x", 1, 57)
	}
	_, err := c.DrawString("ab"[i:i+1], lib.P(x, y))
	vsym.Assert(err == nil, "no error")
	g := &truetype.GlyphBuf{}
	if g.Load(t, 64, truetype.Index(1+i), h) != nil {
		vsym.Skip()
	}
	r := raster.NewRasterizer(10, 10)
	var poly []fixed.Point26_6
	for _, q := range g.Points {
		poly = append(poly, fixed.Point26_6{X: q.X + fixed.Int26_6(x+256), Y: fixed.Int26_6(y+256) - q.Y})
	}
	lib.Poly(r, poly...)
	rec := &lib.Rec{}
	r.Rasterize(rec)
	for j := 0; j < 10; j++ {
		for i := 0; i < 10; i++ {
			want := rec.At(i, j) >> 8
			got := dst.RGBAAt(i-4, j-4)
			vsym.Assert(int(got.A) == want && got.R == got.A && got.B == got.A, "the outline's pixels at the pen position")
		}
	}
}

// HString: a string is its glyphs, one after the other, in any colours.
//
//vsym:merge=3
func HString() {
	h := hinting()
	adv := [...]int{64, 77, 96, 105}[vsym.Choice("advance", 4)]
	kn := [...]int{0, -20, 39}[vsym.Choice("kern", 3)]
	t := makeFont([]int{adv, 90, 30}, [][3]int{{1, 2, kn}, {2, 3, -50}}, rect(-20, -64, 64, 64), rect(0, -30, 70, 50), []lib.XY{{-70, -30, true}, {64, 20, true}, {90, 120, true}, {3, 40, true}})
	src := image.NewUniform(color.RGBA{vsym.U8("a"), 80, vsym.U8("b"), 200})
	v := []byte{vsym.U8("c"), 9, vsym.U8("d")}
	b := image.Rect(-2, -3, 6, 3)
	one, all := picture(b, v...), picture(b, v...)
	x, y := -40+16*vsym.Choice("x", 3), 20
	text := [...]string{"ab", "abc", "ca?b"}[vsym.Choice("text", 3)]
	draw := func(m *image.RGBA, s string, p fixed.Point26_6) fixed.Point26_6 {
		c := context(t, 1, h)
		c.SetDst(m)
		c.SetSrc(src)
		c.SetClip(m.Bounds())
		p, err := c.DrawString(s, p)
		vsym.Assert(err == nil, "no error")
		return p
	}
	draw(all, text, lib.P(x, y))
	p := lib.P(x, y)
	prev := rune(0)
	for _, r := range text {
		k := 0
		if prev == 'a' && r == 'b' {
			k = kn
		} else if prev == 'b' && r == 'c' {
			k = -50
		}
		if h != font.HintingNone {
			k = (k + 32) &^ 63
		}
		p.X += fixed.Int26_6(k)
		p = draw(one, string(r), p)
		prev = r
	}
	for i := range one.Pix {
		vsym.Assert(one.Pix[i] == all.Pix[i], "a string is its glyphs, one after the other")
	}
}
