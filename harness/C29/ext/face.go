package c29

import (
	"github.com/golang/freetype/truetype"
	"github.com/golang/freetype/vsym"
	"github.com/golang/freetype/zzverif/lib"
	"golang.org/x/image/font"
	"golang.org/x/image/math/fixed"
)

// flat is a font whose bounding box is empty, so that its glyph cache is small.
func flat(nGlyph, upem int) *lib.Font {
	f := lib.NewFont(nGlyph, nGlyph, upem)
	f.Set("head", lib.Head(upem, 0, 0, 0, 0, 1))
	return f
}

var dpis = [...]int{72, 96, 300, 1, 144, 75, 600, 110}

// round26 is num/den in 1/64ths of a pixel, rounded to nearest, halves up.
func round26(num, den int) int { return (2*64*num + den) / (2 * den) }

// HScale: any size in quarter points, several resolutions; the height is an em.
//
func HScale() {
	t := lib.MustParse(flat(2, 64))
	s := vsym.Int("size*4", 1, vsym.If(vsym.Thorough(), 100000, 4000))
	d := dpis[vsym.Choice("dpi", len(dpis))]
	o := &truetype.Options{Size: float64(s) / 4, DPI: float64(d), GlyphCacheEntries: 1}
	m := truetype.NewFace(t, o).Metrics()
	vsym.Assert(int(m.Height) == round26(s*d, 4*72), "size*DPI/72 pixels per em, rounded")
}

// HDPI: any whole resolution, several sizes.
func HDPI() {
	t := lib.MustParse(flat(2, 64))
	d := vsym.Int("dpi", 1, vsym.If(vsym.Thorough(), 5000, 1000))
	s := []int{12, 9, 7, 100, 1}[vsym.Choice("size", 5)]
	o := &truetype.Options{Size: float64(s), DPI: float64(d), GlyphCacheEntries: 1}
	m := truetype.NewFace(t, o).Metrics()
	vsym.Assert(int(m.Height) == round26(s*d, 72), "size*DPI/72 pixels per em, rounded")
}

// HPartDPI: resolutions that are not whole.
func HPartDPI() {
	t := lib.MustParse(flat(2, 64))
	d := vsym.Int("dpi*4", 1, vsym.If(vsym.Thorough(), 5000, 1000))
	s := []int{12, 7, 100}[vsym.Choice("size", 3)]
	o := &truetype.Options{Size: float64(s), DPI: float64(d) / 4, GlyphCacheEntries: 1}
	m := truetype.NewFace(t, o).Metrics()
	vsym.Assert(int(m.Height) == round26(s*d, 4*72), "size*DPI/72 pixels per em, rounded")
}

// HDefaults: 12 points, 72 DPI, no hinting.
func HDefaults() {
	t := lib.MustParse(flat(2, 64))
	o := &truetype.Options{}
	size, dpi := 12, 72
	if k := vsym.Choice("size", 3); k > 0 {
		o.Size = []float64{0, 20, -3}[k]
		if k == 1 {
			size = 20
		}
	}
	if k := vsym.Choice("dpi", 3); k > 0 {
		o.DPI = []float64{0, 90, -72}[k]
		if k == 1 {
			dpi = 90
		}
	}
	if vsym.Choice("options", 2) == 1 {
		o, size, dpi = nil, 12, 72
	}
	m := truetype.NewFace(t, o).Metrics()
	vsym.Assert(int(m.Height) == round26(size*dpi, 72), "unset options have their defaults")
}

// up asserts that got is a/b rounded up.
func up(got, a, b int, what string) {
	vsym.Assert(got*b-a >= 0 && got*b-a < b, what)
}

// HMetrics: any ascent and descent, several scales.
func HMetrics() {
	upem := []int{64, 1000, 2048}[vsym.Choice("upem", 3)]
	a, d := vsym.Int("ascent", -32768, 32767), vsym.Int("descent", -32768, 32767)
	f := flat(2, upem)
	f.Set("hhea", lib.Hhea(a, d, 2))
	t := lib.MustParse(f)
	s := []int{12, 1, 37, 200}[vsym.Choice("size", 4)]
	m := truetype.NewFace(t, &truetype.Options{Size: float64(s), GlyphCacheEntries: 1}).Metrics()
	vsym.Assert(int(m.Height) == 64*s, "the height is an em")
	up(int(m.Ascent), a*64*s, upem, "the scaled ascent, rounded up")
	up(int(m.Descent), -d*64*s, upem, "the scaled descent, rounded up")
}

// HMetricsScale: any size, several ascents and descents.
func HMetricsScale() {
	upem := []int{64, 1000, 2048, 1024}[vsym.Choice("upem", 4)]
	k := vsym.Choice("values", 4)
	a, d := []int{1, 1901, 750, 32767}[k], []int{-1, -483, 0, -32768}[k]
	f := flat(2, upem)
	f.Set("hhea", lib.Hhea(a, d, 2))
	t := lib.MustParse(f)
	s := vsym.Int("size*2", 1, 1000)
	m := truetype.NewFace(t, &truetype.Options{Size: float64(s) / 2, GlyphCacheEntries: 1}).Metrics()
	up(int(m.Ascent), a*32*s, upem, "the scaled ascent, rounded up")
	up(int(m.Descent), -d*32*s, upem, "the scaled descent, rounded up")
}

var hintings = [...]font.Hinting{font.HintingNone, font.HintingVertical, font.HintingFull}

// shift moves point 0 up by 40/64 pixels.
var shift = []byte{0x00, 0xb1, 0, 40, 0x38}

// HGlyph: advance and bounds are those of loading the glyph, with the face's
// hinting (vertical hinting means full hinting).
//
//vsym:merge=3 stores=1
func HGlyph() {
	f := flat(4, 64)
	c := []int{-200, -50, 300, 200}
	k := vsym.Choice("coordinate", 4)
	c[k] = vsym.Int("c", -1000, 1000)
	f.Metric(1, vsym.Int("advance", 0, 65535), 3)
	f.Metric(2, 90, 0)
	f.Glyphs(true, nil,
		lib.Outline(3, 0, shift, []lib.XY{{c[0], c[1], true}, {c[2], c[3], true}, {10, 20, false}}),
		nil)
	t := lib.MustParse(f)
	h := hintings[vsym.Choice("hinting", 3)]
	face := truetype.NewFace(t, &truetype.Options{Size: 1, Hinting: h, GlyphCacheEntries: 1})
	i := vsym.Choice("glyph", 4)
	r := rune([]int{1, 'a', 'b', 'c'}[i])
	g := &truetype.GlyphBuf{}
	full := font.HintingNone
	if h != font.HintingNone {
		full = font.HintingFull
	}
	err := g.Load(t, 64, truetype.Index(i), full)
	adv, ok := face.GlyphAdvance(r)
	vsym.Assert(ok == (err == nil), "an advance if the glyph loads")
	b, adv2, ok2 := face.GlyphBounds(r)
	vsym.Assert(ok2 == (err == nil), "bounds if the glyph loads")
	if err != nil {
		return
	}
	vsym.Assert(adv == g.AdvanceWidth && adv2 == adv, "the glyph's advance width")
	vsym.Assert(b.Min.X == g.Bounds.Min.X && b.Max.X == g.Bounds.Max.X, "the glyph's horizontal bounds")
	vsym.Assert(b.Min.Y == -g.Bounds.Max.Y && b.Max.Y == -g.Bounds.Min.Y, "the glyph's vertical bounds, y down")
	if i == 1 {
		y := 0
		if full == font.HintingFull {
			y = 40
		}
		top, bottom := lib.Max(lib.Max(c[1]+y, c[3]), 20), lib.Min(lib.Min(c[1]+y, c[3]), 20)
		if full == font.HintingFull { // the bounds are whole pixels
			top, bottom = (top+63)&^63, bottom&^63
		}
		vsym.Assert(int(b.Min.Y) == -top, "the top, y down")
		vsym.Assert(int(b.Max.Y) == -bottom, "the bottom, y down")
	}
}

// HAdvanceScale: any size; the advance is scaled to it.
//
//vsym:merge=3
func HAdvanceScale() {
	f := flat(3, 1024)
	f.Glyphs(true, nil, nil)
	a := []int{500, 1, 1024, 65535}[vsym.Choice("advance", 4)]
	f.Metric(1, a, 0)
	t := lib.MustParse(f)
	s := vsym.Int("size", 1, 500)
	face := truetype.NewFace(t, &truetype.Options{Size: float64(s), GlyphCacheEntries: 1})
	adv, ok := face.GlyphAdvance('a')
	vsym.Assert(ok, "an advance")
	lib.ScaleRef(int(adv), a*64*s, 1024, "advance")
}

// kern makes a kern table.
func kern(ps ...[3]int) []byte {
	b := make([]byte, 18+6*len(ps))
	lib.Put16(b, 2, 1)
	lib.Put16(b, 6, 14+6*len(ps))
	lib.Put16(b, 8, 1)
	lib.Put16(b, 10, len(ps))
	for i, p := range ps {
		lib.Put16(b, 18+6*i, p[0])
		lib.Put16(b, 20+6*i, p[1])
		lib.Put16(b, 22+6*i, p[2])
	}
	return b
}

// HKern: any kerning values; whole pixels when hinting.
//
//vsym:merge=3
func HKern() {
	f := flat(5, 64)
	v := []int{vsym.Int("k12", -32768, 32767), vsym.Int("k13", -1000, 1000), vsym.Int("k21", -1000, 1000)}
	f.Set("kern", kern([3]int{1, 2, v[0]}, [3]int{1, 3, v[1]}, [3]int{2, 1, v[2]}))
	t := lib.MustParse(f)
	h := hintings[vsym.Choice("hinting", 3)]
	k := vsym.Choice("size", 2)
	face := truetype.NewFace(t, &truetype.Options{Size: []float64{1, 11}[k], Hinting: h, GlyphCacheEntries: 1})
	scale := []int{1, 11}[k]
	p := vsym.Choice("pair", 5)
	rs := [][2]rune{{'a', 'b'}, {'a', 'c'}, {'b', 'a'}, {'b', 'b'}, {'z' + 100, 'a'}}[p]
	got := int(face.Kern(rs[0], rs[1]))
	want := 0
	if p < 3 {
		want = v[p] * scale
	}
	if h == font.HintingNone {
		vsym.Assert(got == want, "the font's kerning at the face's scale")
	} else {
		vsym.Assert(got&63 == 0, "whole pixels")
		vsym.Assert(got-want <= 32 && want-got <= 32, "the font's kerning, rounded")
	}
	vsym.Assert(int(face.Kern(rs[0], rs[1])) == got, "again")
}

// many is a font with glyphs for runes that are 256 apart.
func many() *truetype.Font {
	f := flat(16, 64)
	var segs []lib.Seg
	for i := 0; i < 3; i++ {
		c := 'a' + 256*i
		segs = append(segs, lib.Seg{c, c + 3, 1 + 4*i - c, 0})
	}
	segs = append(segs, lib.Seg{0xffff, 0xffff, 1, 0})
	f.Set("cmap", lib.Cmap(3, 1, lib.Cmap4(segs, nil)))
	var gs [][]byte
	for i := 0; i < 16; i++ {
		f.Metric(i, 100+10*i, 0)
		gs = append(gs, lib.Outline(0, 0, nil, []lib.XY{{i, 0, true}, {64, 2 * i, true}, {0, 100, true}}))
	}
	f.Glyphs(true, gs...)
	f.Set("kern", kern([3]int{1, 2, 5}, [3]int{1, 5, 13}, [3]int{1, 6, 7}, [3]int{5, 2, 9}, [3]int{6, 2, 17}, [3]int{9, 1, 11}))
	return lib.MustParse(f)
}

// anyRune is a rune with a glyph, or one near it without.
func anyRune(name string, n int) rune {
	k := []int{0, 256, 512, 0x10000}[vsym.Choice(name+" page", 4)]
	return rune('a' + k + vsym.Int(name, -1, n))
}

// HHistory: earlier queries, of runes that share index cache entries or not,
// do not matter.
//
//vsym:merge=3 stores=1
func HHistory() {
	t := many()
	face := truetype.NewFace(t, &truetype.Options{Size: 1, GlyphCacheEntries: 1})
	n := vsym.If(vsym.Thorough(), 3, 2)
	for i := 0; i < n; i++ {
		r := anyRune("before", 4)
		if vsym.Choice("method", 2) == 0 {
			face.GlyphAdvance(r)
		} else {
			face.Kern('a', r)
		}
	}
	r := anyRune("rune", 4)
	i := t.Index(r)
	adv, ok := face.GlyphAdvance(r)
	vsym.Assert(ok, "an advance")
	vsym.Assert(adv == t.HMetric(64, i).AdvanceWidth, "the advance of the rune's glyph")
	vsym.Assert(face.Kern('a', r) == t.Kern(64, 1, i), "the kerning of the runes' glyphs")
	vsym.Assert(face.Kern(r, 'b') == t.Kern(64, i, 2), "the kerning of the runes' glyphs")
}

// HInterleaved: other methods and sizes of faces of one font in between.
//
//vsym:merge=3 stores=1
func HInterleaved() {
	t := many()
	opt := func(name string) *truetype.Options {
		k := vsym.Choice(name, 3)
		return &truetype.Options{Size: []float64{1, 3, 10}[k], GlyphCacheEntries: 1, Hinting: hintings[k]}
	}
	oa, ob := opt("first face"), opt("second face")
	fa, fb := truetype.NewFace(t, oa), truetype.NewFace(t, ob)
	fresh := truetype.NewFace(t, oa)
	r1, r2 := rune('b'), 'c'+rune(256*vsym.Choice("page", 2))
	switch vsym.Choice("between", 4) {
	case 0:
		fa.Glyph(fixed.Point26_6{X: 10, Y: 20}, r2)
	case 1:
		fb.GlyphBounds(r2)
	case 2:
		fb.Kern(r1, r2)
		fa.GlyphBounds(r2)
	case 3:
		fa.GlyphAdvance(r2)
		fa.Close()
	}
	check := func(r rune) {
		b, adv, ok := fa.GlyphBounds(r)
		b2, adv2, ok2 := fresh.GlyphBounds(r)
		vsym.Assert(ok && ok2, "bounds")
		vsym.Assert(b == b2 && adv == adv2, "the same bounds and advance")
		adv3, ok3 := fa.GlyphAdvance(r)
		vsym.Assert(ok3 && adv3 == adv, "the same advance")
	}
	check(r1)
	check(r2)
	vsym.Assert(fa.Metrics() == fresh.Metrics(), "the same metrics")
	vsym.Assert(fa.Kern('a', 'b') == fresh.Kern('a', 'b'), "the same kerning")
}
