package c32

import (
	"image"
	"image/color"

	"github.com/golang/freetype"
	"github.com/golang/freetype/truetype"
	"github.com/golang/freetype/vsym"
	"github.com/golang/freetype/zzverif/lib"
	"golang.org/x/image/font"
	"golang.org/x/image/math/fixed"
)

func rect(x0, y0, x1, y1 int) []lib.XY {
	return []lib.XY{{x0, y0, true}, {x1, y0, true}, {x1, y1, true}, {x0, y1, true}}
}

// up moves points 0 and 1 by 30/64 pixel.
var up = []byte{0x00, 0x40, 2, 0, 1, 0xb0, 2, 0x17, 0xb0, 30, 0x38}

// makeFont has a few small glyphs, some of whose numbers are 256 apart, and
// one that cannot be loaded ('e').
func makeFont(k, c int) *truetype.Font {
	f := lib.NewFont(600, 600, 64)
	f.Set("head", lib.Head(64, -32, -64, 128, 96, 1))
	f.Set("cmap", lib.Cmap(3, 1, lib.Cmap4([]lib.Seg{
		{'a', 'a', 1 - 'a', 0},
		{'b', 'b', 200 - 'b', 0},
		{'c', 'c', 257 - 'c', 0},
		{'d', 'd', 514 - 'd', 0},
		{'e', 'e', 3 - 'e', 0},
		{'f', 'f', 4 - 'f', 0},
		{'g', 'g', 260 - 'g', 0},
		{0xffff, 0xffff, 1, 0}}, nil)))
	gs := make([][]byte, 600)
	gs[1] = lib.Outline(-20+k, 0, up, rect(-20+k, -30, 64+c, 64))
	gs[200] = lib.Outline(0, 0, nil, rect(0, 0, 70+k, 40))
	gs[257] = lib.Outline(10, 0, up, rect(10, -64, 100, 90-k))
	gs[514] = lib.Outline(0, 0, up, []lib.XY{{0, 0, true}, {100, 20 + k, true}, {30, 90, true}})
	gs[3] = []byte{0xff, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}
	// Pen positions are whole quarters of a pixel, so that no two share a mask.
	f.Metric(1, 80+k, -20+k)
	f.Metric(200, 96, 0)
	f.Metric(257, 80-k, 10)
	f.Metric(514, 0, 0)
	f.Metric(4, 48, 0)
	f.Metric(260, 32+k, 0)
	f.Glyphs(true, gs...)
	if k == 0 {
		b := make([]byte, 24)
		lib.Put16(b, 2, 1)
		lib.Put16(b, 6, 20)
		lib.Put16(b, 8, 1)
		lib.Put16(b, 10, 1)
		lib.Put16(b, 18, 1)
		lib.Put16(b, 20, 200)
		lib.Put16(b, 22, 16)
		f.Set("kern", b)
	}
	return lib.MustParse(f)
}

type state struct {
	font  *truetype.Font
	size  float64
	dpi   float64
	hint  font.Hinting
	src   image.Image
	dst   *image.RGBA
	clip  image.Rectangle
	fonts [3]*truetype.Font
}

func (s *state) apply(c *freetype.Context) {
	c.SetFont(s.font)
	c.SetFontSize(s.size)
	c.SetDPI(s.dpi)
	c.SetHinting(s.hint)
	c.SetSrc(s.src)
	c.SetDst(s.dst)
	c.SetClip(s.clip)
}

const nChange = 12

// change changes one setting, or two.
func (s *state) change(c *freetype.Context, k int) {
	switch k {
	case 0:
		s.font = s.fonts[1]
		c.SetFont(s.font)
	case 1:
		s.size = 2
		c.SetFontSize(2)
	case 2:
		s.dpi = 144
		c.SetDPI(144)
	case 3:
		s.hint = font.HintingFull
		c.SetHinting(s.hint)
	case 4:
		s.src = image.NewUniform(color.RGBA{1, 2, 3, 100})
		c.SetSrc(s.src)
	case 5:
		s.clip = image.Rect(0, -1, 2, 4)
		c.SetClip(s.clip)
	case 6:
		// no change
		s.apply(c)
	case 7: // away and back
		c.SetFont(s.fonts[2])
		c.SetFont(s.font)
	case 8:
		c.SetFontSize(3)
		c.SetFontSize(s.size)
	case 9:
		c.SetFont(nil)
		s.font = s.fonts[2]
		c.SetFont(s.font)
	case 10:
		s.hint = font.HintingNone
		c.SetHinting(s.hint)
	case 11: // two changes that keep the scale in pixels
		s.size, s.dpi = s.size/2, s.dpi*2
		c.SetDPI(s.dpi)
		c.SetFontSize(s.size)
	}
}

func start(c int) *state {
	s := &state{size: 1, dpi: 72, hint: font.HintingNone, src: image.White, clip: window, dst: image.NewRGBA(window)}
	s.fonts = [3]*truetype.Font{makeFont(0, c), makeFont(16, c), makeFont(32, c)}
	s.font = s.fonts[0]
	return s
}

var window = image.Rect(-3, -4, 7, 4)

func same(s *state, c *freetype.Context, text string, p fixed.Point26_6) {
	s.dst = image.NewRGBA(window)
	c.SetDst(s.dst)
	got, err := c.DrawString(text, p)
	m := s.dst
	s.dst = image.NewRGBA(window)
	d := freetype.NewContext()
	s.apply(d)
	want, err2 := d.DrawString(text, p)
	vsym.Assert((err == nil) == (err2 == nil), "the same error")
	if err == nil && err2 == nil {
		vsym.Assert(got == want, "the same end point")
	}
	for i := range m.Pix {
		vsym.Assert(m.Pix[i] == s.dst.Pix[i], "the same pixels")
	}
}

var texts = [...]string{"a", "c", "da", "ab", "ea", "d?"}

// HChange: a change of settings between two strings.
//
//vsym:merge=3
func HChange() {
	s := start(0)
	c := freetype.NewContext()
	s.apply(c)
	n := vsym.If(vsym.Thorough(), 6, 4)
	x, y := vsym.Choice("x", 2)*24, 7
	c.SetDst(image.NewRGBA(window))
	c.DrawString(texts[vsym.Choice("before", n)], lib.P(x, y))
	s.change(c, vsym.Choice("change", nChange))
	same(s, c, texts[vsym.Choice("text", n)], lib.P(x, y))
}

// HTwoChanges: two changes, with a string drawn in between or not.
//
//vsym:merge=3
func HTwoChanges() {
	s := start(0)
	c := freetype.NewContext()
	s.apply(c)
	c.SetDst(image.NewRGBA(window))
	c.DrawString("ac", lib.P(0, 0))
	s.change(c, vsym.Choice("first", nChange))
	if vsym.Choice("draw", 2) == 1 {
		c.DrawString("cb", lib.P(0, 0))
	}
	s.change(c, vsym.Choice("second", nChange))
	same(s, c, []string{"ab", "c"}[vsym.Choice("text", vsym.If(vsym.Thorough(), 2, 1))], lib.P(0, 0))
}

// HOrder: settings made in any order have the same effect.
//
//vsym:merge=3
func HOrder() {
	s := start(0)
	s.font, s.size, s.dpi, s.hint = s.fonts[1], 3, 48, []font.Hinting{font.HintingNone, font.HintingFull}[vsym.Choice("hinting", 2)]
	c := freetype.NewContext()
	set := []func(){func() { c.SetFont(s.font) }, func() { c.SetFontSize(s.size) }, func() { c.SetDPI(s.dpi) }, func() { c.SetHinting(s.hint) }, func() { c.SetClip(s.clip) }, func() { c.SetSrc(s.src) }}
	r := vsym.Choice("rotation", len(set))
	rev := vsym.Choice("reverse", 2)
	for i := range set {
		k := (i + r) % len(set)
		if rev == 1 {
			k = len(set) - 1 - k
		}
		set[k]()
	}
	if vsym.Choice("first", 2) == 1 { // before the rest is set
		c = freetype.NewContext()
		c.SetFont(s.fonts[0])
		c.SetDst(image.NewRGBA(window))
		c.SetSrc(s.src)
		c.SetClip(s.clip)
		c.DrawString("a", lib.P(0, 0))
		for i := range set {
			set[(i+r)%len(set)]()
		}
	}
	same(s, c, "ab", lib.P(0, 0))
}

// HCache: glyphs drawn before at any positions: in other cache entries, in
// the same for another glyph, or the same glyph at the same sub-pixel position.
//
//vsym:merge=3
func HCache() {
	s := start(vsym.Int("c", 0, 15))
	s.hint = []font.Hinting{font.HintingNone, font.HintingFull}[vsym.Choice("hinting", 2)]
	c := freetype.NewContext()
	s.apply(c)
	c.SetDst(image.NewRGBA(window))
	q := vsym.Choice("quarter", 4)
	d := vsym.Choice("distance", 4) // in quarters
	fx := vsym.Choice("fraction", 2) * 15
	px, py := vsym.Int("x pixel", -3, 3), vsym.Int("y pixel", -3, 3)
	g := "acdb"[vsym.Choice("before", vsym.If(vsym.Thorough(), 4, 3))]
	h := "adcb"[vsym.Choice("text", vsym.If(vsym.Thorough(), 4, 2))]
	fy := 5
	c.DrawString(string(rune(g)), lib.P(64*px+16*((q+d)&3)+fx, 64*py+fy))
	if g != h { // otherwise they may share a mask
		fx, fy = 0, 11
	} else if d != 0 {
		fx = 7
	}
	same(s, c, string(rune(h)), lib.P(16*q+fx, fy))
}

// HManySteps: a long sequence; every string is drawn as by a new context.
//
//vsym:merge=3 steps=4000000
func HManySteps() {
	s := start(0)
	c := freetype.NewContext()
	s.apply(c)
	seq := [...][]int{
		{0, 3, 10, 1, 2, 11, 5},
		{3, 9, 8, 11, 7, 10, 4},
		{1, 3, 0, 6, 10, 9, 2},
		{11, 2, 3, 7, 1, 0, 10},
	}[vsym.Choice("sequence", 4)]
	text := []string{"ab", "ca", "dc"}[vsym.Choice("text", 3)]
	dx, dy := vsym.Int("x pixel", -2, 2), vsym.Int("y pixel", -2, 2)
	for _, k := range seq {
		s.change(c, k)
		s.dst = image.NewRGBA(window)
		c.SetDst(s.dst)
		c.DrawString("acb", lib.P(64*dx, 64*dy))
		same(s, c, text, lib.P(0, 0))
	}
}

// HPoints: PointToFixed depends on the resolution only.
func HPoints() {
	c := freetype.NewContext()
	pt := func(x float64) int { return int(c.PointToFixed(x)) }
	vsym.Assert(pt(12) == 768, "72 DPI at first: a point is a pixel")
	c.SetFontSize(float64(1 + vsym.Choice("size", 3)))
	d := []float64{72, 144, 36, 288}[vsym.Choice("dpi", 4)]
	c.SetDPI(d)
	x := []int{0, 1, 7, 12, -5, 1000}[vsym.Choice("points", 6)]
	vsym.Assert(pt(float64(x)) == x*64*int(d)/72, "points at the resolution")
	c.SetDPI(d + 0.5)
	vsym.Assert(pt(float64(x)) == x*(2*int(d)+1)*4/9, "points at a resolution that is not whole")
	a, b := vsym.Int("a", -1<<25, 1<<25-1), vsym.Int("b", -1<<25, 1<<25-1)
	p := freetype.Pt(a, b)
	vsym.Assert(int(p.X) == 64*a && int(p.Y) == 64*b, "pixels to fixed point")
}

// HEmpty: glyphs without an outline, whose numbers are 256 apart.
//
//vsym:merge=3
func HEmpty() {
	s := start(0)
	c := freetype.NewContext()
	s.apply(c)
	c.SetDst(image.NewRGBA(window))
	ts := []string{"f", "g", "?"}
	x := vsym.Int("x", -64, 64)
	c.DrawString(ts[vsym.Choice("first", 3)], lib.P(x, 0))
	if vsym.Choice("second", 2) == 1 {
		c.DrawString("g", lib.P(x, 0))
	}
	same(s, c, ts[vsym.Choice("last", 3)]+"a", lib.P(x&^15, 0))
}
