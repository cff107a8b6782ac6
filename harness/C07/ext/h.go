package c07

import (
	"image"
	"image/color"
	"image/draw"

	"github.com/golang/freetype/raster"
	"github.com/golang/freetype/vsym"
	"github.com/golang/freetype/zzverif/lib"
)

const m16 = 65535

type box struct{ x0, y0, w, h, stride, off int }

// Images at several places, with room around the rows.
var boxes = [...]box{
	{0, 0, 2, 2, 2, 0},
	{-1, 2, 2, 1, 4, 3},
	{3, -2, 1, 2, 2, 1},
	{-3, -3, 2, 2, 3, 2},
	{0, 0, 0, 0, 0, 0},
}

func pickBox() box {
	n := 3
	if vsym.Thorough() {
		n = len(boxes)
	}
	return boxes[vsym.Choice("box", n)]
}

// spans are some spans sorted by Y, around and in the image.
func spans(b box, n int) []raster.Span {
	ss := make([]raster.Span, n)
	y := b.y0 - 1
	for i := range ss {
		y += vsym.Choice("dy", 2) * (1 + vsym.Choice("ddy", 2))
		x0 := b.x0 - 1 + vsym.Choice("x0", 4)
		ss[i] = raster.Span{Y: y, X0: x0, X1: x0 + 1 + vsym.Choice("x1", 4), Alpha: uint32(vsym.U16("alpha"))}
	}
	return ss
}

func cover(ss []raster.Span, x, y int) (int, bool) {
	a, hit := 0, false
	for i := range ss {
		if ss[i].Y == y && ss[i].X0 <= x && x < ss[i].X1 {
			a, hit = int(ss[i].Alpha), true
		}
	}
	return a, hit
}

func disjoint(ss []raster.Span) bool {
	for i := 1; i < len(ss); i++ {
		if ss[i].Y == ss[i-1].Y && ss[i].X0 < ss[i-1].X1 {
			return false
		}
	}
	return true
}

// HAlpha: the alpha painters change the covered pixels of the image and nothing else.
func HAlpha() {
	b := pickBox()
	size := b.off + b.stride*b.h + 2
	buf := vsym.Bytes("pix", size)
	old := append([]byte(nil), buf...)
	img := &image.Alpha{Pix: buf[b.off:], Stride: b.stride, Rect: image.Rect(b.x0, b.y0, b.x0+b.w, b.y0+b.h)}
	n := 1
	if vsym.Thorough() {
		n = 2
	}
	ss := spans(b, n)
	vsym.Assume(disjoint(ss))
	given := append([]raster.Span(nil), ss...)
	over := vsym.Choice("over", 2) == 1
	done := vsym.Bool("done")
	if over {
		raster.NewAlphaOverPainter(img).Paint(ss, done)
	} else {
		raster.NewAlphaSrcPainter(img).Paint(ss, done)
	}
	seen := make([]bool, size)
	for y := b.y0; y < b.y0+b.h; y++ {
		for x := b.x0; x < b.x0+b.w; x++ {
			i := b.off + (y-b.y0)*b.stride + x - b.x0
			seen[i] = true
			o, v := int(old[i]), int(buf[i])
			a, hit := cover(given, x, y)
			switch {
			case !hit:
				vsym.Assert(v == o, "pixel outside every span is left alone")
			case over:
				vsym.Assert(v >= o, "Over never lowers alpha")
				vsym.Assert(a < 0xff00 || v == 255, "Over of an opaque span")
				vsym.Assert(a > 0xff || v == o, "Over of a transparent span")
			default:
				vsym.Assert(v == a>>8, "Src stores the span's alpha")
			}
		}
	}
	for i := range buf {
		if !seen[i] {
			vsym.Assert(buf[i] == old[i], "no byte outside the image is touched")
		}
	}
}

// HAlphaOver: the value of the over operator.
func HAlphaOver() {
	img := image.NewAlpha(image.Rect(0, 0, 1, 1))
	v := vsym.Int("v", 0, 255)
	a := vsym.Int("alpha", 0, 65535)
	img.Pix[0] = uint8(v)
	raster.NewAlphaOverPainter(img).Paint([]raster.Span{{Y: 0, X0: 0, X1: 1, Alpha: uint32(a)}}, true)
	// exact: v + (255-v)*a/65535
	d := int(img.Pix[0])*m16 - v*m16 - (255-v)*a
	vsym.Assert(d <= m16 && d >= -2*m16, "alpha over")
	// against the span's 8-bit alpha it is exact, rounded down
	a8 := a >> 8
	e := v*255 + (255-v)*a8 - 255*int(img.Pix[0])
	vsym.Assert(e >= -255 && e <= 255, "alpha over at 8 bits")
}

type rgba [4]int

var colours = [...]rgba{
	{m16, m16, m16, m16}, {0, 0, 0, m16}, {m16, 0x8000, 0x1234, m16}, {0, 0, 0, 0},
	{0x8080, 0x4040, 0x0101, 0x8080}, {1, 0, 0x7fff, 0x7fff}, {0x0100, 0xff, 0, 0x0101},
}

func col(c rgba) color.Color {
	return color.RGBA64{uint16(c[0]), uint16(c[1]), uint16(c[2]), uint16(c[3])}
}

// HRGBA: the RGBA painter changes the covered pixels of the image and nothing else.
func HRGBA() {
	b := pickBox()
	size := 4*(b.off+b.stride*b.h) + 5
	buf := make([]byte, size)
	for i := range buf {
		buf[i] = byte(37*i + 11)
	}
	fill := vsym.U8("fill")
	buf[4*b.off], buf[size-1] = fill, fill
	old := append([]byte(nil), buf...)
	img := &image.RGBA{Pix: buf[4*b.off:], Stride: 4 * b.stride, Rect: image.Rect(b.x0, b.y0, b.x0+b.w, b.y0+b.h)}
	ss := spans(b, 1)
	if vsym.Thorough() {
		ss = spans(b, 2)
	}
	vsym.Assume(disjoint(ss))
	for i := range ss { // HOver is about the values
		ss[i].Alpha = [...]uint32{0x8123, 0xffff, 0}[(i+vsym.Choice("alpha", 2))%3]
	}
	given := append([]raster.Span(nil), ss...)
	p := raster.NewRGBAPainter(img)
	p.Op = [...]draw.Op{draw.Over, draw.Src}[vsym.Choice("op", 2)]
	c := colours[4]
	p.SetColor(col(c))
	p.Paint(ss, vsym.Bool("done"))
	seen := make([]bool, size)
	for y := b.y0; y < b.y0+b.h; y++ {
		for x := b.x0; x < b.x0+b.w; x++ {
			i := 4 * (b.off + (y-b.y0)*b.stride + x - b.x0)
			a, hit := cover(given, x, y)
			for k := 0; k < 4; k++ {
				seen[i+k] = true
				o, v := int(old[i+k]), int(buf[i+k])
				if hit {
					check(p.Op == draw.Over, o, v, a, c[k], c[3])
				} else {
					vsym.Assert(v == o, "pixel outside every span is left alone")
				}
			}
		}
	}
	for i := range buf {
		if !seen[i] {
			vsym.Assert(buf[i] == old[i], "no byte outside the image is touched")
		}
	}
}

// check compares a composed channel value v to old value o under alpha a and
// colour component c with colour alpha ca.
func check(over bool, o, v, a, c, ca int) {
	got := v * 257 * m16
	if !over {
		e := c*a - v*257*m16 // 8-bit v stands for v*257
		vsym.Assert(e < 257*m16+m16 && e > -256*m16, "Src stores the colour times the alpha")
		return
	}
	// exact 16-bit: o*257*(1 - ca*a/m/m) + c*a/m
	exact := o*257*m16 - o*257*(ca*a)/m16 + c*a
	e := exact - got
	vsym.Assert(e < 257*m16+2*m16 && e > -257*m16, "Over composes to within one unit")
	vsym.Assert(a != 0 || v == o, "Over of a transparent span")
	vsym.Assert(ca*a != m16*m16 || v == c>>8, "Over of an opaque span")
}

// HOver: the value of one channel, of any old value, alpha and colour.
func HOver() {
	img := image.NewRGBA(image.Rect(0, 0, 1, 1))
	n, nc := 4, 5
	if vsym.Thorough() {
		n, nc = 6, len(colours)
	}
	alphas := [...]int{m16, 0, 0x8000, 1, 0xff00, 0x1234}
	free := vsym.Choice("free", 3)
	c, a := colours[0], m16
	if free != 2 {
		c = colours[vsym.Choice("colour", nc)]
	}
	if free != 1 {
		a = alphas[vsym.Choice("alpha", n)]
	}
	var o [4]int
	for k := range o {
		o[k] = int([...]byte{0, 255, 128, 77}[k])
	}
	switch free {
	case 0:
		for k := range o {
			o[k] = vsym.Int("o", 0, 255)
		}
	case 1:
		a = vsym.Int("a", 0, m16)
	case 2:
		c[3] = vsym.Int("ca", 0, m16)
		for k := 0; k < 3; k++ {
			c[k] = vsym.Int("c", 0, m16)
			vsym.Assume(c[k] <= c[3])
		}
	}
	for k := range o {
		img.Pix[k] = uint8(o[k])
	}
	p := raster.NewRGBAPainter(img)
	over := vsym.Choice("op", 2) == 0
	if !over {
		p.Op = draw.Src
	}
	p.SetColor(col(c))
	p.Paint([]raster.Span{{Y: 0, X0: 0, X1: 1, Alpha: uint32(a)}}, true)
	for k := range o {
		check(over, o[k], int(img.Pix[k]), a, c[k], c[3])
	}
}

// HModels: colours of other colour models are converted as they convert themselves.
func HModels() {
	img := image.NewRGBA(image.Rect(0, 0, 1, 1))
	a, b, q, d := vsym.U8("a"), vsym.U8("b"), vsym.U8("c"), vsym.U8("d")
	w := vsym.U16("w")
	var c color.Color
	var want rgba
	m := func(x, y uint8) int { return int(x) * int(y) / 255 }
	switch vsym.Choice("model", 6) {
	case 0:
		d = []uint8{255, 128, 1}[vsym.Choice("alpha", 3)]
		c, want = color.NRGBA{a, b, q, d}, rgba{m(a, d), m(b, d), m(q, d), int(d)}
	case 1:
		c, want = color.Gray{a}, rgba{int(a), int(a), int(a), 255}
	case 2:
		c, want = color.Alpha{a}, rgba{int(a), int(a), int(a), int(a)}
	case 3:
		c, want = color.Gray16{w}, rgba{int(w >> 8), int(w >> 8), int(w >> 8), 255}
	case 4:
		vsym.Assume(a <= d && b <= d && q <= d)
		c, want = color.RGBA{a, b, q, d}, rgba{int(a), int(b), int(q), int(d)}
	case 5:
		c, want = color.Alpha16{w}, rgba{int(w >> 8), int(w >> 8), int(w >> 8), int(w >> 8)}
	}
	p := raster.NewRGBAPainter(img)
	p.Op = draw.Src
	if vsym.Choice("before", 2) == 1 {
		p.SetColor(color.RGBA{9, 8, 7, 77})
	}
	p.SetColor(c)
	p.Paint([]raster.Span{{Y: 0, X0: 0, X1: 1, Alpha: m16}}, true)
	for k := range want {
		e := int(img.Pix[k]) - want[k]
		vsym.Assert(e <= 1 && e >= -1, "the colour as its model gives it")
	}
}

// A drawing painted through any painter.
func HDraw() {
	img := image.NewAlpha(image.Rect(0, 0, 2, 2))
	rgb := image.NewRGBA(img.Rect)
	r := raster.NewRasterizer(2, 2)
	lib.Tri(r, lib.P(vsym.Int("x", 0, 63), 5), 0)
	var rec lib.Rec
	r.Rasterize(&rec)
	r.Rasterize(raster.NewAlphaSrcPainter(img))
	p := raster.NewRGBAPainter(rgb)
	p.SetColor(color.Alpha{255})
	r.Rasterize(p)
	for y := 0; y < 2; y++ {
		for x := 0; x < 2; x++ {
			a := rec.At(x, y)
			vsym.Assert(int(img.AlphaAt(x, y).A) == a>>8, "picture painted by AlphaSrcPainter")
			d := int(rgb.RGBAAt(x, y).A) - a>>8
			vsym.Assert(d >= -1 && d <= 1, "picture painted by RGBAPainter")
		}
	}
}
