package c08

import (
	"image"

	"github.com/golang/freetype/raster"
	"github.com/golang/freetype/vsym"
	"github.com/golang/freetype/zzverif/lib"
)

type call struct {
	ss   []raster.Span
	done bool
}

type rec struct{ calls []call }

func (r *rec) Paint(ss []raster.Span, done bool) {
	r.calls = append(r.calls, call{append([]raster.Span(nil), ss...), done})
	for i := range ss { // Paint may use ss as scratch space
		ss[i] = raster.Span{Y: 99, X0: 7, X1: 3, Alpha: 12345}
	}
}

// input makes n sorted, disjoint spans starting on row y, with free alphas.
func input(n, y int) []raster.Span {
	ss := make([]raster.Span, n)
	x := vsym.Choice("x", 2)
	for i := range ss {
		if vsym.Choice("row", 2) == 1 {
			y, x = y+1, vsym.Choice("x", 2)
		} else if i > 0 {
			x += vsym.Choice("gap", 2)
		}
		x1 := x + 1 + i&1
		a := vsym.I32("alpha", 1, 65535)
		ss[i] = raster.Span{Y: y, X0: x, X1: x1, Alpha: uint32(a)}
		x = x1
	}
	return ss
}

// feed paints ss in up to three batches, some of which may be empty.
func feed(p raster.Painter, ss []raster.Span, exact bool) {
	i := vsym.Choice("cut", len(ss)+1)
	j := i
	if exact || vsym.Thorough() {
		j += vsym.Choice("cut2", len(ss)+1-i)
	} else if vsym.Choice("cut2", 2) == 1 {
		j = len(ss)
	}
	buf := make([]raster.Span, 4)
	for k, b := range [][]raster.Span{ss[:i], ss[i:j], ss[j:]} {
		// the rasterizer reuses its buffer, which has room behind the spans
		c := buf[:len(b)]
		if exact {
			c = make([]raster.Span, len(b))
		}
		copy(c, b)
		p.Paint(c, k == 2)
	}
}

func check(r *rec, ss []raster.Span) {
	vsym.Assert(len(r.calls) > 0, "something is painted")
	var out []raster.Span
	for i, c := range r.calls {
		vsym.Assert(c.done == (i == len(r.calls)-1), "exactly the last call is flagged done")
		out = append(out, c.ss...)
	}
	for i, s := range out {
		vsym.Assert(s.X0 < s.X1, "no empty span")
		vsym.Assert(s.Alpha == 0xffff, "spans are opaque")
		if i > 0 {
			t := out[i-1]
			vsym.Assert(t.Y < s.Y || t.Y == s.Y && t.X1 < s.X0, "spans are sorted and abutting spans merged")
		}
	}
	for y := -1; y < 6; y++ {
		for x := 0; x < 12; x++ {
			in := false
			for _, s := range ss {
				if s.Y == y-2 && s.X0 <= x && x < s.X1 && s.Alpha >= 0x8000 {
					in = true
				}
			}
			o := false
			for _, s := range out {
				if s.Y == y-2 && s.X0 <= x && x < s.X1 {
					o = true
				}
			}
			vsym.Assert(in == o, "the pixels at least half covered, and no others")
		}
	}
}

// HMono: any spans in any batches, twice with the same painter.
func HMono() {
	var r rec
	m := raster.NewMonochromePainter(&r)
	n := 2 + vsym.Choice("n", 2)
	if vsym.Thorough() {
		n = 4
	}
	ss := input(n, 2*vsym.Choice("y", 2)-2)
	feed(m, ss, n == 2)
	check(&r, ss)
}

// HReuse: the painter can be used again.
func HReuse() {
	var r rec
	m := raster.NewMonochromePainter(&r)
	feed(m, input(1, 0), vsym.Choice("exact", 2) == 1)
	r.calls = nil
	n := 1
	if vsym.Thorough() {
		n = 2
	}
	ss := input(n, 0)
	feed(m, ss, n == 1)
	check(&r, ss)
}

// HImage: monochrome painting of an image anywhere.
func HImage() {
	y := [...]int{-4, -1, 0, 2}[vsym.Choice("y", 4)]
	img := image.NewAlpha(image.Rect(0, y, 3, y+2))
	r := raster.NewRasterizer(3, 2)
	r.Dy = y
	a := vsym.Int("x", 0, 192)
	h := 64 * (1 + vsym.Choice("h", 2))
	lib.Poly(r, lib.P(0, 0), lib.P(0, h), lib.P(a, h), lib.P(a, 0))
	r.Rasterize(raster.NewMonochromePainter(raster.NewAlphaSrcPainter(img)))
	for j := 0; j < 2; j++ {
		for x := 0; x < 3; x++ {
			want := uint8(0)
			if j*64 < h && a >= 64*x+33 {
				want = 255
			}
			if a != 64*x+32 { // exactly half a pixel may round either way
				vsym.Assert(img.AlphaAt(x, y+j).A == want, "pixel of a monochrome picture")
			}
		}
	}
}
