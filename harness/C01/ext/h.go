package c01

import (
	"github.com/golang/freetype/raster"
	"github.com/golang/freetype/vsym"
	"github.com/golang/freetype/zzverif/lib"
	"golang.org/x/image/math/fixed"
)

var ys = [...]int{-70, -33, 0, 10, 127}

// A triangle of some shape at any horizontal position in and around a small
// image.
func HTriangle() {
	w, h := 2, 2
	r := raster.NewRasterizer(w, h)
	r.UseNonZeroWinding = vsym.Bool("nonzero")
	a := fixed.Point26_6{X: lib.Coord("x", -2, 3), Y: fixed.Int26_6(ys[vsym.Choice("y", len(ys))])}
	n := 2
	if vsym.Thorough() {
		n = len(lib.Shapes)
	}
	lib.Tri(r, a, vsym.Choice("shape", n))
	var rec lib.Rec
	r.Rasterize(&rec)
	rec.WellFormed(w, h, 0, 0)
}

// Two bars with any sides, far outside the image too.
func HRects() {
	w, h := 3, 1
	r := raster.NewRasterizer(w, h)
	r.Dx, r.Dy = vsym.Int("Dx", -1000, 1000), vsym.Int("Dy", -1000, 1000)
	r.UseNonZeroWinding = vsym.Bool("nonzero")
	for i := 0; i < 2; i++ {
		lim := int32(100000)
		if i == 1 && !vsym.Thorough() {
			lim = 100
		}
		x0 := fixed.Int26_6(vsym.I32("x0", -lim, lim))
		x1 := x0 + 50
		if i == 0 {
			x1 = fixed.Int26_6(vsym.I32("x1", -100000, 100000))
		}
		lib.Poly(r, fixed.Point26_6{X: x0, Y: 0}, fixed.Point26_6{X: x0, Y: 20}, fixed.Point26_6{X: x1, Y: 20}, fixed.Point26_6{X: x1, Y: 0})
	}
	var rec lib.Rec
	r.Rasterize(&rec)
	rec.WellFormed(w, h, r.Dx, r.Dy)
}

// Bars over any rows.
func HRows() {
	w, h := 1, 3
	r := raster.NewRasterizer(w, h)
	r.UseNonZeroWinding = vsym.Bool("nonzero")
	for i := 0; i < 2; i++ {
		y0, y1 := lib.Coord("y", -2, 4), lib.Coord("y", -2, 4)
		if i == 1 {
			y1 = y0 + 64
		}
		lib.Poly(r, fixed.Point26_6{X: 3, Y: y0}, fixed.Point26_6{X: 3, Y: y1}, fixed.Point26_6{X: 41, Y: y1}, fixed.Point26_6{X: 41, Y: y0})
	}
	var rec lib.Rec
	r.Rasterize(&rec)
	rec.WellFormed(w, h, 0, 0)
}

// A comb of teeth that fills the span buffer several times over.
func HComb() {
	w := 150
	r := raster.NewRasterizer(w, 2)
	r.UseNonZeroWinding = vsym.Bool("nonzero")
	first := 1 + vsym.Choice("first", 4)
	n := 28 + vsym.Choice("n", 9)
	x := fixed.Int26_6(64*first) + fixed.Int26_6(vsym.I32("x", 0, 63))
	hgt := fixed.Int26_6(vsym.I32("h", 0, 63) + 65)
	step, wd := fixed.Int26_6(128), fixed.Int26_6(64)
	if vsym.Choice("dense", 2) == 1 {
		step, wd = 192, 128
	}
	for i := 0; i < n; i++ {
		lib.Poly(r, fixed.Point26_6{X: x, Y: 0}, fixed.Point26_6{X: x, Y: hgt}, fixed.Point26_6{X: x + wd, Y: hgt}, fixed.Point26_6{X: x + wd, Y: 0})
		x += step
	}
	var rec lib.Rec
	r.Rasterize(&rec)
	rec.WellFormed(w, 2, 0, 0)
	vsym.Assert(len(rec.Spans) >= 2*n, "every tooth is painted on both rows")
	for i := 1; i < 2*n && i < len(rec.Spans); i++ {
		vsym.Assert(rec.Spans[i].X1-rec.Spans[i].X0 <= 2, "spans of the comb are short")
	}
}
