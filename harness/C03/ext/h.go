package c03

import (
	"github.com/golang/freetype/raster"
	"github.com/golang/freetype/vsym"
	"github.com/golang/freetype/zzverif/lib"
	"golang.org/x/image/math/fixed"
)

// shift is how far the reference drawing is moved, in pixels, so that all of it
// is within the larger bounds.
const shift = 5

// both draws a closed polygon in w by h bounds and, moved, in large ones, and
// compares the pixels of the small bounds.
func both(w, h int, ps ...fixed.Point26_6) {
	nz := vsym.Bool("nonzero")
	a := raster.NewRasterizer(w, h)
	b := raster.NewRasterizer(w+2*shift, h+2*shift)
	a.UseNonZeroWinding, b.UseNonZeroWinding = nz, nz
	lib.Poly(a, ps...)
	qs := make([]fixed.Point26_6, len(ps))
	for i, p := range ps {
		qs[i] = fixed.Point26_6{X: p.X + 64*shift, Y: p.Y + 64*shift}
	}
	lib.Poly(b, qs...)
	b.Dx, b.Dy = -shift, -shift
	var ra, rb lib.Rec
	a.Rasterize(&ra)
	b.Rasterize(&rb)
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			vsym.Assert(ra.At(x, y) == rb.At(x, y), "same pixel in small and large bounds")
		}
	}
}

func tri(w, h int, a fixed.Point26_6, n int) {
	s := lib.Shapes[n]
	b := lib.P(int(a.X)+s[0], int(a.Y)+s[1])
	c := lib.P(int(b.X)+s[2], int(b.Y)+s[3])
	both(w, h, a, b, c)
}

var at = [...]int{-70, -1, 20, 127}

// Any horizontal position of a triangle.
func HTriX() {
	n := 3
	if vsym.Thorough() {
		n = len(lib.Shapes)
	}
	tri(2, 2, fixed.Point26_6{X: lib.Coord("x", -3, 4), Y: fixed.Int26_6(at[vsym.Choice("y", len(at))])}, vsym.Choice("shape", n))
}

// Any vertical position of a triangle.
func HTriY() {
	n, na := 2, 1
	if vsym.Thorough() {
		n, na = len(lib.Shapes), len(at)
	}
	tri(2, 2, fixed.Point26_6{Y: lib.Coord("y", -2, 3), X: fixed.Int26_6(at[vsym.Choice("x", na)])}, vsym.Choice("shape", n))
}

// A vertical edge anywhere, far outside too, with the bounds' far corner.
func HEdge() {
	w, h := 2, 1
	x0, x1 := fixed.Int26_6(vsym.I32("x0", -64*shift, 447)), fixed.Int26_6(vsym.I32("x1", -64*shift, 447))
	ys := [...][2]fixed.Int26_6{{0, 64}, {-10, 30}, {-64, 100}, {-63, -1}, {33, 190}, {64, 65}}
	y := ys[vsym.Choice("y", len(ys))]
	both(w, h, fixed.Point26_6{X: x0, Y: y[0]}, fixed.Point26_6{X: x0, Y: y[1]}, fixed.Point26_6{X: x1, Y: y[1]}, fixed.Point26_6{X: x1, Y: y[0]})
}

// Bars of any height.
func HBar() {
	w, h := 1, 2
	y0, y1 := lib.Coord("y0", -shift, h+shift), lib.Coord("y1", -1, 2)
	xs := [...][2]fixed.Int26_6{{0, 64}, {-10, 30}, {-64, 100}, {-63, -1}}
	x := xs[vsym.Choice("x", len(xs))]
	both(w, h, fixed.Point26_6{X: x[0], Y: y0}, fixed.Point26_6{X: x[0], Y: y1}, fixed.Point26_6{X: x[1], Y: y1}, fixed.Point26_6{X: x[1], Y: y0})
}
