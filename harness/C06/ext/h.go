package c06

import (
	"github.com/golang/freetype/raster"
	"github.com/golang/freetype/vsym"
	"github.com/golang/freetype/zzverif/lib"
	"golang.org/x/image/math/fixed"
)

var bounds = [...][2]int{{2, 2}, {3, 1}, {30, 2}, {130, 70}, {0, 0}}

// history brings a rasterizer into some state.
func history(r *raster.Rasterizer) {
	n := 5
	if vsym.Thorough() {
		n = 6
	}
	var rec lib.Rec
	switch vsym.Choice("history", n) {
	case 0: // half a contour, not saved yet
		r.Start(lib.P(20, vsym.Int("hy", 0, 63)))
		r.Add1(lib.P(70, 50))
	case 1: // outside
		r.Start(lib.P(-100, vsym.Int("hy", -63, -1)))
		r.Add1(lib.P(20, -30))
		r.Start(lib.P(-100, 170))
		r.Add1(lib.P(-100, 10))
	case 2: // a triangle, rasterized
		hx := 7
		if vsym.Thorough() {
			hx = vsym.Int("hx", 0, 63)
		}
		lib.Tri(r, lib.P(hx, 9), 0)
		r.Rasterize(&rec)
	case 3: // many cells
		for i := 0; i < 140; i++ {
			r.Start(lib.P(64*i, 10))
			r.Add1(lib.P(64*i+30, 100))
			r.Add1(lib.P(64*i+5, 10))
		}
	case 4: // one vertical line along cell 0, 0
		r.Start(lib.P(vsym.Int("hx", 0, 63), 0))
		r.Add1(lib.P(13, 40))
	case 5:
		r.Start(lib.P(5, 5))
		r.Add2(lib.P(vsym.Int("hx", 0, 127), 100), lib.P(100, 120))
		r.Rasterize(&rec)
	}
}

// path is what is drawn afterwards.
func path(r raster.Adder, which int, x int) {
	switch which {
	case 0:
		lib.Tri(r, lib.P(x, 20), 0)
	case 1: // without a Start
		r.Add1(lib.P(x, 0))
		r.Add1(lib.P(x, 64))
		r.Add1(lib.P(0, 64))
		r.Add1(lib.P(0, 0))
	case 2:
		r.Start(lib.P(10, 10))
		r.Add2(lib.P(80, 120), lib.P(50, 15))
		r.Add1(lib.P(x, 15))
		r.Add1(lib.P(x, 10))
		r.Add1(lib.P(10, 10))
	case 3:
		r.Start(lib.P(10, 10))
		r.Add3(lib.P(20, 120), lib.P(60, 100), lib.P(50, 15))
		r.Add1(lib.P(x, 15))
		r.Add1(lib.P(x, 10))
		r.Add1(lib.P(10, 10))
	case 4: // nothing
	}
}

// After Clear or SetBounds nothing is left of what was drawn.
func HReset() {
	nb := 2
	if vsym.Thorough() {
		nb = 3
	}
	b0 := vsym.Choice("bounds", nb)
	r := raster.NewRasterizer(bounds[b0][0], bounds[b0][1])
	nz := vsym.Bool("nonzero")
	r.UseNonZeroWinding = nz
	history(r)
	w, h := bounds[b0][0], bounds[b0][1]
	switch k := vsym.Choice("reset", nb+1); k {
	case 0:
		r.Clear()
	default:
		w, h = bounds[k-1][0], bounds[k-1][1]
		r.SetBounds(w, h)
	}
	f := raster.NewRasterizer(w, h)
	f.UseNonZeroWinding = nz
	which, x := vsym.Choice("path", 5), vsym.Int("x", 64, 127)
	vsym.Assume(which != 2 || vsym.Thorough())
	var a, b lib.Rec
	path(r, which, x)
	path(f, which, x)
	r.Rasterize(&a)
	f.Rasterize(&b)
	lib.Same(&a, &b, "reset and new")
	if which == 4 {
		vsym.Assert(len(a.Spans) == 0, "nothing drawn, nothing painted")
	}
}

// Bounds of any size replace others of any size.
func HBounds() {
	i, j := vsym.Choice("from", len(bounds)), vsym.Choice("to", len(bounds))
	r := raster.NewRasterizer(bounds[i][0], bounds[i][1])
	x := vsym.Int("x", 0, 63)
	lib.Tri(r, lib.P(x, 20), 1)
	if vsym.Choice("rasterize", 2) == 1 {
		var rec lib.Rec
		r.Rasterize(&rec)
	}
	r.SetBounds(bounds[j][0], bounds[j][1])
	f := raster.NewRasterizer(bounds[j][0], bounds[j][1])
	curve := vsym.Choice("curve", 2)
	for _, a := range [...]*raster.Rasterizer{r, f} {
		a.Start(lib.P(-90, 20))
		if curve == 0 {
			a.Add2(lib.P(50, 220), lib.P(100, 20))
		} else {
			a.Add3(lib.P(-20, 220), lib.P(190, 300), lib.P(100, 20))
		}
		a.Add1(lib.P(100, x))
		a.Add1(lib.P(-90, x))
		a.Add1(lib.P(-90, 20))
	}
	var a, b lib.Rec
	r.Rasterize(&a)
	f.Rasterize(&b)
	lib.Same(&a, &b, "new bounds and new")
}

// Rasterize leaves the contours in place, and more can be added to them.
func HAgain() {
	r := raster.NewRasterizer(2, 2)
	f := raster.NewRasterizer(2, 2)
	nz := vsym.Bool("nonzero")
	r.UseNonZeroWinding, f.UseNonZeroWinding = nz, nz
	which, x := vsym.Choice("path", 5), vsym.Int("x", 0, 63)
	var a, b, c, d lib.Rec
	path(r, which, x)
	r.Rasterize(&a)
	r.Rasterize(&b)
	lib.Same(&a, &b, "rasterized twice")
	more := fixed.Int26_6(vsym.Int("y", 0, 63))
	path(f, which, x)
	for _, q := range [...]*raster.Rasterizer{r, f} {
		q.Start(lib.P(5, 5))
		q.Add1(fixed.Point26_6{X: 33, Y: more})
		q.Add1(lib.P(60, 10))
		q.Add1(lib.P(5, 5))
	}
	r.Rasterize(&c)
	f.Rasterize(&d)
	lib.Same(&c, &d, "rasterized in between and only at the end")
}
