package c04

import (
	"github.com/golang/freetype/raster"
	"github.com/golang/freetype/vsym"
	"github.com/golang/freetype/zzverif/lib"
	"golang.org/x/image/math/fixed"
)

// want is the 16-bit alpha for a signed winding-weighted coverage in 1/4096ths.
func want(v int, nonzero bool) int {
	v = lib.Abs(v)
	t := v % 8192
	t = lib.Min(t, 8192-t)
	return lib.Full16(lib.Min(4095, vsym.If(nonzero, v, t)))
}

func rect(r raster.Adder, x0, y0, x1, y1 fixed.Int26_6, fwd bool) {
	a, b, c, d := fixed.Point26_6{X: x0, Y: y0}, fixed.Point26_6{X: x0, Y: y1}, fixed.Point26_6{X: x1, Y: y1}, fixed.Point26_6{X: x1, Y: y0}
	if fwd {
		lib.Poly(r, a, b, c, d)
	} else {
		lib.Poly(r, a, d, c, b)
	}
}

var ys = [...][2]int{{0, 64}, {0, 1}, {63, 64}, {20, 52}, {7, 38}, {5, 64}}

// A bar from any place in one pixel to any place in one further right, drawn
// several times in either direction, under both rules.
func HBar() {
	r := raster.NewRasterizer(3, 1)
	nz := vsym.Bool("nonzero")
	r.UseNonZeroWinding = nz
	ny, nn := 4, 3
	if vsym.Thorough() {
		ny, nn = len(ys), 5
	}
	y := ys[vsym.Choice("y", ny)]
	nf, nb := vsym.Choice("forward", nn+1), vsym.Choice("backward", nn+1)
	x0, x1 := fixed.Int26_6(vsym.I32("x0", 0, 64)), fixed.Int26_6(vsym.I32("x1", 0, 63))+64*fixed.Int26_6(vsym.Choice("x1.px", 3))
	vsym.Assume(x0 <= x1)
	for i := 0; i < nf; i++ {
		rect(r, x0, fixed.Int26_6(y[0]), x1, fixed.Int26_6(y[1]), true)
	}
	for i := 0; i < nb; i++ {
		rect(r, x0, fixed.Int26_6(y[0]), x1, fixed.Int26_6(y[1]), false)
	}
	var rec lib.Rec
	r.Rasterize(&rec)
	w, cy := nf-nb, y[1]-y[0]
	for x := 0; x < 3; x++ {
		cx := lib.Max(0, lib.Min(int(x1), 64*x+64)-lib.Max(int(x0), 64*x))
		vsym.Assert(rec.At(x, 0) == want(w*cx*cy, nz), "alpha is that of the winding number and coverage")
	}
}

// Two overlapping bars of any height, and the directions they are drawn in.
func HOverlap() {
	r := raster.NewRasterizer(4, 2)
	nz := vsym.Bool("nonzero")
	r.UseNonZeroWinding = nz
	h := vsym.I32("h", 0, 128)
	var cnt [2]int
	var lo, hi [2]int
	var dir [2]bool
	for i := range cnt {
		cnt[i] = 1 + vsym.Choice("n", 2)
		dir[i] = vsym.Choice("dir", 2) == 0
	}
	lo[0], hi[0] = 0, 3
	lo[1], hi[1] = 1+vsym.Choice("lo", 2), 2+vsym.Choice("hi", 3)
	for i := range cnt {
		for k := 0; k < cnt[i]; k++ {
			rect(r, fixed.Int26_6(64*lo[i]), 0, fixed.Int26_6(64*hi[i]), fixed.Int26_6(h), dir[i])
		}
	}
	var rec lib.Rec
	r.Rasterize(&rec)
	for y := 0; y < 2; y++ {
		cy := lib.Clamp(int(h)-64*y, 0, 64)
		for x := 0; x < 4; x++ {
			w := 0
			for i := range cnt {
				d := cnt[i]
				if !dir[i] {
					d = -d
				}
				if lo[i] <= x && x < hi[i] {
					w += d
				}
				if hi[i] <= x && x < lo[i] {
					w -= d
				}
			}
			vsym.Assert(rec.At(x, y) == want(w*64*cy, nz), "alpha is that of the overlapping winding numbers")
		}
	}
}

var tys = [...][3]int{{0, 64, 20}, {3, 40, 63}, {50, 1, 30}, {64, 0, 64}}

// A triangle within a pixel: direction does not matter, drawing it in both
// directions cancels, and drawing it twice doubles its coverage.
func HTriangle() {
	nz := vsym.Bool("nonzero")
	y := tys[vsym.Choice("y", len(tys))]
	var p [3]fixed.Point26_6
	for i := range p {
		p[i] = fixed.Point26_6{X: fixed.Int26_6(vsym.I32("x", 0, 63)), Y: fixed.Int26_6(y[i])}
	}
	if !vsym.Thorough() {
		p[2].X = fixed.Int26_6([...]int{0, 17, 63}[vsym.Choice("x2", 3)])
	}
	var one [4]int
	for k := range one {
		r := raster.NewRasterizer(1, 1)
		r.UseNonZeroWinding = nz
		if k != 1 {
			lib.Poly(r, p[0], p[1], p[2])
		}
		if k == 2 {
			lib.Poly(r, p[0], p[1], p[2])
		}
		if k == 1 || k == 3 {
			lib.Poly(r, p[0], p[2], p[1])
		}
		var rec lib.Rec
		r.Rasterize(&rec)
		one[k] = lib.A12(rec.At(0, 0))
	}
	vsym.Assert(lib.Abs(one[0]-one[1]) <= 1, "direction does not matter")
	vsym.Assert(one[3] == 0, "both directions cancel")
	// a triangle covers at most half of its pixel, so that twice it does not wrap
	vsym.Assert(lib.Abs(one[2]-2*one[0]) <= 1, "twice the contour is twice the coverage")
}

// A sloped shape drawn several times: every pixel's coverage is multiplied.
func HRepeat() {
	nz := vsym.Bool("nonzero")
	n := 2
	if vsym.Thorough() {
		n = len(lib.Shapes)
	}
	shape, k := vsym.Choice("shape", n), 2+vsym.Choice("k", 2)
	a := fixed.Point26_6{X: fixed.Int26_6(vsym.I32("x", 0, 63)), Y: 10}
	var rec [2]lib.Rec
	for i := range rec {
		r := raster.NewRasterizer(3, 3)
		r.UseNonZeroWinding = nz || i == 0
		lib.Tri(r, a, shape)
		for j := 1; i == 1 && j < k; j++ {
			lib.Tri(r, a, shape)
		}
		r.Rasterize(&rec[i])
	}
	for y := 0; y < 3; y++ {
		for x := 0; x < 3; x++ {
			once, many := lib.A12(rec[0].At(x, y)), rec[1].At(x, y)
			vsym.Assert(lib.Abs(lib.A12(many)-lib.A12(want(k*once+vsym.If(once == 4095, k, 0), nz))) <= k, "coverage of a repeated contour")
		}
	}
}
