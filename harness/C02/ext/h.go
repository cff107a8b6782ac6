package c02

import (
	"github.com/golang/freetype/raster"
	"github.com/golang/freetype/vsym"
	"github.com/golang/freetype/zzverif/lib"
	"golang.org/x/image/math/fixed"
)

// overlap of [a,b] with pixel i, in 1/64ths, for a <= b.
func overlap(a, b, i int) int {
	return lib.Max(0, lib.Min(b, 64*i+64)-lib.Max(a, 64*i))
}

func exact(rec *lib.Rec, i, j, want12 int, label string) {
	vsym.Assert(rec.At(i, j) == lib.Full16(lib.Min(want12, 4095)), label)
}

func rect(w, h int, x0, y0, x1, y1 fixed.Int26_6) {
	r := raster.NewRasterizer(w, h)
	r.UseNonZeroWinding = vsym.Bool("nonzero")
	if vsym.Choice("reverse", 2) == 0 {
		lib.Poly(r, fixed.Point26_6{X: x0, Y: y0}, fixed.Point26_6{X: x0, Y: y1}, fixed.Point26_6{X: x1, Y: y1}, fixed.Point26_6{X: x1, Y: y0})
	} else {
		lib.Poly(r, fixed.Point26_6{X: x0, Y: y0}, fixed.Point26_6{X: x1, Y: y0}, fixed.Point26_6{X: x1, Y: y1}, fixed.Point26_6{X: x0, Y: y1})
	}
	var rec lib.Rec
	r.Rasterize(&rec)
	for j := 0; j < h; j++ {
		for i := 0; i < w; i++ {
			exact(&rec, i, j, overlap(int(x0), int(x1), i)*overlap(int(y0), int(y1), j), "rectangle coverage")
		}
	}
}

var spans = [...][2]fixed.Int26_6{{0, 64}, {0, 1}, {63, 64}, {5, 59}, {10, 101}, {63, 65}, {33, 128}, {0, 191}, {1, 150}, {64, 127}, {128, 192}, {90, 90}}

// Axis-aligned rectangles are exact: any horizontal extent.
func HRectX() {
	w, h := 3, 3
	x0, x1 := lib.Coord("x0", 0, w), lib.Coord("x1", 0, w)
	vsym.Assume(x0 <= x1)
	s := spans[vsym.Choice("y", len(spans))]
	rect(w, h, x0, s[0], x1, s[1])
}

// Axis-aligned rectangles are exact: any vertical extent.
func HRectY() {
	w, h := 3, 3
	y0, y1 := lib.Coord("y0", 0, h), lib.Coord("y1", 0, h)
	vsym.Assume(y0 <= y1)
	s := spans[vsym.Choice("x", len(spans))]
	rect(w, h, s[0], y0, s[1], y1)
}

// Any rectangle in one pixel.
//
//vsym:tier=thorough
func HRect() {
	x0, x1 := lib.Coord("x0", 0, 1), lib.Coord("x1", 0, 1)
	y0, y1 := lib.Coord("y0", 0, 1), lib.Coord("y1", 0, 1)
	vsym.Assume(x0 <= x1)
	vsym.Assume(y0 <= y1)
	rect(1, 1, x0, y0, x1, y1)
}

// onePixel checks a triangle within a pixel, with vertices relative to it.
func onePixel(x, y [3]int) {
	r := raster.NewRasterizer(2, 2)
	r.UseNonZeroWinding = vsym.Bool("nonzero")
	px, py := 0, 0
	switch vsym.Choice("pixel", 3) {
	case 1:
		px = 1
	case 2:
		py = 1
	}
	var p [3]fixed.Point26_6
	for i := range p {
		p[i] = lib.P(64*px+x[i], 64*py+y[i])
	}
	lib.Poly(r, p[0], p[1], p[2])
	var rec lib.Rec
	r.Rasterize(&rec)
	// twice the enclosed area
	a2 := (x[0]+x[1])*(y[1]-y[0]) + (x[1]+x[2])*(y[2]-y[1]) + (x[2]+x[0])*(y[0]-y[2])
	a2 = lib.Abs(a2)
	got := rec.At(px, py)
	vsym.Assert(got == lib.Full16(a2/2) || got == lib.Full16((a2+1)/2), "coverage within one pixel")
	for j := 0; j < 2; j++ {
		for i := 0; i < 2; i++ {
			if i != px || j != py {
				vsym.Assert(rec.At(i, j) == 0, "no coverage outside the shape's pixel")
			}
		}
	}
}

var thirds = [...][3]int{{0, 63, 20}, {10, 40, 60}, {50, 3, 31}, {7, 7, 62}, {0, 1, 2}, {63, 0, 63}}

// A shape within one pixel is exact to the rounding of the alpha: any
// horizontal positions.
func HOnePixelX() {
	var x [3]int
	for i := range x {
		x[i] = int(vsym.I32("x", 0, 63))
	}
	onePixel(x, thirds[vsym.Choice("y", len(thirds))])
}

// The same for any vertical positions.
func HOnePixelY() {
	var y [3]int
	for i := range y {
		y[i] = int(vsym.I32("y", 0, 63))
	}
	onePixel(thirds[vsym.Choice("x", len(thirds))], y)
}

// oneRow checks the trapezoid between the segment (x0,y0)-(x1,y1) of one row
// and the right edge of the image.
func oneRow(w, x0, y0, x1, y1 int) {
	r := raster.NewRasterizer(w, 1)
	r.UseNonZeroWinding = vsym.Bool("nonzero")
	lib.Poly(r, lib.P(x0, y0), lib.P(x1, y1), lib.P(64*w, y1), lib.P(64*w, y0))
	var rec lib.Rec
	r.Rasterize(&rec)
	// orient the segment from left to right
	lx, ly, rx, ry := x0, y0, x1, y1
	if x0 > x1 {
		lx, ly, rx, ry = x1, y1, x0, y0
	}
	up := ry < ly
	d := ry - ly
	if up {
		d = ly - ry
	}
	// depth(X) is how far the segment has descended at column edge X: between
	// floor and ceiling of the exact crossing.
	for i := 0; i < w; i++ {
		var flo, fhi, tlo, thi int // depth at the left and right end within pixel i
		l, rr := 64*i, 64*i+64
		switch {
		case lx >= l:
			flo, fhi, l = 0, 0, lib.Min(lx, rr)
		case rx <= l:
			flo, fhi, l = d, d, l
		default:
			flo, fhi = lib.FloorDiv((l-lx)*d, rx-lx), lib.CeilDiv((l-lx)*d, rx-lx)
		}
		switch {
		case rx <= rr:
			tlo, thi, rr = d, d, lib.Max(rx, 64*i)
		case lx >= rr:
			tlo, thi = 0, 0
		default:
			tlo, thi = lib.FloorDiv((rr-lx)*d, rx-lx), lib.CeilDiv((rr-lx)*d, rx-lx)
		}
		area := func(f, t int) int { return 128*f + (128-(l-64*i)-(rr-64*i))*(t-f) }
		lo, hi := area(flo, tlo), area(fhi, thi)
		if lx >= 64*i+64 {
			lo, hi = 0, 0
		}
		got := rec.At(i, 0)
		vsym.Assert(got >= lib.Full16(lib.Min(lo/2, 4095)) && got <= lib.Full16(lib.Min((hi+1)/2, 4095)), "coverage of a segment in one row")
	}
}

// A segment with any slope over two pixels of a row.
//
//vsym:tier=thorough
func HRow2() {
	y0, y1 := int(vsym.I32("y0", 0, 63)), int(vsym.I32("y1", 0, 63))
	x0, x1 := int(lib.Coord("x0", 0, 1)), int(lib.Coord("x1", 1, 2))
	if vsym.Choice("swap", 2) == 1 {
		x0, x1 = x1, x0
	}
	oneRow(2, x0, y0, x1, y1)
}

// Segments over four pixels with any horizontal position and some heights.
func HRow4() {
	hs := [...]int{0, 1, 17, 32, 63, 64}
	y0, y1 := 0, hs[vsym.Choice("y1", len(hs))]
	if vsym.Choice("down", 2) == 1 {
		y0, y1 = y1, y0
	}
	wds := [...]int{1, 63, 64, 65, 100, 133, 191, 192}
	wd := wds[vsym.Choice("width", len(wds))]
	x0 := int(lib.Coord("x0", 0, 1))
	x1 := x0 + wd
	if vsym.Choice("swap", 2) == 1 {
		x0, x1 = x1, x0
	}
	oneRow(4, x0, y0, x1, y1)
}

// steep segments over many rows, with the exact crossing of every row known
var steep = [...][3]int{ // dx, dy, y0
	{50, 350, 0}, {50, 350, 30}, {-45, 301, 7}, {61, 320, 63}, {-33, 384, 0}, {1, 380, 3}, {-63, 257, 40}, {20, 64, 20}, {37, 100, 63},
}

// The crossings of a segment with the row edges do not drift: a segment that
// stays within one column has exactly the area of its exact crossings.
func HRows() {
	h := 7
	s := steep[vsym.Choice("segment", len(steep))]
	dx, dy, y0 := s[0], s[1], s[2]
	x0 := int(vsym.I32("x0", 0, 128))
	x1, y1 := x0+dx, y0+dy
	col := vsym.Choice("col", 2)
	vsym.Assume(x0 >= 64*col && x0 <= 64*col+63)
	vsym.Assume(x1 >= 64*col && x1 <= 64*col+63)
	if vsym.Choice("swap", 2) == 1 {
		x0, y0, x1, y1 = x1, y1, x0, y0
	}
	r := raster.NewRasterizer(2, h)
	r.UseNonZeroWinding = vsym.Bool("nonzero")
	lib.Poly(r, lib.P(x0, y0), lib.P(x1, y1), lib.P(128, y1), lib.P(128, y0))
	var rec lib.Rec
	r.Rasterize(&rec)
	if y0 > y1 {
		x0, y0, x1, y1 = x1, y1, x0, y0
		dx = x1 - x0
	}
	for j := 0; j < h; j++ {
		ya, yb := lib.Clamp(y0, 64*j, 64*j+64), lib.Clamp(y1, 64*j, 64*j+64)
		// x at ya and yb, floor and ceiling
		xal, xah := x0+lib.FloorDiv((ya-y0)*dx, dy), x0+lib.CeilDiv((ya-y0)*dx, dy)
		xbl, xbh := x0+lib.FloorDiv((yb-y0)*dx, dy), x0+lib.CeilDiv((yb-y0)*dx, dy)
		// area to the right of the segment in its pixel
		hi := (128*(col+1) - xal - xbl) * (yb - ya)
		lo := (128*(col+1) - xah - xbh) * (yb - ya)
		got := rec.At(col, j)
		vsym.Assert(got >= lib.Full16(lib.Min(lo/2, 4095)) && got <= lib.Full16(lib.Min((hi+1)/2, 4095)), "coverage of a steep segment")
		if col == 0 {
			vsym.Assert(rec.At(1, j) == lib.Full16(lib.Min(64*(yb-ya), 4095)), "coverage beside a steep segment")
		} else {
			vsym.Assert(rec.At(0, j) == 0, "no coverage outside")
		}
	}
}

var flat = [...][3]int{ // dx, dy, y0
	{230, 150, 0}, {250, 130, 40}, {-213, 161, 5}, {-190, 70, 60}, {129, 255, 0}, {-140, 229, 27}, {255, 129, 63}, {180, 64, 0},
}

// Segments that cross rows and columns: every pixel is within 1/64 per
// crossing of the area under the exact segment.
func HSlopes() {
	w, h := 4, 5
	s := flat[vsym.Choice("segment", len(flat))]
	dx, dy, y0 := s[0], s[1], s[2]
	x0 := int(lib.Coord("x0", 0, 4))
	x1, y1 := x0+dx, y0+dy
	vsym.Assume(x1 >= 0 && x1 < 64*w)
	if vsym.Choice("swap", 2) == 1 {
		x0, y0, x1, y1 = x1, y1, x0, y0
	}
	r := raster.NewRasterizer(w, h)
	r.UseNonZeroWinding = vsym.Bool("nonzero")
	lib.Poly(r, lib.P(x0, y0), lib.P(x1, y1), lib.P(64*w, y1), lib.P(64*w, y0))
	var rec lib.Rec
	r.Rasterize(&rec)
	if y0 > y1 {
		x0, y0, x1, y1 = x1, y1, x0, y0
	}
	for j := 0; j < h; j++ {
		ya, yb := lib.Clamp(y0, 64*j, 64*j+64), lib.Clamp(y1, 64*j, 64*j+64)
		if yb <= ya {
			continue
		}
		xa, xb := x0+lib.FloorDiv((ya-y0)*dx, dy), x0+lib.FloorDiv((yb-y0)*dx, dy)
		sum, want := 0, 0
		for i := 0; i < w; i++ {
			a := lib.A12(rec.At(i, j))
			sum += a
			// nothing is left of the segment, everything right of it is full
			vsym.Assert(vsym.If(64*i+64 <= lib.Min(xa, xb), a, 0) == 0, "nothing left of the segment")
			vsym.Assert(vsym.If(64*i >= lib.Max(xa, xb)+1, a, lib.Min(64*(yb-ya), 4095)) == lib.Min(64*(yb-ya), 4095), "full coverage right of the segment")
		}
		want = (2*64*w - xa - xb) * (yb - ya) / 2
		// one unit of slack per crossing of a column or row edge, and the
		// rounding of each pixel (a full pixel has level 4095)
		vsym.Assert(lib.Abs(sum-want) <= 64+64+2*w, "area of a row")
	}
}
