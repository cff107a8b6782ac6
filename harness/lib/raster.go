// Package lib holds what the harnesses share.
package lib

import (
	"github.com/golang/freetype/raster"
	"github.com/golang/freetype/vsym"
	"golang.org/x/image/math/fixed"
)

// Rec records what a Rasterizer paints.
type Rec struct {
	Spans []raster.Span
	Calls int
	Dones int
	Last  bool
	Sizes []int
}

// Paint implements raster.Painter.
func (r *Rec) Paint(ss []raster.Span, done bool) {
	r.Calls++
	r.Last = done
	if done {
		r.Dones++
	}
	r.Sizes = append(r.Sizes, len(ss))
	for i := range ss {
		r.Spans = append(r.Spans, ss[i])
	}
}

// WellFormed asserts what C01 says about the spans.
func (r *Rec) WellFormed(w, h, dx, dy int) {
	vsym.Assert(r.Dones == 1, "done on exactly one call")
	vsym.Assert(r.Last, "done on the last call")
	for i := range r.Spans {
		s := r.Spans[i]
		vsym.Assert(s.X0 >= dx && s.X1 <= w+dx, "span within width")
		vsym.Assert(s.X0 < s.X1, "span not empty")
		vsym.Assert(s.Y >= dy && s.Y < h+dy, "span within height")
		vsym.Assert(s.Alpha >= 1 && s.Alpha <= 0xffff, "alpha in range")
		if i > 0 {
			p := r.Spans[i-1]
			vsym.Assert(p.Y < s.Y || (p.Y == s.Y && p.X1 <= s.X0), "spans sorted and disjoint")
		}
	}
}

// Coord is a 26.6 coordinate with any fraction in a pixel from [lo, hi); the
// pixel is chosen per path.
func Coord(name string, lo, hi int) fixed.Int26_6 {
	px := vsym.Choice(name+".px", hi-lo) + lo
	return fixed.Int26_6(64*px) + fixed.Int26_6(vsym.I32(name+".fr", 0, 63))
}

// Pt is a point with Coord coordinates.
func Pt(name string, x0, x1, y0, y1 int) fixed.Point26_6 {
	return fixed.Point26_6{X: Coord(name+".x", x0, x1), Y: Coord(name+".y", y0, y1)}
}

// P makes a point.
func P(x, y int) fixed.Point26_6 {
	return fixed.Point26_6{X: fixed.Int26_6(x), Y: fixed.Int26_6(y)}
}

// At is the alpha painted at a pixel.
func (r *Rec) At(x, y int) int {
	a := 0
	for i := range r.Spans {
		s := r.Spans[i]
		a = vsym.If(s.Y == y && s.X0 <= x && x < s.X1, int(s.Alpha), a)
	}
	return a
}

// A12 is the 12-bit level of a 16-bit alpha.
func A12(a int) int { return a >> 4 }

// Full16 widens a 12-bit level as the rasterizer does.
func Full16(a int) int { return a<<4 | a>>8 }

// Min returns the smaller value, without a branch.
func Min(a, b int) int { return vsym.If(a < b, a, b) }

// Max returns the larger value, without a branch.
func Max(a, b int) int { return vsym.If(a < b, b, a) }

// Abs returns the magnitude, without a branch.
func Abs(a int) int { return vsym.If(a < 0, -a, a) }

// Clamp limits a to [lo, hi].
func Clamp(a, lo, hi int) int { return Min(Max(a, lo), hi) }

// FloorDiv divides rounding down; b > 0.
func FloorDiv(a, b int) int {
	q := a / b
	return vsym.If(a-q*b < 0, q-1, q)
}

// CeilDiv divides rounding up; b > 0.
func CeilDiv(a, b int) int { return -FloorDiv(-a, b) }

// Poly draws a closed polygon.
func Poly(r raster.Adder, ps ...fixed.Point26_6) {
	r.Start(ps[0])
	for _, p := range ps[1:] {
		r.Add1(p)
	}
	r.Add1(ps[0])
}

// Shapes are triangles as two edge vectors, of many slopes and sizes.
var Shapes = [...][4]int{
	{70, 50, -100, 40},
	{-30, 150, 90, -20},
	{130, 7, -60, -120},
	{5, 61, -64, 0},
	{-90, 33, 40, 80},
	{3, -129, 60, 65},
}

// Tri draws the n'th shape at a.
func Tri(r raster.Adder, a fixed.Point26_6, n int) {
	s := Shapes[n]
	b := fixed.Point26_6{X: a.X + fixed.Int26_6(s[0]), Y: a.Y + fixed.Int26_6(s[1])}
	c := fixed.Point26_6{X: b.X + fixed.Int26_6(s[2]), Y: b.Y + fixed.Int26_6(s[3])}
	Poly(r, a, b, c)
}

// Same asserts that two recordings paint the same.
func Same(a, b *Rec, label string) {
	vsym.Assert(len(a.Spans) == len(b.Spans), label+": number of spans")
	n := len(a.Spans)
	if len(b.Spans) < n {
		n = len(b.Spans)
	}
	for i := 0; i < n; i++ {
		x, y := a.Spans[i], b.Spans[i]
		vsym.Assert(x.Y == y.Y && x.X0 == y.X0 && x.X1 == y.X1, label+": extent of span")
		vsym.Assert(x.Alpha == y.Alpha, label+": alpha of span")
	}
}
