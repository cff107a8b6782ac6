package c05

import (
	"github.com/golang/freetype/raster"
	"github.com/golang/freetype/vsym"
	"github.com/golang/freetype/zzverif/lib"
	"golang.org/x/image/math/fixed"
)

func pt(u, v int, swap bool) fixed.Point26_6 {
	if swap {
		return lib.P(v, u)
	}
	return lib.P(u, v)
}

func cross(a, b fixed.Point26_6) int { return int(a.X)*int(b.Y) - int(b.X)*int(a.Y) }

// level is the 12-bit alpha of a single pixel.
func level(r *raster.Rasterizer) int {
	var rec lib.Rec
	r.Rasterize(&rec)
	return lib.A12(rec.At(0, 0))
}

var qv = [...][3]int{{0, 64, 0}, {0, 30, 64}, {60, 0, 50}, {10, 64, 40}, {0, 0, 64}, {64, 64, 0}}

// tolQuad is for flattening (at most 1.34/64 of a pixel's height over the chord)
// and for the rounding of the split points.
const tolQuad = 192

// The area between a quadratic curve within a pixel and its chord is two thirds
// of the area of the triangle of its points.
func HQuad() {
	n := 4
	if vsym.Thorough() {
		n = len(qv)
	}
	v := qv[vsym.Choice("v", n)]
	swap := vsym.Choice("swap", 2) == 1
	a := pt([...]int{0, 64, 21}[vsym.Choice("a", 3)], v[0], swap)
	b := pt(vsym.Int("b", 0, 64), v[1], swap)
	c := pt([...]int{64, 0, 33}[vsym.Choice("c", 3)], v[2], swap)
	if vsym.Thorough() {
		c = pt(vsym.Int("c", 0, 64), v[2], swap)
	}
	r := raster.NewRasterizer(1, 1)
	r.UseNonZeroWinding = true
	r.Start(a)
	r.Add2(b, c)
	r.Add1(a)
	area3 := lib.Abs(cross(a, b) + cross(b, c) + cross(c, a)) // 3 times the area
	d := 3*lib.Min(level(r), 4096) - area3
	vsym.Assert(d <= 3*tolQuad && d >= -3*tolQuad, "area of a quadratic curve")
}

var cv = [...][4]int{{0, 64, 64, 0}, {0, 30, 64, 64}, {60, 0, 10, 50}, {0, 64, 0, 64}, {32, 0, 0, 0}, {64, 64, 0, 64}}

const tolCubic = 288

// The area between a cubic curve within a pixel and its chord.
func HCubic() {
	n := 3
	if vsym.Thorough() {
		n = len(cv)
	}
	v := cv[vsym.Choice("v", n)]
	swap := vsym.Choice("swap", 2) == 1
	a := pt([...]int{0, 64, 21}[vsym.Choice("a", 3)], v[0], swap)
	b := pt(vsym.Int("b", 0, 64), v[1], swap)
	c := pt([...]int{64, 0, 33}[vsym.Choice("c", 3)], v[2], swap)
	d := pt(40, v[3], swap)
	if vsym.Thorough() {
		c = pt(vsym.Int("c", 0, 64), v[2], swap)
		d = pt([...]int{64, 7, 40}[vsym.Choice("d", 3)], v[3], swap)
	}
	r := raster.NewRasterizer(1, 1)
	r.UseNonZeroWinding = true
	r.Start(a)
	r.Add3(b, c, d)
	r.Add1(a)
	// signed area: a curve may cross its chord
	area20 := lib.Abs(6*cross(a, b) + 3*cross(a, c) - 9*cross(a, d) + 3*cross(b, c) + 3*cross(b, d) + 6*cross(c, d))
	e := 20*level(r) - area20
	vsym.Assert(e <= 20*tolCubic && e >= -20*tolCubic, "area of a cubic curve")
}

// rowArea is the area under a path to the foot of a row of pixels.
func rowArea(r *raster.Rasterizer, w int) int {
	var rec lib.Rec
	r.Rasterize(&rec)
	s := 0
	for x := 0; x < w; x++ {
		s += lib.A12(rec.At(x, 0))
	}
	return s
}

var rowq = [...][3]int{{0, 300, 0}, {0, 100, 448}, {0, 448, 448}, {0, -60, 250}, {448, 200, 0}, {30, 31, 300}}

// tolRow is about two 64ths of a pixel over the curve's length, of 4096 levels a
// pixel: the rounding of the split points dominates.
const tolRow = 900

// A quadratic curve over several pixels of a row.
func HQuadRow() {
	n := 3
	if vsym.Thorough() {
		n = len(rowq)
	}
	xs := rowq[vsym.Choice("x", n)]
	y := [3]int{4, 30, 50}
	k := vsym.Choice("k", 3)
	y[k] = vsym.Int("y", 0, 63)
	r := raster.NewRasterizer(7, 1)
	r.UseNonZeroWinding = true
	p := [3]fixed.Point26_6{}
	for i := range p {
		p[i] = lib.P(xs[i], y[i])
	}
	e, f := lib.P(xs[2], 64), lib.P(xs[0], 64)
	r.Start(p[0])
	r.Add2(p[1], p[2])
	r.Add1(e)
	r.Add1(f)
	r.Add1(p[0])
	a6 := 2*cross(p[0], p[1]) + 2*cross(p[1], p[2]) + cross(p[0], p[2]) + 3*(cross(p[2], e)+cross(e, f)+cross(f, p[0]))
	d := 6*rowArea(r, 7) - lib.Abs(a6)
	vsym.Assert(d <= 6*tolRow && d >= -6*tolRow, "area under a quadratic curve")
}

var rowc = [...][4]int{{0, 200, -67, 400}, {0, 50, 400, 448}, {0, 448, 0, 448}, {448, 300, 100, 0}, {0, 300, 300, 0}, {1, 0, 0, 420}}

// A cubic curve over several pixels of a row.
func HCubicRow() {
	n := 3
	if vsym.Thorough() {
		n = len(rowc)
	}
	xs := rowc[vsym.Choice("x", n)]
	y := [4]int{0, 15, 0, 30}
	k := vsym.Choice("k", 4)
	y[k] = vsym.Int("y", 0, 63)
	r := raster.NewRasterizer(7, 1)
	r.UseNonZeroWinding = true
	p := [4]fixed.Point26_6{}
	for i := range p {
		p[i] = lib.P(xs[i], y[i])
	}
	e, f := lib.P(xs[3], 64), lib.P(xs[0], 64)
	r.Start(p[0])
	r.Add3(p[1], p[2], p[3])
	r.Add1(e)
	r.Add1(f)
	r.Add1(p[0])
	a20 := 6*cross(p[0], p[1]) + 3*cross(p[0], p[2]) + cross(p[0], p[3]) + 3*cross(p[1], p[2]) + 3*cross(p[1], p[3]) + 6*cross(p[2], p[3]) + 10*(cross(p[3], e)+cross(e, f)+cross(f, p[0]))
	d := 20*rowArea(r, 7) - lib.Abs(a20)
	vsym.Assert(d <= 20*(tolRow+100) && d >= -20*(tolRow+100), "area under a cubic curve")
}

// A curve of many pixels that passes well away from its control points, wherever
// the origin is: how often it is split must depend on its shape alone.
func HBig() {
	w := 32
	p := []fixed.Point26_6{lib.P(0, 2000), lib.P(1000, 1000), lib.P(-333, -333), lib.P(2000, 0)}
	var o fixed.Point26_6
	if k := vsym.Choice("shape", 7); k == 0 {
		o = [...]fixed.Point26_6{lib.P(0, 64), lib.P(64, 64), lib.P(0, 100), lib.P(128, 64)}[vsym.Choice("at", 4)]
	} else {
		p = []fixed.Point26_6{lib.P(0, 0), lib.P(684, 684), lib.P(342, 1368), lib.P(0, 2052)}
		if k > 4 {
			p = p[:3]
			p[1], p[2] = lib.P(513, 1026), lib.P(0, 2052)
		}
		t := 171 * (vsym.Choice("skew", 6) - 3)
		for i := range p {
			p[i].X += fixed.Int26_6(t * i)
		}
		if k == 2 || k == 4 { // bent at the other end
			p[0], p[1], p[2], p[3] = p[3], p[2], p[1], p[0]
		}
		if k == 3 || k == 4 || k == 6 { // along the other axis
			for i := range p {
				p[i].X, p[i].Y = p[i].Y, p[i].X
			}
		}
		d := 342 * vsym.Choice("at", 11)
		w = 112
		o = lib.P(1710+1667, d+1667)
	}
	r := raster.NewRasterizer(w+2, w+2)
	r.UseNonZeroWinding = vsym.Bool("nonzero")
	for i := range p {
		p[i].X += o.X
		p[i].Y += o.Y
	}
	r.Start(p[0])
	if len(p) == 3 {
		r.Add2(p[1], p[2])
	} else {
		r.Add3(p[1], p[2], p[3])
	}
	r.Add1(p[0])
	var rec lib.Rec
	r.Rasterize(&rec)
	s := 0
	for i := range rec.Spans {
		s += lib.A12(int(rec.Spans[i].Alpha)) * (rec.Spans[i].X1 - rec.Spans[i].X0)
	}
	var a20 int
	if len(p) == 3 {
		a20 = lib.Abs(20*cross(p[0], p[1])+20*cross(p[1], p[2])-20*cross(p[0], p[2])) / 3
	} else {
		a20 = lib.Abs(6*cross(p[0], p[1]) + 3*cross(p[0], p[2]) - 9*cross(p[0], p[3]) + 3*cross(p[1], p[2]) + 3*cross(p[1], p[3]) + 6*cross(p[2], p[3]))
	}
	d := 20*s - a20
	vsym.Assert(d*50 <= a20 && d*50 >= -a20, "area of a large cubic curve")
}

// A curve with evenly spaced control points on a straight line within a pixel
// paints like the line.
func HStraight() {
	cubic := vsym.Choice("cubic", 2) == 1
	r, l := raster.NewRasterizer(1, 1), raster.NewRasterizer(1, 1)
	x, y := vsym.Int("x", 0, 8), vsym.Int("y", 0, 8)
	dx, dy := vsym.Int("dx", 0, 4), vsym.Int("dy", 0, 4)
	rx := vsym.Choice("left", 2) == 1
	p := func(i int) fixed.Point26_6 {
		q := lib.P(x+2*dx*i, y+2*dy*i)
		if rx {
			q.X = 64 - q.X
		}
		return q
	}
	e := fixed.Point26_6{X: [...]fixed.Int26_6{0, 64}[vsym.Choice("e", 2)], Y: p(6).Y}
	r.Start(p(0))
	l.Start(p(0))
	if cubic {
		r.Add3(p(2), p(4), p(6))
	} else {
		r.Add2(p(3), p(6))
	}
	l.Add1(p(6))
	for _, a := range [...]raster.Adder{r, l} {
		a.Add1(e)
		a.Add1(p(0))
	}
	d := level(r) - level(l)
	vsym.Assert(d <= 1 && d >= -1, "a straight curve paints like the line")
}

// The curve stays in the box of its control points, and the pen is at its end.
func HBox() {
	cubic := vsym.Choice("cubic", 2) == 1
	x := [4]int{70, 90, 120, 100}
	y := [4]int{66, 125, 120, 67}
	i := vsym.Choice("point", 4)
	x[i] = vsym.Int("x", 64, 128)
	if i == 3 {
		y[2] = 66
	}
	r := raster.NewRasterizer(3, 3)
	r.Start(lib.P(x[0], y[0]))
	if cubic {
		r.Add3(lib.P(x[1], y[1]), lib.P(x[2], y[2]), lib.P(x[3], y[3]))
	} else {
		r.Add2(lib.P(x[1], y[1]), lib.P(x[3], y[3]))
	}
	r.Add1(lib.P(64, 64))
	r.Add1(lib.P(x[0], y[0]))
	var rec lib.Rec
	r.Rasterize(&rec)
	for i := range rec.Spans {
		s := rec.Spans[i]
		vsym.Assert(s.Y == 1 && s.X0 == 1 && s.X1 == 2, "the curve stays in its box")
	}
}

// A curve bent by any amount can be split deeply enough, and is closed by the
// line drawn from its end.
func HDeep() {
	cubic := vsym.Choice("cubic", 2) == 1
	n := 6
	if vsym.Thorough() {
		n = 9
	}
	k := 1 << (6 + 2*vsym.Choice("k", n))
	w := [...]int{1, 30, 130}[vsym.Choice("w", 3)]
	r := raster.NewRasterizer(w, w)
	r.UseNonZeroWinding = true
	// the curve comes and goes to the left of the picture
	r.Start(lib.P(-70, 0))
	if cubic {
		r.Add3(lib.P(-70-k, 10), lib.P(-70-k, 30), lib.P(-70, 40))
	} else {
		r.Add2(lib.P(-70-k, 20), lib.P(-70, 40))
	}
	x := vsym.Int("x", 0, 64)
	r.Add1(lib.P(x, 40))
	r.Add1(lib.P(x, 0))
	r.Add1(lib.P(-70, 0))
	vsym.Assert(lib.Abs(level(r)-40*x) <= 1, "a curve bent to the left of the picture counts fully")
}

// tall curves are all in one column, and their Y coordinates increase.
var tallc = [...][4]int{{0, 0, 0, 1200}, {0, 1200, 1200, 1200}, {0, 400, 800, 1200}, {0, 0, 1200, 1200}, {30, 10, 700, 660}, {0, 1300, 0, 1300}}
var tallq = [...][3]int{{0, 0, 1200}, {0, 1200, 1200}, {0, 600, 1200}, {10, 200, 1290}}

// HTall: the area under a curve of many pixels along one axis but within a pixel
// along the other.
func HTall() {
	const rows = 21
	cubic := vsym.Choice("cubic", 2) == 1
	j := vsym.Choice("y", vsym.If(vsym.Thorough(), vsym.If(cubic, len(tallc), len(tallq)), 4))
	wide, big := j%2 == 0, j == 1
	if vsym.Thorough() {
		wide = vsym.Choice("wide", 2) == 1
		big = vsym.Choice("big", 2) == 1
	}
	x := []int{0, 50, 10, 63}
	free := func(j int) {
		k := (j + vsym.If(wide, 1, 0) + vsym.If(big, 2, 0)) % 4
		if vsym.Thorough() {
			k = vsym.Choice("k", 4)
		}
		x[k] = vsym.Int("x", 0, 63)
	}
	var p []fixed.Point26_6
	if cubic {
		free(j)
		y := tallc[j]
		for i := range y {
			p = append(p, pt(x[i], y[i], wide))
		}
	} else {
		free(j)
		y := tallq[j]
		for i := range y {
			p = append(p, pt(x[i], y[i], wide))
		}
	}
	w, h := 1, rows
	if wide {
		w, h = h, w
	}
	if big { // flatness depends on the size of the picture
		w, h = w+100, h+100
	}
	r := raster.NewRasterizer(w, h)
	r.UseNonZeroWinding = true
	n := len(p) - 1
	r.Start(p[0])
	var a20 int
	if cubic {
		r.Add3(p[1], p[2], p[3])
		a20 = 6*cross(p[0], p[1]) + 3*cross(p[0], p[2]) + cross(p[0], p[3]) + 3*cross(p[1], p[2]) + 3*cross(p[1], p[3]) + 6*cross(p[2], p[3])
	} else {
		r.Add2(p[1], p[2])
		a20 = (20*cross(p[0], p[1]) + 20*cross(p[1], p[2]) + 10*cross(p[0], p[2])) / 3
	}
	e, f := pt(0, int(p[n].Y), false), pt(0, int(p[0].Y), false)
	if wide {
		e, f = pt(int(p[n].X), 0, false), pt(int(p[0].X), 0, false)
	}
	r.Add1(e)
	r.Add1(f)
	r.Add1(p[0])
	a20 += 10 * (cross(p[n], e) + cross(e, f) + cross(f, p[0]))
	var rec lib.Rec
	r.Rasterize(&rec)
	s := 0
	for i := 0; i < rows; i++ {
		if wide {
			s += lib.A12(rec.At(i, 0))
		} else {
			s += lib.A12(rec.At(0, i))
		}
	}
	d := 20*s - lib.Abs(a20)
	// For the smallest pictures, an error of 3.5/64 of a pixel along the curve; the
	// flatness of a large one is four times coarser.
	tol := 4500
	if big {
		tol *= 4
	}
	vsym.Assert(d <= 20*tol && d >= -20*tol, "area under a long curve")
}
