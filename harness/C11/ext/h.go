package c11

import (
	"github.com/golang/freetype/raster"
	"github.com/golang/freetype/vsym"
	"github.com/golang/freetype/zzverif/lib"
	"golang.org/x/image/math/fixed"
)

type pt = fixed.Point26_6

type op struct {
	k       int
	b, c, d pt
}

func (o op) end() pt {
	switch o.k {
	case 2:
		return o.c
	case 3:
		return o.d
	}
	return o.b
}

type rec struct{ ops []op }

func (r *rec) Start(a pt)      { r.ops = append(r.ops, op{k: 0, b: a}) }
func (r *rec) Add1(b pt)       { r.ops = append(r.ops, op{k: 1, b: b}) }
func (r *rec) Add2(b, c pt)    { r.ops = append(r.ops, op{k: 2, b: b, c: c}) }
func (r *rec) Add3(b, c, d pt) { r.ops = append(r.ops, op{k: 3, b: b, c: c, d: d}) }

// dirs are segment vectors of many directions, at least a pixel long.
var dirs = [...][2]int{
	{128, 0}, {0, 128}, {-128, 0}, {0, -128},
	{96, 128}, {-120, 64}, {300, -7}, {50, 51}, {-45, -46}, {-3, 200}, {100, -70}, {-64, -300},
	{640, 640}, {64, -80}, {-400, 100}, {9, 65},
}

func abs(x int) int { return lib.Abs(x) }

// near asserts |a-b| <= tol.
func near(a, b, tol int, what string) { vsym.Assert(abs(a-b) <= tol, what) }

// isNormal asserts that n is the left-hand normal of v with length u, up to
// rounding: v's length is rounded down to 1/64 pixel, and so are n's
// coordinates.
func isNormal(n pt, vx, vy, u int, what string) {
	nx, ny := int(n.X), int(n.Y)
	// perpendicular and on the left (y grows downwards): n ~ (vy, -vx)*u/|v|
	vsym.Assert(abs(nx*vx+ny*vy) <= abs(vx)+abs(vy), what+": perpendicular")
	vsym.Assert(nx*vy-ny*vx >= 0, what+": on the left of its segment")
	// length: along each axis u*|v_i|/|v|, where |v| was rounded down to an
	// integer of at least 64
	if l := length64(vx, vy); l > 0 {
		check := func(c, v int) {
			c, v = abs(c), abs(v)
			vsym.Assert(c*63*l <= u*v*64*64, what+": not longer than half the width")
			vsym.Assert((c+1)*(l+1) >= u*v*64, what+": not shorter than half the width")
		}
		check(nx, vy)
		check(ny, vx)
		return
	}
	s := vx*vx + vy*vy
	check := func(c, v int) {
		c, v = abs(c), abs(v)
		vsym.Assert(c*c*s*63*63 <= u*u*v*v*64*64, what+": not longer than half the width")
		vsym.Assert((c+1)*(c+1)*s >= u*u*v*v, what+": not shorter than half the width")
	}
	check(nx, vy)
	check(ny, vx)
}

// length64 is 64 times the length of a fixed vector, rounded down.
func length64(vx, vy int) int {
	if free {
		return 0
	}
	s, l := (vx*vx+vy*vy)<<12, 0
	for b := 1 << 20; b > 0; b >>= 1 {
		if (l+b)*(l+b) <= s {
			l += b
		}
	}
	return l
}

// free is set when the direction is symbolic.
var free bool

func sub(a, b pt) pt { return pt{X: a.X - b.X, Y: a.Y - b.Y} }
func add(a, b pt) pt { return pt{X: a.X + b.X, Y: a.Y + b.Y} }
func neg(a pt) pt    { return pt{X: -a.X, Y: -a.Y} }

// reader walks over the recorded calls.
type reader struct {
	ops []op
	i   int
	pen pt
}

func (r *reader) next(kind int, what string) op {
	if r.i >= len(r.ops) {
		vsym.Assert(false, what+": something is missing")
		vsym.Skip()
	}
	o := r.ops[r.i]
	if o.k != kind {
		vsym.Assert(false, what+": another kind of segment")
		vsym.Skip()
	}
	r.i++
	r.pen = o.end()
	return o
}

func (r *reader) line(to pt, what string) {
	o := r.next(1, what)
	vsym.Assert(o.b == to, what)
}

const (
	butt = iota
	square
	round
)

const (
	bevel = iota
	roundJ
)

// cap checks a cap from pivot+n around the end to pivot-n; the path runs
// outwards in direction (-n.Y, n.X), which has n's length.
func (r *reader) cap(kind int, pivot, n pt, what string) {
	ext := pt{X: -n.Y, Y: n.X}
	switch kind {
	case butt:
		r.line(sub(pivot, n), what+": butt cap ends at the path end")
	case square:
		r.line(add(add(pivot, n), ext), what+": square cap, first corner")
		r.line(add(sub(pivot, n), ext), what+": square cap, second corner")
		r.line(sub(pivot, n), what+": square cap, end")
	case round:
		a := r.pen
		o := r.next(3, what)
		vsym.Assert(o.d == add(pivot, ext), what+": round cap passes through the point half a width beyond")
		circ := func(o op, a, da, dd pt) {
			// (sqrt(2)-1)*4/3 = 0.5523 = 35.35/64
			for _, z := range [...][2]int{
				{int(o.b.X - a.X), int(da.X)}, {int(o.b.Y - a.Y), int(da.Y)},
				{int(o.d.X - o.c.X), int(dd.X)}, {int(o.d.Y - o.c.Y), int(dd.Y)},
			} {
				near(64*z[0], 35*z[1], 64+abs(z[1]), what+": round cap is a circle")
			}
		}
		circ(o, a, ext, neg(n))
		mid := r.pen
		o = r.next(3, what)
		vsym.Assert(o.d == sub(pivot, n), what+": round cap, end")
		circ(o, mid, neg(n), neg(ext))
	}
}

// arc checks an arc around pivot from pivot+n0 (the pen) to pivot+n1, turning
// the way of sgn by at most 180 degrees.
func (r *reader) arc(pivot, n0, n1 pt, u int, what string) {
	if r.i < len(r.ops) && r.ops[r.i].k == 1 { // collapsed
		vsym.Assert(u < 34, what+": an arc, unless the radius is below half a pixel")
		r.line(add(pivot, n1), what)
		return
	}
	turn := int(n0.X)*int(n1.Y) - int(n0.Y)*int(n1.X)
	p := n0
	for k := 0; k < 5; k++ {
		o := r.next(2, what)
		e, c := sub(o.c, pivot), sub(o.b, pivot)
		ex, ey, cx, cy := int(e.X), int(e.Y), int(c.X), int(c.Y)
		px, py := int(p.X), int(p.Y)
		lo, hi := u-5-u/32, u+4+u/32
		vsym.Assert(ex*ex+ey*ey >= lo*lo && ex*ex+ey*ey <= hi*hi, what+": on the circle")
		// the middle of the quadratic, times 4
		mx, my := px+2*cx+ex, py+2*cy+ey
		vsym.Assert(mx*mx+my*my >= 16*lo*lo && mx*mx+my*my <= 16*hi*hi, what+": along the circle")
		// a quarter and three quarters of the way along, times 16
		for _, z := range [...]pt{{X: fixed.Int26_6(9*px + 6*cx + ex), Y: fixed.Int26_6(9*py + 6*cy + ey)}, {X: fixed.Int26_6(px + 6*cx + 9*ex), Y: fixed.Int26_6(py + 6*cy + 9*ey)}} {
			zx, zy := int(z.X), int(z.Y)
			vsym.Assert(zx*zx+zy*zy >= 256*lo*lo && zx*zx+zy*zy <= 256*hi*hi, what+": all along the circle")
		}
		// at most 45 degrees at a time (cos 45 = 0.707), in the right direction
		vsym.Assert(px*ex+py*ey >= lo*lo*5/8, what+": in small steps")
		cr := px*ey - py*ex
		tol := 4*u + 64
		vsym.Assert(cr >= -tol && turn >= -tol || cr <= tol && turn <= tol, what+": the shorter way")
		p = e
		if r.i >= len(r.ops) || r.ops[r.i].k != 2 {
			break
		}
	}
	vsym.Assert(r.pen == add(pivot, n1), what+": ends at the next segment's side")
}

func caps(k int) raster.Capper {
	return [...]raster.Capper{raster.ButtCapper, raster.SquareCapper, raster.RoundCapper}[k]
}

// outline checks the whole outline of a polyline with n points.
func outline(ops []op, ps []pt, vs [][2]int, u, ck, jk int) {
	r := &reader{ops: ops}
	n := len(ps)
	o := r.next(0, "start")
	norm := make([]pt, n)
	norm[0] = sub(o.b, ps[0])
	isNormal(norm[0], vs[0][0], vs[0][1], u, "first side point")
	outer := make([]bool, n) // the arc is on the right-hand side
	for i := 1; i < n; i++ {
		r.line(add(ps[i], norm[i-1]), "left side runs along its segment")
		if i == n-1 {
			break
		}
		// join
		n0 := norm[i-1]
		cross := vs[i-1][0]*vs[i][1] - vs[i-1][1]*vs[i][0]
		// within a few degrees of straight on or back either side will do
		dot := vs[i-1][0]*vs[i][0] + vs[i-1][1]*vs[i][1]
		right := cross < 0
		if 16*abs(cross) <= abs(dot) {
			right = r.i < len(ops) && ops[r.i].k == 1 && r.i+1 < len(ops) && ops[r.i+1].k == 1
		}
		if jk == bevel || right {
			outer[i] = true
			o := r.next(1, "join")
			norm[i] = sub(o.b, ps[i])
		} else {
			// find where the arc ends
			j := r.i
			for j < len(ops) && ops[j].k == 2 {
				j++
			}
			if j == r.i {
				j++
			}
			if j > len(ops) {
				vsym.Assert(false, "join: missing")
				vsym.Skip()
			}
			norm[i] = sub(ops[j-1].end(), ps[i])
			r.arc(ps[i], n0, norm[i], u, "left join")
		}
		isNormal(norm[i], vs[i][0], vs[i][1], u, "next side point")
	}
	last := ps[n-1]
	r.cap(ck, last, norm[n-2], "end cap")
	// back along the other side
	for i := n - 2; i >= 0; i-- {
		r.line(sub(ps[i], norm[i]), "right side runs along its segment")
		if i == 0 {
			break
		}
		if jk == bevel || !outer[i] {
			r.line(sub(ps[i], norm[i-1]), "right join")
		} else {
			r.arc(ps[i], neg(norm[i]), neg(norm[i-1]), u, "right join")
		}
	}
	r.cap(ck, ps[0], neg(norm[0]), "start cap")
	vsym.Assert(r.pen == ops[0].b, "the outline is closed")
	vsym.Assert(r.i == len(ops), "one outline and nothing else")
}

func start() pt {
	return pt{X: fixed.Int26_6(vsym.I32("x", -100000, 100000)), Y: fixed.Int26_6(vsym.I32("y", -100000, 100000))}
}

func step(p pt, v [2]int) pt { return add(p, lib.P(v[0], v[1])) }

func path(ps []pt) raster.Path {
	var q raster.Path
	q.Start(ps[0])
	for _, p := range ps[1:] {
		q.Add1(p)
	}
	return q
}

// HSegment: one segment from the table, any position, any width.
func HSegment() {
	v := dirs[vsym.Choice("dir", len(dirs))]
	w := vsym.Int("width", 2, 400)
	a := start()
	ps := []pt{a, step(a, v)}
	k := vsym.Choice("cap", 3)
	var r rec
	raster.Stroke(&r, path(ps), fixed.Int26_6(w), caps(k), raster.BevelJoiner)
	outline(r.ops, ps, [][2]int{v}, w/2, k, bevel)
}

// HFree: one segment of any direction within a range.
func HFree() {
	free = true
	dx := vsym.Int("dx", -150, 150)
	dy := [...]int{64, -90, 205}[vsym.Choice("dy", 2)]
	w := 65
	if vsym.Thorough() {
		dx = vsym.Int("dx", -300, 300)
		dy = [...]int{64, -90, 205}[vsym.Choice("dy", 3)]
		w = [...]int{20, 65, 300}[vsym.Choice("width", 3)]
	}
	v := [2]int{dx, dy}
	if vsym.Choice("swap", 2) == 1 {
		v = [2]int{dy, dx}
	}
	a := lib.P(10, 20)
	b := step(a, v)
	var q raster.Path
	q.Start(a)
	q.Add1(b)
	var r rec
	raster.Stroke(&r, q, fixed.Int26_6(w), raster.ButtCapper, raster.BevelJoiner)
	vsym.Assert(len(r.ops) == 5, "one outline")
	n := sub(r.ops[0].b, a)
	isNormal(n, v[0], v[1], w/2, "side point")
}

// HBevel: three points.
func HBevel() {
	i := vsym.Choice("dir0", len(dirs))
	j := (5*i + 3 + 6*vsym.Choice("turn", 2)) % len(dirs)
	if vsym.Thorough() {
		j = vsym.Choice("dir1", len(dirs))
	}
	v0, v1 := dirs[i], dirs[j]
	w := vsym.Int("width", 2, 400)
	a := start()
	b := step(a, v0)
	ps := []pt{a, b, step(b, v1)}
	k := vsym.Choice("cap", 2)
	var r rec
	raster.Stroke(&r, path(ps), fixed.Int26_6(w), caps(k), raster.BevelJoiner)
	outline(r.ops, ps, [][2]int{v0, v1}, w/2, k, bevel)
}

// HRound: three points, joined by an arc.
func HRound() {
	v0 := dirs[vsym.Choice("dir0", len(dirs))]
	v1 := dirs[vsym.Choice("dir1", len(dirs))]
	w := vsym.Int("width", 2, 1300)
	if !vsym.Thorough() {
		w = [...]int{40, 85, 300, 1280}[vsym.Choice("width", 4)]
	}
	a := start()
	b := step(a, v0)
	ps := []pt{a, b, step(b, v1)}
	var r rec
	raster.Stroke(&r, path(ps), fixed.Int26_6(w), raster.ButtCapper, raster.RoundJoiner)
	outline(r.ops, ps, [][2]int{v0, v1}, w/2, butt, roundJ)
}

// HCustom: caps and joins of the caller's own are given the right arguments,
// and what they add to the other side is walked backwards.
func HCustom() {
	v0 := dirs[vsym.Choice("dir0", len(dirs))]
	v1 := [2]int{v0[1] + 30, 64 - v0[0]}
	w := vsym.Int("width", 2, 400)
	a := start()
	b := step(a, v0)
	c := step(b, v1)
	ps := []pt{a, b, c}
	type call struct {
		u             fixed.Int26_6
		pivot, n0, n1 pt
	}
	var joins, cs []call
	var f [6]pt
	for i := range f {
		f[i] = pt{X: fixed.Int26_6(vsym.I32("fx", -1000, 1000)), Y: fixed.Int26_6(vsym.I32("fy", -1000, 1000))}
	}
	j := raster.JoinerFunc(func(lhs, rhs raster.Adder, u fixed.Int26_6, pivot, n0, n1 pt) {
		joins = append(joins, call{u, pivot, n0, n1})
		lhs.Add2(f[0], pivot.Add(n1))
		rhs.Add3(f[1], f[2], f[3])
		rhs.Add2(f[4], f[5])
		rhs.Add1(pivot.Sub(n1))
	})
	k := raster.CapperFunc(func(p raster.Adder, u fixed.Int26_6, pivot, n1 pt) {
		cs = append(cs, call{u: u, pivot: pivot, n1: n1})
		p.Add1(pivot.Add(n1))
	})
	var r rec
	raster.Stroke(&r, path(ps), fixed.Int26_6(w), k, j)
	u := w / 2
	vsym.Assert(len(joins) == 1 && len(cs) == 2, "one join at each inner vertex and two caps")
	n0, n1 := joins[0].n0, joins[0].n1
	isNormal(n0, v0[0], v0[1], u, "join's first normal")
	isNormal(n1, v1[0], v1[1], u, "join's second normal")
	vsym.Assert(int(joins[0].u) == u && joins[0].pivot == b, "join at the vertex with half the width")
	vsym.Assert(int(cs[0].u) == u && cs[0].pivot == c && cs[0].n1 == neg(n1), "end cap at the end with half the width")
	vsym.Assert(int(cs[1].u) == u && cs[1].pivot == a && cs[1].n1 == n0, "start cap at the start with half the width")
	want := []op{
		{k: 0, b: add(a, n0)}, {k: 1, b: add(b, n0)},
		{k: 2, b: f[0], c: add(b, n1)}, {k: 1, b: add(c, n1)},
		{k: 1, b: sub(c, n1)}, // cap
		{k: 1, b: sub(b, n1)},
		{k: 1, b: f[5]}, {k: 2, b: f[4], c: f[3]}, {k: 3, b: f[2], c: f[1], d: sub(b, n0)},
		{k: 1, b: sub(a, n0)},
		{k: 1, b: add(a, n0)},
	}
	vsym.Assert(len(r.ops) == len(want), "outline along one side and back along the other")
	for i := range want {
		if i < len(r.ops) {
			o := r.ops[i]
			vsym.Assert(o.k == want[i].k && o.b == want[i].b && o.c == want[i].c && o.d == want[i].d, "the other side is walked backwards")
		}
	}
}

// curves are quadratics of many shapes: shallow, sharp, straight, reversing.
var curves = [...][6]int{
	{0, 0, 300, 0, 300, 300},
	{0, 0, 200, 40, 500, 60},
	{0, 0, 100, 400, 200, 10},
	{0, 0, -300, 100, 40, 220},
	{0, 0, 256, 0, 512, 0},
	{0, 0, 20, 400, 40, 0},
	{0, 0, 400, 5, 100, 30},
	{0, 0, -150, -150, -160, -500},
	{0, 0, 150, 150, 600, 160},
	{0, 0, 50, -60, 10, -90},
	{0, 0, 5, 6, 200, 300},
}

// HQuad: the outline of a quadratic stays half the width from the curve.
func HQuad() {
	ci := vsym.Choice("curve", len(curves))
	c := curves[ci]
	w := vsym.Int("width", 40, 160)
	if !vsym.Thorough() {
		w = 30 + vsym.Int("width", 10, 40)
	}
	u := w / 2
	var q raster.Path
	q.Start(lib.P(c[0], c[1]))
	q.Add2(lib.P(c[2], c[3]), lib.P(c[4], c[5]))
	var r rec
	raster.Stroke(&r, q, fixed.Int26_6(w), raster.ButtCapper, raster.BevelJoiner)
	vsym.Assert(len(r.ops) > 4 && r.ops[0].k == 0, "an outline")
	const n = 32
	var sx, sy [n + 1]int
	for i := 0; i <= n; i++ {
		j := n - i
		sx[i] = (c[0]*j*j + 2*c[2]*i*j + c[4]*i*i) / (n * n)
		sy[i] = (c[1]*j*j + 2*c[3]*i*j + c[5]*i*i) / (n * n)
	}
	hi, lo := u+10, u-7
	dist := func(p pt) int {
		d := 1 << 40
		for i := range sx {
			x, y := int(p.X)-sx[i], int(p.Y)-sy[i]
			d = lib.Min(d, x*x+y*y)
		}
		return d
	}
	pen := r.ops[0].b
	for i, o := range r.ops {
		vsym.Assert(i == 0 || o.k != 0, "one outline")
		e := o.end()
		if o.k == 2 { // halfway along
			m := pt{X: (pen.X + 2*o.b.X + e.X) / 4, Y: (pen.Y + 2*o.b.Y + e.Y) / 4}
			d := dist(m)
			vsym.Assert(d <= (hi+10)*(hi+10), "outline within half the width of the curve")
			vsym.Assert(ci != 0 && ci != 1 && ci != 4 || d >= lo*lo, "outline half the width from a smooth curve")
		}
		pen = e
		d := dist(e)
		vsym.Assert(d <= hi*hi, "outline within half the width of the curve")
		vsym.Assert(ci != 0 && ci != 1 && ci != 4 || d >= lo*lo, "outline half the width from a smooth curve")
	}
	vsym.Assert(r.ops[len(r.ops)-1].end() == r.ops[0].b, "the outline is closed")
	if abs(c[2]) < 20 {
		return
	}
	isNormal(sub(r.ops[0].b, lib.P(c[0], c[1])), c[2]-c[0], c[3]-c[1], u, "first side point")
}

// HTiny: segments and widths of next to nothing do not crash.
func HTiny() {
	ps := []pt{lib.P(10, 20)}
	for i := 0; i < 3; i++ {
		ps = append(ps, add(ps[i], lib.P(vsym.Choice("x", 3)-1, vsym.Choice("y", 3)-1)))
	}
	w := fixed.Int26_6(vsym.Choice("w", 3) * 35)
	var q raster.Path
	q.Start(ps[0])
	q.Add2(ps[1], ps[2])
	q.Add1(ps[3])
	var r rec
	raster.Stroke(&r, q, w, nil, nil)
	vsym.Assert(len(r.ops) > 4, "an outline")
	vsym.Assert(r.ops[len(r.ops)-1].end() == r.ops[0].b, "the outline is closed")
	for i, o := range r.ops {
		e := sub(o.end(), ps[0])
		vsym.Assert((o.k == 0) == (i == 0), "one outline")
		vsym.Assert(abs(int(e.X)) < 60 && abs(int(e.Y)) < 60, "near the path")
	}
}

// bends are curves that turn by up to 150 degrees.
var bends = [...][6]int{
	{0, 0, 300, 0, 300, 300},
	{0, 0, 200, 40, 500, 60},
	{0, 0, 400, 300, 100, 500},
	{0, 0, -600, 500, 40, 820},
	{0, 0, 1200, 0, 500, 400},
	{0, 0, -150, -450, -260, -300},
	{0, 0, 900, 900, 2100, 160},
	{0, 0, 130, -900, -110, -990},
	{0, 0, 256, 0, 512, 0},
	{0, 0, 5, 300, 600, 300},
}

// HArea: the signed area of a curve's outline is its length times the width, up
// to 8.5 percent: normals are rounded down.
// tips are curves that go straight to a point and back, nearly the same way.
var tips = [...][6]int{
	{0, 0, 5, 400, 10, 0},
	{0, 0, -5, 400, -10, 0},
	{0, 0, -440, 4, 0, 8},
	{0, 0, 440, 3, -20, 7},
	{0, 0, 304, 298, 8, -4},
	{0, 0, 304, 298, -8, 4},
	{0, 0, 301, -303, -6, 4},
	{0, 0, -350, -353, 1, 5},
}

// The outline of a curve that turns back leads around its tip, on its outer side.
func HTip() {
	c := tips[vsym.Choice("curve", len(tips))]
	w := 2 * ([...]int{56, 30, 41}[vsym.Choice("width", vsym.If(vsym.Thorough(), 3, 2))] + vsym.Int("half width", 0, 5))
	u := w / 2
	b := lib.P(10, 20)
	at := func(i int) pt { return step(b, [2]int{c[i], c[i+1]}) }
	var q raster.Path
	q.Start(at(0))
	q.Add2(at(2), at(4))
	var r rec
	raster.Stroke(&r, q, fixed.Int26_6(w), raster.ButtCapper, raster.BevelJoiner)
	vsym.Assert(len(r.ops) > 4 && r.ops[0].k == 0, "an outline")
	// how far it gets in the direction of the tip, as a multiple of m
	m := isqrt(c[2]*c[2] + c[3]*c[3])
	far := func(p pt) int { p = sub(p, b); return int(p.X)*c[2] + int(p.Y)*c[3] }
	best, left, right := 0, 0, 0
	cr := func(p, q pt) int {
		p, q = sub(p, b), sub(q, b)
		return int(p.X)*int(q.Y) - int(q.X)*int(p.Y)
	}
	area6 := 0
	pen := r.ops[0].b
	for _, o := range r.ops[1:] {
		e := o.end()
		if o.k == 2 {
			area6 += 2*cr(pen, o.b) + 2*cr(o.b, o.c) + cr(pen, o.c)
		} else {
			area6 += 3 * cr(pen, e)
		}
		best = lib.Max(best, far(e))
		v := sub(e, b)
		side := int(v.X)*c[3] - int(v.Y)*c[2]
		left = lib.Max(left, far(e)+side)
		right = lib.Max(right, far(e)-side)
		pen = e
	}
	tip := 0
	for i := 0; i <= 64; i++ {
		j := 64 - i
		tip = lib.Max(tip, (2*c[2]*i*j+c[4]*i*i)*c[2]+(2*c[3]*i*j+c[5]*i*i)*c[3])
	}
	tip /= 64 * 64
	vsym.Assert(best >= tip+m*(u-3) && best <= tip+m*(u+3), "the outline leads around the tip")
	if u > 40 { // an arc of such a radius is not straight
		vsym.Assert(7*left >= 7*tip+m*(10*u-50) && 7*right >= 7*tip+m*(10*u-50), "the outline is round at the tip")
	}
	// there and back, and half a circle
	want := 12*((2*tip-c[4]*c[2]-c[5]*c[3])/m)*u + 6*u*u*11/7
	d := area6 - want
	vsym.Assert(100*d >= -8*want && 100*d <= 3*want, "the area of the outline")
}

func HArea() {
	c := bends[vsym.Choice("curve", len(bends))]
	w := [...]int{61, 100, 192, 64, 150, 120}[vsym.Choice("width", vsym.If(vsym.Thorough(), 6, 3))]
	size := 2 * (vsym.Choice("size", 2) + 1)
	b := lib.P(10, 20)
	for i := range c {
		c[i] *= size
	}
	at := func(i int) pt { return step(b, [2]int{c[i], c[i+1]}) }
	var q raster.Path
	q.Start(at(0))
	q.Add2(at(2), at(4))
	var r rec
	raster.Stroke(&r, q, fixed.Int26_6(w), raster.ButtCapper, raster.BevelJoiner)
	vsym.Assert(len(r.ops) > 4 && r.ops[0].k == 0, "an outline")
	area6 := r.area6(b)
	const n = 64
	length, px, py := 0, 0, 0
	for i := 1; i <= n; i++ {
		j := n - i
		x := (2*c[2]*i*j + c[4]*i*i) * 16 / (n * n)
		y := (2*c[3]*i*j + c[5]*i*i) * 16 / (n * n)
		length += isqrt((x-px)*(x-px) + (y-py)*(y-py))
		px, py = x, y
	}
	want := 6 * length * (w / 2) * 2 / 16
	d := area6 - want
	vsym.Assert(200*d >= -17*want && 200*d <= 3*want, "the outline's area")
}

func isqrt(s int) int {
	l := 0
	for b := 1 << 20; b > 0; b >>= 1 {
		if (l+b)*(l+b) <= s {
			l += b
		}
	}
	return l
}

// area6 is six times the signed area of the outline.
func (r *rec) area6(b pt) int {
	cr := func(p, q pt) int {
		p, q = sub(p, b), sub(q, b)
		return int(p.X)*int(q.Y) - int(q.X)*int(p.Y)
	}
	area := 0
	pen := r.ops[0].b
	for _, o := range r.ops[1:] {
		if o.k == 2 {
			area += 2*cr(pen, o.b) + 2*cr(o.b, o.c) + cr(pen, o.c)
		} else {
			area += 3 * cr(pen, o.end())
		}
		pen = o.end()
	}
	return area
}

// HShort: a curve whose control point is very near one of its ends is as wide
// as any other all along.
func HShort() {
	vs := [...][2]int{{256, 0}, {0, -300}, {-180, 200}, {250, 170}}
	v := vs[vsym.Choice("curve", len(vs))]
	w := [...]int{128, 240, 61}[vsym.Choice("width", 3)]
	d := lib.P(vsym.Int("dx", -20, 20), vsym.Int("dy", -20, 20))
	b := lib.P(10, 20)
	c := step(b, v)
	at := b
	if vsym.Choice("end", 2) == 1 {
		at = c
	}
	var q raster.Path
	q.Start(b)
	q.Add2(add(at, d), c)
	e := c
	l := isqrt(v[0]*v[0] + v[1]*v[1])
	if vsym.Choice("next", 2) == 1 { // straight on
		e = step(c, v)
		q.Add1(e)
		l *= 2
	}
	var r rec
	raster.Stroke(&r, q, fixed.Int26_6(w), raster.ButtCapper, raster.BevelJoiner)
	vsym.Assert(len(r.ops) > 4 && r.ops[0].k == 0, "an outline")
	want := 6 * l * (w / 2) * 2
	g := r.area6(b) - want
	vsym.Assert(100*g >= -14*want && 100*g <= 14*want, "the outline's area")
	lim := w/2 + 25
	for _, o := range r.ops {
		p := sub(o.end(), b)
		x := abs(int(p.X)*v[1] - int(p.Y)*v[0])
		vsym.Assert(x <= lim*(isqrt(v[0]*v[0]+v[1]*v[1])+1), "outline within half the width of the curve")
	}
	vsym.Assert(r.ops[len(r.ops)-1].end() == r.ops[0].b, "the outline is closed")
}
