package c10

import (
	"github.com/golang/freetype/raster"
	"github.com/golang/freetype/vsym"
	"github.com/golang/freetype/zzverif/lib"
	"golang.org/x/image/math/fixed"
)

type op struct {
	k       int
	b, c, d fixed.Point26_6
}

// rec is an Adder that keeps the calls.
type rec struct{ ops []op }

func (r *rec) Start(a fixed.Point26_6)      { r.ops = append(r.ops, op{k: 0, b: a}) }
func (r *rec) Add1(b fixed.Point26_6)       { r.ops = append(r.ops, op{k: 1, b: b}) }
func (r *rec) Add2(b, c fixed.Point26_6)    { r.ops = append(r.ops, op{k: 2, b: b, c: c}) }
func (r *rec) Add3(b, c, d fixed.Point26_6) { r.ops = append(r.ops, op{k: 3, b: b, c: c, d: d}) }

func apply(a raster.Adder, o op) {
	switch o.k {
	case 0:
		a.Start(o.b)
	case 1:
		a.Add1(o.b)
	case 2:
		a.Add2(o.b, o.c)
	default:
		a.Add3(o.b, o.c, o.d)
	}
}

func same(a, b op) bool {
	return a.k == b.k && a.b == b.b && a.c == b.c && a.d == b.d
}

func anyPt(name string) fixed.Point26_6 {
	return fixed.Point26_6{
		X: fixed.Int26_6(vsym.I32(name+".x", -1<<31, 1<<31-1)),
		Y: fixed.Int26_6(vsym.I32(name+".y", -1<<31, 1<<31-1)),
	}
}

func anyOp(kinds int) op {
	o := op{k: vsym.Choice("kind", kinds)}
	o.b = anyPt("b")
	if o.k >= 2 {
		o.c = anyPt("c")
	}
	if o.k == 3 {
		o.d = anyPt("d")
	}
	return o
}

func samePath(p, q raster.Path, what string) {
	vsym.Assert(len(p) == len(q), what)
	for i := range p {
		if i < len(q) {
			vsym.Assert(p[i] == q[i], what)
		}
	}
}

// HAppend: AddPath onto a Path equals making the calls directly, whatever the
// Path held and was used for before.
func HAppend() {
	var p, q, direct raster.Path
	n, m := vsym.Choice("n", 3), 1+vsym.Choice("m", 2)
	if vsym.Choice("used", 2) == 1 {
		apply(&p, anyOp(4))
		p.Clear()
		vsym.Assert(len(p) == 0, "Clear empties the Path")
	}
	for i := 0; i < n; i++ {
		o := anyOp(4)
		apply(&p, o)
		apply(&direct, o)
	}
	for i := 0; i < m; i++ {
		o := anyOp(4)
		apply(&q, o)
		apply(&direct, o)
	}
	keep := append(raster.Path(nil), q...)
	p.AddPath(q)
	samePath(p, direct, "AddPath appends exactly the other Path")
	samePath(q, keep, "AddPath leaves the added Path alone")
	// the two are independent afterwards
	q.Clear()
	apply(&q, anyOp(2))
	samePath(p, direct, "changing the added Path later changes nothing")
}

// shape is concrete, so that only the order and the pairing of the values
// matters, with one coordinate free.
func shape(rot int) []op {
	f := fixed.Int26_6(64*(1+vsym.Choice("px", 2))) + fixed.Int26_6(vsym.I32("fr", 0, 63))
	a := []op{
		{k: 0, b: lib.P(20, 30)},
		{k: 1, b: lib.P(200, 64)},
		{k: 2, b: lib.P(230, 140), c: lib.P(130, 190)},
		{k: 3, b: lib.P(110, 140), c: lib.P(30, 230), d: lib.P(10, 90)},
		{k: 0, b: lib.P(70, 70)},
		{k: 1, b: lib.P(90, 140)},
		{k: 1, b: lib.P(140, 120)},
		{k: 2, b: lib.P(100, 60), c: lib.P(70, 70)},
	}
	switch rot {
	case 0: // a vertical move only, so that the line stays cheap
		a[1].b = lib.P(200, 30)
		a[1].b.X = f
		a[0].b = lib.P(20, 30)
		return append(a[:2:2], op{k: 1, b: lib.P(128, 192)}, op{k: 1, b: lib.P(20, 30)})
	case 1:
		return append(append([]op{}, a[4:]...), a[:4]...)
	case 2:
		return append(a[:4:4], a[2], a[3], a[0], a[3], a[2])
	}
	return a
}

// HRasterizer: AddPath onto a Rasterizer equals making the calls directly.
func HRasterizer() {
	ops := shape(vsym.Choice("shape", 4))
	a, b := raster.NewRasterizer(4, 4), raster.NewRasterizer(4, 4)
	a.UseNonZeroWinding, b.UseNonZeroWinding = true, true
	var p raster.Path
	for _, o := range ops {
		apply(&p, o)
		apply(a, o)
	}
	b.AddPath(p)
	var ra, rb lib.Rec
	a.Rasterize(&ra)
	b.Rasterize(&rb)
	vsym.Assert(len(ra.Spans) > 0, "something is painted")
	lib.Same(&ra, &rb, "AddPath paints what the calls paint")
}

// HKinds: every order of segment kinds decodes to the same pixels.
func HKinds() {
	pts := [...]fixed.Point26_6{lib.P(200, 40), lib.P(150, 170), lib.P(60, 220), lib.P(30, 100),
		lib.P(100, 10), lib.P(220, 120), lib.P(180, 230), lib.P(90, 150), lib.P(140, 20), lib.P(10, 60), lib.P(130, 200), lib.P(210, 90)}
	a, b := raster.NewRasterizer(4, 4), raster.NewRasterizer(4, 4)
	var p raster.Path
	n, k := 3, 0
	if vsym.Thorough() {
		n = 4
	}
	for i := 0; i < n; i++ {
		o := op{k: vsym.Choice("kind", 4), b: pts[k], c: pts[(k+1)%12], d: pts[(k+2)%12]}
		if i == 0 {
			o.k = 0
		}
		k++
		if o.k > 1 {
			k += o.k - 1
		}
		apply(&p, o)
		apply(a, o)
	}
	b.AddPath(p)
	var ra, rb lib.Rec
	a.Rasterize(&ra)
	b.Rasterize(&rb)
	lib.Same(&ra, &rb, "AddPath paints what the calls paint")
}

// HBadTag: a segment tag that is not a segment's is rejected, wherever it is.
func HBadTag() {
	var p raster.Path
	n := vsym.Choice("n", 3)
	for i := 0; i < n; i++ {
		switch vsym.Choice("kind", 3) {
		case 0:
			p.Start(lib.P(10*i, 70))
		case 1:
			p.Add1(lib.P(100-10*i, 10))
		default:
			p.Add2(lib.P(40, 10*i), lib.P(10, 70))
		}
	}
	bad := fixed.Int26_6(vsym.I32("tag", -1<<31, 1<<31-1))
	vsym.Assume(bad < 0 || bad > 3)
	p = append(p, bad, 64, 64, bad)
	if vsym.Choice("more", 2) == 1 {
		p.Add1(lib.P(5, 5))
		p.Add1(lib.P(55, 5))
	}
	if vsym.Choice("stroke", 2) == 1 {
		var r rec
		vsym.Assert(vsym.Catch(func() { raster.Stroke(&r, p, 20, nil, nil) }), "Stroke rejects an unknown segment")
		return
	}
	r := raster.NewRasterizer(4, 4)
	vsym.Assert(vsym.Catch(func() { r.AddPath(p) }), "AddPath rejects an unknown segment")
}

// HNoStart: a Path to be stroked has to start a curve.
func HNoStart() {
	var p raster.Path
	bad := fixed.Int26_6(vsym.I32("tag", -1<<31, 1<<31-1))
	vsym.Assume(bad != 0)
	p = append(p, bad, 64, 64, bad)
	p.Add1(lib.P(5, 5))
	p.Add1(lib.P(105, 5))
	var r rec
	vsym.Assert(vsym.Catch(func() { raster.Stroke(&r, p, 20, raster.ButtCapper, raster.BevelJoiner) }), "Stroke rejects a Path without a Start")
}

// HTruncated: a Path cut off within a segment's points is rejected.
func HTruncated() {
	var p raster.Path
	p.Start(lib.P(10, 10))
	if vsym.Choice("line", 2) == 1 {
		p.Add1(lib.P(90, 30))
	}
	k := len(p)
	o := op{k: vsym.Choice("kind", 4), b: anyPt("b"), c: anyPt("c"), d: anyPt("d")}
	apply(&p, o)
	cut := k + 1 + vsym.Choice("cut", 7)
	if cut >= len(p)-1 { // the trailing tag carries no point
		vsym.Skip()
	}
	p = append(make(raster.Path, 0, cut), p[:cut]...)
	if vsym.Choice("stroke", 2) == 1 {
		var r rec
		vsym.Assert(vsym.Catch(func() { raster.Stroke(&r, p, 20, raster.ButtCapper, raster.BevelJoiner) }), "Stroke rejects a cut off segment")
		return
	}
	r := raster.NewRasterizer(4, 4)
	vsym.Assert(vsym.Catch(func() { r.AddPath(p) }), "AddPath rejects a cut off segment")
}

func sameOps(a, b []op, what string) {
	vsym.Assert(len(a) == len(b), what)
	for i := range a {
		if i < len(b) {
			vsym.Assert(same(a[i], b[i]), what)
		}
	}
}

// HCurves: stroking a Path of several curves strokes each of them, in order,
// and stroking with nil caps and joins uses round ones.
func HCurves() {
	var all raster.Path
	var want rec
	var f fixed.Int26_6
	if vsym.Choice("free", 2) == 1 {
		f = fixed.Int26_6(vsym.I32("f", -4, 4))
	}
	var cr raster.Capper
	var jr raster.Joiner
	wcr, wjr := raster.RoundCapper, raster.RoundJoiner
	switch vsym.Choice("style", 3) {
	case 1:
		cr, jr = raster.ButtCapper, raster.BevelJoiner
		wcr, wjr = cr, jr
	case 2:
		cr, jr = raster.SquareCapper, raster.RoundJoiner
		wcr, wjr = cr, jr
	}
	n := 1 + vsym.Choice("n", 3)
	for i := 0; i < n; i++ {
		var one raster.Path
		x := 300 * i
		one.Start(lib.P(x+10, 20))
		switch vsym.Choice("curve", 4) {
		case 0:
		case 1:
			one.Add1(fixed.Point26_6{X: fixed.Int26_6(x+120) + f, Y: 20})
		case 2:
			one.Add1(lib.P(x+120, 60))
			one.Add1(lib.P(x+90, 160))
		case 3:
			one.Add2(lib.P(x+120, 60), lib.P(x+100, 180))
			one.Add1(lib.P(x+20, 150))
		}
		raster.Stroke(&want, one, 30, wcr, wjr)
		all.AddPath(one)
	}
	var got rec
	keep := append(raster.Path(nil), all...)
	raster.Stroke(&got, all, 30, cr, jr)
	sameOps(got.ops, want.ops, "every curve is stroked by itself, in order")
	samePath(all, keep, "Stroke leaves its Path alone")
	// AddStroke appends the same outline to a Path
	var p, q raster.Path
	p.Start(lib.P(1, 2))
	q.Start(lib.P(1, 2))
	p.AddStroke(all, 30, cr, jr)
	for _, o := range got.ops {
		apply(&q, o)
	}
	samePath(p, q, "AddStroke appends the stroke")
	var none rec
	raster.Stroke(&none, nil, 30, cr, jr)
	vsym.Assert(len(none.ops) == 0, "an empty Path has no stroke")
}
