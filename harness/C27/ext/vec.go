package c27

import (
	"github.com/golang/freetype/truetype"
	"github.com/golang/freetype/vsym"
	"github.com/golang/freetype/zzverif/lib"
)

// Unit vectors in 1/16384, and lines with those directions.
var dirs = []struct{ x, y, dx, dy int }{
	{16384, 0, 70, 0},
	{0, 16384, 0, 40},
	{-16384, 0, -3, 0},
	{0, -16384, 0, -900},
	{11585, 11585, 55, 55},
	{-11585, 11585, -300, 300},
	{9830, 13107, 60, 80},
	{9830, -13107, 3, -4},
	{-15133, 6280, -600, 249},
	{3554, 15994, 20, 90},
}

func near(a, b, tol int) bool { return lib.Abs(a-b) <= tol }

// HVectorToLine: the instructions that set vectors to a line.
func HVectorToLine() {
	k := vsym.Choice("line", len(dirs))
	rot := vsym.Choice("perpendicular", 2)
	d := dirs[k]
	l := &load{}
	l.pts = []lib.XY{{X: 100, Y: 30}, {X: 100 - d.dx, Y: 30 - d.dy}, {}, {X: 17}, {X: 18}, {X: 19}}
	x, y := d.x, d.y
	if rot == 1 {
		x, y = -y, x
	}
	// The vectors are y and x, if not set.
	l.Prog = []byte{0x02, 0x05}
	pv, fv := [2]int{0, 16384}, [2]int{16384, 0}
	switch vsym.Choice("instruction", 7) {
	case 0:
		l.emit(0x06+rot, 2, 3)
		pv = [2]int{x, y}
	case 1:
		l.emit(0x08+rot, 2, 3)
		fv = [2]int{x, y}
	case 2:
		l.emit(0x86+rot, 2, 3)
		pv = [2]int{x, y}
	case 3:
		l.emit(0x06+rot, 2, 3)
		l.emit(0x0e)
		pv = [2]int{x, y}
		fv = pv
	case 4:
		vsym.Assume(rot == 0)
		l.emit(0x0a, d.x, d.y)
		pv = [2]int{x, y}
	case 5:
		vsym.Assume(rot == 0)
		l.emit(0x0b, d.x, d.y)
		fv = [2]int{x, y}
	case 6:
		vsym.Assume(rot == 0 && k < 8) // any length is normalized
		l.emit(0x0a, d.x/3, d.y/3)
		pv = [2]int{x, y}
	}
	l.emit(0x0c)
	l.emit(0x0d)
	// Store them, then show them.
	for i := 3; i >= 0; i-- {
		l.Prog = lib.Cat(l.Prog, lib.Push(i), []byte{0x23, 0x42})
	}
	l.emit(0x00)
	for i := 0; i < 4; i++ {
		l.Prog = lib.Cat(l.Prog, lib.Push(i+4, i), []byte{0x43, 0x48})
	}
	ps := l.run(2, 3, 4, 5)
	tol := 3
	vsym.Assert(near(ps[2].y, pv[0], tol) && near(ps[3].y, pv[1], tol), "the projection vector")
	vsym.Assert(near(ps[4].y, fv[0], tol) && near(ps[5].y, fv[1], tol), "the freedom vector")
	if k < 4 {
		vsym.Assert(ps[2].y == pv[0] && ps[3].y == pv[1], "the projection vector")
		vsym.Assert(ps[4].y == fv[0] && ps[5].y == fv[1], "the freedom vector")
	}
}

// HDualVector: SDPVTL sets the dual vector to the original line, and the
// projection vector to the current one, and only the distances between original
// positions use the dual one.
func HDualVector() {
	l := &load{}
	l.pts = []lib.XY{{X: 100, Y: 30}, {X: 100, Y: -70}, {X: 40, Y: 50}, {}, {}, {}}
	a, b := vsym.Int("a", -500, 500), vsym.Int("b", -500, 500)
	l.pts[3].X, l.pts[3].Y = a, b
	// Move point 0 right, so that the line becomes diagonal.
	l.Prog = []byte{0x01}
	l.emit(0x38, 2, 100)
	rot := vsym.Choice("perpendicular", 2)
	want, v := [2]int{11585, 11585}, b
	switch vsym.Choice("twilight", 2) {
	case 0:
		l.emit(0x86+rot, 2, 3)
	case 1: // from a point to a twilight point that was above it, but moved right
		l.Cvt = []int{64}
		l.Prog = append(l.Prog, 0x00)
		l.emit(0x13, 0) // SZP0
		l.emit(0x3e, 1, 0)
		l.Prog = append(l.Prog, 0x01)
		l.emit(0x15, 0) // SZP2
		l.emit(0x38, 1, 72)
		l.emit(0x15, 1)
		l.emit(0x14, 0) // SZP1
		l.pts[2] = lib.XY{X: 0, Y: -8}
		l.emit(0x86+rot, 1, 4)
		l.emit(0x14, 1)
		l.emit(0x13, 1)
	}
	// The freedom vector does not matter.
	switch vsym.Choice("freedom", 4) {
	case 1:
		l.emit(0x08, 2, 4)
	case 2:
		l.emit(0x0e)
	case 3:
		l.emit(0x0b, 0, 0x4000)
	}
	l.emit(0x0c)
	l.Prog = lib.Cat(l.Prog, lib.Push(1), []byte{0x23, 0x42}, lib.Push(0), []byte{0x23, 0x42}, lib.Push(5), []byte{0x47},
		lib.Push(2), []byte{0x23, 0x42, 0x00},
		lib.Push(6, 0), []byte{0x43, 0x48}, lib.Push(7, 1), []byte{0x43, 0x48}, lib.Push(4, 2), []byte{0x43, 0x48})
	ps := l.run(0, 4, 5, 2)
	if rot == 1 {
		want, v = [2]int{-11585, 11585}, -a
	}
	vsym.Assert(ps[4].y == want[0] && ps[5].y == want[1], "the projection vector is along the current line")
	vsym.Assert(ps[2].y == v, "the dual projection vector is along the original line")
}

// HDiagonal: any moving instruction, with vectors of any direction.
//
//vsym:merge=3
func HDiagonal() {
	p, f := vsym.Choice("projection", len(dirs)), vsym.Choice("freedom", len(dirs))
	if !vsym.Thorough() {
		vsym.Assume((2*p+3*f)%7 == 1)
	}
	P, F := dirs[p], dirs[f]
	dot := (P.x*F.x + P.y*F.y) >> 14
	vsym.Assume(lib.Abs(dot) > 0x1000)
	l := &load{}
	// Point 0 is the reference, point 1 moves.
	l.pts = []lib.XY{{X: 120, Y: -45}, {X: -60, Y: 77}, {X: 11}}
	d := 83
	if vsym.Choice("symbolic", 2) == 0 {
		l.pts[1].X = vsym.Int("x", -200, 200)
	} else {
		d = vsym.Int("d", -200, 200)
	}
	l.emit(0x0a, P.x, P.y)
	l.emit(0x0b, F.x, F.y)
	l.emit(0x10, 2)
	l.Cvt = []int{d}
	what := vsym.Choice("instruction", 6)
	rel, dist := 0, d
	switch what {
	case 0:
		l.emit(0x38, 3, d)
	case 1:
		l.emit(0x3a, 3, d)
		rel = 1
	case 2:
		l.emit(0x48, 3, d)
	case 3:
		l.emit(0x3c, 3)
		rel, dist = 1, 0
	case 4:
		l.emit(0x3e, 3, 0)
	case 5: // the point keeps its original distance from a moved reference
		l.emit(0x38, 2, 150)
		l.emit(0xc0, 3)
	}
	if what == 5 {
		ps := l.run(0, 1)
		dx0, dy0 := ps[0].x-120, ps[0].y+45
		dx1, dy1 := ps[1].x-l.pts[1].X, ps[1].y-77
		vsym.Assert(near(dx0*16384, 150*F.x, 16384) && near(dy0*16384, 150*F.y, 16384), "SHPIX moves along the freedom vector")
		vsym.Assert(near(dx1, dx0, 3) && near(dy1, dy0, 3), "the original distance")
		return
	}
	ps := l.run(1)
	dx, dy := ps[1].x-l.pts[1].X, ps[1].y-77
	vsym.Assert(ps[1].tx == (F.x != 0) && ps[1].ty == (F.y != 0), "the point is touched where it can move")
	if what == 0 {
		vsym.Assert(near(dx*16384, d*F.x, 16384) && near(dy*16384, d*F.y, 16384), "the amount along the freedom vector")
		return
	}
	vsym.Assert(near(dx*F.y, dy*F.x, 16384+8192), "the point moves along the freedom vector")
	x, y := ps[1].x-rel*120, ps[1].y+rel*45
	vsym.Assert(near(x*P.x+y*P.y, dist*16384, 3*16384), "the distance along the projection vector")
}

// HMeasureDiagonal: GC and MD project on the vector.
//
//vsym:merge=3
func HMeasureDiagonal() {
	P := dirs[vsym.Choice("projection", len(dirs))]
	l := &load{}
	l.pts = []lib.XY{{X: 120, Y: -45}, {X: vsym.Int("x", -500, 500), Y: 77}, {X: 11}}
	l.emit(0x0a, P.x, P.y)
	l.emit(0x00 + 0x05) // freedom: x
	x, y := l.pts[1].X, 77
	what := vsym.Choice("what", 3)
	switch what {
	case 0, 1:
		l.Prog = lib.Cat(l.Prog, lib.Push(3), []byte{byte(0x46 + what)})
	case 2:
		l.Prog = lib.Cat(l.Prog, lib.Push(3, 2), []byte{0x49})
		x, y = x-120, y+45
	}
	l.Prog = append(l.Prog, 0x00)
	l.Prog = lib.Cat(l.Prog, lib.Push(4), []byte{0x23, 0x48})
	ps := l.run(2)
	vsym.Assert(near(ps[2].y*16384, x*P.x+y*P.y, 16384), "the projection")
}

// HScale: at a scale that is not one unit per 1/64 pixel, distances in font
// units are scaled, and others are not.
//
//vsym:merge=3
func HScale() {
	scale := []int{160, 45, 96}[vsym.Choice("scale", 3)]
	sc := func(v int) int {
		n := v * scale
		return vsym.If(n < 0, -((32 - n) / 64), (n+32)/64)
	}
	h := &lib.Hint{Scale: scale, Twilight: 2, Cvt: []int{0, 75}}
	v := vsym.Int("v", -200, 200)
	pts := []lib.XY{{X: 30, Y: 0, On: true}, {X: 110, Y: 5, On: true}, {X: -20, Y: 0, On: true}}
	emit := func(op int, args ...int) { h.Prog = append(append(h.Prog, lib.Push(args...)...), byte(op)) }
	h.Prog = []byte{0x01}
	emit(0x38, 0, 37) // move the reference
	emit(0x10, 0)
	cur := func(i int) int { return sc(pts[i].X) }
	want := [3]int{sc(30) + 37, sc(110), sc(-20)}
	switch vsym.Choice("what", 7) {
	case 0: // MDRP
		pts[1].X = v
		emit(0xc0, 1)
		want[1] = want[0] + sc(v-30)
	case 1: // single width
		sw := vsym.Int("single width", 0, 200)
		emit(0x1e, 20000)
		emit(0x1f, sw)
		emit(0xc0, 1)
		emit(0xc0, 2)
		want[1], want[2] = want[0]+sc(sw), want[0]-sc(sw)
	case 2: // the cut-ins and the minimum distance are in pixels
		d := vsym.Int("minimum", 0, 900)
		emit(0x1a, d)
		emit(0xc8, 1)
		o := sc(80)
		want[1] = want[0] + vsym.If(o < d, d, o)
	case 3: // MD of the original outline
		pts[1].X = v
		h.Prog = append(h.Prog, lib.Push(2, 1, 0)...)
		h.Prog = append(h.Prog, 0x4a, 0x38) // shifts point 2 by it
		got := int(scaled(h, pts)[2].X) - cur(2)
		vsym.Assert(lib.Abs(got-sc(v-30)) <= 1, "the distance in pixels")
		return
	case 4: // MIRP
		h.Cvt[1] = v
		emit(0xe0, 1, 1)
		want[1] = want[0] + vsym.If(sc(v) < 0, -sc(v), sc(v)) // as on the right as it was
	case 5: // MIAP
		h.Cvt[1] = v
		emit(0x3e, 1, 1)
		want[1] = sc(v)
	case 6: // MSIRP is in pixels
		emit(0x3a, 1, v)
		want[1] = want[0] + v
	}
	ps := scaled(h, pts)
	for i, p := range ps {
		vsym.Assert(int(p.X) == vsym.If(i < 3, want[i%3], 0), "positions")
	}
}

func scaled(h *lib.Hint, pts []lib.XY) []truetype.Point {
	h.Contours = [][]lib.XY{pts}
	ps := h.MustLoad()
	vsym.Assert(len(ps) == len(pts), "the points")
	if len(ps) != len(pts) {
		vsym.Skip()
	}
	return ps
}

// HDualUses: the dual vector is y and the projection vector x: each instruction
// measures original distances along the former, current ones along the latter.
//
//vsym:merge=3
func HDualUses() {
	h := &lib.Hint{Twilight: 2, Cvt: []int{vsym.Int("cvt", 0, 200)}}
	y := vsym.Int("y", -300, 300)
	pts := []lib.XY{{X: 100, Y: 30, On: true}, {X: 100, Y: -70, On: true}, {X: 40, Y: 50, On: true}, {X: -30, Y: y, On: true}, {X: 260, Y: 150, On: true}}
	want := []lib.XY{{X: 200, Y: -70}, pts[1], pts[2], pts[3], pts[4]}
	emit := func(op int, args ...int) { h.Prog = append(append(h.Prog, lib.Push(args...)...), byte(op)) }
	h.Prog = []byte{0x01}
	emit(0x38, 0, 100)
	h.Prog = append(h.Prog, 0x00)
	emit(0x38, 0, -100)
	h.Prog = append(h.Prog, 0x05)
	emit(0x86, 0, 1)
	emit(0x10, 2)
	o := y - 50
	switch vsym.Choice("instruction", 6) {
	case 0: // MDRP
		emit(0xc0, 3)
		want[3].X = 40 + o
	case 1: // MIRP
		emit(0xe0, 3, 0)
		want[3].X = 40 + vsym.If(o < 0, -h.Cvt[0], h.Cvt[0])
	case 2: // MIRP, with the cut-in
		h.Prog = append(h.Prog, 0x7a)
		emit(0x1d, 30)
		emit(0xe4, 3, 0)
		d := vsym.If(o < 0, -h.Cvt[0], h.Cvt[0])
		want[3].X = 40 + vsym.If(d-o > 30 || o-d > 30, o, d)
	case 3: // IP
		emit(0x11, 2)
		emit(0x12, 4)
		emit(0x39, 3)
		n := o * 220
		want[3].X = 40 + vsym.If(n < 0, -((50 - n) / 100), (n+50)/100)
	case 4: // GC of the original position
		h.Prog = append(h.Prog, lib.Push(2, 3)...)
		h.Prog = append(h.Prog, 0x47, 0x48)
		want[2].X = y
	case 5: // MD of the original positions
		h.Prog = append(h.Prog, lib.Push(2, 3, 4)...)
		h.Prog = append(h.Prog, 0x4a, 0x48)
		want[2].X = y - 150
	}
	for i, p := range scaled(h, pts) {
		vsym.Assert(int(p.X) == want[i].X && int(p.Y) == want[i].Y, "positions")
	}
}
