package c27

import (
	"github.com/golang/freetype/vsym"
	"github.com/golang/freetype/zzverif/lib"
)

// far is a contour that keeps the bounding box concrete.
var far = []lib.XY{{X: -20000, Y: -20000, On: true}, {X: 20000, Y: 20000, On: true}}

type load struct {
	lib.Hint
	pts []lib.XY // the points after those of far
}

// run loads pts hinted by prog, and checks that all points but those listed are
// unchanged and untouched.
func (l *load) run(except ...int) []point {
	l.Contours = [][]lib.XY{far, l.pts}
	l.Twilight = 10
	ps := l.MustLoad()
	vsym.Assert(len(ps) == len(l.pts)+2, "the points")
	r := make([]point, len(ps)-2)
	for i, p := range ps {
		q := point{x: int(p.X), y: int(p.Y), on: p.Flags&1 != 0, tx: p.Flags&0x40 != 0, ty: p.Flags&0x80 != 0}
		if i < 2 {
			vsym.Assert(q.x == far[i].X && q.y == far[i].Y && q.on && !q.tx && !q.ty, "other contours")
			continue
		}
		i -= 2
		r[i] = q
		skip := false
		for _, j := range except {
			skip = skip || i == j
		}
		if !skip {
			vsym.Assert(q.x == l.pts[i].X && q.y == l.pts[i].Y && !q.tx && !q.ty, "other points")
			vsym.Assert(q.on == l.pts[i].On, "other flags")
		}
	}
	return r
}

type point struct {
	x, y       int
	on, tx, ty bool
}

func (l *load) emit(op int, args ...int) {
	if len(args) > 0 {
		l.Prog = append(l.Prog, lib.Push(args...)...)
	}
	l.Prog = append(l.Prog, byte(op))
}

// HIP: IP keeps the proportions of the original distances.
//
//vsym:merge=3
func HIP() {
	axis := vsym.Choice("axis", 3)
	m := newModel(axis)
	m.set([8]int{10, 60, 310, 460, -70, 310, 10, 0})
	m.cvt = [3]int{0, 45, -30}
	switch vsym.Choice("scene", 6) {
	case 5: // only the interpolated point is a twilight point
		m.SZP(0, 0)
		m.MIAP(0, 1, 1)
		m.SZP(0, 1)
		m.SHPIX(vsym.Int("d0", -300, 300), 0)
		m.SRP(1, 0)
		m.SRP(2, 2)
		m.SZP(2, 0)
		m.ip(1)
		m.SZPS(0)
		m.SRP(0, 1)
		m.SZPS(1)
		m.show(6, 1)
		m.check()
		return
	case 0:
		m.SHPIX(vsym.Int("d0", -300, 300), 0)
		m.SHPIX(5, 3) // has no influence
		m.SHPIX(41, 2)
	case 1:
		m.SHPIX(29, 0)
		m.SHPIX(-12, 1)
		m.SHPIX(vsym.Int("d2", -300, 300), 2)
	case 2: // the references are in the order 2, 0
		m.SHPIX(vsym.Int("d2", -300, 300), 2)
		m.SRP(1, 2)
		m.SRP(2, 0)
		m.ip(1, 3, 4, 5, 6)
		m.check()
		return
	case 3: // rp1 is a twilight point
		m.SZP(0, 0)
		m.MIAP(0, 2, 1)
		m.SZP(2, 0)
		m.SHPIX(vsym.Int("d0", -300, 300), 2)
		m.SZP(2, 1)
		m.SRP(1, 2)
		m.SRP(2, 2)
		m.ip(1, 3, 4)
		m.check()
		return
	case 4: // a twilight point moves
		m.SZPS(0)
		m.MIAP(0, 0, 1)
		m.MIAP(0, 1, 2)
		m.MIAP(0, 2, 0)
		m.SHPIX(vsym.Int("d", -300, 300), 1)
		m.SRP(1, 1)
		m.SRP(2, 2)
		m.ip(0)
		m.SZPS(1)
		m.show(6, 0)
		m.check()
		return
	}
	m.SRP(1, 0)
	m.SRP(2, 2)
	m.ip(vsym.Choice("point", 2)+3, 1)
	m.ip(5, 6)
	m.check()
}

// ip is exact, rounding to nearest; positions are in original units.
func (m *model) ip(is ...int) {
	m.list(is)
	m.emit(0x39)
	o1, c1 := m.o[m.zp[0]][m.rp[1]], m.c[m.zp[0]][m.rp[1]]
	or, cr := m.o[m.zp[1]][m.rp[2]]-o1, m.c[m.zp[1]][m.rp[2]]-c1
	if or < 0 {
		or, cr = -or, -cr
	}
	for _, i := range is {
		n := (m.o[m.zp[2]][i] - o1) * cr
		h := or >> 1
		d := vsym.If(n < 0, -((h - n) / or), (n+h)/or)
		m.to(m.zp[2], i, c1+d)
	}
}

// HISECT: the point goes to the intersection of the two current lines.
//
//vsym:merge=3
func HISECT() {
	k, v := vsym.Int("k", -500, 500), 0
	l := &load{}
	// 0: moved, 1-2: line a, 3-4: line b.
	l.pts = []lib.XY{{X: 7, Y: 9}, {X: 0}, {X: 400}, {}, {}, {X: 700, Y: 3}}
	a0, a1, b0, b1 := &l.pts[1], &l.pts[2], &l.pts[3], &l.pts[4]
	var x, y, tol int
	switch vsym.Choice("lines", 7) {
	case 0:
		v = vsym.Int("v", -500, 500)
		a0.Y, a1.Y = k, k
		b0.X, b0.Y, b1.X, b1.Y = v, -100, v, 300
		x, y = v, k
	case 1:
		v = vsym.Int("v", -500, 500)
		a0.X, a0.Y, a1.X, a1.Y = k, 77, k, 5
		b0.X, b0.Y, b1.X, b1.Y = 9, v, -340, v
		x, y, tol = k, v, 1
	case 2: // y = x, x + y = k
		a1.Y = 400
		b0.X, b0.Y, b1.X, b1.Y = k, 0, k-300, 300
		x, y, tol = k/2, k/2, 1
	case 3: // y = x/2 + k, x = 130
		a0.Y, a1.Y = k, k+200
		b0.X, b0.Y, b1.X, b1.Y = 130, 20, 130, -60
		x, y, tol = 130, k+65, 1
	case 4: // x = -y/4 + k, y = 3x/4
		a0.X, a0.Y, a1.X, a1.Y = k, 0, k-100, 400
		b1.X, b1.Y = 400, 300
		x, y, tol = 16*k/19, 12*k/19, 2
	case 5: // about 15 degrees: y = x/4 + k, y = 0
		a0.Y, a1.Y = k, k+100
		b0.X, b1.X = -200, 200
		x, y, tol = -4*k, 0, 4
	case 6: // the lines move first
		a0.Y, a1.Y = 10, 10
		b0.X, b0.Y, b1.X, b1.Y = 50, -100, 50, 300
		l.Prog = lib.Cat([]byte{0}, lib.Push(3, 4, 2), []byte{0x17}, lib.Push(k), []byte{0x38},
			[]byte{1}, lib.Push(5, 6, 2), []byte{0x17}, lib.Push(21), []byte{0x38})
		x, y = 71, 10+k
		l.emit(0x0f, 2, 3, 4, 5, 6)
		ps := l.run(0, 1, 2, 3, 4)
		vsym.Assert(ps[0].x == x && ps[0].y == y, "the intersection of the moved lines")
		vsym.Assert(ps[0].tx && ps[0].ty, "the point is touched")
		vsym.Assert(ps[1].y == 10+k && ps[2].y == 10+k && ps[3].x == 71 && ps[4].x == 71, "the lines stay")
		return
	}
	l.emit(vsym.Choice("vector", 2))
	l.emit(0x0f, 2, 3, 4, 5, 6)
	ps := l.run(0)
	vsym.Assert(lib.Abs(ps[0].x-x) <= tol && lib.Abs(ps[0].y-y) <= tol, "the intersection of the lines")
	vsym.Assert(ps[0].tx && ps[0].ty, "the point is touched")
}

// HISECTZones: the zone pointers that ISECT uses.
//
//vsym:merge=3
func HISECTZones() {
	k := vsym.Int("k", -500, 500)
	l := &load{}
	l.pts = []lib.XY{{X: 7, Y: 9}, {X: 0, Y: 40}, {X: 400, Y: 40}, {X: 90, Y: 0}, {X: 90, Y: 300}, {X: 700, Y: 3}}
	// Twilight points 0 and 1 are on a line with the same y = k, or the same x.
	h := vsym.Choice("horizontal", 2)
	l.emit(0x16, 0)
	l.emit(1)
	l.emit(0x38, 0, -200*h+k*(1-h))
	l.emit(0x38, 1, 200*h+k*(1-h))
	l.emit(0)
	l.emit(0x38, 0, -200*(1-h)+k*h)
	l.emit(0x38, 1, 200*(1-h)+k*h)
	l.emit(0x16, 1)
	if h == 1 {
		l.emit(0x14, 0)             // zp1: the first line
		l.emit(0x0f, 2, 0, 1, 5, 6) // a: twilight
	} else {
		l.emit(0x13, 0)
		l.emit(0x0f, 2, 3, 4, 0, 1)
	}
	ps := l.run(0)
	x, y := 90, k
	if h == 0 {
		x, y = k, 40
	}
	vsym.Assert(ps[0].x == x && ps[0].y == y, "the intersection of the lines")
	vsym.Assert(ps[0].tx && ps[0].ty, "the point is touched")
}

// HDELTAP: a delta instruction at 12 pixels per em.
//
//vsym:merge=3
func HDELTAP() {
	kind, shift := vsym.Choice("kind", 3), vsym.Choice("shift", 7)
	base := 9 - 16*kind
	arg := vsym.Int("arg", 0, 255)
	l := &load{}
	l.Upem, l.Scale = 768, 768
	for i := 0; i < 4; i++ {
		l.pts = append(l.pts, lib.XY{X: 100 * i, Y: 7 * i, On: true})
	}
	axis := vsym.Choice("axis", 2)
	l.emit(axis)
	if vsym.Choice("defaults", 2) == 1 {
		vsym.Assume(kind == 0 && shift == 3)
	} else {
		l.emit(0x5e, base)
		l.emit(0x5f, shift)
	}
	op := []int{0x5d, 0x71, 0x72}[kind]
	l.emit(op, 0x3f, 3, arg, 2, 0x38, 4, 3)
	ps := l.run(0, 1, 2)
	unit := 64 >> uint(shift)
	amount := func(arg int) int {
		n := arg&15 - 8
		n = vsym.If(n >= 0, n+1, n)
		return vsym.If(arg>>4 == 3, n*unit, 0)
	}
	for i, a := range []int{arg, 0x3f, 0x38} {
		d, p := amount(a), ps[i]
		dx, dy, tx, ty := p.x-l.pts[i].X, p.y-l.pts[i].Y, p.tx, p.ty
		if axis == 0 {
			dx, dy, tx, ty = dy, dx, ty, tx
		}
		vsym.Assert(dx == d && dy == 0, "the point moves by its delta")
		vsym.Assert(tx == (a>>4 == 3) && !ty, "the point is touched if moved")
	}
}

// HDELTAC: a control value changes by its delta.
//
//vsym:merge=3
func HDELTAC() {
	kind, shift := vsym.Choice("kind", 3), vsym.Choice("shift", 7)
	base := 9 - 16*kind
	arg := vsym.Int("arg", 0, 255)
	l := &load{}
	l.Upem, l.Scale = 768, 768
	for i := 0; i < 4; i++ {
		l.pts = append(l.pts, lib.XY{X: 100 * i, Y: 7 * i, On: true})
	}
	l.Cvt = []int{50, 60, vsym.Int("cvt", -900, 900), 80}
	l.emit(0x5e, base)
	l.emit(0x5f, shift)
	l.emit(0x00)
	l.emit([]int{0x73, 0x74, 0x75}[kind], arg, 2, 0x38, 1, 2)
	for i := range l.Cvt {
		l.Prog = lib.Cat(l.Prog, lib.Push(i+2, i), []byte{0x45, 0x48})
	}
	ps := l.run(0, 1, 2, 3)
	unit := 64 >> uint(shift)
	n := arg&15 - 8
	n = vsym.If(n >= 0, n+1, n)
	d := []int{0, unit, vsym.If(arg>>4 == 3, n*unit, 0), 0}
	for i := range l.Cvt {
		vsym.Assert(ps[i].y == l.Cvt[i]+d[i], "the control value changes by its delta")
	}
}

// HDeltaSizes: at any other size a delta does nothing.
//
//vsym:merge=3
func HDeltaSizes() {
	scale := []int{64 * 9, 64*9 + 31, 64*9 - 32, 64 * 10, 64 * 24, 64 * 25, 64 * 41, 64 * 56, 64 * 57}[vsym.Choice("size", 9)]
	arg := vsym.Int("arg", 0, 255)
	kind := vsym.Choice("kind", 3)
	l := &load{}
	l.Upem, l.Scale = scale, scale
	l.pts = []lib.XY{{X: 0, Y: 0}, {X: 100, Y: 50}}
	l.emit([]int{0x5d, 0x71, 0x72}[kind], arg, 3, 1)
	ps := l.run(1)
	n := arg&15 - 8
	n = vsym.If(n >= 0, n+1, n)
	d := vsym.If(arg>>4+9+16*kind == (scale+32)>>6, n*8, 0)
	vsym.Assert(ps[1].x == 100+d && ps[1].y == 50, "the point moves by its delta at its size")
}

// HFlip: FLIPPT, FLIPRGON and FLIPRGOFF change exactly the flags they name.
func HFlip() {
	i, j := vsym.Choice("first", 6), vsym.Choice("last", 6)
	l := &load{}
	for k := 0; k < 6; k++ {
		l.pts = append(l.pts, lib.XY{X: 10 * k, Y: vsym.Int("y", -90, 90), On: k == 0 || k == 3 || k == 4})
	}
	op := vsym.Choice("op", 3)
	if op == 2 {
		l.Prog = lib.Cat(lib.Push(i+2, j+2, 2), []byte{0x17, 0x80})
	} else {
		l.emit(0x81+op, i+2, j+2)
	}
	ps := l.run(0, 1, 2, 3, 4, 5)
	for k, p := range ps {
		on := l.pts[k].On
		switch {
		case op == 2 && i != j && (k == i || k == j):
			on = !on
		case op < 2 && i <= k && k <= j:
			on = op == 0
		}
		vsym.Assert(p.on == on, "the flags")
		vsym.Assert(p.x == l.pts[k].X && p.y == l.pts[k].Y && !p.tx && !p.ty, "no point moves")
	}
}

// HMeasure: GC and MD measure current and original coordinates.
//
//vsym:merge=3
func HMeasure() {
	axis := vsym.Choice("axis", 3)
	m := setup(axis)
	m.begin(any("d0"))
	var v int
	switch vsym.Choice("what", 6) {
	case 0:
		m.prog = append(m.prog, lib.Push(6+first, 2+first)...)
		m.emit(0x46)
		v = m.c[1][2]
	case 1:
		m.prog = append(m.prog, lib.Push(6+first, 2+first)...)
		m.emit(0x47)
		v = m.o[1][2]
	case 2:
		m.prog = append(m.prog, lib.Push(6+first, 2+first, 1+first)...)
		m.emit(0x49)
		v = m.c[1][2] - m.c[1][1]
	case 3:
		m.prog = append(m.prog, lib.Push(6+first, 2+first, 1+first)...)
		m.emit(0x4a)
		v = m.o[1][2] - m.o[1][1]
	case 4: // with a twilight point
		m.twilight()
		m.SZP(1, 0)
		m.prog = append(m.prog, lib.Push(6+first, 2+first, 1+first)...)
		m.emit(0x49)
		v = m.c[1][2] - m.c[0][1]
	case 5:
		m.twilight()
		m.SZP(0, 0)
		m.prog = append(m.prog, lib.Push(6+first, 1+first, 2+first)...)
		m.emit(0x4a)
		v = m.o[0][1] - m.o[1][2]
	}
	m.emit(0x48)
	m.to(1, 6, v)
	m.check()
}
