package c28

import (
	"github.com/golang/freetype/truetype"
	"github.com/golang/freetype/vsym"
	"github.com/golang/freetype/zzverif/lib"
	"golang.org/x/image/font"
)

// scene is a glyph with a contour of two far points, and two contours of points
// hinted along one axis. Positions are in font units, moves in 1/64 pixel.
type scene struct {
	axis    int // 1: x, 0: y
	ends    [2]int
	pos     []int // by point of both contours
	off     []int // positions on the other axis
	d       []int
	touched []bool
	scale   int // 64: a unit is 1/64 pixel
	last    int // 1: the far points come last
	head    []byte
}

func newScene(axis, n int, pos ...int) *scene {
	s := &scene{axis: axis, ends: [2]int{n, len(pos)}, pos: pos, scale: 64}
	s.d, s.touched = make([]int, len(pos)), make([]bool, len(pos))
	for i := range pos {
		s.off = append(s.off, 37*i%200)
	}
	return s
}

// touch moves a point by d.
func (s *scene) touch(i, d int) {
	s.d[i], s.touched[i] = d, true
}

// scaled is the unhinted position.
func (s *scene) scaled(x int) int {
	if s.scale == 64 {
		return x
	}
	n := x * s.scale
	return vsym.If(n >= 0, (n+32)/64, -((32 - n) / 64))
}

func (s *scene) check(tail ...byte) {
	h := lib.Hint{Upem: 64, Scale: s.scale}
	n := len(s.pos)
	var cs [2][]lib.XY
	for i, p := range s.pos {
		q := lib.XY{X: p, Y: s.off[i], On: true}
		if s.axis == 0 {
			q.X, q.Y = q.Y, q.X
		}
		k := 0
		if i >= s.ends[0] {
			k = 1
		}
		cs[k] = append(cs[k], q)
	}
	far0 := []lib.XY{{X: -9000, Y: -9000, On: true}, {X: 9000, Y: 9000, On: true}}
	base, fi := 2, 0
	if s.last == 0 {
		h.Contours = [][]lib.XY{far0}
	}
	for _, c := range cs {
		if len(c) > 0 {
			h.Contours = append(h.Contours, c)
		}
	}
	if s.last == 1 {
		h.Contours = append(h.Contours, far0)
		base, fi = 0, n
	}
	h.Prog = append([]byte{byte(s.axis)}, s.head...)
	for i := range s.pos {
		if s.touched[i] {
			h.Prog = lib.Cat(h.Prog, lib.Push(i+base, s.d[i]), []byte{0x38})
		}
	}
	h.Prog = append(h.Prog, byte(0x30+s.axis))
	h.Prog = append(h.Prog, tail...)
	ps := h.MustLoad()
	vsym.Assert(len(ps) == n+2, "the points")
	far := 9000 * s.scale / 64
	vsym.Assert(int(ps[fi].X) == -far && int(ps[fi].Y) == -far && int(ps[fi+1].X) == far && int(ps[fi+1].Y) == far, "a contour with no touched point is unchanged")
	for i := 0; i < n; i++ {
		p := ps[i+base]
		got, other := int(p.X), int(p.Y)
		if s.axis == 0 {
			got, other = other, got
		}
		vsym.Assert(other == s.scaled(s.off[i]), "the other axis is unchanged")
		was := s.scaled(s.pos[i])
		if s.touched[i] {
			vsym.Assert(got == was+s.d[i], "touched points stay")
			continue
		}
		first, end := 0, s.ends[0]
		if i >= s.ends[0] {
			first, end = s.ends[0], n
		}
		size := end - first
		// the touched neighbours
		prev, next := -1, -1
		for k := 1; k < size; k++ {
			if j := first + (i-first+k)%size; s.touched[j] && next < 0 {
				next = j
			}
			if j := first + (i-first+size-k)%size; s.touched[j] && prev < 0 {
				prev = j
			}
		}
		if prev < 0 {
			vsym.Assert(got == was, "a contour with no touched point is unchanged")
			continue
		}
		if prev == next {
			vsym.Assert(got == was+s.d[prev], "a contour with one touched point shifts")
			continue
		}
		lo, hi := prev, next
		if s.pos[lo] == s.pos[hi] {
			vsym.Assert(got == was+s.d[lo] || got == was+s.d[hi], "a point outside the range shifts")
			continue
		}
		if s.pos[lo] > s.pos[hi] {
			lo, hi = hi, lo
		}
		x, a, b := s.pos[i], s.pos[lo], s.pos[hi]
		ca, cb := s.scaled(a)+s.d[lo], s.scaled(b)+s.d[hi]
		in := lib.Abs((got-ca)*(b-a)-(x-a)*(cb-ca)) <= b-a
		if x <= a {
			vsym.Assert(got == was+s.d[lo], "a point below shifts with the lower one")
		} else if x >= b {
			vsym.Assert(got == was+s.d[hi], "a point above shifts with the upper one")
		} else {
			vsym.Assert(in || s.scale != 64 && (was <= s.scaled(a) && got == was+s.d[lo] || was >= s.scaled(b) && got == was+s.d[hi]), "a point between keeps its proportion")
		}
	}
}

// HTwo: two touched points, one moved by any amount, and one point anywhere.
//
//vsym:merge=3
func HTwo() {
	axis := vsym.Choice("axis", 2)
	i := vsym.Choice("touched", 3)
	u := [][2]int{{40, 240}, {200, -56}, {100, 100}, {-30, 97}}[vsym.Choice("range", 4)]
	o, d := 0, 25
	if vsym.Choice("symbolic", 2) == 0 {
		o = vsym.Int("o", -300, 300)
	} else {
		d = vsym.Int("d", -300, 300)
		o = []int{-90, 43, 77, 150, 250}[vsym.Choice("o", 5)]
	}
	s := newScene(axis, 5, 60, 60, 60, 60, 60, 5, 6, 7)
	s.pos[i], s.pos[i+2] = u[0], u[1]
	s.pos[i+1] = o
	s.pos[(i+3)%5] = 110
	s.pos[(i+4)%5] = -40
	s.touch(i, d)
	s.touch(i+2, -7)
	s.check()
}

// HTwo2: the same, with both symbolic.
//
//vsym:merge=3 tier=thorough
func HTwo2() {
	i := vsym.Choice("touched", 3)
	u := [][2]int{{40, 240}, {200, -56}, {-30, 97}}[vsym.Choice("range", 3)]
	s := newScene(vsym.Choice("axis", 2), 5, 60, 60, 60, 60, 60, 5, 6, 7)
	s.pos[i], s.pos[i+2] = u[0], u[1]
	s.pos[i+1] = vsym.Int("o", -120, 300)
	s.pos[(i+3)%5] = 110
	s.pos[(i+4)%5] = -40
	s.touch(i, vsym.Int("d", -120, 120))
	s.touch(i+2, -7)
	s.check()
}

// HSides: the points that wrap around the contour's ends, anywhere.
//
//vsym:merge=3
func HSides() {
	axis := vsym.Choice("axis", 2)
	s := newScene(axis, 3, 10, 30, 20, 0, 0, 0, 0)
	s.last = vsym.Choice("last", 2)
	a := vsym.Choice("first", 4)
	b := vsym.Choice("second", 4)
	vsym.Assume(a != b)
	s.pos[3+a], s.pos[3+b] = -64, 128
	k := 0
	for i := 3; i < 7; i++ {
		if i != 3+a && i != 3+b {
			if k == vsym.Choice("symbolic", 2) {
				s.pos[i] = vsym.Int("o", -200, 200)
			} else {
				s.pos[i] = 64
			}
			k++
		}
	}
	s.touch(3+a, 32)
	s.touch(3+b, -45)
	s.check()
}

// HThree: three and four touched points.
//
//vsym:merge=3
func HThree() {
	k := vsym.Choice("which", 6)
	axis := k % 2
	if vsym.Thorough() {
		axis = vsym.Choice("axis", 2)
	}
	s := newScene(axis, 6, 0, 90, 200, 120, 50, 20, 4, 6, 8)
	for i, d := range []int{30, 7, -20, 64, 11, -3} {
		if vsym.Choice("touched", 2) == 1 {
			s.touch(i, d)
		}
	}
	if s.touched[k] {
		s.d[k] = vsym.Int("d", -300, 300)
	} else {
		s.pos[k] = vsym.Int("o", -300, 300)
	}
	s.check()
}

// HOne: one touched point, in the first or the second contour.
//
//vsym:merge=3
func HOne() {
	axis := vsym.Choice("axis", 2)
	n := vsym.Choice("size", 4) + 1
	s := newScene(axis, n, 0, 90, 200, 120, 50)
	s.last = vsym.Choice("last", 2)
	k := vsym.Choice("touched", 6)
	for i := range s.pos {
		s.pos[i] = vsym.Int("o", -300, 300)
	}
	if k < 5 {
		s.touch(k, vsym.Int("d", -900, 900))
	}
	s.check()
}

// HBoth: touched points in both contours do not affect one another.
//
//vsym:merge=3
func HBoth() {
	axis := vsym.Choice("axis", 2)
	s := newScene(axis, 3, 0, 90, 200, 120, 50, 70)
	s.last = vsym.Choice("last", 2)
	s.touch(vsym.Choice("first", 3), vsym.Int("d", -300, 300))
	i, j := vsym.Choice("i", 3), vsym.Choice("j", 3)
	s.touch(3+i, 9)
	s.touch(3+j, -40)
	s.check()
}

// HUntouch: UTP, and points touched along the other axis.
//
//vsym:merge=3
func HUntouch() {
	axis := vsym.Choice("axis", 2)
	s := newScene(axis, 4, 0, 90, 200, 120)
	d := vsym.Int("d", -300, 300)
	switch vsym.Choice("how", 4) {
	case 0: // touch a point along the other axis, without moving it
		s.head = lib.Cat([]byte{byte(1 - axis)}, lib.Push(2+2), []byte{0x2e}, []byte{byte(axis)})
		s.touch(0, d)
		s.check()
	case 1: // touch a point without moving it
		s.head = lib.Cat(lib.Push(2+2), []byte{0x2e})
		s.touch(0, d)
		s.touched[2] = true
		s.check()
	case 2: // and untouch it
		s.head = lib.Cat(lib.Push(2+2), []byte{0x2e}, lib.Push(2+2), []byte{0x29})
		s.touch(0, d)
		s.check()
	case 3: // the other axis' IUP does nothing after this one
		s.touch(0, d)
		s.touch(2, 20)
		s.check(byte(0x30 + 1 - axis))
	}
}

// HScaled: at other scales, the proportions are those of the font units.
//
//vsym:merge=3
func HScaled() {
	axis := vsym.Choice("axis", 2)
	scale := []int{96, 45, 640}[vsym.Choice("scale", 3)]
	s := newScene(axis, 4, 0, 0, 200, 120)
	s.scale = scale
	s.last = vsym.Choice("last", 2)
	s.touch(s.last, 30)
	s.touch(2+s.last, -20)
	switch vsym.Choice("symbolic", 2) {
	case 0:
		s.pos[1+s.last] = vsym.Int("o", -250, 450)
	case 1:
		s.pos[1+s.last] = []int{-50, 60, 130, 210}[vsym.Choice("o", 4)]
		s.d[2+s.last] = vsym.Int("d", -300, 300)
	}
	s.check()
}

// HCompound: a compound glyph's program starts with points that are not
// touched, also those that the components' programs touched.
func HCompound() {
	axis := vsym.Choice("axis", 2)
	f := lib.NewFont(4, 4, 64)
	f.Metric(1, 0, 0)
	o, d := vsym.Int("o", -200, 200), vsym.Int("d", -128, 127)
	k := vsym.Choice("touched", 3)
	pts := []lib.XY{{X: 0, Y: 0, On: true}, {X: 60, Y: o, On: true}, {X: o, Y: 90, On: false}}
	// MDAP[0] of all three points, along either axis
	one := []byte{0, 0xb2, 0, 1, 2, 0x2e, 0x2e, 0x2e, 1, 0xb2, 0, 1, 2, 0x2e, 0x2e, 0x2e}
	prog := lib.Cat([]byte{byte(axis)}, lib.Push(3+k, d), []byte{0x38, 0x31, 0x30})
	w := lib.CXY | lib.CWords
	last := append(lib.Comp(w|lib.CInstr, 1, 100, 50), byte(len(prog)>>8), byte(len(prog)))
	f.Glyphs(true, nil, lib.Outline(0, 0, one, pts), lib.Compound(0, 0, lib.Comp(w|lib.CMore, 1, 0, 0), append(last, prog...)))
	g := &truetype.GlyphBuf{}
	err := g.Load(lib.MustParse(f), 64, 2, font.HintingFull)
	vsym.Assert(err == nil && len(g.Points) == 6, "loads")
	if err != nil || len(g.Points) != 6 {
		return
	}
	for i, p := range g.Points {
		x, y := pts[i%3].X, pts[i%3].Y
		if i >= 3 {
			x, y = x+100+axis*d, y+50+(1-axis)*d
		}
		vsym.Assert(int(p.X) == x && int(p.Y) == y, "the touched point's contour moves with it, and no other")
	}
}

// HCompoundBetween: a compound glyph's program moves two points of a
// component and interpolates the third, from where the components' programs
// left them.
func HCompoundBetween() {
	axis := vsym.Choice("axis", 2)
	f := lib.NewFont(4, 4, 64)
	f.Metric(1, 0, 0)
	o := vsym.Int("o", -200, 200)
	d, e := []int{0, 40, -25, 127}[vsym.Choice("d", 4)], []int{0, 13, -70}[vsym.Choice("e", 3)]
	pts := []lib.XY{{X: 0, Y: 0, On: true}, {X: 60, Y: o, On: true}, {X: o, Y: 90, On: false}}
	t, h := 2-axis, 90-30*axis // the other touched point and its coordinate
	m := []int{0, 24}[vsym.Choice("m", 2)]
	one := lib.Cat([]byte{byte(axis)}, lib.Push(t, m), []byte{0x38})
	prog := lib.Cat([]byte{byte(axis)}, lib.Push(3, d), []byte{0x38}, lib.Push(3+t, e), []byte{0x38, 0x31, 0x30})
	w := lib.CXY | lib.CWords
	last := append(lib.Comp(w|lib.CInstr, 1, 100, 50), byte(len(prog)>>8), byte(len(prog)))
	f.Glyphs(true, nil, lib.Outline(0, 0, one, pts), lib.Compound(0, 0, lib.Comp(w|lib.CMore, 1, 0, 0), append(last, prog...)))
	g := &truetype.GlyphBuf{}
	err := g.Load(lib.MustParse(f), 64, 2, font.HintingFull)
	vsym.Assert(err == nil && len(g.Points) == 6, "loads")
	if err != nil || len(g.Points) != 6 {
		return
	}
	at := func(i int) int {
		if axis == 1 {
			return int(g.Points[i].X)
		}
		return int(g.Points[i].Y)
	}
	h += m
	off := 50 + 50*axis
	vsym.Assert(at(0) == 0 && at(t) == h && at(3-t) == o, "the first component stays")
	vsym.Assert(at(3) == off+d && at(3+t) == off+h+e, "the touched points")
	got := at(6-t) - off
	switch {
	case o <= 0:
		vsym.Assert(got == o+d, "before both: moves with the first")
	case o >= h:
		vsym.Assert(got == o+e, "after both: moves with the second")
	default:
		r := (got-d)*h - o*(h+e-d)
		vsym.Assert(r <= h && r >= -h, "between: in proportion")
	}
}
