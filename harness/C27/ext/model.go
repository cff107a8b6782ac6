package c27

import (
	"github.com/golang/freetype/vsym"
	"github.com/golang/freetype/zzverif/lib"
)

// A model is what the specification says of a glyph's points along one axis,
// the projection and freedom vectors both being on it; its methods append an
// instruction to the program and do what the instruction should. The glyph has
// points 0 to 3 and 4 to 5, and 6 to 7 that show twilight points; before them is
// a contour of two points far away on both sides.
type model struct {
	axis    int       // 1: x, 0: y, 2: y downward
	o, c    [2][8]int // original and current positions by zone
	off     [8]int    // positions across
	t       [8]bool   // touched
	far     [2]int    // the points of the first contour
	rp, zp  [3]int
	cutin   int
	swCutin int
	sw      int
	minDist int
	flip    bool
	noRound bool
	cvt     [3]int
	prog    []byte
	prep    []byte
	ends    []int
}

const (
	points = 8
	first  = 2 // the index of the model's point 0
)

func newModel(axis int) *model {
	m := &model{axis: axis, zp: [3]int{1, 1, 1}, cutin: 68, minDist: 64, flip: true, ends: []int{4, 6, 8}, far: [2]int{-20000, 20000}}
	for i := range m.off {
		m.off[i] = 64 * i
	}
	switch axis {
	case 0, 1:
		m.prog = []byte{byte(axis)}
	case 2:
		m.prog = lib.Cat(lib.Push(0, -0x4000), []byte{0x0a, 0x0e})
	}
	return m
}

func (m *model) emit(op int, args ...int) {
	if len(args) > 0 {
		m.prog = append(m.prog, lib.Push(args...)...)
	}
	m.prog = append(m.prog, byte(op))
}

// move moves a point of a zone and touches it.
func (m *model) move(z, i, d int) {
	m.c[z][i] += d
	if z == 1 {
		m.t[i] = true
	}
}

func (m *model) to(z, i, pos int) { m.move(z, i, pos-m.c[z][i]) }

func (m *model) round(x int) int {
	if m.noRound {
		return x
	}
	return vsym.If(x < 0, -((-x + 32) &^ 63), (x+32)&^63)
}

func (m *model) atLeast(d, orig int) int {
	return vsym.If(orig < 0, lib.Min(d, -m.minDist), lib.Max(d, m.minDist))
}

// single applies the single width cut-in.
func (m *model) single(d int) int {
	w := vsym.If(d < 0, -m.sw, m.sw)
	return w
}

func (m *model) ref(a int) (zone, i, d int) {
	if a == 0 {
		zone, i = m.zp[1], m.rp[2]
	} else {
		zone, i = m.zp[0], m.rp[1]
	}
	return zone, i, m.c[zone][i] - m.o[zone][i]
}

func (m *model) SRP(k, i int) { m.emit(0x10+k, i+first); m.rp[k] = i }
func (m *model) SZP(k, z int) { m.emit(0x13+k, z); m.zp[k] = z }
func (m *model) SZPS(z int)   { m.emit(0x16, z); m.zp = [3]int{z, z, z} }

func (m *model) MDAP(r, i int) {
	m.emit(0x2e+r, i+first)
	z := m.zp[0]
	p := m.c[z][i]
	if r == 1 {
		p = m.round(p)
	}
	m.to(z, i, p)
	m.rp[0], m.rp[1] = i, i
}

func (m *model) MIAP(r, i, k int) {
	m.emit(0x3e+r, i+first, k)
	z := m.zp[0]
	p := m.cvt[k]
	if z == 0 {
		m.o[z][i] = p
		m.c[z][i] = p
	}
	if r == 1 {
		was := m.c[z][i]
		p = m.round(vsym.If(lib.Abs(p-was) > m.cutin, was, p))
	}
	m.to(z, i, p)
	m.rp[0], m.rp[1] = i, i
}

// bits are those of MDRP and MIRP.
func (m *model) relative(bits, i, d, orig int) {
	ref := m.c[m.zp[0]][m.rp[0]]
	if bits&4 != 0 {
		d = m.round(d)
	}
	if bits&8 != 0 {
		d = m.atLeast(d, orig)
	}
	m.to(m.zp[1], i, ref+d)
	m.rp[1], m.rp[2] = m.rp[0], i
	if bits&16 != 0 {
		m.rp[0] = i
	}
}

func (m *model) MDRP(bits, i int) {
	m.emit(0xc0+bits, i+first)
	d := m.o[m.zp[1]][i] - m.o[m.zp[0]][m.rp[0]]
	orig := d
	if m.swCutin != 0 {
		d = vsym.If(lib.Abs(d-m.sw) < m.swCutin, m.single(d), d)
	}
	m.relative(bits, i, d, orig)
}

func (m *model) MIRP(bits, i, k int) {
	m.emit(0xe0+bits, i+first, k)
	orig := m.o[m.zp[1]][i] - m.o[m.zp[0]][m.rp[0]]
	d := m.cvt[k]
	if m.swCutin != 0 {
		d = vsym.If(lib.Abs(d-m.sw) < m.swCutin, m.single(d), d)
	}
	if m.flip {
		d = vsym.If(int32(orig)^int32(d) < 0, -d, d)
	}
	if bits&4 != 0 && m.zp[0] == m.zp[1] {
		d = vsym.If(lib.Abs(d-orig) > m.cutin, orig, d)
	}
	m.relative(bits, i, d, orig)
}

func (m *model) MSIRP(a, i, d int) {
	m.emit(0x3a+a, i+first, d)
	ref := m.c[m.zp[0]][m.rp[0]]
	m.to(m.zp[1], i, ref+d)
	m.rp[1], m.rp[2] = m.rp[0], i
	if a == 1 {
		m.rp[0] = i
	}
}

// list emits the loop count and points of an instruction that loops.
func (m *model) list(is []int) {
	if len(is) != 1 {
		m.emit(0x17, len(is))
	}
	for _, i := range is {
		m.prog = append(m.prog, lib.Push(i+first)...)
	}
}

func (m *model) SHP(a int, is ...int) {
	m.list(is)
	m.emit(0x32 + a)
	_, _, d := m.ref(a)
	for _, i := range is {
		m.move(m.zp[2], i, d)
	}
}

func (m *model) SHC(a, contour int) {
	m.emit(0x34+a, contour+1)
	z, r, d := m.ref(a)
	i := 0
	if contour > 0 {
		i = m.ends[contour-1]
	}
	for ; i < m.ends[contour]; i++ {
		if i != r || z != m.zp[2] {
			m.move(m.zp[2], i, d)
		}
	}
}

func (m *model) SHZ(a int) {
	m.emit(0x36+a, m.zp[2])
	z, r, d := m.ref(a)
	for i := range m.c[0] {
		if i != r || z != m.zp[2] {
			m.c[m.zp[2]][i] += d // without touching it
		}
	}
	if m.zp[2] == 1 {
		m.far[0] += d
		m.far[1] += d
	}
}

func (m *model) SHPIX(d int, is ...int) {
	m.list(is)
	m.emit(0x38, d)
	for _, i := range is {
		m.move(m.zp[2], i, d)
	}
}

func (m *model) ALIGNRP(is ...int) {
	m.list(is)
	m.emit(0x3c)
	for _, i := range is {
		m.to(m.zp[1], i, m.c[m.zp[0]][m.rp[0]])
	}
}

func (m *model) SCFS(i, p int) {
	m.emit(0x48, i+first, p)
	m.to(m.zp[2], i, p)
	if m.zp[2] == 0 {
		m.o[0][i] = p
	}
}

func (m *model) UTP(i int) {
	m.emit(0x29, i+first)
	if m.zp[0] == 1 {
		m.t[i] = false
	}
}

// ALIGNPTS moves two points to the middle between them; distances are even.
func (m *model) ALIGNPTS(i, j int) {
	m.emit(0x27, i+first, j+first)
	a, b := m.c[m.zp[1]][i], m.c[m.zp[0]][j]
	d := b - a
	h := vsym.If(d < 0, -(-d >> 1), d>>1)
	m.move(m.zp[1], i, h)
	m.move(m.zp[0], j, -h)
}

// show copies a twilight point's position to a glyph point.
func (m *model) show(i, tw int) {
	m.SZP(2, 0)
	m.prog = append(m.prog, lib.Push(i+first, tw+first)...)
	m.emit(0x46)
	m.SZP(2, 1)
	m.emit(0x48)
	m.to(1, i, m.c[0][tw])
}

// check loads the glyph and compares.
func (m *model) check() {
	h := lib.Hint{Twilight: 10, Cvt: m.cvt[:], Prog: m.prog, Prep: m.prep}
	s := 1
	if m.axis == 2 {
		s = -1
	}
	at := func(pos, off int) lib.XY {
		if m.axis == 1 {
			return lib.XY{X: pos, Y: off, On: true}
		}
		return lib.XY{X: off, Y: s * pos, On: true}
	}
	h.Contours = append(h.Contours, []lib.XY{at(-20000, 7), at(20000, 7)})
	prev := 0
	for _, e := range m.ends {
		var c []lib.XY
		for i := prev; i < e; i++ {
			c = append(c, at(m.o[1][i], m.off[i]))
		}
		h.Contours = append(h.Contours, c)
		prev = e
	}
	ps := h.MustLoad()
	vsym.Assert(len(ps) == points+first, "the points")
	for i, p := range ps {
		x, y, bit, other := int(p.Y), int(p.X), p.Flags>>7&1, p.Flags>>6&1
		if m.axis == 1 {
			x, y, bit, other = int(p.X), int(p.Y), p.Flags>>6&1, p.Flags>>7&1
		}
		pos, off, touched := 0, 7, false
		if i >= first {
			pos, off, touched = m.c[1][i-first], m.off[i-first], m.t[i-first]
		} else {
			pos = m.far[i]
		}
		vsym.Assert(s*x == pos, "each point's position")
		vsym.Assert(y == off && other == 0, "nothing across the vectors")
		vsym.Assert((bit == 1) == touched, "which points are touched")
	}
}
