package c18

import (
	"github.com/golang/freetype/truetype"
	"github.com/golang/freetype/vsym"
	"github.com/golang/freetype/zzverif/lib"
	"golang.org/x/image/font"
	"golang.org/x/image/math/fixed"
)

func load(f *lib.Font, scale, i, hint int) *truetype.GlyphBuf {
	t := lib.MustParse(f)
	g := &truetype.GlyphBuf{}
	h := font.HintingNone
	if hint == 1 {
		h = font.HintingFull
	}
	err := g.Load(t, fixed.Int26_6(scale), truetype.Index(i), h)
	vsym.Assert(err == nil, "a well-formed glyph loads")
	if err != nil {
		vsym.Skip()
	}
	return g
}

// decode is the reference: it expands flags and reads deltas.
func decode(n int, fl, data []byte) (flags []int, xs, ys []int, ok bool) {
	for i := 0; len(flags) < n; i++ {
		c := int(fl[i])
		flags = append(flags, c)
		if c&8 != 0 {
			i++
			for k := vsym.Pick(int(fl[i])); k > 0; k-- {
				flags = append(flags, c)
			}
		}
	}
	p, ok := 0, true
	axis := func(short, same int) (r []int) {
		v := 0
		for _, c := range flags {
			if c&short != 0 {
				d := int(data[p])
				p++
				v += vsym.If(c&same != 0, d, -d)
			} else if c&same == 0 {
				v += lib.GetS16(data, p)
				p += 2
			}
			ok = ok && v == int(int16(v))
			r = append(r, v)
		}
		return r
	}
	xs = axis(2, 16)
	ys = axis(4, 32)
	return flags, xs, ys, ok
}

func compare(g *truetype.GlyphBuf, flags, xs, ys []int, shift int, ends []int) {
	vsym.Assert(len(g.Points) == len(xs), "number of points")
	vsym.Assert(len(g.Ends) == len(ends), "number of contours")
	if len(g.Points) != len(xs) || len(g.Ends) != len(ends) {
		return
	}
	for i, e := range ends {
		vsym.Assert(g.Ends[i] == e+1, "end of a contour")
	}
	for i, p := range g.Points {
		vsym.Assert(int(p.X) == xs[i]-shift, "x co-ordinate")
		vsym.Assert(int(p.Y) == ys[i], "y co-ordinate")
		vsym.Assert(p.Flags&1 == uint32(flags[i]&1), "on-curve bit")
	}
}

// HDecode: two points with any flags and any deltas.
//
//vsym:weight=200
func HDecode() {
	f := lib.NewFont(2, 2, 1)
	fl := vsym.Bytes("flags", 2)
	data := vsym.Bytes("data", 8)
	vsym.Assume(fl[0]&8 == 0 && fl[1]&8 == 0)
	if !vsym.Thorough() { // one axis at a time
		k := [...]byte{0x34, 0x00, 0x0a, 0x26}[vsym.Choice("other axis", 4)]
		if vsym.Choice("axis", 2) == 0 {
			vsym.Assume(fl[0]&0x24 == k&0x24 && fl[1]&0x24 == 0x20)
		} else {
			vsym.Assume(fl[0]&0x12 == k&0x12 && fl[1]&0x12 == 0x10)
		}
	}
	lsb, x0 := int(int16(vsym.U16("lsb"))), int(int16(vsym.U16("xMin")))
	hint := vsym.Choice("hinting", 2)
	f.Metric(1, 5, lsb)
	f.Glyphs(hint == 0, nil, lib.Simple(x0, 0, []int{1}, nil, fl, data))
	flags, xs, ys, ok := decode(2, fl, data)
	vsym.Assume(ok)
	compare(load(f, 1, 1, hint), flags, xs, ys, x0-lsb, []int{1})
}

// HRepeat: runs of repeated flags of every kind.
//
//vsym:merge=3
func HRepeat() {
	f := lib.NewFont(2, 2, 1)
	n := vsym.Choice("points", vsym.If(vsym.Thorough(), 6, 4)) + 1
	fl := vsym.Bytes("flags", 2*n)
	m := vsym.Choice("encoding", vsym.If(vsym.Thorough(), 3, 2))
	data := vsym.Bytes("data", [...]int{n, 2 * n, 4 * n}[m])
	i, left := 0, n
	for left > 0 {
		// x kind and y kind
		fl[i] = fl[i]&1 | [...]byte{0x22, 0x14, 0x00, 0x32, 0x34, 0x00}[m+3*vsym.Choice("sign", 2-m/2)]
		rep := vsym.Choice("repeat", 2)
		left--
		if rep == 1 {
			fl[i] |= 8
			i++
			k := vsym.Choice("count", left+1)
			fl[i] = byte(k)
			left -= k
		}
		i++
	}
	f.Glyphs(n%2 == 0, nil, lib.Simple(0, 0, []int{n - 1}, nil, fl[:i], data))
	flags, xs, ys, ok := decode(n, fl, data)
	vsym.Assume(ok)
	compare(load(f, 1, 1, n%2), flags, xs, ys, 0, []int{n - 1})
}

// HLongRepeat: the longest run.
func HLongRepeat() {
	f := lib.NewFont(2, 2, 1)
	c := [...]int{0, 1, 127, 128, 254, 255}[vsym.Choice("count", 6)]
	d, d0 := byte(vsym.Int("delta", 0, 119)), vsym.U8("first")
	fl := []byte{0x23, 0x3b, byte(c), 0x22}
	data := append([]byte{d0}, make([]byte, c+1)...)
	for i := range data[1:] {
		data[1+i] = d
	}
	data = append(data, d0)
	f.Glyphs(c%2 == 0, nil, lib.Simple(0, 0, []int{c + 2}, nil, fl, data))
	g := load(f, 1, 1, 0)
	vsym.Assert(len(g.Points) == c+3, "number of points")
	if len(g.Points) != c+3 {
		return
	}
	x0 := -int(d0)
	for i := 1; i <= c+1; i++ {
		vsym.Assert(int(g.Points[i].X) == x0+i*int(d), "x co-ordinate")
	}
	vsym.Assert(int(g.Points[0].X) == x0, "x co-ordinate")
	vsym.Assert(int(g.Points[c+2].X) == x0+(c+1)*int(d)+x0, "x co-ordinate")
}

// HContours: any contour ends, and instructions that have to be skipped.
//
//vsym:merge=3
func HContours() {
	f := lib.NewFont(2, 2, 1)
	nc := vsym.Choice("contours", vsym.If(vsym.Thorough(), 6, 4)) + 1
	np := 5
	ends := make([]int, nc)
	e := make([]byte, 2*nc)
	for i := range ends {
		ends[i] = np - 1
		if i < nc-1 {
			ends[i] = vsym.Int("end", 0, np-1)
			if i > 0 {
				vsym.Assume(ends[i] >= ends[i-1])
			}
		}
		lib.Put16(e, 2*i, ends[i])
	}
	ni := vsym.Choice("instructions", 4)
	instr := vsym.Bytes("instr", ni*ni)
	fl := vsym.Bytes("flags", np)
	xs, ys := make([]int, np), make([]int, np)
	flags := make([]int, np)
	data := make([]byte, 4*np)
	for i := range fl {
		vsym.Assume(fl[i]&0x3e == 0)
		flags[i] = int(fl[i])
		xs[i] = vsym.Int("dx", -3000, 3000)
		ys[i] = vsym.Int("dy", -3000, 3000)
		lib.Put16(data, 2*i, xs[i])
		lib.Put16(data, 2*np+2*i, ys[i])
		if i > 0 {
			xs[i] += xs[i-1]
			ys[i] += ys[i-1]
		}
	}
	f.Glyphs(nc%2 == 0, nil, lib.Simple(0, 0, ends, instr, fl, data))
	compare(load(f, 1, 1, 0), flags, xs, ys, 0, ends)
}

// HScale: every co-ordinate is scaled and rounded to nearest.
func HScale() {
	upem := [...]int{1000, 2048, 1, 1001}[vsym.Choice("upem", vsym.If(vsym.Thorough(), 4, 3))]
	v, scale := 0, 0
	if vsym.Choice("free", 2) == 0 {
		v = int(int16(vsym.U16("value")))
		scale = [...]int{768, 777, 64, 4096}[vsym.Choice("scale", vsym.If(vsym.Thorough(), 4, 2))]
	} else {
		v = [...]int{-144, 301, 32767, -32768, 1, -1}[vsym.Choice("value", vsym.If(vsym.Thorough(), 6, 3))]
		scale = vsym.Int("scale", 0, 8000)
	}
	f := lib.NewFont(2, 2, upem)
	hint := vsym.Choice("hinting", 2)
	switch vsym.Choice("what", 3) {
	case 0:
		f.Glyphs(true, nil, lib.Simple(0, 0, []int{0}, nil, []byte{1}, lib.W16(v, 0)))
		g := load(f, scale, 1, hint)
		lib.ScaleRef(int(g.Points[0].X), v*scale, upem, "x co-ordinate")
	case 1:
		f.Glyphs(true, nil, lib.Simple(0, 0, []int{0}, nil, []byte{1}, lib.W16(0, v)))
		g := load(f, scale, 1, hint)
		lib.ScaleRef(int(g.Points[0].Y), v*scale, upem, "y co-ordinate")
	case 2: // a point at the left edge ends up at the bearing
		vsym.Assume(v > -32768)
		f.Metric(1, 0, v)
		f.Glyphs(true, nil, lib.Simple(0, 0, []int{0}, nil, []byte{1}, lib.W16(0, 0)))
		g := load(f, scale, 1, hint)
		lib.ScaleRef(int(g.Points[0].X), v*scale, upem, "left side bearing")
	}
}

// HShift: with a shift, each point is the difference of two scaled values.
func HShift() {
	upem := [...]int{1000, 2048}[vsym.Choice("upem", 2)]
	scale := [...]int{768, 777, 4096}[vsym.Choice("scale", vsym.If(vsym.Thorough(), 3, 2))]
	d := vsym.Int("xMin-lsb", -3000, 3000)
	v := [...]int{200, -77, 1003}[vsym.Choice("x", vsym.If(vsym.Thorough(), 3, 2))]
	lsb := 100
	x0 := lsb + d
	f := lib.NewFont(2, 2, upem)
	f.Metric(1, 0, lsb)
	f.Glyphs(true, nil, lib.Simple(x0, 0, []int{1}, nil, []byte{1, 1}, lib.W16(v, v, 0, 0)))
	g := load(f, scale, 1, vsym.Choice("hinting", 2))
	s := func(x int) int { // scaled and rounded constants
		x = 2*x*scale + upem
		return lib.FloorDiv(x, 2*upem)
	}
	lib.ScaleRef(s(v)-int(g.Points[0].X), d*scale, upem, "shift")
	vsym.Assert(int(g.Points[1].X-g.Points[0].X) == s(2*v)-s(v), "all points shifted alike")
	vsym.Assert(g.Points[0].Y == 0 && g.Points[1].Y == 0, "not shifted vertically")
}

// HIndex: each glyph index has its own data, in both loca formats.
func HIndex() {
	n := 4
	f := lib.NewFont(n, 2, 1)
	short := vsym.Choice("format", 2) == 1
	var gs [][]byte
	v := vsym.Bytes("x", n)
	for i := 0; i < n; i++ {
		g := lib.Simple(0, 0, []int{0}, nil, []byte{0x33}, []byte{v[i], 0})
		if vsym.Choice("empty", 2) == 1 {
			g = nil
		}
		gs = append(gs, g)
	}
	f.Glyphs(short, gs...)
	for i := range gs {
		g := load(f, 1, i, 0)
		if gs[i] == nil {
			vsym.Assert(len(g.Points) == 0 && len(g.Ends) == 0, "an empty glyph has no points")
		} else {
			vsym.Assert(len(g.Points) == 1 && len(g.Ends) == 1 && g.Ends[0] == 1, "the glyph's points")
			if len(g.Points) == 1 {
				vsym.Assert(int(g.Points[0].X) == int(v[i]), "the glyph's data")
			}
		}
	}
}

// HOffsets: glyph data anywhere in a large glyf table.
func HOffsets() {
	f := lib.NewFont(2, 2, 1)
	short := vsym.Choice("format", 2)
	off := [...]int{0, 2, 0x1fe, 0x200, 0xfffe, 0x10000, 0x1f000}[vsym.Choice("offset", 7)]
	v := vsym.U8("x")
	g := lib.Simple(0, 0, []int{0}, nil, []byte{0x33}, []byte{v, 0})
	pad := make([]byte, off)
	f.Glyphs(short == 1, pad, g)
	b := load(f, 1, 1, 0)
	vsym.Assert(len(b.Points) == 1, "the glyph's points")
	if len(b.Points) == 1 {
		vsym.Assert(int(b.Points[0].X) == int(v), "the glyph's data")
	}
}

// HUnits: a hinted load also keeps the points in font units.
func HUnits() {
	f := lib.NewFont(2, 2, 1000)
	x, y := vsym.Int("x", -2000, 2000), vsym.Int("y", -2000, 2000)
	f.Metric(1, 500, vsym.Choice("lsb", 2)*33)
	f.Glyphs(true, nil, lib.Outline(0, 0, nil, []lib.XY{{x, y, true}, {3, 4, false}}))
	g := load(f, 768, 1, 1)
	vsym.Assert(len(g.InFontUnits) == 2 && len(g.Unhinted) == 2, "points before hinting")
	if len(g.InFontUnits) == 2 && len(g.Unhinted) == 2 {
		vsym.Assert(int(g.InFontUnits[0].X) == x && int(g.InFontUnits[0].Y) == y, "point in font units")
		vsym.Assert(int(g.InFontUnits[1].X) == 3 && int(g.InFontUnits[1].Y) == 4, "point in font units")
		vsym.Assert(g.Unhinted[0].Y == g.Points[0].Y && g.Unhinted[1].Y == g.Points[1].Y, "points before hinting")
	}
}
