package c21

import (
	"github.com/golang/freetype/truetype"
	"github.com/golang/freetype/vsym"
	"github.com/golang/freetype/zzverif/lib"
	"golang.org/x/image/font"
	"golang.org/x/image/math/fixed"
)

// load must return; what a successful load returns must be usable.
func load(f *lib.Font, scale, i, hint int) error {
	t, err := truetype.Parse(f.Bytes())
	if err != nil {
		vsym.Skip()
	}
	g := &truetype.GlyphBuf{}
	h := font.HintingNone
	if hint == 1 {
		h = font.HintingFull
	}
	err = g.Load(t, fixed.Int26_6(scale), truetype.Index(i), h)
	if err == nil {
		end := 0
		for _, e := range g.Ends {
			vsym.Assert(e >= end && e <= len(g.Points), "usable contour ends")
			end = e
		}
		vsym.Assert(end == len(g.Points), "contour ends cover the points")
	}
	// whatever happened, the buffer can be used again
	vsym.Assert(g.Load(t, fixed.Int26_6(scale), 0, h) == nil, "an empty glyph loads afterwards")
	return err
}

// HSimple: any bytes as a simple glyph.
//
//vsym:hang=1 weight=200 merge=3
func HSimple() {
	f := lib.NewFont(2, 2, 1)
	n := vsym.Choice("length", vsym.If(vsym.Thorough(), 26, 19))
	d := vsym.Bytes("glyf", n)
	hint := 0
	if n >= 10 {
		nc := vsym.Choice("contours", vsym.If(vsym.Thorough(), 4, 3))
		d[0], d[1] = 0, byte(nc)
		p := 10
		for ; nc > 0 && p+2 <= n; nc-- {
			vsym.Assume(d[p] == 0 && d[p+1] < 3)
			p += 2
		}
		if p+2 <= n {
			vsym.Assume(d[p] == 0 && d[p+1] < 4)
			if d[p+1] == 0 { // no instructions
				hint = vsym.Choice("hinting", 2)
			}
		}
	}
	f.Glyphs(false, nil, d)
	load(f, 1, 1, hint)
}

// HEnds: any contour ends in any order, the glyph cut off anywhere.
//
//vsym:hang=1
func HEnds() {
	f := lib.NewFont(2, 2, 1)
	nc := vsym.Choice("contours", 3) + 1
	d := lib.GlyphHead(nc, 0, 0, 0, 0)
	e := vsym.Bytes("ends", 2*nc)
	d = append(d, e...)
	d = append(d, 0, 0)
	rep := vsym.U8("count")
	vsym.Assume(rep < 3 || rep > 252)
	d = append(d, 0x31|8, rep, 0x31|8, 2)
	f.Glyphs(false, nil, d)
	load(f, 1, 1, vsym.Choice("hinting", 2))
}

// HCount: a contour count that the data is too short for.
//
//vsym:hang=1
func HCount() {
	f := lib.NewFont(2, 2, 1)
	n := vsym.Choice("length", 12) + 10
	d := make([]byte, n)
	c := vsym.Int("contours", 0, 32767)
	lib.Put16(d, 0, c)
	vsym.Assume(c > (n-12)/2)
	f.Glyphs(false, nil, d)
	err := load(f, 1, 1, vsym.Choice("hinting", 2))
	vsym.Assert(err != nil, "cut off contour ends are an error")
}

// HInstr: an instruction length that the data is too short for.
func HInstr() {
	f := lib.NewFont(2, 2, 1)
	n := vsym.Choice("bytes", 4)
	d := lib.Simple(0, 0, []int{0}, nil, make([]byte, n), nil)
	k := vsym.Int("instructions", n+1, 65535)
	lib.Put16(d, 12, k)
	f.Glyphs(false, nil, d)
	err := load(f, 1, 1, vsym.Choice("hinting", 2))
	vsym.Assert(err != nil, "cut off instructions are an error")
}

// HCut: a well-formed glyph cut off anywhere is an error.
//
//vsym:hang=1
func HCut() {
	f := lib.NewFont(4, 4, 1)
	var d []byte
	fl := vsym.Bytes("flags", 3)
	kind := vsym.Choice("kind", 3)
	switch kind {
	case 0: // words
		vsym.Assume(fl[0]&0x3e == 0 && fl[1]&0x3e == 0)
		d = lib.Simple(0, 0, []int{1}, nil, fl[:2], vsym.Bytes("data", 8))
	case 1: // bytes and a repeat
		d = lib.Simple(0, 0, []int{0, 2}, nil, []byte{0x0e, 1, 0x06}, vsym.Bytes("data", 6))
	case 2: // components
		k := vsym.Choice("component", 4)
		fl := lib.CXY | []int{0, lib.CScale, lib.CXYScale, lib.C2x2}[k]
		m := []int{0, 1, 2, 4}[k]
		a := lib.Comp(fl|lib.CMore, 2, 3, 4, make([]int, m)...)
		d = lib.Compound(0, 0, a, lib.Comp(fl|lib.CWords, 2, 3, 4, make([]int, m)...))
	}
	n := vsym.Choice("cut", len(d)-10) + 10
	f.Glyphs(false, nil, d[:n], lib.Outline(0, 0, nil, []lib.XY{{1, 2, true}}))
	err := load(f, 1, 1, vsym.Choice("hinting", 2))
	vsym.Assert(err != nil, "cut off glyph data is an error")
	f.Glyphs(false, nil, d, lib.Outline(0, 0, nil, []lib.XY{{1, 2, true}}))
	vsym.Assert(load(f, 1, 1, 0) == nil, "the whole glyph loads")
}

// HCompound: any bytes as a compound glyph.
//
//vsym:hang=1 weight=200 merge=3
func HCompound() {
	f := lib.NewFont(4, 4, 1)
	n := [...]int{10, 13, 15, 16, 17, 18, 20, 22, 24, 26, 28, 30}[vsym.Choice("length", vsym.If(vsym.Thorough(), 12, 8))]
	d := vsym.Bytes("glyf", n)
	d[0], d[1] = 255, 255
	if n >= 16 {
		// the glyph itself, other glyphs, or one the font does not have
		lib.Put16(d, 12, [...]int{0, 1, 2, 3, 65535}[vsym.Choice("component", 5)])
	}
	for i := 14; i < n-4; i++ { // further components
		vsym.Assume(d[i] < 8)
	}
	f.Glyphs(vsym.Thorough() && vsym.Choice("format", 2) == 1, nil, lib.Outline(0, 0, nil, []lib.XY{{1, 2, true}}), d)
	load(f, 1, 2, 0)
}

// HCompoundHinted: any flags of one component, and any instruction length.
//
//vsym:hang=1
func HCompoundHinted() {
	f := lib.NewFont(4, 4, 1)
	n := vsym.Choice("length", 10) + 14
	d := make([]byte, n)
	copy(d, lib.Compound(0, 0, lib.Comp(0, vsym.Choice("component", 3), 3, 4)))
	d[10], d[11] = vsym.U8("flags"), vsym.U8("flags")
	vsym.Assume(d[11]&lib.CMore == 0)
	if n >= 18 {
		d[n-2], d[n-1] = vsym.U8("instructions"), vsym.U8("instructions")
	}
	f.Glyphs(false, nil, lib.Outline(0, 0, nil, []lib.XY{{1, 2, true}}), d)
	load(f, 1, 2, 1)
}

// HLoca: any glyph offsets, tables cut off anywhere.
//
//vsym:hang=1 merge=3
func HLoca() {
	f := lib.NewFont(3, 3, 1)
	f.Glyphs(false, nil, lib.Outline(0, 0, nil, []lib.XY{{1, 2, true}}), lib.Compound(0, 0, lib.Comp(lib.CXY, 1, 3, 4), []byte{0, 0}))
	short := vsym.Choice("format", 2) == 1
	n := vsym.Choice("entries", 4)
	k := vsym.Choice("free", n+1)
	var b []byte
	for e := 0; e < n; e++ {
		v := [...]int{0, 0, 16, 34}[e] // glyph 1 has 16 bytes
		if e == k {
			v = vsym.Int("offset", 0, 1<<32-1)
			if short {
				v = vsym.Int("short", 0, 1<<17-2)
			}
		}
		if short {
			b = append(b, lib.W16(v/2)...)
		} else {
			b = append(b, 0, 0, 0, 0)
			lib.Put32(b, 4*e, v)
		}
	}
	if k == n { // cut off within an entry
		b = append(b, 0)
	}
	if short {
		lib.Put16(f.Get("head"), 50, 0)
	}
	f.Set("loca", b)
	load2(f, vsym.Choice("glyph", 3), vsym.Choice("hinting", 2))
}

func load2(f *lib.Font, i, hint int) {
	t, err := truetype.Parse(f.Bytes())
	if err != nil {
		vsym.Skip()
	}
	g := &truetype.GlyphBuf{}
	h := font.HintingNone
	if hint == 1 {
		h = font.HintingFull
	}
	g.Load(t, 1, truetype.Index(i), h)
}

// HIndex: glyphs the font does not have.
func HIndex() {
	n := vsym.Choice("glyphs", 3) + 1
	f := lib.NewFont(n, 1, 1)
	gs := make([][]byte, n)
	f.Glyphs(vsym.Choice("format", 2) == 1, gs...)
	if vsym.Choice("no glyphs", 3) == 1 {
		f.Set("loca", nil)
	}
	i := vsym.Int("glyph", n, 65535)
	t, err := truetype.Parse(f.Bytes())
	if err != nil {
		vsym.Skip()
	}
	g := &truetype.GlyphBuf{}
	err = g.Load(t, 1, truetype.Index(i), []font.Hinting{font.HintingNone, font.HintingFull}[vsym.Choice("hinting", 2)])
	vsym.Assert(err != nil, "a glyph the font does not have is an error")
}

// HHdmx: any device metrics.
//
//vsym:hang=1
func HHdmx() {
	n := 3
	f := lib.NewFont(n, n, 1)
	f.Glyphs(false, nil, lib.Outline(0, 0, nil, []lib.XY{{1, 2, true}}), nil)
	d := vsym.Bytes("hdmx", vsym.Choice("length", vsym.If(vsym.Thorough(), 28, 20)))
	f.Set("hdmx", d)
	if len(d) > 8 {
		vsym.Assume(d[4] == 0 && d[5] == 0 || d[4] >= 0x7f)
	}
	load(f, 64*12, vsym.Choice("glyph", n), 1)
}

// HCycle: glyphs that contain each other.
//
//vsym:hang=1
func HCycle() {
	n := 5
	f := lib.NewFont(n, n, 1)
	gs := make([][]byte, n)
	a := vsym.Choice("a", 4) + 1
	for i := 1; i < n; i++ {
		w := lib.CXY
		if vsym.Choice("metrics", 2) == 1 {
			w |= lib.CMetrics
		}
		gs[i] = lib.Compound(0, 0, lib.Comp(w|lib.CMore, vsym.If(i == a, 0, i%4+1), 1, 1), lib.Comp(w, i%4+1, 1, 1))
	}
	f.Glyphs(true, gs...)
	load(f, 1, 1+vsym.Choice("glyph", 4), vsym.Choice("hinting", 2))
}
