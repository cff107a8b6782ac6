package c34

import (
	"image"
	"image/color"

	"github.com/golang/freetype"
	"github.com/golang/freetype/raster"
	"github.com/golang/freetype/truetype"
	"github.com/golang/freetype/vsym"
	"github.com/golang/freetype/zzverif/lib"
	"golang.org/x/image/font"
	"golang.org/x/image/math/fixed"
)

func kern(ps ...[3]int) []byte {
	b := make([]byte, 18+6*len(ps))
	lib.Put16(b, 2, 1)
	lib.Put16(b, 6, 14+6*len(ps))
	lib.Put16(b, 8, 1)
	lib.Put16(b, 10, len(ps))
	for i, p := range ps {
		lib.Put16(b, 18+6*i, p[0])
		lib.Put16(b, 20+6*i, p[1])
		lib.Put16(b, 22+6*i, p[2])
	}
	return b
}

var pts = []lib.XY{{0, 0, true}, {100, 0, true}, {100, 100, false}, {0, 100, true}, {-5, 30, true}}

// prog moves point 0 by a storage value, point 1 by a control value, point 2
// by a twilight point's position, calls a function, and writes to all of the
// interpreter's memories.
func prog(v byte) []byte {
	return []byte{
		0x00,
		0xb1, 0, 1, 0x43, 0x38, // SHPIX by storage
		0xb1, 1, 0, 0x45, 0x38, // by cvt
		0xb1, 2, 0, 0x15, 0xb0, 1, 0x46, 0xb0, 1, 0x15, 0x38,
		0xb0, 0, 0x2b, // function 0
		0xb0, 4, 0x2f, // MDAP
		0xb1, 1, v, 0x44, // WCVTP
		0xb1, 0, v, 0x70, // WCVTF
		0xb1, 1, v, 0x42, // WS
		0xb2, 40, 4, 1, 0x5d, // DELTAP1
		0xb2, 40, 1, 1, 0x73, // DELTAC1
		0x30, // IUP
	}
}

// file is a font with every table there is; some bytes are symbolic.
// (metrics: only what shapes do not depend on).
func file(sym, metrics bool) *lib.Font {
	v := func(name string) int {
		if sym && (!metrics || name == "kern" || name == "advance") {
			return vsym.Int(name, 0, 100)
		}
		return 17
	}
	f := lib.NewFont(7, 7, 64)
	f.Set("head", lib.Head(64, -128, -128, 128, 128, 1))
	m := lib.Maxp(7)
	lib.Put16(m, 24, 64)
	f.Set("maxp", m)
	f.Set("kern", kern([3]int{1, 2, 11}, [3]int{1, 4, v("kern")}, [3]int{2, 1, -9}, [3]int{2, 2, 5}))
	f.Set("cvt ", []byte{0, byte(v("cvt")), 0, 30})
	f.Set("fpgm", []byte{0xb0, 0, 0x2c, 0xb1, 3, byte(v("fpgm")), 0x38, 0x2d})
	f.Set("prep", []byte{
		0xb1, 1, 33, 0x42, // storage 1
		0xb1, 0, byte(v("prep")), 0x44, // cvt 0
		0x00, 0xb0, 0, 0x16, 0xb1, 1, 1, 0x3e, // twilight point 1 at cvt 1
		0x19, // round to half grid
	})
	first := 'A'
	if sym && !metrics {
		first = rune(vsym.U16("text"))
	}
	name := lib.W16(0, 2, 30, 3, 1, 0, 3, 2, 4, 3, 1, 0, 4, 4, 0, int(first), 0x2014, v("text"))
	f.Set("name", name)
	f.Set("vmtx", lib.W16(50, 3, 51, 4, 52, 5, 53, 6, 54, 7, 55, 8, 56, 9))
	os2 := make([]byte, 78)
	lib.Put16(os2, 68, 40)
	lib.Put16(os2, 70, -10)
	f.Set("OS/2", os2)
	f.Set("hdmx", append(append(lib.W16(0, 1), 0, 0, 0, 12), append([]byte{1, 9, 1, 2, 3, 4, 5, 6, 7}, 0, 0, 0)...))
	f.Metric(1, 70, 3)
	f.Metric(2, 90, 0)
	f.Metric(4, v("advance"), 0)
	f.Glyphs(true, nil,
		lib.Outline(0, 0, prog(byte(v("glyph"))), pts),
		lib.Compound(5, 0,
			lib.Comp(lib.CXY|lib.CMore, 1, v("offset"), 3),
			append(lib.Comp(lib.CXY|lib.CScale|lib.CInstr, 1, 4, 5, -0x2000), 0, 2, 0x00, 0x30)),
		lib.Outline(0, 0, append(prog(5), 0x16), pts),                                 // fails at its end
		lib.Compound(0, 0, lib.Comp(lib.CXY|lib.CMore, 1, 1, 1), lib.Comp(lib.CXY, 9, 1, 1)), // fails in its second component
		[]byte{0xff, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0},
		nil)
	return f
}

func hinting() font.Hinting {
	return []font.Hinting{font.HintingNone, font.HintingVertical, font.HintingFull}[vsym.Choice("hinting", 3)]
}

// HParse: parsing changes no byte of the file; neither does using the font.
//
//vsym:merge=3
func HParse() {
	d := vsym.Choice("damaged", 2) == 1
	b := file(!d, true).Bytes()
	if d {
		k := vsym.Choice("at", 3)
		b[12+16*vsym.Choice("table", 14)+[]int{3, 11, 15}[k]] = vsym.U8("byte") // its tag, offset or length
	}
	whole := append(b, 1, 2, 3, 4)
	h := vsym.Snapshot(whole)
	t, err := truetype.Parse(whole[:len(b)])
	vsym.Assert(vsym.Unchanged(h), "Parse does not write to its argument")
	if err != nil {
		return
	}
	var g truetype.GlyphBuf
	t.Index('b')
	if !d {
		g.Load(t, 640, 1, font.HintingFull)
	}
	vsym.Assert(vsym.Unchanged(h), "nor does using the font")
	vsym.Reach("parsed")
}

// HQueries: no query changes the font, and asking again gives the same answer.
//
//vsym:merge=3
func HQueries() {
	t := lib.MustParse(file(true, false))
	h := vsym.Snapshot(t)
	scale := fixed.Int26_6([]int{64, 700, 0}[vsym.Choice("scale", 3)])
	i, j := truetype.Index(vsym.Int("i", 0, 9)), truetype.Index(vsym.Int("j", 0, 9))
	k := vsym.Choice("query", 7)
	ask := func() (a, b, c, d int) {
		switch k {
		case 0:
			a = int(t.Index(rune(vsym.I32("rune", -5, 0x10ffff))))
		case 1:
			a = int(t.Kern(scale, i, j))
		case 2:
			m := t.HMetric(scale, i)
			a, b = int(m.AdvanceWidth), int(m.LeftSideBearing)
		case 3:
			m := t.VMetric(scale, i)
			a, b = int(m.AdvanceHeight), int(m.TopSideBearing)
		case 4:
			r := t.Bounds(scale)
			a, b, c, d = int(r.Min.X), int(r.Min.Y), int(r.Max.X), int(r.Max.Y)
		case 5:
			a = len(t.Name(truetype.NameID(vsym.Choice("name", 6))))
		default:
			a = int(t.FUnitsPerEm())
		}
		return
	}
	a, b, c, d := ask()
	vsym.Assert(vsym.Unchanged(h), "a query does not change the font")
	if k == 0 || k == 5 { // they have inputs of their own
		return
	}
	a1, b1, c1, d1 := ask()
	vsym.Assert(a == a1 && b == b1 && c == c1 && d == d1, "the same answer again")
}

// HLoad: loading glyphs, hinted or not, with or without success.
//
//vsym:merge=3
func HLoad() {
	t := lib.MustParse(file(true, false))
	h := vsym.Snapshot(t)
	scale := fixed.Int26_6([]int{64, 640, 768}[vsym.Choice("scale", 3)])
	i := truetype.Index(vsym.Choice("glyph", 8))
	hint := hinting()
	var g truetype.GlyphBuf
	err := g.Load(t, scale, i, hint)
	vsym.Assert(vsym.Unchanged(h), "loading a glyph does not change the font")
	if err == nil {
		vsym.Reach("loaded")
	}
	if hint != font.HintingNone && vsym.Choice("again", 2) == 1 {
		g.Load(t, scale, 1, hint)
		vsym.Assert(vsym.Unchanged(h), "nor does loading another one")
	}
}

// HProgram: any one instruction, with any operands, in a font program, a
// control value program or a glyph program.
//
//vsym:merge=3
func HProgram() {
	f := file(false, false)
	op := byte(vsym.Choice("opcode", 256))
	a, b, c := vsym.Int("a", 0, 8), vsym.Int("b", 0, 8), vsym.Int("c", 0, 8)
	p := append([]byte{0x00, 0xb3, 1, byte(a), byte(b), byte(c)}, op, 2, 1, 0, 0)
	w := vsym.Choice("where", 3)
	switch w {
	case 0:
		f.Set("fpgm", p)
	case 1:
		f.Set("prep", p)
	default:
		f.Glyphs(true, nil, lib.Outline(0, 0, p, pts), nil, nil, nil, nil, nil)
	}
	t := lib.MustParse(f)
	h := vsym.Snapshot(t)
	var g truetype.GlyphBuf
	g.Load(t, 640, 1, font.HintingFull)
	vsym.Assert(vsym.Unchanged(h), "no instruction changes the font")
}

// HFace: a face changes neither its font nor its options.
//
//vsym:merge=3
func HFace() {
	t := lib.MustParse(file(true, true))
	o := &truetype.Options{Size: 12, Hinting: hinting(), GlyphCacheEntries: 1+vsym.Choice("cache", 2), SubPixelsX: 4}
	ht, ho := vsym.Snapshot(t), vsym.Snapshot(o)
	f := truetype.NewFace(t, o)
	x := lib.P(64+32*vsym.Choice("x", 2), 640)
	r := rune("abcde"[vsym.Choice("rune", 5)])
	for i, n := 0, 1+vsym.Choice("calls", 2); i < n; i++ {
		switch vsym.Choice("call", 5) {
		case 0:
			f.Glyph(x, r)
		case 1:
			f.GlyphBounds(r)
		case 2:
			f.GlyphAdvance(r)
		case 3:
			f.Kern(r, 'd')
		default:
			f.Metrics()
		}
	}
	f.Close()
	vsym.Assert(vsym.Unchanged(ht), "a face does not change its font")
	vsym.Assert(vsym.Unchanged(ho), "nor its options")
}

// HContext: a context does not change its font or its source image.
//
//vsym:merge=3
func HContext() {
	t := lib.MustParse(file(true, true))
	ht := vsym.Snapshot(t)
	src := image.NewUniform(color.RGBA{vsym.U8("red"), 7, 9, 255})
	hs := vsym.Snapshot(src)
	c := freetype.NewContext()
	c.SetFont(t)
	c.SetFontSize([]float64{6, 12}[vsym.Choice("size", 2)])
	c.SetHinting(hinting())
	dst := image.NewRGBA(image.Rect(0, 0, 12, 12))
	c.SetDst(dst)
	c.SetSrc(src)
	c.SetClip(dst.Bounds())
	s := []string{"ab", "ba", "ac", "ad", "e?"}[vsym.Choice("text", 5)]
	c.DrawString(s, lib.P(128, 640))
	c.SetFontSize(7)
	c.SetFont(nil)
	vsym.Assert(vsym.Unchanged(ht), "a context does not change its font")
	vsym.Assert(vsym.Unchanged(hs), "nor its source image")
}

type null struct{}

func (null) Start(a fixed.Point26_6)      {}
func (null) Add1(b fixed.Point26_6)       {}
func (null) Add2(b, c fixed.Point26_6)    {}
func (null) Add3(b, c, d fixed.Point26_6) {}

// HPath: adding or stroking a path leaves it as it is, in its spare capacity
// as well.
//
//vsym:merge=3
func HPath() {
	q := raster.Path(make([]fixed.Int26_6, 0, 64))
	base := [...][2]int{{0, 0}, {300, 40}, {200, 500}, {-100, 200}, {40, -300}}
	n := 0
	p := func() fixed.Point26_6 {
		b := base[n%5]
		n++
		return lib.P(b[0]+n, b[1]+2*n)
	}
	for i, m := 0, 1+vsym.Choice("curves", 2); i < m; i++ {
		q.Start(p())
		for j, l := 0, vsym.Choice("segments", 3); j < l; j++ {
			switch vsym.Choice("segment", 3) {
			case 0:
				q.Add1(p())
			case 1:
				q.Add2(p(), p())
			default:
				q.Add3(p(), p(), p())
			}
		}
	}
	u := vsym.Choice("use", 5)
	if u == 0 || u == 3 && len(q) <= 12 { // one coordinate is any
		q[1] = fixed.Int26_6(vsym.Int("x", -20, 20))
	}
	h := vsym.Snapshot(q)
	c := []raster.Capper{raster.RoundCapper, raster.ButtCapper, raster.SquareCapper}[vsym.Choice("cap", 3)]
	j := []raster.Joiner{raster.RoundJoiner, raster.BevelJoiner}[vsym.Choice("join", 2)]
	switch u {
	case 0:
		var t raster.Path
		t.AddPath(q)
	case 1:
		var t raster.Path
		vsym.Catch(func() { t.AddStroke(q, 128, c, j) })
	case 2:
		vsym.Catch(func() { raster.Stroke(null{}, q, 128, c, j) })
	case 3:
		r := raster.NewRasterizer(8, 8)
		r.AddPath(q)
	default:
		r := raster.NewRasterizer(8, 8)
		vsym.Catch(func() { r.AddStroke(q, 128, nil, nil) })
	}
	vsym.Assert(vsym.Unchanged(h), "using a path does not change it")
}
