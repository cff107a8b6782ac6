package c19

import (
	"github.com/golang/freetype/truetype"
	"github.com/golang/freetype/vsym"
	"github.com/golang/freetype/zzverif/lib"
	"golang.org/x/image/font"
	"golang.org/x/image/math/fixed"
)

func try(f *lib.Font, scale, i, hint int) (*truetype.GlyphBuf, error) {
	t := lib.MustParse(f)
	g := &truetype.GlyphBuf{}
	h := font.HintingNone
	if hint == 1 {
		h = font.HintingFull
	}
	return g, g.Load(t, fixed.Int26_6(scale), truetype.Index(i), h)
}

func load(f *lib.Font, scale, i, hint int) *truetype.GlyphBuf {
	g, err := try(f, scale, i, hint)
	vsym.Assert(err == nil, "a well-formed glyph loads")
	if err != nil {
		vsym.Skip()
	}
	return g
}

func s16(n string) int { return int(int16(vsym.U16(n))) }

func near(got, want, unit, tol int, what string) {
	d := got*unit - want
	vsym.Assert(d <= tol && d >= -tol, what)
}

func dot(x, y int) []byte { return lib.Outline(0, 0, nil, []lib.XY{{x, y, true}}) }

var f214 = [...]int{0x4000, 0x2000, -0x4000, 0x1234, -0x8000, 0x7fff, -0x6ed9, 1}

// HTransform: the matrix and the offset of a component.
func HTransform() {
	f := lib.NewFont(3, 3, 1)
	var x, y int
	kind := vsym.Choice("kind", 4)
	var m []int
	n := []int{0, 1, 2, 4}[kind]
	sym := vsym.Choice("symbolic", 2)
	if sym == 0 {
		x, y = s16("x"), s16("y")
	} else {
		x, y = [...]int{3, 1001, -32768}[vsym.Choice("x", 3)], [...]int{-7, 32767}[vsym.Choice("y", 2)]
	}
	q := vsym.Choice("m", vsym.If(vsym.Thorough(), 8, 4))
	for k := 0; k < n; k++ {
		if sym == 0 {
			m = append(m, f214[(q+3*k)%8])
		} else {
			m = append(m, s16("m"))
		}
	}
	t := [4]int{0x4000, 0, 0, 0x4000}
	fl := 0
	switch kind {
	case 1:
		fl = lib.CScale
		t[0], t[3] = m[0], m[0]
	case 2:
		fl = lib.CXYScale
		t[0], t[3] = m[0], m[1]
	case 3:
		fl = lib.C2x2
		copy(t[:], m)
	}
	dx, dy := s16("dx"), s16("dy")
	if (kind+q)%2 == 0 {
		fl |= lib.CWords
	} else {
		dx, dy = int(int8(dx)), int(int8(dy))
	}
	f.Glyphs(q%2 == 0, nil, dot(x, y), lib.Compound(0, 0, lib.Comp(fl|lib.CXY, 1, dx, dy, m...)))
	g := load(f, 1, 2, vsym.Choice("hinting", vsym.If(vsym.Thorough(), 2, 1)))
	vsym.Assert(len(g.Points) == 1 && len(g.Ends) == 1, "the component's point")
	if len(g.Points) != 1 {
		return
	}
	tol := 0
	if n > 0 {
		tol = 1 << 14
	}
	near(int(g.Points[0].X)-dx, x*t[0]+y*t[2], 1<<14, tol, "transformed x")
	near(int(g.Points[0].Y)-dy, x*t[1]+y*t[3], 1<<14, tol, "transformed y")
	vsym.Assert(g.Points[0].Flags&1 == 1, "on-curve bit")
}

// HOffset: offsets are scaled, and rounded to pixels when asked.
func HOffset() {
	upem := [...]int{1000, 2048, 1}[vsym.Choice("upem", 3)]
	scale := [...]int{768, 777, 64}[vsym.Choice("scale", vsym.If(vsym.Thorough(), 3, 2))]
	f := lib.NewFont(3, 3, upem)
	fl := lib.CXY
	d := vsym.Int("d", -20000, 20000)
	if vsym.Choice("words", 2) == 1 {
		fl |= lib.CWords
	} else {
		d = vsym.Int("d8", -128, 127)
	}
	round := vsym.Choice("round", 2) == 1
	if round {
		fl |= lib.CRound
	}
	axis := vsym.Choice("axis", 2)
	dx, dy := d, 0
	if axis == 1 {
		dx, dy = 0, d
	}
	f.Glyphs(true, nil, dot(0, 0), lib.Compound(0, 0, lib.Comp(fl, 1, dx, dy)))
	g := load(f, scale, 2, vsym.Choice("hinting", 2))
	vsym.Assert(len(g.Points) == 1, "the component's point")
	if len(g.Points) != 1 {
		return
	}
	v, o := int(g.Points[0].X), int(g.Points[0].Y)
	if axis == 1 {
		v, o = o, v
	}
	vsym.Assert(o == 0, "no displacement along the other axis")
	if round {
		vsym.Assert(v&63 == 0, "rounded to whole pixels")
		near(v, d*scale, upem, 32*upem+upem/2, "scaled and rounded offset")
	} else {
		lib.ScaleRef(v, d*scale, upem, "scaled offset")
	}
}

// HConcat: the components' contours follow one another.
//
//vsym:merge=3
func HConcat() {
	f := lib.NewFont(6, 6, 1)
	a := []lib.XY{{1, 2, true}, {3, 4, false}}
	b := []lib.XY{{5, 6, false}, {7, 8, true}, {9, 10, true}}
	c := []lib.XY{{11, 12, true}}
	one, two := [][]lib.XY{a}, [][]lib.XY{b, c}
	all := [][][]lib.XY{nil, one, two}
	n := vsym.Choice("components", 3) + 1
	var comps [][]byte
	var want []lib.XY
	var ends []int
	var dxs []int
	for i := 0; i < n; i++ {
		k := vsym.Choice("glyph", 3)
		fl := lib.CXY | lib.CWords
		if i < n-1 {
			fl |= lib.CMore
		}
		dx, dy := vsym.Int("dx", -9000, 9000), vsym.Int("dy", -9000, 9000)
		comps = append(comps, lib.Comp(fl, k, dx, dy))
		for _, ct := range all[k] {
			for _, p := range ct {
				want = append(want, lib.XY{p.X + dx, p.Y + dy, p.On})
			}
			ends = append(ends, len(want))
		}
		dxs = append(dxs, dx)
	}
	if vsym.Choice("padded", 2) == 1 {
		comps = append(comps, make([]byte, 3))
	}
	f.Glyphs(n == 2, nil, lib.Outline(0, 0, nil, one...), lib.Outline(0, 0, nil, two...), lib.Compound(0, 0, comps...))
	same(load(f, 1, 3, vsym.Choice("hinting", 2)), want, ends)
}

func same(g *truetype.GlyphBuf, want []lib.XY, ends []int) {
	vsym.Assert(len(g.Points) == len(want) && len(g.Ends) == len(ends), "all components' points and contours")
	if len(g.Points) != len(want) || len(g.Ends) != len(ends) {
		return
	}
	for i, p := range want {
		vsym.Assert(int(g.Points[i].X) == p.X && int(g.Points[i].Y) == p.Y, "displaced point")
		vsym.Assert((g.Points[i].Flags&1 != 0) == p.On, "on-curve bit")
	}
	for i, e := range ends {
		vsym.Assert(g.Ends[i] == e, "end of a contour")
	}
}

// HNested: a component that is a compound glyph.
//
//vsym:merge=3
func HNested() {
	f := lib.NewFont(6, 6, 1)
	d := [8]int{}
	for i := range d {
		d[i] = vsym.Int("d", -4000, 4000)
	}
	w := lib.CXY | lib.CWords
	a := lib.Outline(0, 0, nil, []lib.XY{{10, 20, true}, {30, 40, false}}, []lib.XY{{50, 60, true}})
	f.Glyphs(true, nil, a,
		lib.Compound(0, 0, lib.Comp(w|lib.CMore, 1, d[0], d[1]), lib.Comp(w, 1, d[2], d[3])),
		lib.Compound(0, 0, lib.Comp(w|lib.CMore, 1, d[4], d[5]), lib.Comp(w, 2, d[6], d[7])))
	// half turn of the outer components
	turn := vsym.Choice("turn", 2) == 1
	if turn {
		f.Glyphs(true, nil, a,
			lib.Compound(0, 0, lib.Comp(w|lib.CMore, 1, d[0], d[1]), lib.Comp(w, 1, d[2], d[3])),
			lib.Compound(0, 0, lib.Comp(w|lib.CMore|lib.CScale, 1, d[4], d[5], -0x4000), lib.Comp(w|lib.CScale, 2, d[6], d[7], -0x4000)))
	}
	var want []lib.XY
	var ends []int
	add := func(x, y, ox, oy int) {
		for _, p := range []lib.XY{{10, 20, true}, {30, 40, false}, {50, 60, true}} {
			px, py := p.X+x, p.Y+y
			if turn {
				px, py = -px, -py
			}
			want = append(want, lib.XY{px + ox, py + oy, p.On})
		}
		ends = append(ends, len(want)-1, len(want))
	}
	add(0, 0, d[4], d[5])
	add(d[0], d[1], d[6], d[7])
	add(d[2], d[3], d[6], d[7])
	same(load(f, 1, 3, vsym.Choice("hinting", 2)), want, ends)
}

// HDeep: deep nesting loads, endless recursion is an error.
func HDeep() {
	n := 34
	f := lib.NewFont(n, n, 1)
	dx := vsym.Int("dx", -900, 900)
	depth := [...]int{2, 7, 15, 29, 33}[vsym.Choice("depth", 5)]
	gs := [][]byte{dot(1, 2)}
	loop := vsym.Choice("loop", 2) == 1
	if loop {
		gs[0] = lib.Compound(0, 0, lib.Comp(lib.CXY|lib.CWords, depth-vsym.Choice("back", 2), 0, 0))
	}
	for i := 1; i < n; i++ {
		gs = append(gs, lib.Compound(0, 0, lib.Comp(lib.CXY|lib.CWords, i-1, dx, 0)))
	}
	f.Glyphs(false, gs...)
	g, err := try(f, 1, depth, vsym.Choice("hinting", 2))
	if loop {
		vsym.Assert(err != nil, "endless recursion is an error")
		return
	}
	if err != nil {
		vsym.Assert(depth > 29, "deep nesting loads")
		return
	}
	same(g, []lib.XY{{1 + depth*dx, 2, true}}, []int{1})
}

// HMetrics: the compound's own metrics, or those of the flagged component.
func HMetrics() {
	f := lib.NewFont(5, 5, 1)
	flagged := vsym.Choice("flagged", 4)
	nested := vsym.Choice("nested", 2) == 1
	adv, lsb, x0 := [5]int{}, [5]int{}, [5]int{}
	for i := 1; i < 5; i++ {
		adv[i], lsb[i], x0[i] = int(vsym.U16("adv")), vsym.Int("lsb", -8000, 8000), vsym.Int("xMin", -8000, 8000)
		f.Metric(i, adv[i], lsb[i])
	}
	w := lib.CXY | lib.CWords
	mm := func(i int) int {
		if flagged == i {
			return lib.CMetrics
		}
		return 0
	}
	empty := vsym.Choice("empty", 2) == 1
	two := lib.Outline(x0[2], 0, nil, []lib.XY{{x0[2], 5, true}})
	if empty { // a component without data
		two, x0[2] = nil, 0
	}
	c3 := lib.Compound(x0[3], 0, lib.Comp(w, 1, 9, 9))
	gl := []int{0, 1, 2, 3}
	_ = gl
	f.Glyphs(true, nil,
		lib.Outline(x0[1], 0, nil, []lib.XY{{x0[1], 3, true}}),
		two, c3,
		lib.Compound(x0[4], 0,
			lib.Comp(w|lib.CMore|mm(1), 1, 0, 0), lib.Comp(w|lib.CMore|mm(2), 2, 0, 0), lib.Comp(w|mm(3), vsym.If(nested, 3, 1), 0, 0)))
	own := 4
	switch flagged {
	case 1, 2:
		own = flagged
	case 3:
		own = vsym.If(nested, 3, 1)
	}
	g := load(f, 1, 4, 0)
	vsym.Assert(int(g.AdvanceWidth) == adv[own], "advance width")
	if len(g.Points) == 0 {
		vsym.Assert(false, "the components' points")
		return
	}
	vsym.Assert(int(g.Points[0].X) == x0[1]-(x0[own]-lsb[own]), "bearing")
	if flagged == 0 && !empty {
		// hinted: pixels of 64 units
		h := load(f, 1, 4, 1)
		near(int(h.AdvanceWidth), adv[own], 1, 64, "hinted advance width")
	}
}

// HNestedMetrics: compounds of compounds, each with its own metrics or those of
// one of its components.
//
//vsym:merge=3
func HNestedMetrics() {
	upem := vsym.If(vsym.Choice("scaled", 2) == 1, 3, 1)
	f := lib.NewFont(7, 7, upem)
	var adv, shift [7]int
	k := vsym.Choice("free", 3)
	for i := 1; i < 7; i++ {
		adv[i], shift[i] = 900+30*i, 12*i-30
		if i%3 == k {
			shift[i] = vsym.Int("shift", -900, 900)
		}
		f.Metric(i, adv[i], 3*i-shift[i])
	}
	comp := func(i, my, a, b int) []byte {
		w := lib.CXY | lib.CWords
		if my > 0 {
			own := vsym.If(my == 1, a, b)
			adv[i], shift[i] = adv[own], shift[own]
		}
		return lib.Compound(3*i, 0,
			lib.Comp(w|lib.CMore|vsym.If(my == 1, lib.CMetrics, 0), a, 100, 0),
			lib.Comp(w|vsym.If(my == 2, lib.CMetrics, 0), b, 200, 0))
	}
	one := func(i int) []byte { return lib.Outline(3*i, 0, nil, []lib.XY{{3 * i, 6, true}}) }
	g4 := comp(4, vsym.Choice("metrics of 4", 3), 1, 2)
	a, b := 3-2*vsym.Choice("first", 2), 4-vsym.Choice("second", 2)
	g5 := comp(5, vsym.Choice("metrics of 5", 3), a, b)
	g6 := comp(6, vsym.Choice("metrics of 6", 3), 5, 2)
	f.Glyphs(true, nil, one(1), one(2), one(3), g4, g5, g6)
	g := load(f, 2, 6, 0)
	near(int(g.AdvanceWidth)*upem, 2*adv[6], 1, upem, "advance width")
	if len(g.Points) == 0 {
		vsym.Assert(false, "the points")
		return
	}
	near(int(g.Points[0].X)*upem, 2*(200+3*a-shift[6]), 1, 2*upem, "bearing")
	h := load(f, 2, 6, 1)
	near(int(h.AdvanceWidth)*upem, 2*adv[6], 1, 64*upem, "hinted advance width")
}

// HScaledMetrics: the same at other scales.
func HScaledMetrics() {
	upem := 1000
	scale := [...]int{768, 777}[vsym.Choice("scale", 2)]
	f := lib.NewFont(4, 4, upem)
	adv := vsym.Int("advance", 0, 4000)
	kind := vsym.Choice("kind", 4)
	w := lib.CXY | lib.CWords
	f.Metric(1, 300, 0)
	f.Metric(2, 300, 0)
	f.Metric(3, 300, 0)
	f.Metric(vsym.If(kind == 0, 3, vsym.If(kind == 1, 1, 2)), adv, 0)
	mm := lib.CMetrics
	if kind == 0 {
		mm = 0
	}
	two := []byte(nil) // kind 2: empty
	if kind == 3 {
		two = lib.Compound(0, 0, lib.Comp(w, 1, 5, 5))
	}
	f.Glyphs(true, nil, dot(0, 0), two, lib.Compound(0, 0, lib.Comp(w|lib.CMore, 1, 4, 4), lib.Comp(w|mm, vsym.If(kind < 2, 1, 2), 0, 0)))
	hint := vsym.Choice("hinting", 2)
	g := load(f, scale, 3, hint)
	if hint == 0 {
		near(int(g.AdvanceWidth), adv*scale, upem, upem, "scaled advance width")
	} else {
		near(int(g.AdvanceWidth), adv*scale, upem, 33*upem, "scaled and rounded advance width")
	}
}

// HHintedParts: each component is hinted with its own points.
func HHintedParts() {
	f := lib.NewFont(6, 6, 1)
	adv := vsym.Int("adv", 0, 3000)
	f.Metric(1, adv, 0)
	x := vsym.Int("x", -2000, 2000)
	// puts each point where it was before hinting
	prog := []byte{0xb3, 1, 1, 0, 0, 0x47, 0x48, 0x47, 0x48}
	a := lib.Outline(0, 0, prog, []lib.XY{{x, 20, true}, {x + 30, 40, true}})
	w := lib.CXY | lib.CWords
	n := vsym.Choice("components", 3) + 1
	var comps [][]byte
	var want []lib.XY
	var ends []int
	for i := 0; i < n; i++ {
		more := lib.CMore
		if i == n-1 {
			more = 0
		}
		k := vsym.Choice("glyph", 3)
		comps = append(comps, lib.Comp(w|more, k, 100*i, 7*i))
		if k == 2 {
			want = append(want, lib.XY{x + 100*i, 20 + 7*i, true}, lib.XY{x + 30 + 100*i, 40 + 7*i, true})
			ends = append(ends, len(want))
		}
	}
	f.Glyphs(true, nil, nil, a, lib.Compound(0, 0, comps...))
	same(load(f, 1, 3, 1), want, ends)
}

// HRejected: what cannot be loaded is an error.
func HRejected() {
	f := lib.NewFont(3, 3, 1)
	fl := vsym.Int("flags", 0, 0xffff)
	b := lib.Comp(0, 1, 0, 0)
	lib.Put16(b, 0, fl)
	vsym.Assume(fl&(lib.CXY|lib.CMore) != lib.CXY)
	n := vsym.Int("contours", -32768, -1)
	c := lib.Compound(0, 0, b)
	lib.Put16(c, 0, n)
	f.Glyphs(true, nil, dot(0, 0), c)
	_, err := try(f, 1, 2, vsym.Choice("hinting", 2))
	vsym.Assert(err != nil, "unsupported or cut off components are an error")
}
