package c19

import (
	"github.com/golang/freetype/truetype"
	"github.com/golang/freetype/vsym"
	"github.com/golang/freetype/zzverif/lib"
)

// shift is a program that moves a point by an amount in 64ths, along x or y.
func shift(axis, point, by int) []byte {
	return lib.Cat([]byte{byte(1 - axis)}, lib.Push(point, by), []byte{0x38})
}

func instructed(comp, prog []byte) []byte {
	return lib.Cat(comp, []byte{byte(len(prog) >> 8), byte(len(prog))}, prog)
}

// HHinted: components carry their own instructions, and the compound's
// instructions work on the assembled outline.
func HHinted() {
	f := lib.NewFont(6, 6, 64)
	for i := 1; i < 6; i++ {
		f.Metric(i, 64*(4+i), 0)
	}
	axis := vsym.Choice("axis", 2)
	d := vsym.Int("d", -300, 300)
	ea, eb, ec := vsym.Int("ea", -128, 127), vsym.Int("eb", 33, 33+vsym.B2I(axis == 0)), -70
	a := []lib.XY{{0, 0, true}, {60, 5, true}, {30, 90, false}}
	b := []lib.XY{{0, 10, true}, {50, 10, true}, {50, 80, true}, {0, 80, false}}
	w := lib.CXY | lib.CWords
	empty := vsym.Choice("empty", 2) == 1
	metrics := vsym.Choice("metrics", 3)
	own := vsym.Choice("instructions", 2) == 1
	fl := func(k, more int) int {
		if metrics == k {
			return w | lib.CMetrics | more
		}
		return w | more
	}
	var comps [][]byte
	if empty {
		comps = append(comps, lib.Comp(w|lib.CMore, 4, 7, 7))
	}
	comps = append(comps, lib.Comp(fl(1, lib.CMore), 1, 0, 0))
	last := lib.Comp(fl(2, 0), 3, d, -d)
	if own {
		last = lib.Comp(fl(2, lib.CInstr), 3, d, -d)
		last = instructed(last, shift(axis, 4, ec))
	}
	comps = append(comps, last)
	f.Glyphs(true, nil,
		lib.Outline(0, 0, shift(axis, 1, ea), a),
		lib.Outline(0, 0, nil, b),
		lib.Compound(0, 0, instructed(lib.Comp(w|lib.CInstr, 2, 11, 3), shift(axis, 2, eb))),
		nil,
		lib.Compound(0, 0, comps...))
	hint := vsym.Choice("hinting", 2)
	g := load(f, 64, 5, hint)
	vsym.Assert(len(g.Points) == 7 && len(g.Ends) == 2, "seven points and two contours")
	if len(g.Points) != 7 || len(g.Ends) != 2 {
		return
	}
	vsym.Assert(g.Ends[0] == 3 && g.Ends[1] == 7, "the contours' ends")
	for i, p := range g.Points {
		var q lib.XY
		m := 0
		if i < 3 {
			q = a[i]
			m = vsym.B2I(i == 1) * ea
		} else {
			q = b[i-3]
			q.X, q.Y = q.X+11+d, q.Y+3-d
			m = vsym.B2I(i == 5) * eb
		}
		if own && i == 4 {
			m += ec
		}
		m *= hint
		vsym.Assert(int(p.X) == q.X+(1-axis)*m && int(p.Y) == q.Y+axis*m, "a component's point, as its instructions and the compound's move it")
		vsym.Assert(p.Flags&1 == uint32(vsym.B2I(q.On)), "on-curve bit")
	}
	adv := []int{5, 1, 3}[metrics]
	vsym.Assert(int(g.AdvanceWidth) == 64*(4+adv), "the advance of the glyph whose metrics are used")
}

// HMetricsHinted: a compound of one component whose metrics it takes is that
// component, also when it has instructions of its own that do nothing.
func HMetricsHinted() {
	upem := []int{64, 100, 37}[vsym.Choice("upem", 3)]
	f := lib.NewFont(4, 4, upem)
	adv, lsb := vsym.Int("advance", 0, 200), vsym.Int("bearing", -100, 100)
	f.Metric(1, adv, lsb)
	f.Metric(2, 77, 5)
	f.Metric(3, 10, -8)
	var prog []byte
	if vsym.Choice("program", 2) == 1 {
		prog = shift(0, 1, 13)
	}
	b := []lib.XY{{0, 10, true}, {50, 10, true}, {50, 80, true}}
	c := lib.Comp(lib.CXY|lib.CMetrics, 1, 0, 0)
	if vsym.Choice("instructions", 2) == 1 {
		c = instructed(lib.Comp(lib.CXY|lib.CMetrics|lib.CInstr, 1, 0, 0), lib.Cat(lib.Push(1), []byte{0x21}))
	}
	f.Glyphs(true, nil, lib.Outline(0, 0, prog, b), lib.Compound(0, 0, c), lib.Compound(0, 0, lib.Comp(lib.CXY|lib.CMetrics, 2, 0, 0)))
	hint := vsym.Choice("hinting", 2)
	scale := []int{64, 96, 333}[vsym.Choice("scale", 3)]
	g, one := load(f, scale, 2+vsym.Choice("nested", 2), hint), load(f, scale, 1, hint)
	alike(g, one)
}

func alike(g, h *truetype.GlyphBuf) {
	vsym.Assert(len(g.Points) == len(h.Points) && len(g.Ends) == len(h.Ends), "as many points")
	if len(g.Points) != len(h.Points) {
		return
	}
	for i := range g.Points {
		vsym.Assert(g.Points[i].X == h.Points[i].X && g.Points[i].Y == h.Points[i].Y, "the component's point")
	}
	vsym.Assert(g.AdvanceWidth == h.AdvanceWidth, "the component's advance")
	vsym.Assert(g.Bounds == h.Bounds, "the component's bounds")
}
