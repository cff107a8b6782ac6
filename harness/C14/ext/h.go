package c14

import (
	"github.com/golang/freetype/truetype"
	"github.com/golang/freetype/vsym"
	"github.com/golang/freetype/zzverif/lib"
)

func font(cmap []byte) *truetype.Font {
	f := lib.NewFont(2, 1, 1000)
	f.Set("cmap", cmap)
	return lib.MustParse(f)
}

func anyRune() rune { return rune(vsym.I32("rune", -1<<31, 1<<31-1)) }

// ref4 is the specification's lookup in a format 4 subtable.
func ref4(segs []lib.Seg, glyphs []int, c int) (g int, known bool) {
	n := len(segs)
	for i, s := range segs {
		if c > s.End {
			continue
		}
		if c < s.Start {
			return 0, true
		}
		if s.Offset == 0 {
			return (c + s.Delta) & 0xffff, true
		}
		// the offset counts from the segment's own idRangeOffset
		x := s.Offset/2 + (c - s.Start) - (n - i)
		if s.Offset%2 != 0 || x < 0 || x >= len(glyphs) {
			return 0, false
		}
		for j, v := range glyphs {
			if j == x {
				g = v
			}
		}
		if g == 0 {
			return 0, true
		}
		return (g + s.Delta) & 0xffff, true
	}
	return 0, true
}

// segments are n sorted segments within 16 bits.
func segments(n int) []lib.Seg {
	segs := make([]lib.Seg, n)
	for i := range segs {
		s := &segs[i]
		s.Start, s.End = int(vsym.U16("start")), int(vsym.U16("end"))
		s.Delta = int(vsym.U16("delta"))
		vsym.Assume(s.Start <= s.End)
		if i > 0 {
			vsym.Assume(segs[i-1].End < s.Start)
		}
	}
	return segs
}

// HDelta: segments that map by delta.
func HDelta() {
	n := vsym.Choice("n", 8)
	if vsym.Thorough() {
		n = vsym.Choice("n", 14)
	}
	segs := segments(n)
	pid, psid := 3, 1
	if vsym.Choice("unicode", 2) == 1 {
		pid, psid = 0, 3
	}
	t := font(lib.Cmap(pid, psid, lib.Cmap4(segs, nil)))
	c := anyRune()
	want, _ := ref4(segs, nil, int(uint32(c)))
	vsym.Assert(int(t.Index(c)) == want, "a rune maps by its segment's delta, or to 0")
}

// HArray: segments that map by the glyph array.
func HArray() {
	n := 1 + vsym.Choice("n", 3)
	segs := segments(n)
	k := vsym.Choice("which", n)
	segs[k].Offset = int(vsym.U16("offset"))
	if k > 0 && vsym.Choice("two", 2) == 1 {
		segs[k-1].Offset = int(vsym.U16("offset"))
	}
	m := 1 + vsym.Choice("glyphs", 3)
	if vsym.Thorough() {
		m = 5
	}
	glyphs := make([]int, m)
	for i := range glyphs {
		glyphs[i] = int(vsym.U16("glyph"))
	}
	t := font(lib.Cmap(3, 1, lib.Cmap4(segs, glyphs)))
	c := anyRune()
	got := t.Index(c)
	want, known := ref4(segs, glyphs, int(uint32(c)))
	if known {
		vsym.Assert(int(got) == want, "a rune maps through its segment's part of the glyph array")
	}
}

// HGroups: a format 12 subtable.
func HGroups() {
	n := vsym.Choice("n", 6)
	if vsym.Thorough() {
		n = vsym.Choice("n", 10)
	}
	d := make([]byte, 16+12*n)
	lib.Put16(d, 0, 12)
	lib.Put32(d, 4, len(d))
	lib.Put32(d, 12, n)
	type group struct{ start, end, glyph int }
	gs := make([]group, n)
	for i := range gs {
		g := group{int(vsym.U32("start")), int(vsym.U32("end")), int(vsym.U32("glyph"))}
		vsym.Assume(g.start <= g.end)
		if i > 0 {
			vsym.Assume(gs[i-1].end < g.start)
		}
		lib.Put32(d, 16+12*i, g.start)
		lib.Put32(d, 20+12*i, g.end)
		lib.Put32(d, 24+12*i, g.glyph)
		gs[i] = g
	}
	pid, psid := 3, 10
	if vsym.Choice("unicode", 2) == 1 {
		pid, psid = 0, 4
	}
	t := font(lib.Cmap(pid, psid, d))
	c := anyRune()
	x, want := int(uint32(c)), 0
	for _, g := range gs {
		if g.start <= x && x <= g.end {
			want = (g.glyph + x - g.start) & 0xffff
		}
	}
	vsym.Assert(int(t.Index(c)) == want, "a rune maps by its group, or to 0")
}

// HPreference: a Unicode subtable is preferred to a Microsoft one.
func HPreference() {
	n := 1 + vsym.Choice("n", 3)
	if vsym.Thorough() {
		n = 4
	}
	d := make([]byte, 4+8*n)
	lib.Put16(d, 2, n)
	type enc struct{ pid, psid int }
	es := make([]enc, n)
	order := vsym.Choice("reverse", 2)
	for i := range es {
		e := enc{int(vsym.U16("pid")), int(vsym.U16("psid"))}
		lib.Put16(d, 4+8*i, e.pid)
		lib.Put16(d, 6+8*i, e.psid)
		es[i] = e
	}
	for k := range es {
		i := k
		if order == 1 {
			i = n - 1 - k
		}
		lib.Put32(d, 8+8*i, len(d))
		if i%2 == 0 {
			d = append(d, lib.Cmap4([]lib.Seg{{'x', 'x', 10 + i - 'x', 0}}, nil)...)
		} else {
			b := make([]byte, 28)
			lib.Put16(b, 0, 12)
			lib.Put32(b, 4, 28)
			lib.Put32(b, 12, 1)
			lib.Put32(b, 16, 'x')
			lib.Put32(b, 20, 'x')
			lib.Put32(b, 24, 10+i)
			d = append(d, b...)
		}
	}
	f := lib.NewFont(2, 1, 1000)
	f.Set("cmap", d)
	t, err := truetype.Parse(f.Bytes())
	uni, ms := false, false
	for _, e := range es {
		uni = uni || e.pid == 0 && (e.psid == 3 || e.psid == 4)
		ms = ms || e.pid == 3 && (e.psid == 0 || e.psid == 1 || e.psid == 10)
	}
	vsym.Assert((err == nil) == (uni || ms), "a Unicode or Microsoft subtable is needed")
	if err != nil {
		return
	}
	g := int(t.Index('x')) - 10
	vsym.Assert(0 <= g && g < n, "one of the subtables is used")
	for i, e := range es {
		if i == g {
			if uni {
				vsym.Assert(e.pid == 0 && (e.psid == 3 || e.psid == 4), "a Unicode subtable is preferred")
			} else {
				vsym.Assert(e.pid == 3, "otherwise a Microsoft subtable")
			}
		}
	}
}
