package c15

import (
	"github.com/golang/freetype/truetype"
	"github.com/golang/freetype/vsym"
	"github.com/golang/freetype/zzverif/lib"
	"golang.org/x/image/math/fixed"
)

func kern(pairs [][3]int) []byte {
	d := make([]byte, 18+6*len(pairs))
	lib.Put16(d, 2, 1)
	lib.Put16(d, 6, 14+6*len(pairs))
	lib.Put16(d, 8, 1)
	lib.Put16(d, 10, len(pairs))
	// searchRange and the like are not needed
	lib.Put16(d, 12, int(vsym.U16("searchRange")))
	lib.Put16(d, 14, int(vsym.U16("entrySelector")))
	lib.Put16(d, 16, int(vsym.U16("rangeShift")))
	for i, p := range pairs {
		lib.Put16(d, 18+6*i, p[0])
		lib.Put16(d, 20+6*i, p[1])
		lib.Put16(d, 22+6*i, p[2])
	}
	return d
}

func sorted(n int, value func(i int) int) [][3]int {
	ps := make([][3]int, n)
	for i := range ps {
		ps[i] = [3]int{int(vsym.U16("left")), int(vsym.U16("right")), value(i)}
		if i > 0 {
			p := ps[i-1]
			vsym.Assume(p[0]<<16|p[1] < ps[i][0]<<16|ps[i][1])
		}
	}
	return ps
}

func glyph() int { return int(vsym.U16("glyph")) }

// HPairs: any sorted table, any pair, at the identity scale.
func HPairs() {
	n := [...]int{0, 1, 2, 3, 5, 6}[vsym.Choice("n", 6)]
	if vsym.Thorough() {
		n = vsym.Choice("n", 14)
	}
	f := lib.NewFont(2, 1, 1)
	ps := sorted(n, func(int) int { return int(int16(vsym.U16("value"))) })
	d := kern(ps)
	if vsym.Choice("more", 2) == 1 { // something behind the first subtable
		d = append(d, vsym.Bytes("rest", 12)...)
		lib.Put16(d, 2, 2)
	}
	f.Set("kern", d)
	t := lib.MustParse(f)
	a, b := glyph(), glyph()
	want := 0
	for _, p := range ps {
		want = vsym.If(p[0] == a && p[1] == b, p[2], want)
	}
	got := t.Kern(1, truetype.Index(a), truetype.Index(b))
	vsym.Assert(int(got) == want, "the value of the pair, or 0")
}

// HScale: any scale.
func HScale() {
	upem := [...]int{1000, 2048, 1, 16384, 1001}[vsym.Choice("upem", vsym.If(vsym.Thorough(), 5, 4))]
	f := lib.NewFont(2, 1, upem)
	v, scale := 0, 0
	if vsym.Choice("free", 2) == 0 {
		v = int(int16(vsym.U16("value")))
		scale = [...]int{768, 64, 777, 1, 4096, upem}[vsym.Choice("scale", vsym.If(vsym.Thorough(), 6, 2))]
	} else {
		v = [...]int{-144, 301, 32767, -32768, 1, -1}[vsym.Choice("value", vsym.If(vsym.Thorough(), 6, 4))]
		scale = vsym.Int("scale", 0, 8000)
	}
	f.Set("kern", kern([][3]int{{3, 9, 50}, {4, 4, v}, {4, 5, 77}}))
	t := lib.MustParse(f)
	got := t.Kern(fixed.Int26_6(scale), 4, 4)
	lib.ScaleRef(int(got), v*scale, upem, "kerning")
	vsym.Assert(t.Kern(fixed.Int26_6(scale), 4, 6) == 0, "0 for other pairs")
}

// HNone: a font without pairs.
func HNone() {
	f := lib.NewFont(2, 1, 1000)
	if vsym.Choice("empty", 2) == 1 {
		f.Set("kern", append(kern(nil), vsym.Bytes("rest", 12)...))
	}
	t := lib.MustParse(f)
	got := t.Kern(fixed.Int26_6(vsym.I32("scale", -1<<31, 1<<31-1)), truetype.Index(glyph()), truetype.Index(glyph()))
	vsym.Assert(got == 0, "no kerning")
}
