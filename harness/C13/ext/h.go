package c13

import (
	"github.com/golang/freetype/truetype"
	"github.com/golang/freetype/vsym"
	"github.com/golang/freetype/zzverif/lib"
	"golang.org/x/image/math/fixed"
)

func parse(f *lib.Font) *truetype.Font {
	t, _ := truetype.Parse(f.Bytes())
	if t == nil {
		vsym.Skip()
	}
	return t
}

func anyScale() fixed.Int26_6 { return fixed.Int26_6(vsym.I32("scale", -1<<31, 1<<31-1)) }
func anyRune() rune           { return rune(vsym.I32("rune", -1<<31, 1<<31-1)) }
func anyGlyph() truetype.Index { return truetype.Index(vsym.U16("glyph")) }

// last puts a table at the end of the file, or in its middle, so that reading
// past its end either leaves the file or not.
func last(f *lib.Font, tag string, d []byte) {
	if f.Get(tag) != nil {
		f.Set(tag, nil)
	}
	f.Tags = append(f.Tags, tag)
	f.Data = append(f.Data, d)
}

// HIndex4: any format 4 subtable.
func HIndex4() {
	f := lib.NewFont(2, 1, 1000)
	n := 14 + [...]int{0, 2, 10, 11, 12, 18, 20, 26}[vsym.Choice("len", 8)]
	d := vsym.Bytes("sub", n)
	copy(d, []byte{0, 4})
	last(f, "cmap", lib.Cmap(3, 1, d))
	t := parse(f)
	t.Index(anyRune())
}

// HIndex12: any format 12 subtable.
func HIndex12() {
	f := lib.NewFont(2, 1, 1000)
	d := vsym.Bytes("sub", 16+12*vsym.Choice("groups", 4))
	copy(d, []byte{0, 12, 0, 0})
	last(f, "cmap", lib.Cmap(3, 10, d))
	t := parse(f)
	t.Index(anyRune())
}

// HIndexAt: a subtable anywhere in the cmap table.
func HIndexAt() {
	f := lib.NewFont(2, 1, 1000)
	d := lib.Cmap(0, 3, vsym.Bytes("sub", 26))
	lib.Put32(d, 8, int(vsym.U32("off")))
	last(f, "cmap", d)
	t := parse(f)
	t.Index(anyRune())
}

// HKern: any kern table.
func HKern() {
	f := lib.NewFont(2, 1, 1000)
	d := vsym.Bytes("kern", 18+[...]int{0, 5, 6, 12, 17, 18}[vsym.Choice("len", 6)])
	copy(d, []byte{0, 0})
	last(f, "kern", d)
	t := parse(f)
	t.Kern(anyScale(), anyGlyph(), anyGlyph())
}

// HName: any name table.
func HName() {
	f := lib.NewFont(2, 1, 1000)
	n := [...]int{0, 3, 4, 5, 6, 7, 17, 18, 19, 21, 30}[vsym.Choice("len", 11)]
	d := vsym.Bytes("name", n)
	last(f, "name", d)
	t := parse(f)
	t.Name(truetype.NameID(vsym.U16("id")))
}

// HNameStr: a matching record with any offset and length.
func HNameStr() {
	f := lib.NewFont(2, 1, 1000)
	d := vsym.Bytes("name", 18+4)
	copy(d, []byte{0, 0, 0, 1})
	copy(d[6:], []byte{0, 3, 0, 1})
	copy(d[12:], []byte{0, 1})
	last(f, "name", d)
	t := parse(f)
	s := t.Name(1)
	vsym.Assert(len(s) <= 11, "no more than the table holds")
}

// HMetrics: any counts and metrics.
func HMetrics() {
	f := lib.NewFont(2, 1, 1000)
	maxp, hhea := vsym.Bytes("maxp", 32), vsym.Bytes("hhea", 36)
	f.Set("maxp", maxp)
	f.Set("hhea", hhea)
	hm := vsym.Bytes("hmtx", 2*vsym.Choice("hmtx", 7))
	q := vsym.Choice("query", 2)
	if q == 1 {
		if !vsym.Thorough() {
			hm = hm[:lib.Min(len(hm), 4)]
		}
		if vsym.Choice("v", 2) == 1 {
			f.Set("vmtx", vsym.Bytes("vmtx", [...]int{3, 4, 7, 9}[vsym.Choice("vmtx", 4)]))
		} else {
			f.Set("OS/2", vsym.Bytes("os2", [...]int{0, 68, 70, 71, 72}[vsym.Choice("os2", 5)]))
		}
	}
	last(f, "hmtx", hm)
	t := parse(f)
	i := anyGlyph()
	var h truetype.HMetric
	var v truetype.VMetric
	if q == 0 {
		h = t.HMetric(anyScale(), i)
	} else {
		v = t.VMetric(anyScale(), i)
	}
	if int(i) >= lib.Get16(maxp, 4) {
		vsym.Assert(h == truetype.HMetric{} && v == truetype.VMetric{}, "a glyph the font does not have has no metrics")
	}
}

// HHead: any head table.
func HHead() {
	f := lib.NewFont(2, 1, 1000)
	f.Set("head", vsym.Bytes("head", 54))
	f.Set("kern", append(lib.W16(0, 1, 0, 20, 1, 1, 0, 0, 0), 0, 1, 0, 0, 0, 5))
	t := parse(f)
	switch vsym.Choice("query", 4) {
	case 0:
		t.Bounds(anyScale())
	case 1:
		t.HMetric(anyScale(), 1)
	case 2:
		t.VMetric(anyScale(), 1)
	default:
		t.Kern(anyScale(), 1, 0)
	}
}

// HNothing: a font without the optional tables.
func HNothing() {
	f := lib.NewFont(0, 0, 1000)
	f.Set("hmtx", nil)
	if vsym.Choice("empty", 2) == 1 {
		f.Set("cmap", lib.Cmap(3, 1, lib.Cmap4(nil, nil)))
	}
	t := lib.MustParse(f)
	vsym.Assert(t.Kern(anyScale(), anyGlyph(), anyGlyph()) == 0, "no kerning")
	vsym.Assert(t.Name(truetype.NameID(vsym.U16("id"))) == "", "no names")
	vsym.Assert(t.HMetric(anyScale(), anyGlyph()) == truetype.HMetric{}, "no horizontal metrics")
	vsym.Assert(t.VMetric(anyScale(), anyGlyph()) == truetype.VMetric{}, "no vertical metrics")
	t.Index(anyRune())
	t.Bounds(anyScale())
	vsym.Assert(t.FUnitsPerEm() == 1000, "units per em")
}
