package c16

import (
	"github.com/golang/freetype/truetype"
	"github.com/golang/freetype/vsym"
	"github.com/golang/freetype/zzverif/lib"
	"golang.org/x/image/math/fixed"
)

func s16(name string) int { return int(int16(vsym.U16(name))) }

// HHorizontal: any metrics and any counts at the identity scale.
func HHorizontal() {
	n := vsym.Choice("nGlyph", 5)
	h := 1 + vsym.Choice("nHMetric", 5)
	if vsym.Thorough() {
		n = vsym.Choice("nGlyph", 9)
	}
	upem := [...]int{1, 1000, 2048, 65535}[(n+h)%4]
	f := lib.NewFont(n, h, upem)
	d := vsym.Bytes("hmtx", 2*(n+h))
	f.Set("hmtx", d)
	t := lib.MustParse(f)
	i := vsym.Choice("glyph", n+1)
	adv, lsb := 0, 0
	if i == n {
		i = vsym.Int("glyph", n, 65535) // the font does not have it
	} else if i < h {
		adv, lsb = lib.Get16(d, 4*i), lib.GetS16(d, 4*i+2)
	} else {
		adv, lsb = lib.Get16(d, 4*h-4), lib.GetS16(d, 4*h+2*(i-h))
	}
	m := t.HMetric(fixed.Int26_6(upem), truetype.Index(i))
	if upem == 65535 { // the product has to fit 32 bits
		vsym.Assume(adv < 32000 && lsb < 32000 && lsb > -32000)
	}
	vsym.Assert(int(m.AdvanceWidth) == adv, "advance width from the table")
	vsym.Assert(int(m.LeftSideBearing) == lsb, "left side bearing from the table")
}

// HVertical: any vertical metrics and fallbacks at the identity scale.
func HVertical() {
	n := 3
	upem := 1
	vl, ol := vsym.Choice("vmtx", 8), vsym.Choice("OS/2", 7)
	if vsym.Thorough() || vl+ol == 0 || vl+ol == 6 {
		upem = [...]int{1, 1000}[vsym.Choice("upem", 2)]
	}
	f := lib.NewFont(n, 1, upem)
	var v, os2 []byte
	if vl > 0 {
		v = vsym.Bytes("vmtx", [...]int{0, 4, 7, 8, 10, 12, 16}[vl-1])
		f.Set("vmtx", v)
	}
	if ol > 0 {
		os2 = vsym.Bytes("os2", [...]int{0, 68, 71, 72, 78, 96}[ol-1])
		f.Set("OS/2", os2)
	}
	t := lib.MustParse(f)
	i := vsym.Choice("glyph", n+1)
	h, b := 0, 0
	if i == n {
		i = vsym.Int("glyph", n, 65535)
	} else if 4*i+4 <= len(v) {
		h, b = lib.Get16(v, 4*i), lib.GetS16(v, 4*i+2)
	} else if len(os2) >= 72 {
		h, b = lib.GetS16(os2, 68)-lib.GetS16(os2, 70), lib.GetS16(os2, 68)
	} else {
		h = upem
	}
	m := t.VMetric(fixed.Int26_6(upem), truetype.Index(i))
	vsym.Assert(int(m.AdvanceHeight) == h, "advance height from the table or its fallback")
	vsym.Assert(int(m.TopSideBearing) == b, "top side bearing from the table or its fallback")
}

// HBounds: any bounds at the identity scale.
func HBounds() {
	upem := [...]int{1000, 2048, 1}[vsym.Choice("upem", 3)]
	f := lib.NewFont(1, 1, upem)
	d := vsym.Bytes("head", 54)
	lib.Put16(d, 18, upem)
	lib.Put16(d, 50, 0)
	f.Set("head", d)
	t := lib.MustParse(f)
	b := t.Bounds(fixed.Int26_6(upem))
	vsym.Assert(int(b.Min.X) == lib.GetS16(d, 36), "xMin from the table")
	vsym.Assert(int(b.Min.Y) == lib.GetS16(d, 38), "yMin from the table")
	vsym.Assert(int(b.Max.X) == lib.GetS16(d, 40), "xMax from the table")
	vsym.Assert(int(b.Max.Y) == lib.GetS16(d, 42), "yMax from the table")
	vsym.Assert(int(t.FUnitsPerEm()) == upem, "units per em from the table")
}

// HScale: any scale, or any value.
func HScale() {
	upem := [...]int{1000, 2048, 1, 16384, 1001}[vsym.Choice("upem", vsym.If(vsym.Thorough(), 5, 4))]
	v, scale := 0, 0
	if vsym.Choice("free", 2) == 0 {
		v = s16("value")
		scale = [...]int{768, 64, 777, 1, 4096}[vsym.Choice("scale", vsym.If(vsym.Thorough(), 5, 2))]
	} else {
		v = [...]int{-144, 301, 32767, -32768, 1, -1}[vsym.Choice("value", vsym.If(vsym.Thorough(), 6, 4))]
		scale = vsym.Int("scale", 0, 8000)
	}
	s := fixed.Int26_6(scale)
	f := lib.NewFont(2, 2, upem)
	f.Set("head", lib.Head(upem, v, 0, 0, v, 0))
	hm := make([]byte, 8)
	lib.Put16(hm, 4, lib.Max(v, 0))
	lib.Put16(hm, 6, v)
	f.Set("hmtx", hm)
	if vsym.Choice("vmtx", 2) == 1 {
		vm := make([]byte, 8)
		lib.Put16(vm, 4, lib.Max(v, 0))
		lib.Put16(vm, 6, v)
		f.Set("vmtx", vm)
	} else {
		o := make([]byte, 72)
		lib.Put16(o, 68, v)
		lib.Put16(o, 70, vsym.If(v < 0, v, 0))
		f.Set("OS/2", o)
	}
	t := lib.MustParse(f)
	h, m, b := t.HMetric(s, 1), t.VMetric(s, 1), t.Bounds(s)
	lib.ScaleRef(int(h.AdvanceWidth), lib.Max(v, 0)*scale, upem, "advance width")
	lib.ScaleRef(int(h.LeftSideBearing), v*scale, upem, "left side bearing")
	lib.ScaleRef(int(m.AdvanceHeight), lib.Max(v, 0)*scale, upem, "advance height")
	lib.ScaleRef(int(m.TopSideBearing), v*scale, upem, "top side bearing")
	lib.ScaleRef(int(b.Min.X), v*scale, upem, "bounds")
	lib.ScaleRef(int(b.Max.Y), v*scale, upem, "bounds")
	vsym.Assert(b.Min.Y == 0 && b.Max.X == 0, "bounds")
}
