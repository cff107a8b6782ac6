package c12

import (
	"github.com/golang/freetype/truetype"
	"github.com/golang/freetype/vsym"
	"github.com/golang/freetype/zzverif/lib"
)

// parse runs Parse, which must return a font or an error.
func parse(b []byte) bool {
	f, err := truetype.Parse(b)
	vsym.Assert((f == nil) == (err != nil), "a font or an error")
	return f != nil
}

// HBytes: short byte strings of any content.
func HBytes() {
	n := vsym.Choice("len", 34)
	if vsym.Thorough() {
		n = vsym.Choice("len", 50)
	}
	ok := parse(vsym.Bytes("b", n))
	vsym.Assert(!ok, "there is no font in so few bytes")
}

// HTTC: a collection header of any content before a font.
func HTTC() {
	f := lib.NewFont(2, 1, 1000).Bytes()
	h := vsym.Bytes("h", 16)
	copy(h, "ttcf")
	ff := append(append([]byte{}, h...), f...)
	// the font's table offsets count from the file's start
	for i := 0; i < 5; i++ {
		x := 16 + 12 + 16*i + 8
		lib.Put32(ff, x, lib.Get32(ff, x)+16)
	}
	n := lib.Get32(h, 8)
	v := lib.Get32(h, 4)
	off := lib.Get32(h, 12)
	ok := parse(ff)
	good := (v == 0x10000 || v == 0x20000) && n > 0 && n <= (len(ff)-12)/4 && off == 16
	if good {
		vsym.Assert(ok, "a collection's first font is parsed")
	}
	if v != 0x10000 && v != 0x20000 || n == 0 || n > (len(ff)-12)/4 || off == 0 || off+12 > len(ff) {
		vsym.Assert(!ok, "a bad collection header is an error")
	}
}

// HTTCShort: a collection cut off.
func HTTCShort() {
	b := vsym.Bytes("b", 12+vsym.Choice("len", 20))
	copy(b, "ttcf")
	ok := parse(b)
	vsym.Assert(!ok, "there is no font in so few bytes")
}

// HDirectory: any offset, length and tag in one directory entry.
func HDirectory() {
	f := lib.NewFont(2, 1, 1000)
	f.Set("kern", append(lib.W16(0, 1, 0, 20, 1, 1, 0, 0, 0), 0, 1, 0, 2, 0, 5))
	f.Set("name", make([]byte, 6))
	b := f.Bytes()
	i := vsym.Choice("entry", 7)
	x := 12 + 16*i
	lib.Put32(b, x+8, int(vsym.U32("off")))
	lib.Put32(b, x+12, int(vsym.U32("len")))
	off, n := lib.Get32(b, x+8), lib.Get32(b, x+12)
	ok := parse(b)
	if off+n > len(b) {
		vsym.Assert(!ok, "a table outside the data is an error")
	}
	if i == 6 {
		vsym.Assert(ok == (off+n <= len(b)), "any table within the data will do for an optional one")
	}
}

// HTags: any tag, any count.
func HTags() {
	f := lib.NewFont(2, 1, 1000)
	b := f.Bytes()
	x := 12 + 16*vsym.Choice("entry", 5)
	t := vsym.Bytes("tag", 4)
	copy(b[x:], t)
	if vsym.Choice("count", 2) == 1 {
		lib.Put16(b, 4, int(vsym.U16("n")))
		n := lib.Get16(b, 4)
		ok := parse(b)
		if 12+16*n > len(b) {
			vsym.Assert(!ok, "a directory longer than the data is an error")
		}
		return
	}
	parse(b)
}

// HTruncated: every prefix of a font.
func HTruncated() {
	f := lib.NewFont(2, 2, 1000)
	b := f.Bytes()
	n := vsym.Choice("len", len(b)+1)
	ok := parse(append(make([]byte, 0, n), b[:n]...))
	vsym.Assert(ok == (n == len(b)), "a font cut off is an error")
}

// HHead: any content and any length.
func HHead() {
	f := lib.NewFont(2, 1, 1000)
	n := [...]int{0, 1, 20, 53, 54, 55}[vsym.Choice("len", 6)]
	d := vsym.Bytes("head", n)
	f.Set("head", d)
	ok := parse(f.Bytes())
	if n != 54 {
		vsym.Assert(!ok, "a head table of the wrong size is an error")
	} else if lib.Get16(d, 50) > 1 {
		vsym.Assert(!ok, "an unknown loca format is an error")
	} else if lib.Get16(d, 18) != 0 {
		vsym.Assert(ok, "any other head table will do")
	}
}

// HMetrics: any maxp and hhea, any length of hmtx.
func HMetrics() {
	f := lib.NewFont(2, 1, 1000)
	which := vsym.Choice("which", 5)
	maxp, hhea, n := f.Get("maxp"), f.Get("hhea"), 2*vsym.Choice("hmtx", 8)+vsym.Choice("odd", 2)
	switch which {
	case 0:
		maxp = vsym.Bytes("maxp", 32)
	case 1:
		hhea = vsym.Bytes("hhea", 36)
	case 2:
		maxp, hhea = vsym.Bytes("maxp", 32), vsym.Bytes("hhea", 36)
	case 3:
		maxp = vsym.Bytes("maxp", [...]int{0, 5, 6, 31, 33}[vsym.Choice("len", 5)])
	case 4:
		hhea = vsym.Bytes("hhea", [...]int{0, 5, 8, 35, 37}[vsym.Choice("len", 5)])
	}
	f.Set("maxp", maxp)
	f.Set("hhea", hhea)
	f.Set("hmtx", make([]byte, n))
	ok := parse(f.Bytes())
	if which >= 3 {
		vsym.Assert(!ok, "a table of the wrong size is an error")
		return
	}
	g, h := lib.Get16(maxp, 4), lib.Get16(hhea, 34)
	if 2*(g+h) != n {
		vsym.Assert(!ok, "an hmtx table that does not fit the counts is an error")
	} else if h > 0 {
		vsym.Assert(ok, "an hmtx table that fits the counts is accepted")
	}
}

// HCmapHeader: any table of up to four subtables that is cut off anywhere.
func HCmapHeader() {
	f := lib.NewFont(2, 1, 1000)
	n := [...]int{0, 3, 4, 11, 12, 13, 16, 20, 28, 36}[vsym.Choice("len", 10)]
	if vsym.Thorough() {
		n = vsym.Choice("len", 40)
	}
	if vsym.Choice("kind", 2) == 0 {
		d := vsym.Bytes("cmap", n)
		f.Set("cmap", d)
		ok := parse(f.Bytes())
		if n < 4 || 4+8*lib.Get16(d, 2) > n {
			vsym.Assert(!ok, "a cmap directory cut off is an error")
		}
		return
	}
	// one subtable of a known encoding
	d := vsym.Bytes("cmap", n)
	copy(d, []byte{0, 0, 0, 1, 0, 3, 0, 1})
	if n >= 12 {
		if vsym.Choice("at", 2) == 0 {
			lib.Put32(d, 8, 12)
		}
		off := lib.Get32(d, 8)
		f.Set("cmap", d)
		ok := parse(f.Bytes())
		if off+2 > n || off == 0 {
			vsym.Assert(!ok, "a subtable outside the cmap table is an error")
		}
		return
	}
	f.Set("cmap", d)
	vsym.Assert(!parse(f.Bytes()), "a cmap directory cut off is an error")
}

// HCmap4: a format 4 subtable of any content, cut off anywhere.
func HCmap4() {
	f := lib.NewFont(2, 1, 1000)
	n := vsym.Choice("len", 40)
	d := vsym.Bytes("sub", n)
	if n >= 2 {
		lib.Put16(d, 0, 4)
	}
	c := lib.Cmap(3, 1, d)
	if vsym.Choice("last", 2) == 1 { // not the file's last table
		f.Set("cmap", nil)
		f.Tags = append(f.Tags, "cmap")
		f.Data = append(f.Data, c)
	} else {
		f.Set("cmap", c)
	}
	ok := parse(f.Bytes())
	if n < 14 {
		vsym.Assert(!ok, "a format 4 header cut off is an error")
		return
	}
	seg := lib.Get16(d, 6)
	if lib.Get16(d, 4) != 0 || seg%2 != 0 || 16+4*seg > n {
		vsym.Assert(!ok, "a bad or cut off format 4 subtable is an error")
	} else {
		vsym.Assert(ok, "a good format 4 subtable is accepted")
	}
}

// HCmap12: a format 12 subtable of any content, cut off anywhere.
func HCmap12() {
	f := lib.NewFont(2, 1, 1000)
	n := vsym.Choice("len", 56)
	d := vsym.Bytes("sub", n)
	if n >= 2 {
		lib.Put16(d, 0, 12)
	}
	c := lib.Cmap(3, 10, d)
	f.Set("cmap", nil)
	f.Tags = append(f.Tags, "cmap")
	f.Data = append(f.Data, c)
	ok := parse(f.Bytes())
	if n < 16 {
		vsym.Assert(!ok, "a format 12 header cut off is an error")
		return
	}
	groups := lib.Get32(d, 12)
	if lib.Get16(d, 2) != 0 || lib.Get32(d, 8) != 0 || lib.Get32(d, 4) != 16+12*groups || 16+12*groups > n {
		vsym.Assert(!ok, "a bad or cut off format 12 subtable is an error")
	} else {
		vsym.Assert(ok, "a good format 12 subtable is accepted")
	}
}

// HKern: a kern table of any content, cut off anywhere.
func HKern() {
	f := lib.NewFont(2, 1, 1000)
	n := vsym.Choice("len", 34)
	d := vsym.Bytes("kern", n)
	f.Set("kern", d)
	ok := parse(f.Bytes())
	if n == 0 {
		vsym.Assert(ok, "no kerning will do")
		return
	}
	if n < 18 {
		vsym.Assert(!ok, "a kern header cut off is an error")
		return
	}
	pairs := lib.Get16(d, 10)
	if lib.Get16(d, 6) != 14+6*pairs || 18+6*pairs > n {
		vsym.Assert(!ok, "a bad or cut off kern table is an error")
	} else if lib.Get16(d, 0) == 0 && lib.Get16(d, 2) > 0 && lib.Get16(d, 8) == 1 {
		vsym.Assert(ok, "a good kern table is accepted")
	}
}
