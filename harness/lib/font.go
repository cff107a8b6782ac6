package lib

import (
	"github.com/golang/freetype/truetype"
	"github.com/golang/freetype/vsym"
)

// Put16 stores a big-endian value.
func Put16(b []byte, i, v int) { b[i], b[i+1] = byte(v>>8), byte(v) }

// Put32 stores a big-endian value.
func Put32(b []byte, i, v int) {
	Put16(b, i, v>>16)
	Put16(b, i+2, v)
}

// W16 makes a byte string of 16-bit values.
func W16(vs ...int) []byte {
	b := make([]byte, 2*len(vs))
	for i, v := range vs {
		Put16(b, 2*i, v)
	}
	return b
}

// Get16 reads an unsigned big-endian value.
func Get16(b []byte, i int) int { return int(b[i])<<8 | int(b[i+1]) }

// GetS16 reads a signed big-endian value.
func GetS16(b []byte, i int) int { return int(int16(Get16(b, i))) }

// Get32 reads an unsigned big-endian value.
func Get32(b []byte, i int) int { return Get16(b, i)<<16 | Get16(b, i+2) }

// Font assembles a font file.
type Font struct {
	Tags []string
	Data [][]byte
}

// Set adds or replaces a table; nil data removes it.
func (f *Font) Set(tag string, data []byte) {
	for i, t := range f.Tags {
		if t == tag {
			f.Data[i] = data
			return
		}
	}
	f.Tags = append(f.Tags, tag)
	f.Data = append(f.Data, data)
}

// Get returns a table.
func (f *Font) Get(tag string) []byte {
	for i, t := range f.Tags {
		if t == tag {
			return f.Data[i]
		}
	}
	return nil
}

// Bytes lays the file out: header, directory, tables in order.
func (f *Font) Bytes() []byte {
	n := 0
	for _, d := range f.Data {
		if d != nil {
			n++
		}
	}
	b := make([]byte, 12+16*n)
	Put32(b, 0, 0x00010000)
	Put16(b, 4, n)
	x := 12
	for i, t := range f.Tags {
		d := f.Data[i]
		if d == nil {
			continue
		}
		copy(b[x:], t)
		Put32(b, x+8, len(b))
		Put32(b, x+12, len(d))
		b = append(b, d...)
		x += 16
	}
	return b
}

// Head makes a head table.
func Head(upem, x0, y0, x1, y1, locFormat int) []byte {
	b := make([]byte, 54)
	Put16(b, 18, upem)
	Put16(b, 36, x0)
	Put16(b, 38, y0)
	Put16(b, 40, x1)
	Put16(b, 42, y1)
	Put16(b, 50, locFormat)
	return b
}

// Maxp makes a maxp table.
func Maxp(nGlyph int) []byte {
	b := make([]byte, 32)
	Put16(b, 4, nGlyph)
	Put16(b, 16, 4)  // twilight points
	Put16(b, 18, 4)  // storage
	Put16(b, 20, 4)  // functions
	Put16(b, 24, 16) // stack
	return b
}

// Hhea makes a hhea table.
func Hhea(ascent, descent, nHMetric int) []byte {
	b := make([]byte, 36)
	Put16(b, 4, ascent)
	Put16(b, 6, descent)
	Put16(b, 34, nHMetric)
	return b
}

// Seg is a segment of a format 4 subtable.
type Seg struct{ Start, End, Delta, Offset int }

// Cmap4 makes a format 4 subtable.
func Cmap4(segs []Seg, glyphs []int) []byte {
	n := len(segs)
	b := make([]byte, 16+8*n+2*len(glyphs))
	Put16(b, 0, 4)
	Put16(b, 2, len(b))
	Put16(b, 6, 2*n)
	for i, s := range segs {
		Put16(b, 14+2*i, s.End)
		Put16(b, 16+2*n+2*i, s.Start)
		Put16(b, 16+4*n+2*i, s.Delta)
		Put16(b, 16+6*n+2*i, s.Offset)
	}
	for i, g := range glyphs {
		Put16(b, 16+8*n+2*i, g)
	}
	return b
}

// Cmap wraps one subtable.
func Cmap(pid, psid int, sub []byte) []byte {
	b := make([]byte, 12)
	Put16(b, 2, 1)
	Put16(b, 4, pid)
	Put16(b, 6, psid)
	Put32(b, 8, 12)
	return append(b, sub...)
}

// NewFont is a font whose runes 'a', 'b', ... are glyphs 1, 2, ...
func NewFont(nGlyph, nHMetric, upem int) *Font {
	f := &Font{}
	f.Set("head", Head(upem, 0, 0, upem, upem, 1))
	f.Set("maxp", Maxp(nGlyph))
	f.Set("cmap", Cmap(3, 1, Cmap4([]Seg{{'a', 'a' + 63, 1 - 'a', 0}, {0xffff, 0xffff, 1, 0}}, nil)))
	f.Set("hhea", Hhea(upem*3/4, -upem/4, nHMetric))
	f.Set("hmtx", make([]byte, 2*nGlyph+2*nHMetric))
	return f
}

// MustParse parses a font that has to be accepted.
func MustParse(f *Font) *truetype.Font {
	t, err := truetype.Parse(f.Bytes())
	vsym.Assert(err == nil && t != nil, "the font parses")
	if t == nil {
		vsym.Skip()
	}
	return t
}

// ScaleRef asserts that got is x*scale/upem rounded to nearest, halves away
// from zero.
func ScaleRef(got, x, upem int, what string) {
	d := 2 * (got*upem - x) // twice the error, times upem
	vsym.Assert(d <= upem && d >= -upem, what+": rounded to nearest")
	vsym.Assert(d != upem || x > 0, what+": halves away from zero")
	vsym.Assert(d != -upem || x < 0, what+": halves away from zero")
}
