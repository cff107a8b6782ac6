package lib

// GlyphHead makes the ten bytes that start a glyph's data.
func GlyphHead(nContour, x0, y0, x1, y1 int) []byte {
	return W16(nContour, x0, y0, x1, y1)
}

// Simple makes a simple glyph from the last point index of each contour, its
// instructions, its flag bytes and its coordinate bytes.
func Simple(x0, y1 int, ends []int, instr, flags, data []byte) []byte {
	b := GlyphHead(len(ends), x0, 0, 0, y1)
	b = append(b, W16(ends...)...)
	b = append(b, W16(len(instr))...)
	b = append(b, instr...)
	b = append(b, flags...)
	return append(b, data...)
}

// XY is a point of an outline in font units.
type XY struct {
	X, Y int
	On   bool
}

// Outline makes a simple glyph whose points have word coordinates.
func Outline(x0, y1 int, instr []byte, contours ...[]XY) []byte {
	var ends []int
	var fl, xs, ys []byte
	n, x, y := 0, 0, 0
	for _, c := range contours {
		for _, p := range c {
			f := byte(0)
			if p.On {
				f = 1
			}
			fl = append(fl, f)
			xs = append(xs, W16(p.X-x)...)
			ys = append(ys, W16(p.Y-y)...)
			x, y = p.X, p.Y
			n++
		}
		ends = append(ends, n-1)
	}
	return Simple(x0, y1, ends, instr, fl, append(xs, ys...))
}

// Comp makes one component of a compound glyph.
func Comp(flags, glyph, dx, dy int, matrix ...int) []byte {
	b := W16(flags, glyph)
	if flags&CWords != 0 {
		b = append(b, W16(dx, dy)...)
	} else {
		b = append(b, byte(dx), byte(dy))
	}
	return append(b, W16(matrix...)...)
}

// The flags of a component.
const (
	CWords   = 0x001
	CXY      = 0x002
	CRound   = 0x004
	CScale   = 0x008
	CMore    = 0x020
	CXYScale = 0x040
	C2x2     = 0x080
	CInstr   = 0x100
	CMetrics = 0x200
)

// Compound makes a compound glyph.
func Compound(x0, y1 int, comps ...[]byte) []byte {
	b := GlyphHead(-1, x0, 0, 0, y1)
	for _, c := range comps {
		b = append(b, c...)
	}
	return b
}

// Glyphs sets the glyf and loca tables.
func (f *Font) Glyphs(short bool, glyphs ...[]byte) {
	var g []byte
	l := make([]byte, 2*len(glyphs)+2)
	if !short {
		l = make([]byte, 4*len(glyphs)+4)
	}
	for i := 0; ; i++ {
		if short {
			Put16(l, 2*i, len(g)/2)
		} else {
			Put32(l, 4*i, len(g))
		}
		if i == len(glyphs) {
			break
		}
		g = append(g, glyphs[i]...)
		if short && len(g)%2 != 0 {
			g = append(g, 0)
		}
	}
	if g == nil {
		g = []byte{}
	}
	f.Set("glyf", g)
	f.Set("loca", l)
	h := f.Get("head")
	Put16(h, 50, 1)
	if short {
		Put16(h, 50, 0)
	}
}

// Metric sets a long horizontal metric.
func (f *Font) Metric(i, adv, lsb int) {
	d := f.Get("hmtx")
	Put16(d, 4*i, adv)
	Put16(d, 4*i+2, lsb)
}
