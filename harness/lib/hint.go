package lib

import (
	"github.com/golang/freetype/truetype"
	"github.com/golang/freetype/vsym"
	"golang.org/x/image/font"
	"golang.org/x/image/math/fixed"
)

// Hint is a font whose glyph 1 has a program.
type Hint struct {
	Fpgm, Prep, Prog []byte
	Cvt              []int
	Contours         [][]XY
	Upem             int // default 64
	Scale            int // default 64: a font unit is 1/64 pixel
	Twilight         int
	Storage, Stack   int // 0: the default
	Font             *truetype.Font
	Buf              truetype.GlyphBuf
}

// Parse makes the font.
func (h *Hint) Parse() {
	if h.Upem == 0 {
		h.Upem = 64
	}
	if h.Scale == 0 {
		h.Scale = 64
	}
	f := NewFont(2, 2, h.Upem)
	m := Maxp(2)
	Put16(m, 16, h.Twilight)
	Put16(m, 18, 16)
	Put16(m, 20, 16)
	Put16(m, 24, 64)
	if h.Storage != 0 {
		Put16(m, 18, h.Storage)
	}
	if h.Stack != 0 {
		Put16(m, 24, h.Stack)
	}
	f.Set("maxp", m)
	if h.Cvt != nil {
		f.Set("cvt ", W16(h.Cvt...))
	}
	if h.Fpgm != nil {
		f.Set("fpgm", h.Fpgm)
	}
	if h.Prep != nil {
		f.Set("prep", h.Prep)
	}
	f.Glyphs(false, nil, Outline(0, 0, h.Prog, h.Contours...))
	h.Font = MustParse(f)
}

// Load parses the font if need be and loads its glyph.
func (h *Hint) Load() error {
	if h.Font == nil {
		h.Parse()
	}
	return h.Buf.Load(h.Font, fixed.Int26_6(h.Scale), 1, font.HintingFull)
}

// MustLoad loads a glyph whose program has no error.
func (h *Hint) MustLoad() []truetype.Point {
	err := h.Load()
	if err != nil {
		vsym.Assert(false, "no error: "+err.Error())
		vsym.Skip()
	}
	return h.Buf.Points
}

// Row is n on-curve points (0, 0), (64, 0), (128, 0), ...
func Row(n int) []XY {
	var r []XY
	for i := 0; i < n; i++ {
		r = append(r, XY{64 * i, 0, true})
	}
	return r
}

// Cat concatenates pieces of a program.
func Cat(ps ...[]byte) []byte {
	var r []byte
	for _, p := range ps {
		r = append(r, p...)
	}
	return r
}

// Push pushes 16-bit values, the last one on top.
func Push(vs ...int) []byte {
	r := []byte{0x41, byte(len(vs))}
	for _, v := range vs {
		r = append(r, byte(v>>8), byte(v))
	}
	return r
}

// Push32 pushes a 32-bit value.
func Push32(v int) []byte {
	lo := int(int16(v))
	hi := (v - lo) >> 16
	return Cat(Push(hi, 0x4000), []byte{0x63}, Push(0x4000), []byte{0x63}, Push(lo), []byte{0x60})
}

// Any32 is any 32-bit value, in two halves, and the code that pushes it.
func Any32(name string) (int32, []byte) { return AnyHi(name, 0x8000) }

// AnyHi is like Any32, for values in about ±n<<16.
func AnyHi(name string, n int) (int32, []byte) {
	hi := vsym.Int(name+" high", -n, n-1)
	lo := vsym.Int(name+" low", -0x8000, 0x7fff)
	return int32(int16(hi))<<16 + int32(int16(lo)), Cat(Push(hi, 0x4000), []byte{0x63}, Push(0x4000), []byte{0x63}, Push(lo), []byte{0x60})
}

// ToY pops a value and sets the y coordinate of a point to it.
func ToY(p int) []byte {
	return Cat([]byte{0x00}, Push(p), []byte{0x23, 0x48})
}
