SEEDS = []
def seed(**k): SEEDS.append(k)

RAST = '''
import (
	"testing"

	"github.com/golang/freetype/raster"
	"golang.org/x/image/math/fixed"
)

func p(x, y int) fixed.Point26_6 {
	return fixed.Point26_6{X: fixed.Int26_6(x), Y: fixed.Int26_6(y)}
}

func poly(r *raster.Rasterizer, q ...int) {
	r.Start(p(q[0], q[1]))
	for i := 2; i < len(q); i += 2 {
		r.Add1(p(q[i], q[i+1]))
	}
	r.Add1(p(q[0], q[1]))
}

func spans(r *raster.Rasterizer) (s []raster.Span) {
	r.Rasterize(raster.PainterFunc(func(ss []raster.Span, done bool) { s = append(s, ss...) }))
	return s
}

// pixels returns the alpha of the pixels.
func pixels(s []raster.Span, w, h int) []uint32 {
	a := make([]uint32, w*h)
	for _, s := range s {
		for x := s.X0; x < s.X1; x++ {
			a[s.Y*w+x] = s.Alpha
		}
	}
	return a
}
'''
FONT = '''
import (
	"testing"

	"github.com/golang/freetype/truetype"
	"golang.org/x/image/font"
	"golang.org/x/image/math/fixed"
)

func parse(t *testing.T, b []byte) *truetype.Font {
	f, err := truetype.Parse(b)
	if err != nil {
		t.Fatal(err)
	}
	return f
}

func load(t *testing.T, f *truetype.Font, scale, i int, h font.Hinting) *truetype.GlyphBuf {
	g := &truetype.GlyphBuf{}
	if err := g.Load(f, fixed.Int26_6(scale), truetype.Index(i), h); err != nil {
		t.Fatal(err)
	}
	return g
}
'''

seed(id='right-clip-last-column', prop='C03', pkg='raster', helper=False,
  edits=[('raster/raster.go','''	} else if xi > r.width {
		xi = r.width
	}''','''	} else if xi >= r.width {
		xi = r.width - 1
	}''')],
  needs='geometry that extends beyond the right edge of the rasterizer bounds',
  breaks='what lies right of the bounds is accumulated in the last column, so clipped pixels differ from those in larger bounds',
  test=RAST+'''
func TestZZDemo(t *testing.T) {
	big, small := raster.NewRasterizer(16, 8), raster.NewRasterizer(8, 8)
	for _, r := range []*raster.Rasterizer{big, small} {
		poly(r, 100, 64, 700, 64, 730, 300, 130, 300)
	}
	a, b := pixels(spans(big), 16, 8), pixels(spans(small), 8, 8)
	for y := 0; y < 8; y++ {
		for x := 0; x < 8; x++ {
			if a[16*y+x] != b[8*y+x] {
				t.Fatalf("pixel %d, %d is %x, and %x when clipped", x, y, a[16*y+x], b[8*y+x])
			}
		}
	}
}
''')

seed(id='scanline-remainder', prop='C02', pkg='raster', helper=False,
  edits=[('raster/raster.go','''				xDelta = fullDelta
				xRem += fullRem
				if xRem >= 0 {
					xDelta += 1
					xRem -= q
				}''','''				xDelta = fullDelta
				xRem += fullRem
				if xRem > 0 {
					xDelta += 1
					xRem -= q
				}''')],
  needs='a segment over three or more rows with an intermediate row boundary crossed at an exact multiple of 1/64 pixel',
  breaks='the crossing of that row is 1/64 short, and the remainder is carried on, so the crossing is not the exact one rounded',
  test=RAST+'''
func TestZZDemo(t *testing.T) {
	// The edge moves half a unit right in each row.
	r := raster.NewRasterizer(8, 8)
	poly(r, 0, 0, 64, 0, 67, 384, 0, 384)
	a := pixels(spans(r), 8, 8)
	if a[8*2+1] != 2*a[8*1+1] || a[8*1+1] == 0 {
		t.Fatalf("row 1 has %x, row 2 %x", a[8*1+1], a[8*2+1])
	}
}
''')

seed(id='clear-keeps-area', prop='C06', pkg='raster', helper=False,
  edits=[('raster/raster.go','''	r.yi = 0
	r.area = 0
	r.cover = 0
''','''	r.yi = 0
	r.cover = 0
''')],
  needs='Clear while the current cell has unsaved area, as after Add1 without Rasterize',
  breaks='area of the cancelled path is painted with the next one',
  test=RAST+'''
func TestZZDemo(t *testing.T) {
	r := raster.NewRasterizer(8, 8)
	r.Start(p(60, 4))
	r.Add1(p(10, 50))
	r.Clear()
	poly(r, 64, 64, 128, 64, 128, 128, 64, 128)
	n := raster.NewRasterizer(8, 8)
	poly(n, 64, 64, 128, 64, 128, 128, 64, 128)
	a, b := pixels(spans(r), 8, 8), pixels(spans(n), 8, 8)
	for i := range a {
		if a[i] != b[i] {
			t.Fatalf("pixel %d is %x after Clear, and %x on a new Rasterizer", i, a[i], b[i])
		}
	}
}
''')

seed(id='stale-scaled-cvt', prop='C22', pkg='truetype',
  edits=[('truetype/hint.go',"""		h.scale = scale
		h.scaledCVTInitialized = false

		h.defaultGS = globalDefaultGS
		clearStore(h.store)
""","""		h.scale = scale

		h.defaultGS = globalDefaultGS
		clearStore(h.store)
""")],
  needs='two hinted Loads of one font at different scales into one GlyphBuf, with a program that uses the control value table',
  breaks='the second load uses control values scaled for the first',
  test=FONT+"""
func TestZZDemo(t *testing.T) {
	prog := []byte{0x00, 0xb1, 2, 0, 0x3e} // SVTCA[y], MIAP[0] point 2 to cvt 0
	b := simple(prog, []pt{{0, 0, true}, {30, 0, true}, {0, 30, true}})
	f := parse(t, file(map[string][]byte{"cvt ": be(32)}, nil, b))
	want := load(t, f, 128, 1, font.HintingFull)
	g := load(t, f, 64, 1, font.HintingFull)
	if err := g.Load(f, 128, 1, font.HintingFull); err != nil {
		t.Fatal(err)
	}
	for i, p := range g.Points {
		if p != want.Points[i] {
			t.Fatalf("point %d: %v, want %v", i, p, want.Points[i])
		}
	}
}
""")

seed(id='delta-ppem-last', prop='C27', pkg='truetype',
  edits=[('truetype/hint.go','''		case opSHC0, opSHC1:
			top--
			zonePointer, i, d, ok := h.displacement(opcode&1 == 0)''','''		case opSHC0, opSHC1:
			top--
			zonePointer, i, d, ok := h.displacement(opcode&1 == 0 || h.gs.rp[1] == h.gs.rp[2])'''),
  ],
  needs='SHC[1] with reference points 1 and 2 of the same index in different zones',
  breaks='the contour is shifted by the displacement of reference point 2 instead of 1',
  test=FONT+'''
func TestZZDemo(t *testing.T) {
	prog := []byte{
		0x00,             // SVTCA[y]
		0xb0, 0, 0x13, // SZP0 := twilight
		0xb1, 0, 0, 0x3e, // MIAP[0] twilight point 0 to cvt 0
		0xb0, 0, 0x15, 0xb1, 0, 16, 0x38, // SZP2, SHPIX: move it by 16
		0xb0, 1, 0x15, // SZP2 := glyph
		0xb0, 0, 0x11, 0xb0, 0, 0x12, // SRP1, SRP2 := 0
		0xb0, 0, 0x35, // SHC[1] contour 0
	}
	sq := []pt{{0, 0, true}, {30, 0, true}, {0, 30, true}}
	f := parse(t, file(map[string][]byte{"cvt ": be(32)}, nil, simple(prog, sq)))
	g := load(t, f, 64, 1, font.HintingFull)
	if g.Points[0].Y != 16 || g.Points[2].Y != 46 {
		t.Fatal(g.Points)
	}
}
''')
SEEDS[-1]['id'] = 'shc-equal-references'


seed(id='even-odd-fold', prop='C04', pkg='raster', helper=False,
  edits=[('raster/raster.go','alpha = 0x2000 - alpha','alpha = 0x1fff - alpha')],
  needs='the even-odd rule and a pixel whose overlapping contours cover between one and two times its area',
  breaks='the alpha of the doubly covered fraction is off by one step, so covering a pixel twice does not cancel exactly',
  test=RAST+"""
func TestZZDemo(t *testing.T) {
	// Two copies of a square cancel; a third of the pixel is covered thrice.
	r := raster.NewRasterizer(4, 4)
	poly(r, 64, 64, 128, 64, 128, 128, 64, 128)
	poly(r, 64, 64, 96, 64, 96, 128, 64, 128)
	a := pixels(spans(r), 4, 4)[5]
	n := raster.NewRasterizer(4, 4)
	poly(n, 96, 64, 128, 64, 128, 128, 96, 128)
	if b := pixels(spans(n), 4, 4)[5]; a != b {
		t.Fatalf("%x, want %x", a, b)
	}
}
""")

seed(id='span-buffer-margin', prop='C01', pkg='raster', helper=False,
  edits=[('raster/raster.go','if s > len(r.spanBuf)-2 {','if s > len(r.spanBuf)-1 {')],
  needs='many spans in one Rasterize call, with a cell that yields two when the buffer has room for one',
  breaks='Rasterize runs off its span buffer',
  test=RAST+"""
func TestZZDemo(t *testing.T) {
	r := raster.NewRasterizer(300, 4)
	// A first cell with one span; then thin bars, with two spans each.
	poly(r, 0, 0, 32, 0, 32, 64, 0, 64)
	for i := 1; i < 90; i++ {
		x := 64 * 3 * i
		poly(r, x+8, 0, x+160, 0, x+160, 64, x+8, 64)
	}
	n := 0
	for _, s := range spans(r) {
		if s.Alpha != 0 {
			n++
		}
	}
	if n != 1+89*3 {
		t.Fatal(n)
	}
}
""")

seed(id='monochrome-stale-row', prop='C08', pkg='raster', helper=False,
  edits=[('raster/paint.go','if m.y == s.Y && m.x1 == s.X0 {','if m.x1 == s.X0 {')],
  needs='an opaque span that begins in the column where the last opaque span, in an earlier row, ended',
  breaks='it is painted in the row of the earlier span',
  test=RAST+"""
func TestZZDemo(t *testing.T) {
	var got []raster.Span
	m := raster.NewMonochromePainter(raster.PainterFunc(func(ss []raster.Span, done bool) { got = append(got, ss...) }))
	m.Paint([]raster.Span{{1, 1, 4, 0xffff}, {2, 4, 6, 0xffff}}, true)
	if len(got) != 2 || got[1] != (raster.Span{2, 4, 6, 0xffff}) {
		t.Fatalf("got %v", got)
	}
}
""")

seed(id='gamma-last-entry', prop='C09', pkg='raster', helper=False,
  edits=[('raster/paint.go','for i := 0; i < 256; i++ {','for i := 0; i < 255; i++ {')],
  needs='a gamma that is not 1 and a span with an alpha of more than 0xfe00 but less than 0xffff',
  breaks='almost opaque spans come out fainter than less opaque ones',
  test=RAST+"""
func TestZZDemo(t *testing.T) {
	var got []raster.Span
	g := raster.NewGammaCorrectionPainter(raster.PainterFunc(func(ss []raster.Span, done bool) { got = append(got, ss...) }), 0.5)
	g.Paint([]raster.Span{{0, 1, 2, 0xfdfd}, {0, 2, 3, 0xff80}}, true)
	if got[0].Alpha > got[1].Alpha {
		t.Fatalf("got %v", got)
	}
}
""")

seed(id='stroke-start-cap', prop='C11', pkg='raster', helper=False,
  edits=[('raster/stroke.go','k.cr.Cap(k.p, k.u, pivot, pivot.Sub(fixed.Point26_6{k.r[1], k.r[2]}))','k.cr.Cap(k.p, k.u, pivot, k.anorm)')],
  needs='a stroked path whose last segment has another direction than its first',
  breaks='the cap at the start has the direction of the end of the path, and the outline does not close',
  test=RAST+"""
type rec struct{ last fixed.Point26_6 }

func (r *rec) Start(a fixed.Point26_6)      { r.last = a }
func (r *rec) Add1(b fixed.Point26_6)       { r.last = b }
func (r *rec) Add2(b, c fixed.Point26_6)    { r.last = c }
func (r *rec) Add3(b, c, d fixed.Point26_6) { r.last = d }

func TestZZDemo(t *testing.T) {
	var q raster.Path
	q.Start(p(0, 0))
	q.Add1(p(640, 0))
	q.Add1(p(640, 640))
	r := &rec{}
	raster.Stroke(r, q, 128, raster.ButtCapper, raster.BevelJoiner)
	if r.last != p(0, -64) {
		t.Fatal(r.last)
	}
}
""")

seed(id='arc-third-octant', prop='C11', pkg='raster', helper=False,
  edits=[('raster/stroke.go',"""				p.Add2(pm1.Sub(n0t), pivot.Add(m2))
				s = m2""","""				p.Add2(pm1.Add(n0t), pivot.Add(m2))
				s = m2""")],
  needs='a round join at a right turn of more than 135 degrees',
  breaks='the third piece of the arc leaves the circle',
  test=RAST+"""
type rec struct {
	pts []fixed.Point26_6
	a   fixed.Point26_6
}

func (r *rec) Start(a fixed.Point26_6) { r.a = a }
func (r *rec) Add1(b fixed.Point26_6)  { r.a = b }
func (r *rec) Add2(b, c fixed.Point26_6) {
	r.pts = append(r.pts, p(int(r.a.X+2*b.X+c.X)/4, int(r.a.Y+2*b.Y+c.Y)/4))
	r.a = c
}
func (r *rec) Add3(b, c, d fixed.Point26_6) { r.a = d }

func TestZZDemo(t *testing.T) {
	for _, y := range []int{200, -200} {
		var q raster.Path
		q.Start(p(0, 0))
		q.Add1(p(4000, 0))
		q.Add1(p(0, y))
		r := &rec{}
		raster.Stroke(r, q, 1280, raster.ButtCapper, raster.RoundJoiner)
		for _, a := range r.pts {
			dx, dy := int(a.X)-4000, int(a.Y)
			if d := dx*dx + dy*dy; d < 620*620 || 660*660 < d {
				t.Fatal(r.pts, a)
			}
		}
	}
}
""")

seed(id='kern-search', prop='C15', pkg='truetype',
  edits=[('truetype/truetype.go','lo, hi := 0, f.nKern\n','lo, hi := 0, f.nKern-1\n')],
  needs='the pair that is the last of the kern table',
  breaks='it is not found, so it is not kerned',
  test=FONT+"""
func TestZZDemo(t *testing.T) {
	kern := be(0, 1, 0, 14+6*4, 1, 4, 0, 0, 0)
	for i := 0; i < 4; i++ {
		kern = cat(kern, be(i, 1, 10+i))
	}
	sq := simple(nil, []pt{{0, 0, true}, {30, 0, true}, {0, 30, true}})
	f := parse(t, file(map[string][]byte{"kern": kern}, sq, sq, sq, sq))
	for i := 0; i < 4; i++ {
		if k := f.Kern(64, truetype.Index(i), 1); k != fixed.Int26_6(10+i) {
			t.Fatal(i, k)
		}
	}
	_ = font.HintingNone
}
""")

seed(id='unicode-overridden', prop='C14', pkg='truetype',
  edits=[('truetype/truetype.go',"""			bestOffset, bestPID, ok = offset, pidPsid>>16, true
			break

""","""			bestOffset, bestPID, ok = offset, pidPsid>>16, true

""")],
  needs='a font with a Unicode cmap subtable before a Microsoft one that differs from it',
  breaks='the Microsoft subtable is used instead of the preferred Unicode one',
  test=FONT+"""
func TestZZDemo(t *testing.T) {
	sub := func(c, g int) []byte { return be(4, 32, 0, 4, 0, 0, 0, c, 0xffff, 0, c, 0xffff, g-c, 1, 0, 0) }
	a, b := sub('A', 1), sub('A', 2)
	cmap := cat(be(0, 2, 0, 3, 0, 20, 3, 1, 0, 20+len(a)), a, b)
	sq := simple(nil, []pt{{0, 0, true}, {30, 0, true}, {0, 30, true}})
	f := parse(t, file(map[string][]byte{"cmap": cmap}, sq, sq, sq))
	if i := f.Index('A'); i != 1 {
		t.Fatal(i)
	}
	_, _ = font.HintingNone, fixed.Int26_6(0)
}
""")

seed(id='monospaced-bearing', prop='C16', pkg='truetype',
  edits=[('truetype/truetype.go','u16(f.hmtx, p+2*(j-f.nHMetric)+4)','u16(f.hmtx, p+2*(j-f.nHMetric)+2)')],
  needs='a font with fewer horizontal metrics than glyphs',
  breaks='a glyph without its own advance gets the left side bearing of the glyph before it',
  test=FONT+"""
func TestZZDemo(t *testing.T) {
	hhea := make([]byte, 36)
	copy(hhea[34:], be(1))
	sq := simple(nil, []pt{{0, 0, true}, {30, 0, true}, {0, 30, true}})
	f := parse(t, file(map[string][]byte{"hhea": hhea, "hmtx": be(40, 3, 5, 7)}, sq, sq, sq))
	for i, w := range []fixed.Int26_6{3, 5, 7} {
		if h := f.HMetric(64, truetype.Index(i)); h.LeftSideBearing != w || h.AdvanceWidth != 40 {
			t.Fatal(i, h)
		}
	}
	_ = font.HintingNone
}
""")

seed(id='name-surrogate-control', prop='C17', pkg='truetype',
  edits=[('truetype/truetype.go','if 0x20 <= r && r < 0x7f {','if 0x20 <= r && r&0xff < 0x7f {')],
  needs='a name with a character outside of ASCII whose low byte is less than 0x7f',
  breaks='the character is shown as the control or letter of its low byte',
  test=FONT+"""
func TestZZDemo(t *testing.T) {
	name := cat(be(0, 1, 18, 0, 3, 0, 4, 4, 0), be('A', 0x0142))
	sq := simple(nil, []pt{{0, 0, true}, {30, 0, true}, {0, 30, true}})
	f := parse(t, file(map[string][]byte{"name": name}, sq))
	if n := f.Name(truetype.NameIDFontFullName); n != "A?" {
		t.Fatalf("%q", n)
	}
	_, _ = font.HintingNone, fixed.Int26_6(0)
}
""")

seed(id='flag-repeat-count', prop='C18', pkg='truetype',
  edits=[('truetype/glyph.go','			count := glyf[offset]\n','			count := glyf[offset] & 0x7f\n')],
  needs='a flag that is repeated more than 127 times',
  breaks='it is repeated 128 times less, and what follows is decoded from the wrong place',
  test=FONT+"""
func TestZZDemo(t *testing.T) {
	// 150 points, each 2 to the right of the last.
	b := cat(be(1, 0, 0, 0, 0, 149, 0), []byte{0x01 | 0x02 | 0x10 | 0x20 | 0x08, 149})
	for i := 0; i < 150; i++ {
		b = append(b, 2)
	}
	b = append(b, 0, 0)
	f := parse(t, file(nil, b))
	g := load(t, f, 64, 0, font.HintingNone)
	if len(g.Points) != 150 || g.Points[149].X != 300 {
		t.Fatal(len(g.Points))
	}
}
""")

seed(id='two-by-two-transposed', prop='C19', pkg='truetype',
  edits=[('truetype/glyph.go',"""				transform[1] = int16(u16(glyf, offset+2))
				transform[2] = int16(u16(glyf, offset+4))""","""				transform[2] = int16(u16(glyf, offset+2))
				transform[1] = int16(u16(glyf, offset+4))""")],
  needs='a component with a two by two matrix that is not symmetric',
  breaks='the component is transformed by the transposed matrix: a rotation turns the other way',
  test=FONT+"""
func TestZZDemo(t *testing.T) {
	c := simple(nil, []pt{{0, 0, true}, {30, 0, true}, {0, 10, true}})
	m := cat(be(-1, 0, 0, 0, 0), be(0x0083, 1, 0, 0, 0, 0x4000, -0x4000, 0), make([]byte, 8))
	f := parse(t, file(nil, m, c))
	g := load(t, f, 64, 0, font.HintingNone)
	if p := g.Points[1]; p.X != 0 || p.Y != 30 {
		t.Fatal(g.Points)
	}
}
""")

seed(id='nested-metrics', prop='C20', pkg='truetype',
  edits=[('truetype/glyph.go','componentUMM := useMyMetrics && (flags&flagUseMyMetrics != 0)','componentUMM := flags&flagUseMyMetrics != 0')],
  needs='a compound glyph with a component, not marked USE_MY_METRICS, that is itself compound and has one which is marked',
  breaks='the glyph is shifted by, and has the metrics of, a component that was not to provide them',
  test=FONT+"""
func TestZZDemo(t *testing.T) {
	c := simple(nil, []pt{{0, 0, true}, {30, 0, true}, {0, 10, true}})
	inner := cat(be(-1, 0, 0, 0, 0), be(0x0203, 2, 0, 0), make([]byte, 8))
	outer := cat(be(-1, 0, 0, 0, 0), be(0x0003, 1, 0, 0), make([]byte, 8))
	// The bearing of the simple glyph moves it by 7.
	hmtx := be(64, 0, 64, 0, 40, 7)
	f := parse(t, file(map[string][]byte{"hmtx": hmtx}, outer, inner, c))
	g := load(t, f, 64, 0, font.HintingNone)
	if g.AdvanceWidth != 64 || g.Points[0].X != 0 {
		t.Fatal(g.AdvanceWidth, g.Points)
	}
}
""")

seed(id='jrot-negative', prop='C25', pkg='truetype',
  edits=[('truetype/hint.go',"""			if h.stack[top+1] != 0 {
				pc += int(h.stack[top])""","""			if h.stack[top+1] > 0 {
				pc += int(h.stack[top])""")],
  needs='JROT with a negative condition',
  breaks='the jump is not taken though the condition is not zero',
  test=FONT+"""
func TestZZDemo(t *testing.T) {
	// PUSHW 3 -1, JROT over two POPs, and SHPIX of point 0 by 32.
	prog := []byte{0x00, 0xb9, 0, 3, 0xff, 0xff, 0x78, 0x21, 0x21, 0xb1, 0, 32, 0x38}
	b := simple(prog, []pt{{0, 0, true}, {30, 0, true}, {0, 30, true}})
	f := parse(t, file(nil, b))
	g := load(t, f, 64, 0, font.HintingFull)
	if g.Points[0].Y != 32 {
		t.Fatal(g.Points)
	}
}
""")

seed(id='iup-first-contour', prop='C28', pkg='truetype',
  edits=[('truetype/hint.go',"""						h.iupShift(iupY, prevEnd, end, curTouched)""","""						h.iupShift(iupY, firstTouched, end, curTouched)""")],
  needs='a contour of which one point is touched that is not its first',
  breaks='the points before it are not moved along',
  test=FONT+"""
func TestZZDemo(t *testing.T) {
	prog := []byte{0x00, 0xb1, 1, 32, 0x38, 0x30} // SVTCA[y], SHPIX point 1 by 32, IUP[y]
	b := simple(prog, []pt{{0, 0, true}, {30, 0, true}, {0, 30, true}})
	f := parse(t, file(nil, b))
	g := load(t, f, 64, 0, font.HintingFull)
	if g.Points[0].Y != 32 || g.Points[2].Y != 62 {
		t.Fatal(g.Points)
	}
}
""")

seed(id='round-negative-phase', prop='C26', pkg='truetype',
  edits=[('truetype/hint.go','''	ret := -x - h.gs.roundPhase + h.gs.roundThreshold
	if h.gs.roundSuper45 {''','''	ret := -x - h.gs.roundPhase + h.gs.roundThreshold - 1
	if h.gs.roundSuper45 {''')],
  needs='a negative value that is exactly at the threshold of the rounding state',
  breaks='it is rounded towards zero, where its opposite is rounded away',
  test=FONT+"""
func TestZZDemo(t *testing.T) {
	// RTG, ROUND[0] of -32, written by SHPIX.
	prog := []byte{0x00, 0x18, 0xb0, 0, 0xb8, 0xff, 0xe0, 0x68, 0x38}
	b := simple(prog, []pt{{0, 0, true}, {30, 0, true}, {0, 30, true}})
	f := parse(t, file(nil, b))
	g := load(t, f, 64, 0, font.HintingFull)
	if g.Points[0].Y != -64 {
		t.Fatal(g.Points)
	}
}
""")

seed(id='face-index-cache', prop='C29', pkg='truetype',
  edits=[('truetype/face.go',"""		a.indexCache[i].rune = -1
""","""		a.indexCache[i].rune = rune(i)
""")],
  needs='a rune of less than 256 that is the first in its cache slot',
  breaks='it is taken for glyph 0',
  test=FONT+"""
func TestZZDemo(t *testing.T) {
	sq := simple(nil, []pt{{0, 0, true}, {30, 0, true}, {0, 30, true}})
	big := simple(nil, []pt{{0, 0, true}, {60, 0, true}, {0, 60, true}})
	f := parse(t, file(map[string][]byte{"hmtx": be(64, 0, 32, 0)}, sq, big))
	a := truetype.NewFace(f, &truetype.Options{Size: 64, DPI: 72})
	if w, ok := a.GlyphAdvance('B'); !ok || w != 32*64 {
		t.Fatal(w, ok)
	}
	_, _ = font.HintingNone, fixed.Int26_6(0)
}
""")

seed(id='face-cache-key', prop='C30', pkg='truetype',
  edits=[('truetype/face.go',"""		fy:    uint8(fy),
	}
	var v""","""		fy:    uint8(fy & 0x1f),
	}
	var v""")],
  needs='vertical sub-pixel positions and a cache of few entries, with the glyph drawn at two heights half a pixel apart',
  breaks='the mask of the first height is used for the second',
  test=FONT+"""
func TestZZDemo(t *testing.T) {
	sq := simple(nil, []pt{{0, 0, true}, {30, 0, true}, {30, 30, true}, {0, 30, true}})
	f := parse(t, file(nil, sq))
	o := &truetype.Options{Size: 8, DPI: 72, GlyphCacheEntries: 1, SubPixelsY: 4}
	a, b := truetype.NewFace(f, o), truetype.NewFace(f, o)
	at := func(a font.Face, y int) (s []uint32) {
		dr, m, mp, _, _ := a.Glyph(fixed.Point26_6{Y: fixed.Int26_6(y)}, 'A')
		for j := 0; j < dr.Dy(); j++ {
			for i := 0; i < dr.Dx(); i++ {
				_, _, _, x := m.At(mp.X+i, mp.Y+j).RGBA()
				s = append(s, x)
			}
		}
		return s
	}
	want := at(a, 48)
	at(b, 16)
	got := at(b, 48)
	if len(want) != len(got) {
		t.Fatal(want, got)
	}
	for i := range got {
		if got[i] != want[i] {
			t.Fatal(want, got)
		}
	}
}
""")

DRAW = FONT.replace('"testing"\n','"image"\n\t"image/color"\n\t"testing"\n').replace('	"github.com/golang/freetype/truetype"','	"github.com/golang/freetype"\n	"github.com/golang/freetype/truetype"')
seed(id='context-kern-first', prop='C31', pkg='.',
  edits=[('freetype.go',"""			if c.hinting != font.HintingNone {
				kern = (kern + 32) &^ 63
			}""","""			if c.hinting != font.HintingNone {
				kern = kern &^ 63
			}""")],
  needs='a hinted string with a kerning pair that is not a whole number of pixels',
  breaks='the kerning is rounded down instead of to nearest, so the string has another extent than with a Face',
  test=DRAW+"""
func TestZZDemo(t *testing.T) {
	sq := simple(nil, []pt{{0, 0, true}, {30, 0, true}, {0, 30, true}})
	kern := be(0, 1, 0, 20, 1, 1, 0, 0, 0, 0, 1, 40)
	f := parse(t, file(map[string][]byte{"kern": kern}, sq, sq))
	c := freetype.NewContext()
	c.SetDPI(72)
	c.SetFont(f)
	c.SetFontSize(1)
	c.SetHinting(font.HintingFull)
	m := image.NewRGBA(image.Rect(0, 0, 8, 8))
	c.SetDst(m)
	c.SetClip(m.Bounds())
	c.SetSrc(image.NewUniform(color.Black))
	p, err := c.DrawString("AB", fixed.Point26_6{Y: 256})
	if err != nil || p.X != 64+64+64 {
		t.Fatal(p, err)
	}
	_ = load
}
""")

seed(id='context-clip-cache', prop='C32', pkg='.',
  edits=[('freetype.go','if e := c.cache[t]; e.valid && e.glyph == glyph {','if e := c.cache[t]; e.valid && e.glyph%nGlyphs == glyph%nGlyphs {')],
  needs='a font of more than 256 glyphs, two of which share a cache slot, drawn one after the other',
  breaks='the second is drawn as the first',
  test=DRAW+"""
func TestZZDemo(t *testing.T) {
	a := simple(nil, []pt{{0, 0, true}, {60, 0, true}, {60, 60, true}, {0, 60, true}})
	b := simple(nil, []pt{{0, 0, true}, {10, 0, true}, {0, 10, true}})
	gs := make([][]byte, 257)
	for i := range gs {
		gs[i] = a
	}
	gs[256] = b
	f := parse(t, file(nil, gs...))
	paint := func(s string) (n int) {
		c := freetype.NewContext()
		c.SetDPI(72)
		c.SetFont(f)
		c.SetFontSize(4)
		m := image.NewRGBA(image.Rect(0, 0, 16, 8))
		c.SetDst(m)
		c.SetClip(m.Bounds())
		c.SetSrc(image.NewUniform(color.Black))
		for _, r := range s {
			if _, err := c.DrawString(string(r), fixed.Point26_6{Y: 320}); err != nil {
				t.Fatal(err)
			}
			n = 0
			for i := range m.Pix {
				n += int(m.Pix[i])
				m.Pix[i] = 0
			}
		}
		return n
	}
	second := string(rune('A' + 256))
	if got, want := paint("A"+second), paint(second); got != want {
		t.Fatal(got, want)
	}
	_, _ = load, font.HintingNone
}
""")

seed(id='contour-implied-start', prop='C33', pkg='.',
  edits=[('freetype.go',"""				X: (start.X + last.X) / 2,
				Y: (start.Y + last.Y) / 2,
			}
			others = ps
""","""				X: (start.X + last.X) / 2,
				Y: (start.Y + last.Y) / 2,
			}
			others = ps[1:]
""")],
  needs='a contour that begins and ends with points off the curve',
  breaks='the first control point is skipped, so the curve has a corner cut off',
  test=DRAW+"""
func TestZZDemo(t *testing.T) {
	// A square with rounded corners, encoded from two starting points.
	a := simple(nil, []pt{{0, 0, false}, {60, 0, false}, {60, 60, false}, {0, 60, false}})
	b := simple(nil, []pt{{30, 0, true}, {60, 0, false}, {60, 60, false}, {0, 60, false}, {0, 0, false}})
	f := parse(t, file(nil, a, b))
	paint := func(s string) []byte {
		c := freetype.NewContext()
		c.SetDPI(72)
		c.SetFont(f)
		c.SetFontSize(6)
		m := image.NewRGBA(image.Rect(0, 0, 8, 8))
		c.SetDst(m)
		c.SetClip(m.Bounds())
		c.SetSrc(image.NewUniform(color.Black))
		if _, err := c.DrawString(s, fixed.Point26_6{Y: 384}); err != nil {
			t.Fatal(err)
		}
		return m.Pix
	}
	if string(paint("A")) != string(paint("B")) {
		t.Fatal(paint("A"), paint("B"))
	}
	_, _ = load, font.HintingNone
}
""")

seed(id='table-past-end', prop='C12', pkg='truetype',
  edits=[('truetype/truetype.go','if end < 0 || end > len(ttf) {','if end < 0 || offset > len(ttf) {')],
  needs='a table directory entry that begins within the file and ends past it',
  breaks='Parse panics instead of returning an error',
  test=FONT+"""
func TestZZDemo(t *testing.T) {
	b := file(nil, simple(nil, []pt{{0, 0, true}, {30, 0, true}, {0, 30, true}}))
	for i := len(b) - 1; i > 200; i-- {
		if _, err := truetype.Parse(b[:i:i]); err == nil && i < len(b)-8 {
			t.Fatal(i)
		}
	}
	_, _, _ = load, font.HintingNone, fixed.Int26_6(0)
}
""")

seed(id='metric-one-past', prop='C13', pkg='truetype',
  edits=[('truetype/truetype.go',"""func (f *Font) unscaledHMetric(i Index) (h HMetric) {
	j := int(i)
	if j < 0 || f.nGlyph <= j {""","""func (f *Font) unscaledHMetric(i Index) (h HMetric) {
	j := int(i)
	if j < 0 || f.nGlyph < j {""")],
  needs='the metrics of the glyph index that is one past the last glyph',
  breaks='HMetric panics',
  test=FONT+"""
func TestZZDemo(t *testing.T) {
	f := parse(t, file(nil, simple(nil, []pt{{0, 0, true}, {30, 0, true}, {0, 30, true}})))
	for i := 0; i < 4; i++ {
		if h := f.HMetric(64, truetype.Index(i)); (h.AdvanceWidth != 64) != (i > 0) {
			t.Fatal(i, h)
		}
	}
	_, _, _ = load, font.HintingNone, fixed.Int26_6(0)
}
""")

seed(id='cindex-bottom', prop='C23', pkg='truetype',
  edits=[('truetype/hint.go','if x <= 0 || x >= top {','if x <= 0 || x > top {')],
  needs='CINDEX or MINDEX with an index of one more than there are elements below it',
  breaks='the interpreter reads below its stack and panics',
  test=FONT+"""
func TestZZDemo(t *testing.T) {
	b := simple([]byte{0xb1, 7, 2, 0x25}, []pt{{0, 0, true}, {30, 0, true}, {0, 30, true}})
	f := parse(t, file(nil, b))
	g := &truetype.GlyphBuf{}
	if err := g.Load(f, 64, 0, font.HintingFull); err == nil {
		t.Fatal("no error")
	}
	_, _ = load, fixed.Int26_6(0)
}
""")

seed(id='or-sum', prop='C24', pkg='truetype',
  edits=[('truetype/hint.go','bool2int32(h.stack[top-1]|h.stack[top] != 0)','bool2int32(h.stack[top-1]+h.stack[top] != 0)')],
  needs='OR of two values that are opposite',
  breaks='the disjunction of two true values is false',
  test=FONT+"""
func TestZZDemo(t *testing.T) {
	// IF (1 OR -1), SHPIX point 0 by 32.
	prog := []byte{0x00, 0xb9, 0, 1, 0xff, 0xff, 0x5b, 0x58, 0xb1, 0, 32, 0x38, 0x59}
	f := parse(t, file(nil, simple(prog, []pt{{0, 0, true}, {30, 0, true}, {0, 30, true}})))
	if g := load(t, f, 64, 0, font.HintingFull); g.Points[0].Y != 32 {
		t.Fatal(g.Points)
	}
}
""")

seed(id='quadratic-flatness', prop='C05', pkg='raster', helper=False,
  edits=[('raster/raster.go',"""	for dev > 0 {
		dev /= 4
		nsplit++""","""	for dev > 0 {
		dev /= 8
		nsplit++""")],
  needs='a quadratic segment that bends by many pixels',
  breaks='the curve is flattened into too few lines',
  test=RAST+"""
func TestZZDemo(t *testing.T) {
	r := raster.NewRasterizer(60, 20)
	r.Start(p(0, 0))
	r.Add2(p(0, 1200), p(3600, 1200))
	r.Add1(p(0, 0))
	sum := 0
	for _, s := range spans(r) {
		sum += int(s.Alpha) * (s.X1 - s.X0)
	}
	// The area between the curve and its chord is two thirds of the triangle's;
	// the curve is 60 pixels long.
	want := 1200 * 3600 / 3
	if d := sum*4096/65535 - want; d > 12000 || -d > 12000 {
		t.Fatal(sum*4096/65535, want)
	}
}
""")

seed(id='rgba-opaque-shift', prop='C07', pkg='raster', helper=False,
  edits=[('raster/paint.go','				a := (m - (r.ca * ma / m)) * 0x101','				a := (m - (r.ca*ma)>>16) * 0x101')],
  needs='an opaque colour and a fully covered pixel',
  breaks='what is under an opaque span shines through by one part in 65535, so that a colour is off by one for some pixels',
  test=RAST.replace('import (','import (\n\t"image"\n\t"image/color"\n')+"""
func TestZZDemo(t *testing.T) {
	for v := 0; v < 256; v++ {
		m := image.NewRGBA(image.Rect(0, 0, 1, 1))
		m.Pix = []byte{byte(v), byte(v), byte(v), 255}
		q := raster.NewRGBAPainter(m)
		for c := 0; c < 256; c++ {
			copy(m.Pix, []byte{255, 255, 255, 255})
			q.SetColor(color.RGBA{uint8(c), 0, 255, 255})
			q.Paint([]raster.Span{{0, 0, 1, 0xffff}}, true)
			if m.Pix[0] != byte(c) || m.Pix[1] != 0 || m.Pix[2] != 255 || m.Pix[3] != 255 {
				t.Fatal(v, c, m.Pix)
			}
		}
	}
	_, _, _ = p, poly, spans
}
""")

seed(id='path-append-joined', prop='C10', pkg='raster', helper=False,
  edits=[('raster/geom.go',"""func (p *Path) AddPath(q Path) {
	*p = append(*p, q...)""","""func (p *Path) AddPath(q Path) {
	if len(*p) > 0 && len(q) > 4 && q[0] == 0 && p.lastPoint() == q.firstPoint() {
		// The pen is there already.
		q = q[4:]
	}
	*p = append(*p, q...)""")],
  needs='a path added to another one that ends where it starts',
  breaks='the curves are joined, which shows when the path is stroked or read',
  test=RAST+"""
func TestZZDemo(t *testing.T) {
	var a, b, c raster.Path
	a.Start(p(10, 20))
	a.Add1(p(30, 40))
	b.Start(p(30, 40))
	b.Add2(p(5, 6), p(7, 8))
	c = append(append(c, a...), b...)
	a.AddPath(b)
	if a.String() != c.String() {
		t.Fatal(a, c)
	}
}
""")

seed(id='mutual-recursion', prop='C21', pkg='truetype',
  edits=[('truetype/glyph.go','	if recursion >= 32 {','	if recursion >= 1<<31 {'),
         ('truetype/glyph.go',"""		if err := g.load(recursion+1, component, componentUMM); err != nil {""","""		if component == i {
			return UnsupportedError("recursive compound glyph")
		}
		if err := g.load(recursion+1, component, componentUMM); err != nil {""")],
  needs='two compound glyphs that contain each other',
  breaks='loading one of them does not end until the stack overflows',
  test=FONT.replace('"testing"','"runtime/debug"\n\t"testing"')+"""
func TestZZDemo(t *testing.T) {
	debug.SetMaxStack(1 << 26)
	c := func(i int) []byte {
		return cat(be(-1, 0, 0, 0, 0), be(0x0003, i, 0, 0), make([]byte, 8))
	}
	f := parse(t, file(nil, c(1), c(0)))
	g := &truetype.GlyphBuf{}
	if g.Load(f, fixed.Int26_6(64), 0, font.HintingNone) == nil {
		t.Fatal("no error")
	}
	_ = load
}
""")

seed(id='many-points', prop='C21', pkg='truetype',
  edits=[('truetype/glyph.go','	np1 := np0 + int(g.Ends[len(g.Ends)-1])','	np1 := np0 + int(g.Ends[len(g.Ends)-1]&0x7fff)')],
  needs='a glyph with a contour end of 32767 or more',
  breaks='the contours refer to points that are not there, which crashes hinting (or the caller)',
  test=FONT+"""
func TestZZDemo(t *testing.T) {
	defer func() {
		if e := recover(); e != nil {
			t.Fatal(e)
		}
	}()
	// One contour that ends with point 32768, of which all coordinates are the same.
	b := cat(be(1, 0, 0, 0, 0, 32768, 2), []byte{0x00, 0x30, 0x31}, make([]byte, 256))
	for i := 17; i < len(b); i += 2 {
		b[i], b[i+1] = 0x39, 255
	}
	f := parse(t, file(nil, b))
	g := &truetype.GlyphBuf{}
	if err := g.Load(f, fixed.Int26_6(64), 0, font.HintingFull); err == nil {
		for _, e := range g.Ends {
			_ = g.Points[e-1]
		}
	}
	_ = load
}
""")

seed(id='name-in-place', prop='C34', pkg='truetype',
  edits=[('truetype/truetype.go','		dst = make([]byte, len(src)/2)','		dst = src[:len(src)/2]')],
  needs='asking for a name twice, or two users of the font',
  breaks='asking for the name overwrites the font file in memory',
  test=FONT+"""
func TestZZDemo(t *testing.T) {
	f := file(map[string][]byte{"name": cat(be(0, 1, 18, 3, 1, 0, 4, 6, 0), be('a', 0xe9, 'b'))}, nil)
	g := append([]byte{}, f...)
	p := parse(t, f)
	if p.Name(4) != "a?b" {
		t.Fatal(p.Name(4))
	}
	for i := range f {
		if f[i] != g[i] {
			t.Fatalf("byte %d of the file was changed from %#x to %#x", i, g[i], f[i])
		}
	}
	_ = load
	_ = font.HintingFull
	_ = fixed.I
}
""")

seed(id='kern-memo', prop='C34', pkg='truetype',
  edits=[('truetype/truetype.go','	nGlyph, nHMetric, nKern int\n','	nGlyph, nHMetric, nKern int\n	lastKern                int // where the last kerning pair was found\n'),
    ('truetype/truetype.go','	lo, hi := 0, f.nKern\n	for lo < hi {\n		i := (lo + hi) / 2\n','	lo, hi := 0, f.nKern\n	for i := f.lastKern; lo < hi; i = (lo + hi) / 2 {\n		f.lastKern = i\n')],
  needs='two goroutines that use one font',
  breaks='looking up kerning writes to the Font, which is a data race, and a lookup that starts where another was going on can go wrong',
  test=FONT.replace('"testing"','"reflect"\n\t"testing"')+"""
func TestZZDemo(t *testing.T) {
	k := cat(be(0, 1, 0, 14+6*2, 1, 2, 0, 0, 0), be(1, 2, 5, 2, 1, 7))
	p := parse(t, file(map[string][]byte{"kern": k}, nil))
	q := *p
	p.Kern(64, 1, 2)
	p.Kern(64, 2, 1)
	if !reflect.DeepEqual(*p, q) {
		t.Fatal("a query changed the font")
	}
	_ = load
	_ = font.HintingFull
	_ = fixed.I
}
""")
