From 6010a6780e70bd8a67598f803f636ad9cf502c01 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 17:30:52 +0000
Subject: [PATCH 01/28] fix: raster: round cell coordinates down, not toward
 zero

Dividing a negative 26.6 co-ordinate by 64 rounds toward zero, so that geometry
between -1 and 0 pixels was accounted to row or column 0, mixed with the
coverage of the pixel on the other side of the axis. Geometry that crossed the
left or top edge of the bounds was drawn with the wrong coverage. Use an
arithmetic shift, which rounds down.
---
 raster/raster.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/raster/raster.go b/raster/raster.go
index 7e6cd4e..f6244d2 100644
--- a/raster/raster.go
+++ b/raster/raster.go
@@ -120,9 +120,9 @@ func (r *Rasterizer) setCell(xi, yi int) {
 // and from y0f to y1f fractional vertical units within that scanline.
 func (r *Rasterizer) scan(yi int, x0, y0f, x1, y1f fixed.Int26_6) {
 	// Break the 26.6 fixed point X co-ordinates into integral and fractional parts.
-	x0i := int(x0) / 64
+	x0i := int(x0) >> 6
 	x0f := x0 - fixed.Int26_6(64*x0i)
-	x1i := int(x1) / 64
+	x1i := int(x1) >> 6
 	x1f := x1 - fixed.Int26_6(64*x1i)
 
 	// A perfectly horizontal scan.
@@ -192,7 +192,7 @@ func (r *Rasterizer) scan(yi int, x0, y0f, x1, y1f fixed.Int26_6) {
 
 // Start starts a new curve at the given point.
 func (r *Rasterizer) Start(a fixed.Point26_6) {
-	r.setCell(int(a.X/64), int(a.Y/64))
+	r.setCell(int(a.X>>6), int(a.Y>>6))
 	r.a = a
 }
 
@@ -203,9 +203,9 @@ func (r *Rasterizer) Add1(b fixed.Point26_6) {
 	dx, dy := x1-x0, y1-y0
 	// Break the 26.6 fixed point Y co-ordinates into integral and fractional
 	// parts.
-	y0i := int(y0) / 64
+	y0i := int(y0) >> 6
 	y0f := y0 - fixed.Int26_6(64*y0i)
-	y1i := int(y1) / 64
+	y1i := int(y1) >> 6
 	y1f := y1 - fixed.Int26_6(64*y1i)
 
 	if y0i == y1i {
@@ -224,7 +224,7 @@ func (r *Rasterizer) Add1(b fixed.Point26_6) {
 		} else {
 			edge0, edge1, yiDelta = 64, 0, -1
 		}
-		x0i, yi := int(x0)/64, y0i
+		x0i, yi := int(x0)>>6, y0i
 		x0fTimes2 := (int(x0) - (64 * x0i)) * 2
 		// Do the first pixel.
 		dcover := int(edge1 - y0f)
@@ -272,7 +272,7 @@ func (r *Rasterizer) Add1(b fixed.Point26_6) {
 		x, yi := x0, y0i
 		r.scan(yi, x, y0f, x+xDelta, edge1)
 		x, yi = x+xDelta, yi+yiDelta
-		r.setCell(int(x)/64, yi)
+		r.setCell(int(x)>>6, yi)
 		if yi != y1i {
 			// Do all the intermediate scanlines.
 			p = 64 * dx
@@ -291,7 +291,7 @@ func (r *Rasterizer) Add1(b fixed.Point26_6) {
 				}
 				r.scan(yi, x, edge0, x+xDelta, edge1)
 				x, yi = x+xDelta, yi+yiDelta
-				r.setCell(int(x)/64, yi)
+				r.setCell(int(x)>>6, yi)
 			}
 		}
 		// Do the last scanline.
-- 
2.43.0


From 24eb6909b4a6c18d3653074bf29a39864b68e641 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 17:58:14 +0000
Subject: [PATCH 02/28] fix: raster: split cubics by their shape, not their
 position

Add3 chose the number of subdivisions from a - 3*(b+c) + d, which changes when
the curve is moved, and from a - 2*b + d, which does not depend on c. A large,
strongly bent curve could be drawn as two line segments. Use the deviation of
each middle point from its neighbors, as Add2 does; it is a quarter as large
after each split.
---
 raster/raster.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/raster/raster.go b/raster/raster.go
index f6244d2..9bf6b59 100644
--- a/raster/raster.go
+++ b/raster/raster.go
@@ -364,13 +364,14 @@ func (r *Rasterizer) Add2(b, c fixed.Point26_6) {
 // Add3 adds a cubic segment to the current curve.
 func (r *Rasterizer) Add3(b, c, d fixed.Point26_6) {
 	// Calculate nSplit (the number of recursive decompositions) based on how
-	// 'curvy' it is.
-	dev2 := maxAbs(r.a.X-3*(b.X+c.X)+d.X, r.a.Y-3*(b.Y+c.Y)+d.Y) / fixed.Int26_6(r.splitScale2)
-	dev3 := maxAbs(r.a.X-2*b.X+d.X, r.a.Y-2*b.Y+d.Y) / fixed.Int26_6(r.splitScale3)
+	// 'curvy' it is. Specifically, how much each of the two middle points
+	// deviates from the middle of its neighbors.
+	dev0 := maxAbs(r.a.X-2*b.X+c.X, r.a.Y-2*b.Y+c.Y) / fixed.Int26_6(r.splitScale3)
+	dev1 := maxAbs(b.X-2*c.X+d.X, b.Y-2*c.Y+d.Y) / fixed.Int26_6(r.splitScale3)
 	nsplit := 0
-	for dev2 > 0 || dev3 > 0 {
-		dev2 /= 8
-		dev3 /= 4
+	for dev0 > 0 || dev1 > 0 {
+		dev0 /= 4
+		dev1 /= 4
 		nsplit++
 	}
 	// devN is 32-bit, and nsplit++ every time we shift off 2 bits, so
-- 
2.43.0


From d73a9d4cb914d883c125c2bba96b58fe9dc69361 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 18:23:56 +0000
Subject: [PATCH 03/28] fix: raster: MonochromePainter: do not paint an empty
 span

The painter flushed its empty initial span, {0, 0, 0}, before the first real
one. It is not sorted before spans with a negative Y, and makes a painter of an
image whose rows are all above Y == 0 ignore the rest of the batch.
---
 raster/paint.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/raster/paint.go b/raster/paint.go
index 652256c..9f709c2 100644
--- a/raster/paint.go
+++ b/raster/paint.go
@@ -197,8 +197,10 @@ func (m *MonochromePainter) Paint(ss []Span, done bool) {
 			if m.y == s.Y && m.x1 == s.X0 {
 				m.x1 = s.X1
 			} else {
-				ss[j] = Span{m.y, m.x0, m.x1, 1<<16 - 1}
-				j++
+				if m.x0 != m.x1 {
+					ss[j] = Span{m.y, m.x0, m.x1, 1<<16 - 1}
+					j++
+				}
 				m.y, m.x0, m.x1 = s.Y, s.X0, s.X1
 			}
 		}
@@ -206,7 +208,9 @@ func (m *MonochromePainter) Paint(ss []Span, done bool) {
 	if done {
 		// Flush the accumulated Span.
 		finalSpan := Span{m.y, m.x0, m.x1, 1<<16 - 1}
-		if j < len(ss) {
+		if m.x0 == m.x1 {
+			m.Painter.Paint(ss[:j], true)
+		} else if j < len(ss) {
 			ss[j] = finalSpan
 			j++
 			m.Painter.Paint(ss[:j], true)
-- 
2.43.0


From c8a45f31f03cf384bf2634c9a3e9204b2ef3b34b Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 18:41:56 +0000
Subject: [PATCH 04/28] fix: truetype: Parse: reject truncated cmap and kern
 tables and zero counts

A cmap subtable or kern table shorter than its own counts claim made
Parse (or a later Kern call) panic, as did a font with no units per em
or no horizontal metrics on the first use of its metrics.
---
 truetype/truetype.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/truetype/truetype.go b/truetype/truetype.go
index 7270bbf..bf5f04d 100644
--- a/truetype/truetype.go
+++ b/truetype/truetype.go
@@ -204,13 +204,16 @@ func (f *Font) parseCmap() error {
 		return err
 	}
 	offset = int(u32(f.cmap, offset+4))
-	if offset <= 0 || offset > len(f.cmap) {
+	if offset <= 0 || offset+2 > len(f.cmap) {
 		return FormatError("bad cmap offset")
 	}
 
 	cmapFormat := u16(f.cmap, offset)
 	switch cmapFormat {
 	case cmapFormat4:
+		if offset+14 > len(f.cmap) {
+			return FormatError("cmap too short")
+		}
 		language := u16(f.cmap, offset+4)
 		if language != languageIndependent {
 			return UnsupportedError(fmt.Sprintf("language: %d", language))
@@ -221,6 +224,9 @@ func (f *Font) parseCmap() error {
 		}
 		segCount := segCountX2 / 2
 		offset += 14
+		if offset+8*segCount+2 > len(f.cmap) {
+			return FormatError("cmap too short")
+		}
 		f.cm = make([]cm, segCount)
 		for i := 0; i < segCount; i++ {
 			f.cm[i].end = uint32(u16(f.cmap, offset))
@@ -243,6 +249,9 @@ func (f *Font) parseCmap() error {
 		return nil
 
 	case cmapFormat12:
+		if offset+16 > len(f.cmap) {
+			return FormatError("cmap too short")
+		}
 		if u16(f.cmap, offset+2) != 0 {
 			return FormatError(fmt.Sprintf("cmap format: % x", f.cmap[offset:offset+4]))
 		}
@@ -252,10 +261,13 @@ func (f *Font) parseCmap() error {
 			return UnsupportedError(fmt.Sprintf("language: %d", language))
 		}
 		nGroups := u32(f.cmap, offset+12)
-		if length != 12*nGroups+16 {
+		if uint64(length) != 12*uint64(nGroups)+16 {
 			return FormatError("inconsistent cmap length")
 		}
 		offset += 16
+		if uint64(len(f.cmap)-offset) < 12*uint64(nGroups) {
+			return FormatError("cmap too short")
+		}
 		f.cm = make([]cm, nGroups)
 		for i := uint32(0); i < nGroups; i++ {
 			f.cm[i].start = u32(f.cmap, offset+0)
@@ -273,6 +285,9 @@ func (f *Font) parseHead() error {
 		return FormatError(fmt.Sprintf("bad head length: %d", len(f.head)))
 	}
 	f.fUnitsPerEm = int32(u16(f.head, 18))
+	if f.fUnitsPerEm == 0 {
+		return FormatError("bad unitsPerEm: 0")
+	}
 	f.bounds.Min.X = fixed.Int26_6(int16(u16(f.head, 36)))
 	f.bounds.Min.Y = fixed.Int26_6(int16(u16(f.head, 38)))
 	f.bounds.Max.X = fixed.Int26_6(int16(u16(f.head, 40)))
@@ -295,6 +310,9 @@ func (f *Font) parseHhea() error {
 	f.ascent = int32(int16(u16(f.hhea, 4)))
 	f.descent = int32(int16(u16(f.hhea, 6)))
 	f.nHMetric = int(u16(f.hhea, 34))
+	if f.nHMetric == 0 && f.nGlyph != 0 {
+		return FormatError("bad numberOfHMetrics: 0")
+	}
 	if 4*f.nHMetric+2*(f.nGlyph-f.nHMetric) != len(f.hmtx) {
 		return FormatError(fmt.Sprintf("bad hmtx length: %d", len(f.hmtx)))
 	}
@@ -348,6 +366,9 @@ func (f *Font) parseKern() error {
 	if 6*f.nKern != length-14 {
 		return FormatError("bad kern table length")
 	}
+	if len(f.kern) < 18+6*f.nKern {
+		return FormatError("kern data too short")
+	}
 	return nil
 }
 
-- 
2.43.0


From ee79f1dd4750ea62f254fb6694b04b74cc3452eb Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 18:41:58 +0000
Subject: [PATCH 05/28] fix: truetype: Index, Name: do not read beyond the
 tables

An idRangeOffset or a name record that points outside its table made
Index or Name panic; both now report that there is no such entry.
---
 truetype/truetype.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/truetype/truetype.go b/truetype/truetype.go
index bf5f04d..2f59912 100644
--- a/truetype/truetype.go
+++ b/truetype/truetype.go
@@ -423,6 +423,9 @@ func (f *Font) Index(x rune) Index {
 			return Index(c + cm.delta)
 		} else {
 			offset := int(cm.offset) + 2*(h-len(f.cm)+int(c-cm.start))
+			if offset < 0 || offset+2 > len(f.cmapIndexes) {
+				return 0
+			}
 			return Index(u16(f.cmapIndexes, offset))
 		}
 	}
@@ -438,7 +441,10 @@ func (f *Font) Name(id NameID) string {
 	if err != nil {
 		return ""
 	}
-	offset, length := u16(f.name, 4)+u16(f.name, x+10), u16(f.name, x+8)
+	offset, length := int(u16(f.name, 4))+int(u16(f.name, x+10)), int(u16(f.name, x+8))
+	if offset+length > len(f.name) {
+		return ""
+	}
 	// Return the ASCII value of the encoded string.
 	// The string is encoded as UTF-16 on non-Apple platformIDs; Apple is platformID 1.
 	src := f.name[offset : offset+length]
-- 
2.43.0


From b4cac1277134284f250c8a1dca6d394efcb86202 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 18:42:00 +0000
Subject: [PATCH 06/28] fix: truetype: Index: add idDelta to glyph array
 entries

For a format 4 cmap segment with an idRangeOffset, a non-zero entry of
the glyph index array has to have the segment's idDelta added to it.
---
 truetype/truetype.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/truetype/truetype.go b/truetype/truetype.go
index 2f59912..f3830d3 100644
--- a/truetype/truetype.go
+++ b/truetype/truetype.go
@@ -426,7 +426,11 @@ func (f *Font) Index(x rune) Index {
 			if offset < 0 || offset+2 > len(f.cmapIndexes) {
 				return 0
 			}
-			return Index(u16(f.cmapIndexes, offset))
+			g := u16(f.cmapIndexes, offset)
+			if g != 0 {
+				g += uint16(cm.delta)
+			}
+			return Index(g)
 		}
 	}
 	return 0
-- 
2.43.0


From 948eebcb1938a69062c164703d734b94127f8cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 18:56:52 +0000
Subject: [PATCH 07/28] fix: truetype: Load: return an error for malformed
 glyph data

Truncated or inconsistent loca and glyf tables made GlyphBuf.Load panic,
or load more points than the contour ends account for.
---
 truetype/glyph.go | 79 ++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 72 insertions(+), 7 deletions(-)

diff --git a/truetype/glyph.go b/truetype/glyph.go
index 6157ad8..a1c1d5c 100644
--- a/truetype/glyph.go
+++ b/truetype/glyph.go
@@ -178,9 +178,15 @@ func (g *GlyphBuf) load(recursion uint32, i Index, useMyMetrics bool) (err error
 	// Find the relevant slice of g.font.glyf.
 	var g0, g1 uint32
 	if g.font.locaOffsetFormat == locaOffsetFormatShort {
+		if 2*int(i)+4 > len(g.font.loca) {
+			return FormatError("glyph index out of range")
+		}
 		g0 = 2 * uint32(u16(g.font.loca, 2*int(i)))
 		g1 = 2 * uint32(u16(g.font.loca, 2*int(i)+2))
 	} else {
+		if 4*int(i)+8 > len(g.font.loca) {
+			return FormatError("glyph index out of range")
+		}
 		g0 = u32(g.font.loca, 4*int(i))
 		g1 = u32(g.font.loca, 4*int(i)+4)
 	}
@@ -189,7 +195,10 @@ func (g *GlyphBuf) load(recursion uint32, i Index, useMyMetrics bool) (err error
 	// 10 bytes of the glyf data. boundsYMin and boundsXMax, at offsets 4
 	// and 6, are unused.
 	glyf, ne, boundsXMin, boundsYMax := []byte(nil), 0, fixed.Int26_6(0), fixed.Int26_6(0)
-	if g0+10 <= g1 {
+	if g0 < g1 && 10 <= g1-g0 {
+		if uint64(g1) > uint64(len(g.font.glyf)) {
+			return FormatError("glyph data too short")
+		}
 		glyf = g.font.glyf[g0:g1]
 		ne = int(int16(u16(glyf, 0)))
 		boundsXMin = fixed.Int26_6(int16(u16(glyf, 2)))
@@ -226,7 +235,10 @@ func (g *GlyphBuf) load(recursion uint32, i Index, useMyMetrics bool) (err error
 		}
 	} else {
 		np0, ne0 := len(g.Points), len(g.Ends)
-		program := g.loadSimple(glyf, ne)
+		program, err := g.loadSimple(glyf, ne)
+		if err != nil {
+			return err
+		}
 		g.addPhantomsAndScale(np0, np0, true, true)
 		pp1x = g.Points[len(g.Points)-4].X
 		if g.hinting != font.HintingNone {
@@ -270,21 +282,34 @@ func (g *GlyphBuf) load(recursion uint32, i Index, useMyMetrics bool) (err error
 // 10 bytes are the number of contours and the bounding box.
 const loadOffset = 10
 
-func (g *GlyphBuf) loadSimple(glyf []byte, ne int) (program []byte) {
+func (g *GlyphBuf) loadSimple(glyf []byte, ne int) (program []byte, err error) {
+	errTooShort := FormatError("glyph data too short")
+
 	offset := loadOffset
-	for i := 0; i < ne; i++ {
-		g.Ends = append(g.Ends, 1+int(u16(glyf, offset)))
+	if offset+2*ne+2 > len(glyf) {
+		return nil, errTooShort
+	}
+	for i, prev := 0, 0; i < ne; i++ {
+		end := 1 + int(u16(glyf, offset))
+		if end < prev {
+			return nil, FormatError("bad contour ends")
+		}
+		g.Ends = append(g.Ends, end)
+		prev = end
 		offset += 2
 	}
 
 	// Note the TrueType hinting instructions.
 	instrLen := int(u16(glyf, offset))
 	offset += 2
+	if offset+instrLen > len(glyf) {
+		return nil, errTooShort
+	}
 	program = glyf[offset : offset+instrLen]
 	offset += instrLen
 
 	if ne == 0 {
-		return program
+		return program, nil
 	}
 
 	np0 := len(g.Points)
@@ -292,12 +317,21 @@ func (g *GlyphBuf) loadSimple(glyf []byte, ne int) (program []byte) {
 
 	// Decode the flags.
 	for i := np0; i < np1; {
+		if offset+1 > len(glyf) {
+			return nil, errTooShort
+		}
 		c := uint32(glyf[offset])
 		offset++
 		g.Points = append(g.Points, Point{Flags: c})
 		i++
 		if c&flagRepeat != 0 {
+			if offset+1 > len(glyf) {
+				return nil, errTooShort
+			}
 			count := glyf[offset]
+			if int(count) > np1-i {
+				return nil, FormatError("too many glyph flags")
+			}
 			offset++
 			for ; count > 0; count-- {
 				g.Points = append(g.Points, Point{Flags: c})
@@ -311,6 +345,9 @@ func (g *GlyphBuf) loadSimple(glyf []byte, ne int) (program []byte) {
 	for i := np0; i < np1; i++ {
 		f := g.Points[i].Flags
 		if f&flagXShortVector != 0 {
+			if offset+1 > len(glyf) {
+				return nil, errTooShort
+			}
 			dx := int16(glyf[offset])
 			offset++
 			if f&flagPositiveXShortVector == 0 {
@@ -319,6 +356,9 @@ func (g *GlyphBuf) loadSimple(glyf []byte, ne int) (program []byte) {
 				x += dx
 			}
 		} else if f&flagThisXIsSame == 0 {
+			if offset+2 > len(glyf) {
+				return nil, errTooShort
+			}
 			x += int16(u16(glyf, offset))
 			offset += 2
 		}
@@ -328,6 +368,9 @@ func (g *GlyphBuf) loadSimple(glyf []byte, ne int) (program []byte) {
 	for i := np0; i < np1; i++ {
 		f := g.Points[i].Flags
 		if f&flagYShortVector != 0 {
+			if offset+1 > len(glyf) {
+				return nil, errTooShort
+			}
 			dy := int16(glyf[offset])
 			offset++
 			if f&flagPositiveYShortVector == 0 {
@@ -336,13 +379,16 @@ func (g *GlyphBuf) loadSimple(glyf []byte, ne int) (program []byte) {
 				y += dy
 			}
 		} else if f&flagThisYIsSame == 0 {
+			if offset+2 > len(glyf) {
+				return nil, errTooShort
+			}
 			y += int16(u16(glyf, offset))
 			offset += 2
 		}
 		g.Points[i].Y = fixed.Int26_6(y)
 	}
 
-	return program
+	return program, nil
 }
 
 func (g *GlyphBuf) loadCompound(recursion uint32, uhm HMetric, i Index,
@@ -364,12 +410,19 @@ func (g *GlyphBuf) loadCompound(recursion uint32, uhm HMetric, i Index,
 		flagOverlapCompound
 	)
 	np0, ne0 := len(g.Points), len(g.Ends)
+	errTooShort := FormatError("compound glyph data too short")
 	offset := loadOffset
 	for {
+		if offset+6 > len(glyf) {
+			return errTooShort
+		}
 		flags := u16(glyf, offset)
 		component := Index(u16(glyf, offset+2))
 		dx, dy, transform, hasTransform := fixed.Int26_6(0), fixed.Int26_6(0), [4]int16{}, false
 		if flags&flagArg1And2AreWords != 0 {
+			if offset+8 > len(glyf) {
+				return errTooShort
+			}
 			dx = fixed.Int26_6(int16(u16(glyf, offset+4)))
 			dy = fixed.Int26_6(int16(u16(glyf, offset+6)))
 			offset += 8
@@ -385,14 +438,23 @@ func (g *GlyphBuf) loadCompound(recursion uint32, uhm HMetric, i Index,
 			hasTransform = true
 			switch {
 			case flags&flagWeHaveAScale != 0:
+				if offset+2 > len(glyf) {
+					return errTooShort
+				}
 				transform[0] = int16(u16(glyf, offset+0))
 				transform[3] = transform[0]
 				offset += 2
 			case flags&flagWeHaveAnXAndYScale != 0:
+				if offset+4 > len(glyf) {
+					return errTooShort
+				}
 				transform[0] = int16(u16(glyf, offset+0))
 				transform[3] = int16(u16(glyf, offset+2))
 				offset += 4
 			case flags&flagWeHaveATwoByTwo != 0:
+				if offset+8 > len(glyf) {
+					return errTooShort
+				}
 				transform[0] = int16(u16(glyf, offset+0))
 				transform[1] = int16(u16(glyf, offset+2))
 				transform[2] = int16(u16(glyf, offset+4))
@@ -442,6 +504,9 @@ func (g *GlyphBuf) loadCompound(recursion uint32, uhm HMetric, i Index,
 	if g.hinting != font.HintingNone && offset+2 <= len(glyf) {
 		instrLen = int(u16(glyf, offset))
 		offset += 2
+		if offset+instrLen > len(glyf) {
+			return errTooShort
+		}
 	}
 
 	g.addPhantomsAndScale(np0, len(g.Points), false, instrLen > 0)
-- 
2.43.0


From b4b417464504ebf6e608acd4f2d1ecb8e0345971 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 18:56:54 +0000
Subject: [PATCH 08/28] fix: truetype: Load: drop an empty component's phantom
 points

The phantom points of an empty component glyph stayed in InFontUnits and
Unhinted, so that the glyph programs of the components after it were run
with another point's original position.
---
 truetype/glyph.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/truetype/glyph.go b/truetype/glyph.go
index a1c1d5c..82f3d74 100644
--- a/truetype/glyph.go
+++ b/truetype/glyph.go
@@ -218,7 +218,10 @@ func (g *GlyphBuf) load(recursion uint32, i Index, useMyMetrics bool) (err error
 		g.addPhantomsAndScale(len(g.Points), len(g.Points), true, true)
 		copy(g.phantomPoints[:], g.Points[len(g.Points)-4:])
 		g.Points = g.Points[:len(g.Points)-4]
-		// TODO: also trim g.InFontUnits and g.Unhinted?
+		if g.hinting != font.HintingNone {
+			g.InFontUnits = g.InFontUnits[:len(g.InFontUnits)-4]
+			g.Unhinted = g.Unhinted[:len(g.Unhinted)-4]
+		}
 		return nil
 	}
 
-- 
2.43.0


From cac2861d145abbbb3bee74f31545fd39ff18c413 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 18:57:16 +0000
Subject: [PATCH 09/28] fix: truetype: Load: do not take a glyph flag's overlap
 bit for a touched point

Bits 6 and 7 of a glyf flag (OVERLAP_SIMPLE and reserved) coincide with
the flags that mark a point as touched, so that IUP left such points
where they were.
---
 truetype/glyph.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/truetype/glyph.go b/truetype/glyph.go
index 82f3d74..4dc1d48 100644
--- a/truetype/glyph.go
+++ b/truetype/glyph.go
@@ -323,7 +323,8 @@ func (g *GlyphBuf) loadSimple(glyf []byte, ne int) (program []byte, err error) {
 		if offset+1 > len(glyf) {
 			return nil, errTooShort
 		}
-		c := uint32(glyf[offset])
+		// A flag byte's top two bits do not mean that a point is touched.
+		c := uint32(glyf[offset]) &^ (flagTouchedX | flagTouchedY)
 		offset++
 		g.Points = append(g.Points, Point{Flags: c})
 		i++
-- 
2.43.0


From 1e591d2cbdb10b1956e31776cd626f30276944ad Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:25:00 +0000
Subject: [PATCH 10/28] fix: truetype: Load: use the metrics of an empty
 use-my-metrics component once

An empty component flagged use-my-metrics left its already scaled phantom
points to be scaled again with the compound's.
---
 truetype/glyph.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/truetype/glyph.go b/truetype/glyph.go
index 4dc1d48..a76efce 100644
--- a/truetype/glyph.go
+++ b/truetype/glyph.go
@@ -222,6 +222,10 @@ func (g *GlyphBuf) load(recursion uint32, i Index, useMyMetrics bool) (err error
 			g.InFontUnits = g.InFontUnits[:len(g.InFontUnits)-4]
 			g.Unhinted = g.Unhinted[:len(g.Unhinted)-4]
 		}
+		if useMyMetrics && !g.metricsSet {
+			g.metricsSet = true
+			g.pp1x = g.phantomPoints[0].X
+		}
 		return nil
 	}
 
-- 
2.43.0


From 60246594bba69cf4ebb1e007ac9843118fb71197 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:28:12 +0000
Subject: [PATCH 11/28] fix: truetype: Load: use the last width of an hdmx
 record

A record of 2+i+1 bytes holds the width of glyph i, but was taken to be too
short for it. Also do not wrap the index at 65536.
---
 truetype/glyph.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/truetype/glyph.go b/truetype/glyph.go
index a76efce..e2c9a0b 100644
--- a/truetype/glyph.go
+++ b/truetype/glyph.go
@@ -118,10 +118,10 @@ func (g *GlyphBuf) Load(f *Font, scale fixed.Int26_6, i Index, h font.Hinting) e
 	advanceWidth := g.phantomPoints[1].X - g.phantomPoints[0].X
 	if h != font.HintingNone {
 		if len(f.hdmx) >= 8 {
-			if n := u32(f.hdmx, 4); n > 3+uint32(i) {
+			if n := u32(f.hdmx, 4); n > 2+uint32(i) {
 				for hdmx := f.hdmx[8:]; uint32(len(hdmx)) >= n; hdmx = hdmx[n:] {
 					if fixed.Int26_6(hdmx[0]) == scale>>6 {
-						advanceWidth = fixed.Int26_6(hdmx[2+i]) << 6
+						advanceWidth = fixed.Int26_6(hdmx[2+int(i)]) << 6
 						break
 					}
 				}
-- 
2.43.0


From 76767d7a5f471ff0cece09154a94f72b8fd3b389 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:38:44 +0000
Subject: [PATCH 12/28] fix: truetype: hinter: start each font, scale and glyph
 from the same state

A hinter that was used before, or whose fpgm or prep program had failed, kept
its font and scale, stack size, storage, scaled CVT and default graphics
state, and dropped the twilight points of the prep program, so that a re-used
GlyphBuf loaded other glyphs than a new one.
---
 truetype/hint.go | 40 ++++++++++++++++++++++++++++++++++------
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/truetype/hint.go b/truetype/hint.go
index 13f785b..99895d3 100644
--- a/truetype/hint.go
+++ b/truetype/hint.go
@@ -61,6 +61,10 @@ type hinter struct {
 	points [numZone][numPointType][]Point
 	ends   []int
 
+	// twilight is the twilight zone's points after the font's prep program
+	// has been run.
+	twilight [numPointType][]Point
+
 	// scaledCVT is the lazily initialized scaled Control Value Table.
 	scaledCVTInitialized bool
 	scaledCVT            []fixed.Int26_6
@@ -115,6 +119,12 @@ func resetTwilightPoints(f *Font, p []Point) []Point {
 	return p
 }
 
+func clearStore(s []int32) {
+	for i := range s {
+		s[i] = 0
+	}
+}
+
 func (h *hinter) init(f *Font, scale fixed.Int26_6) error {
 	h.points[twilightZone][0] = resetTwilightPoints(f, h.points[twilightZone][0])
 	h.points[twilightZone][1] = resetTwilightPoints(f, h.points[twilightZone][1])
@@ -123,6 +133,11 @@ func (h *hinter) init(f *Font, scale fixed.Int26_6) error {
 	rescale := h.scale != scale
 	if h.font != f {
 		h.font, rescale = f, true
+		// Nothing of the previous font is left for the fpgm bytecode to see.
+		h.scale = 0
+		h.scaledCVTInitialized = false
+		h.defaultGS = globalDefaultGS
+
 		if h.functions == nil {
 			h.functions = make(map[int32][]byte)
 		} else {
@@ -131,18 +146,20 @@ func (h *hinter) init(f *Font, scale fixed.Int26_6) error {
 			}
 		}
 
-		if x := int(f.maxStackElements); x > len(h.stack) {
-			x += 255
-			x &^= 255
+		if x := (int(f.maxStackElements) + 255) &^ 255; x > cap(h.stack) {
 			h.stack = make([]int32, x)
+		} else {
+			h.stack = h.stack[:x]
 		}
-		if x := int(f.maxStorage); x > len(h.store) {
-			x += 15
-			x &^= 15
+		if x := (int(f.maxStorage) + 15) &^ 15; x > cap(h.store) {
 			h.store = make([]int32, x)
+		} else {
+			h.store = h.store[:x]
+			clearStore(h.store)
 		}
 		if len(f.fpgm) != 0 {
 			if err := h.run(f.fpgm, nil, nil, nil, nil); err != nil {
+				h.font = nil
 				return err
 			}
 		}
@@ -153,9 +170,11 @@ func (h *hinter) init(f *Font, scale fixed.Int26_6) error {
 		h.scaledCVTInitialized = false
 
 		h.defaultGS = globalDefaultGS
+		clearStore(h.store)
 
 		if len(f.prep) != 0 {
 			if err := h.run(f.prep, nil, nil, nil, nil); err != nil {
+				h.font = nil
 				return err
 			}
 			h.defaultGS = h.gs
@@ -169,6 +188,15 @@ func (h *hinter) init(f *Font, scale fixed.Int26_6) error {
 			h.defaultGS.loop = globalDefaultGS.loop
 		}
 	}
+	// Each glyph program starts with the twilight points that the prep
+	// program left.
+	for i, p := range h.points[twilightZone] {
+		if rescale {
+			h.twilight[i] = append(h.twilight[i][:0], p...)
+		} else {
+			copy(p, h.twilight[i])
+		}
+	}
 	return nil
 }
 
-- 
2.43.0


From 934a91d19657e820b2a952be2be7c7b59085c12f Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:43:15 +0000
Subject: [PATCH 13/28] fix: truetype: hinter: check zones, points and shifts

Invalid operands of SZP0, SZP1, SZP2, SZPS, IP, MIAP, GC, MDRP, SDS and the
DELTA instructions made the interpreter panic.
---
 truetype/hint.go | 42 +++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/truetype/hint.go b/truetype/hint.go
index 99895d3..e8c8297 100644
--- a/truetype/hint.go
+++ b/truetype/hint.go
@@ -359,10 +359,16 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 
 		case opSZP0, opSZP1, opSZP2:
 			top--
+			if z := h.stack[top]; z < 0 || numZone <= z {
+				return errors.New("truetype: hinting: invalid data")
+			}
 			h.gs.zp[opcode-opSZP0] = h.stack[top]
 
 		case opSZPS:
 			top--
+			if z := h.stack[top]; z < 0 || numZone <= z {
+				return errors.New("truetype: hinting: invalid data")
+			}
 			h.gs.zp[0] = h.stack[top]
 			h.gs.zp[1] = h.stack[top]
 			h.gs.zp[2] = h.stack[top]
@@ -670,17 +676,29 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 			}
 			p := h.point(1, pointType, h.gs.rp[2])
 			oldP := h.point(0, pointType, h.gs.rp[1])
+			if p == nil || oldP == nil {
+				return errors.New("truetype: hinting: point out of range")
+			}
 			oldRange := dotProduct(p.X-oldP.X, p.Y-oldP.Y, h.gs.dv)
 
 			p = h.point(1, current, h.gs.rp[2])
 			curP := h.point(0, current, h.gs.rp[1])
+			if p == nil || curP == nil {
+				return errors.New("truetype: hinting: point out of range")
+			}
 			curRange := dotProduct(p.X-curP.X, p.Y-curP.Y, h.gs.pv)
 			for ; h.gs.loop != 0; h.gs.loop-- {
 				top--
 				i := h.stack[top]
 				p = h.point(2, pointType, i)
+				if p == nil {
+					return errors.New("truetype: hinting: point out of range")
+				}
 				oldDist := dotProduct(p.X-oldP.X, p.Y-oldP.Y, h.gs.dv)
 				p = h.point(2, current, i)
+				if p == nil {
+					return errors.New("truetype: hinting: point out of range")
+				}
 				curDist := dotProduct(p.X-curP.X, p.Y-curP.Y, h.gs.pv)
 				newDist := fixed.Int26_6(0)
 				if oldDist != 0 {
@@ -748,11 +766,17 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 			if h.gs.zp[0] == 0 {
 				p := h.point(0, unhinted, i)
 				q := h.point(0, current, i)
+				if p == nil || q == nil {
+					return errors.New("truetype: hinting: point out of range")
+				}
 				p.X = fixed.Int26_6((int64(distance) * int64(h.gs.fv[0])) >> 14)
 				p.Y = fixed.Int26_6((int64(distance) * int64(h.gs.fv[1])) >> 14)
 				*q = *p
 			}
 			p := h.point(0, current, i)
+			if p == nil {
+				return errors.New("truetype: hinting: point out of range")
+			}
 			oldDist := dotProduct(p.X, p.Y, h.gs.pv)
 			if opcode == opMIAP1 {
 				if fabs(distance-oldDist) > h.gs.controlValueCutIn {
@@ -799,9 +823,15 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 			i := h.stack[top-1]
 			if opcode == opGC0 {
 				p := h.point(2, current, i)
+				if p == nil {
+					return errors.New("truetype: hinting: point out of range")
+				}
 				h.stack[top-1] = int32(dotProduct(p.X, p.Y, h.gs.pv))
 			} else {
 				p := h.point(2, unhinted, i)
+				if p == nil {
+					return errors.New("truetype: hinting: point out of range")
+				}
 				// Using dv as per C Freetype.
 				h.stack[top-1] = int32(dotProduct(p.X, p.Y, h.gs.dv))
 			}
@@ -922,6 +952,10 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 
 		case opSDS:
 			top--
+			// Like the C Freetype code, we allow shifts down to 1/64 pixel.
+			if s := h.stack[top]; s < 0 || 6 < s {
+				return errors.New("truetype: hinting: invalid data")
+			}
 			h.gs.deltaShift = h.stack[top]
 
 		case opADD:
@@ -1176,10 +1210,16 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 				if h.gs.zp[0] == 0 || h.gs.zp[1] == 0 {
 					p0 := h.point(1, unhinted, i)
 					p1 := h.point(0, unhinted, h.gs.rp[0])
+					if p0 == nil || p1 == nil {
+						return errors.New("truetype: hinting: point out of range")
+					}
 					oldDist = dotProduct(p0.X-p1.X, p0.Y-p1.Y, h.gs.dv)
 				} else {
 					p0 := h.point(1, inFontUnits, i)
 					p1 := h.point(0, inFontUnits, h.gs.rp[0])
+					if p0 == nil || p1 == nil {
+						return errors.New("truetype: hinting: point out of range")
+					}
 					oldDist = dotProduct(p0.X-p1.X, p0.Y-p1.Y, h.gs.dv)
 					oldDist = h.font.scale(h.scale * oldDist)
 				}
@@ -1381,7 +1421,7 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 			}
 			top--
 			n := h.stack[top]
-			if int32(top) < 2*n {
+			if n < 0 || top/2 < int(n) {
 				return errors.New("truetype: hinting: stack underflow")
 			}
 			for ; n > 0; n-- {
-- 
2.43.0


From 9037dc063a6fa564936970854242558885a15b4e Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:43:17 +0000
Subject: [PATCH 14/28] fix: truetype: hinter: do not divide by a zero dot
 product of vectors

Like the C Freetype code, do not amplify a movement when the freedom vector is
(almost) at a right angle to the projection vector.
---
 truetype/hint.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/truetype/hint.go b/truetype/hint.go
index e8c8297..738a610 100644
--- a/truetype/hint.go
+++ b/truetype/hint.go
@@ -1532,6 +1532,9 @@ func (h *hinter) move(p *Point, distance fixed.Int26_6, touch bool) {
 	}
 
 	fvDotPv := (fvx*pvx + fvy*pvy) >> 14
+	if -0x400 < fvDotPv && fvDotPv < 0x400 {
+		fvDotPv = 0x4000
+	}
 
 	if fvx != 0 {
 		p.X += fixed.Int26_6(mulDiv(fvx, int64(distance), fvDotPv))
-- 
2.43.0


From 135accbfbbb7daf9901c6820299b340b84a33c7f Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:43:19 +0000
Subject: [PATCH 15/28] fix: truetype: hinter: LOOPCALL: do not call a function
 a negative number of times

---
 truetype/hint.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/truetype/hint.go b/truetype/hint.go
index 738a610..3152f0a 100644
--- a/truetype/hint.go
+++ b/truetype/hint.go
@@ -489,7 +489,7 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 			callStack[callStackTop] = callStackEntry{program, pc, 1}
 			if opcode == opLOOPCALL {
 				top--
-				if h.stack[top] == 0 {
+				if h.stack[top] <= 0 {
 					break
 				}
 				callStack[callStackTop].loopCount = h.stack[top]
-- 
2.43.0


From b170951b11f72910220ecf6c2063f46a2ee0f065 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:43:21 +0000
Subject: [PATCH 16/28] fix: truetype: hinter: MSIRP: set rp1 to the previous
 rp0

---
 truetype/hint.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/truetype/hint.go b/truetype/hint.go
index 3152f0a..4d82d97 100644
--- a/truetype/hint.go
+++ b/truetype/hint.go
@@ -726,11 +726,11 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 			curDist := dotProduct(p.X-ref.X, p.Y-ref.Y, h.gs.pv)
 
 			// Set-RP0 bit.
+			h.gs.rp[1] = h.gs.rp[0]
+			h.gs.rp[2] = i
 			if opcode == opMSIRP1 {
 				h.gs.rp[0] = i
 			}
-			h.gs.rp[1] = h.gs.rp[0]
-			h.gs.rp[2] = i
 
 			// Move the point.
 			h.move(p, distance-curDist, true)
-- 
2.43.0


From 06f377c86be63ab906b548834f6860c055458337 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:43:23 +0000
Subject: [PATCH 17/28] fix: truetype: hinter: UTP: untouch only the freedom
 vector's axes

---
 truetype/hint.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/truetype/hint.go b/truetype/hint.go
index 4d82d97..5234af0 100644
--- a/truetype/hint.go
+++ b/truetype/hint.go
@@ -475,7 +475,12 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 			if p == nil {
 				return errors.New("truetype: hinting: point out of range")
 			}
-			p.Flags &^= flagTouchedX | flagTouchedY
+			if h.gs.fv[0] != 0 {
+				p.Flags &^= flagTouchedX
+			}
+			if h.gs.fv[1] != 0 {
+				p.Flags &^= flagTouchedY
+			}
 
 		case opLOOPCALL, opCALL:
 			if callStackTop >= len(callStack) {
-- 
2.43.0


From 610c3a90c69c0df330a5a26c9bff78f6594cb674 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:43:25 +0000
Subject: [PATCH 18/28] fix: truetype: hinter: SHPIX: shift along the freedom
 vector

The amount does not depend on the projection vector.
---
 truetype/hint.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/truetype/hint.go b/truetype/hint.go
index 5234af0..5aa5fc3 100644
--- a/truetype/hint.go
+++ b/truetype/hint.go
@@ -656,7 +656,8 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 
 		case opSHPIX:
 			top--
-			d := fixed.Int26_6(h.stack[top])
+			dx := fixed.Int26_6(mulDiv(int64(h.stack[top]), int64(h.gs.fv[0]), 0x4000))
+			dy := fixed.Int26_6(mulDiv(int64(h.stack[top]), int64(h.gs.fv[1]), 0x4000))
 			if top < int(h.gs.loop) {
 				return errors.New("truetype: hinting: stack underflow")
 			}
@@ -666,7 +667,14 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 				if p == nil {
 					return errors.New("truetype: hinting: point out of range")
 				}
-				h.move(p, d, true)
+				if h.gs.fv[0] != 0 {
+					p.X += dx
+					p.Flags |= flagTouchedX
+				}
+				if h.gs.fv[1] != 0 {
+					p.Y += dy
+					p.Flags |= flagTouchedY
+				}
 			}
 			h.gs.loop = 1
 
-- 
2.43.0


From fdfec57869a3da1ce5abe42c96c5f93e59b737b7 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:43:27 +0000
Subject: [PATCH 19/28] fix: truetype: hinter: SPVTL, SFVTL: use zone pointers
 1 and 2, and all of the distance

The points are in zones zp1 and zp2, like those of SDPVTL. The distance between
them was truncated to 16 bits, 512 pixels.
---
 truetype/hint.go | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/truetype/hint.go b/truetype/hint.go
index 5aa5fc3..7f6e27c 100644
--- a/truetype/hint.go
+++ b/truetype/hint.go
@@ -255,20 +255,20 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 
 		case opSPVTL0, opSPVTL1, opSFVTL0, opSFVTL1:
 			top -= 2
-			p1 := h.point(0, current, h.stack[top+0])
-			p2 := h.point(0, current, h.stack[top+1])
+			p1 := h.point(1, current, h.stack[top+0])
+			p2 := h.point(2, current, h.stack[top+1])
 			if p1 == nil || p2 == nil {
 				return errors.New("truetype: hinting: point out of range")
 			}
-			dx := f2dot14(p1.X - p2.X)
-			dy := f2dot14(p1.Y - p2.Y)
+			dx := p1.X - p2.X
+			dy := p1.Y - p2.Y
 			if dx == 0 && dy == 0 {
 				dx = 0x4000
 			} else if opcode&1 != 0 {
 				// Counter-clockwise rotation.
 				dx, dy = -dy, dx
 			}
-			v := normalize(dx, dy)
+			v := normalizeFloat(float64(dx), float64(dy))
 			if opcode < opSFVTL0 {
 				h.gs.pv = v
 				h.gs.dv = v
@@ -1129,8 +1129,8 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 				if p == nil || q == nil {
 					return errors.New("truetype: hinting: point out of range")
 				}
-				dx := f2dot14(p.X - q.X)
-				dy := f2dot14(p.Y - q.Y)
+				dx := p.X - q.X
+				dy := p.Y - q.Y
 				if dx == 0 && dy == 0 {
 					dx = 0x4000
 				} else if opcode&1 != 0 {
@@ -1138,9 +1138,9 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 					dx, dy = -dy, dx
 				}
 				if i == 0 {
-					h.gs.dv = normalize(dx, dy)
+					h.gs.dv = normalizeFloat(float64(dx), float64(dy))
 				} else {
-					h.gs.pv = normalize(dx, dy)
+					h.gs.pv = normalizeFloat(float64(dx), float64(dy))
 				}
 			}
 
@@ -1725,7 +1725,10 @@ func skipInstructionPayload(program []byte, pc int) (newPC int, ok bool) {
 type f2dot14 int16
 
 func normalize(x, y f2dot14) [2]f2dot14 {
-	fx, fy := float64(x), float64(y)
+	return normalizeFloat(float64(x), float64(y))
+}
+
+func normalizeFloat(fx, fy float64) [2]f2dot14 {
 	l := 0x4000 / math.Hypot(fx, fy)
 	fx *= l
 	if fx >= 0 {
-- 
2.43.0


From 192f39bf9e0919ca3c2b7e7267f376a926908a0e Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 22:08:04 +0000
Subject: [PATCH 20/28] fix: truetype: use Options.SubPixelsY

---
 truetype/face.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/truetype/face.go b/truetype/face.go
index 099006f..ae9a9cb 100644
--- a/truetype/face.go
+++ b/truetype/face.go
@@ -117,9 +117,9 @@ func (o *Options) subPixelsX() (value uint32, halfQuantum, mask fixed.Int26_6) {
 
 func (o *Options) subPixelsY() (value uint32, halfQuantum, mask fixed.Int26_6) {
 	if o != nil {
-		switch o.SubPixelsX {
+		switch o.SubPixelsY {
 		case 1, 2, 4, 8, 16, 32, 64:
-			return subPixels(o.SubPixelsX)
+			return subPixels(o.SubPixelsY)
 		}
 	}
 	// This default value of 1 isn't based on anything scientific, merely that
-- 
2.43.0


From 76e4d69cada1103e84e4077c775fc0d27fc2f835 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 22:08:06 +0000
Subject: [PATCH 21/28] fix: truetype: Face: keep each glyph mask inside its
 cache cell

A glyph can need one more column or row of pixels than the font's bounds when it
is drawn at a sub-pixel position, and two more when it is hinted. These were cut
off on the right, and taken from the next cache entry at the bottom. If a
glyph is larger still, which happens if the font's bounds are wrong, return only
the part that was painted. Wrong bounds could also make the cell's size negative
and Glyph panic.
---
 truetype/face.go | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/truetype/face.go b/truetype/face.go
index ae9a9cb..9822f97 100644
--- a/truetype/face.go
+++ b/truetype/face.go
@@ -201,8 +201,13 @@ func NewFace(f *Font, opts *Options) font.Face {
 	ymin := -int(b.Max.Y) >> 6
 	xmax := +int(b.Max.X+63) >> 6
 	ymax := -int(b.Min.Y-63) >> 6
-	a.maxw = xmax - xmin
-	a.maxh = ymax - ymin
+	// A sub-pixel position can take one more pixel, and hinting two.
+	margin := 1
+	if a.hinting != font.HintingNone {
+		margin += 2
+	}
+	a.maxw = max(0, xmax-xmin+margin)
+	a.maxh = max(0, ymax-ymin+margin)
 	a.masks = image.NewAlpha(image.Rect(0, 0, a.maxw, a.maxh*len(a.glyphCache)))
 	a.r.SetBounds(a.maxw, a.maxh)
 	a.p = facePainter{a}
@@ -384,11 +389,25 @@ func (a *face) rasterize(index Index, fx, fy fixed.Int26_6) (v glyphCacheVal, ok
 	return glyphCacheVal{
 		a.glyphBuf.AdvanceWidth,
 		image.Point{xmin, ymin},
-		xmax - xmin,
-		ymax - ymin,
+		min(xmax-xmin, a.maxw),
+		min(ymax-ymin, a.maxh),
 	}, true
 }
 
+func min(x, y int) int {
+	if x < y {
+		return x
+	}
+	return y
+}
+
+func max(x, y int) int {
+	if x > y {
+		return x
+	}
+	return y
+}
+
 func clear(pix []byte) {
 	for i := range pix {
 		pix[i] = 0
-- 
2.43.0


From a77614de9b1ddeea19bc703a939384a42e75b916 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 22:08:08 +0000
Subject: [PATCH 22/28] fix: freetype: do not cut off glyphs larger than the
 font's bounds

A glyph can need one more column or row of pixels than the font's bounds when it
is drawn at a sub-pixel position, and more when it is hinted.
---
 freetype.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/freetype.go b/freetype.go
index 9603586..e496fd5 100644
--- a/freetype.go
+++ b/freetype.go
@@ -71,6 +71,8 @@ type Context struct {
 	fontSize, dpi float64
 	scale         fixed.Int26_6
 	hinting       font.Hinting
+	// maxw and maxh are the size in pixels of the font's bounds.
+	maxw, maxh int
 	// cache is the glyph cache.
 	cache [nGlyphs * nXFractions * nYFractions]cacheEntry
 }
@@ -180,7 +182,14 @@ func (c *Context) rasterize(glyph truetype.Index, fx, fy fixed.Int26_6) (
 	fx -= fixed.Int26_6(xmin << 6)
 	fy -= fixed.Int26_6(ymin << 6)
 	// Rasterize the glyph's vectors.
-	c.r.Clear()
+	w, h := xmax-xmin, ymax-ymin
+	if w < c.maxw {
+		w = c.maxw
+	}
+	if h < c.maxh {
+		h = c.maxh
+	}
+	c.r.SetBounds(w, h)
 	e0 := 0
 	for _, e1 := range c.glyphBuf.Ends {
 		c.drawContour(c.glyphBuf.Points[e0:e1], fx, fy)
@@ -262,15 +271,15 @@ func (c *Context) DrawString(s string, p fixed.Point26_6) (fixed.Point26_6, erro
 func (c *Context) recalc() {
 	c.scale = fixed.Int26_6(c.fontSize * c.dpi * (64.0 / 72.0))
 	if c.f == nil {
-		c.r.SetBounds(0, 0)
+		c.maxw, c.maxh = 0, 0
 	} else {
-		// Set the rasterizer's bounds to be big enough to handle the largest glyph.
+		// Make the rasterizer's bounds big enough to handle the largest glyph.
 		b := c.f.Bounds(c.scale)
 		xmin := +int(b.Min.X) >> 6
 		ymin := -int(b.Max.Y) >> 6
 		xmax := +int(b.Max.X+63) >> 6
 		ymax := -int(b.Min.Y-63) >> 6
-		c.r.SetBounds(xmax-xmin, ymax-ymin)
+		c.maxw, c.maxh = xmax-xmin, ymax-ymin
 	}
 	for i := range c.cache {
 		c.cache[i] = cacheEntry{}
-- 
2.43.0


From 63c6746684518ee20409a7e6fa5d28706ac16155 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 22:08:09 +0000
Subject: [PATCH 23/28] fix: freetype: DrawString: align clipped glyph masks

When the clip rectangle cut off the left of a glyph, its mask was drawn at the
clip's edge. The source image was not aligned either.
---
 freetype.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/freetype.go b/freetype.go
index e496fd5..160af53 100644
--- a/freetype.go
+++ b/freetype.go
@@ -258,8 +258,8 @@ func (c *Context) DrawString(s string, p fixed.Point26_6) (fixed.Point26_6, erro
 		glyphRect := mask.Bounds().Add(offset)
 		dr := c.clip.Intersect(glyphRect)
 		if !dr.Empty() {
-			mp := image.Point{0, dr.Min.Y - glyphRect.Min.Y}
-			draw.DrawMask(c.dst, dr, c.src, image.ZP, mask, mp, draw.Over)
+			mp := dr.Min.Sub(glyphRect.Min)
+			draw.DrawMask(c.dst, dr, c.src, mp, mask, mp, draw.Over)
 		}
 		prev, hasPrev = index, true
 	}
-- 
2.43.0


From bdb0ca8d690b93e50dd343d6a7ffa4262f57732a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:39 +0000
Subject: [PATCH 24/28] fix: raster: Stroke: detect hairpin quadratics from the
 segments, not from rounded normals

For thin strokes the rounded normals are too short for the test to recognise
that the two legs of a quadratic are nearly opposite, so that the stroke did
not reach the curve's tip.
---
 raster/stroke.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raster/stroke.go b/raster/stroke.go
index bcc66b2..690d555 100644
--- a/raster/stroke.go
+++ b/raster/stroke.go
@@ -368,7 +368,7 @@ func (k *stroker) Add2(b, c fixed.Point26_6) {
 	// then the decomposition can become unstable, so we approximate the
 	// quadratic segment by two linear segments joined by an arc.
 	bcnorm := pRot90CCW(pNorm(bc, k.u))
-	if pDot(abnorm, bcnorm) < -fixed.Int52_12(k.u)*fixed.Int52_12(k.u)*2047/2048 {
+	if pDot(ab, bc) < -fixed.Int52_12(pLen(ab))*fixed.Int52_12(pLen(bc))*2047/2048 {
 		pArc := pDot(abnorm, bc) < 0
 
 		k.p.Add1(mabc.Add(abnorm))
-- 
2.43.0


From 963637e76ec011de3160f82afefbd7ee083d1b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:40 +0000
Subject: [PATCH 25/28] fix: start every prep program with twilight points at
 the origin

A font program that moved twilight points left them to the prep program
of the first Load only, so later Loads at other scales differed.
---
 truetype/hint.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/truetype/hint.go b/truetype/hint.go
index 7f6e27c..7af2ad0 100644
--- a/truetype/hint.go
+++ b/truetype/hint.go
@@ -171,6 +171,9 @@ func (h *hinter) init(f *Font, scale fixed.Int26_6) error {
 
 		h.defaultGS = globalDefaultGS
 		clearStore(h.store)
+		for i, p := range h.points[twilightZone] {
+			h.points[twilightZone][i] = resetTwilightPoints(f, p)
+		}
 
 		if len(f.prep) != 0 {
 			if err := h.run(f.prep, nil, nil, nil, nil); err != nil {
-- 
2.43.0


From f496a30124f4b2979fba4e6d4fc8f77d99300674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:40 +0000
Subject: [PATCH 26/28] fix: do not let a glyph program's storage and control
 values leak into the next Load

A Load of a glyph whose program writes the storage or the control value
table changed how glyphs loaded later at that scale were hinted.
---
 truetype/hint.go | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/truetype/hint.go b/truetype/hint.go
index 7af2ad0..62bee46 100644
--- a/truetype/hint.go
+++ b/truetype/hint.go
@@ -61,9 +61,11 @@ type hinter struct {
 	points [numZone][numPointType][]Point
 	ends   []int
 
-	// twilight is the twilight zone's points after the font's prep program
-	// has been run.
-	twilight [numPointType][]Point
+	// twilight, prepStore and prepCVT are the twilight zone's points, the
+	// storage and the scaledCVT after the font's prep program has been run.
+	twilight  [numPointType][]Point
+	prepStore []int32
+	prepCVT   []fixed.Int26_6
 
 	// scaledCVT is the lazily initialized scaled Control Value Table.
 	scaledCVTInitialized bool
@@ -191,15 +193,24 @@ func (h *hinter) init(f *Font, scale fixed.Int26_6) error {
 			h.defaultGS.loop = globalDefaultGS.loop
 		}
 	}
-	// Each glyph program starts with the twilight points that the prep
-	// program left.
-	for i, p := range h.points[twilightZone] {
-		if rescale {
+	// Each glyph program starts with the twilight points, storage and control
+	// values that the prep program left.
+	if rescale {
+		if !h.scaledCVTInitialized {
+			h.initializeScaledCVT()
+		}
+		for i, p := range h.points[twilightZone] {
 			h.twilight[i] = append(h.twilight[i][:0], p...)
-		} else {
-			copy(p, h.twilight[i])
 		}
+		h.prepStore = append(h.prepStore[:0], h.store...)
+		h.prepCVT = append(h.prepCVT[:0], h.scaledCVT...)
+		return nil
+	}
+	for i, p := range h.points[twilightZone] {
+		copy(p, h.twilight[i])
 	}
+	copy(h.store, h.prepStore)
+	copy(h.scaledCVT, h.prepCVT)
 	return nil
 }
 
-- 
2.43.0


From 2332fb796ed1b8ae122559c01d6a2d6e401db426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:16 +0000
Subject: [PATCH 27/28] fix: draw a nearly degenerate quadratic as wide as any
 other

When a quadratic's control point was less than half a pixel from one of its
ends, its stroke started with the normal of that short side, at half the width
in an unrelated direction (or none at all), so that the outline was a wedge.
Such a segment is now stroked as the linear segment it is approximated by.
---
 raster/stroke.go | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/raster/stroke.go b/raster/stroke.go
index 690d555..904cd87 100644
--- a/raster/stroke.go
+++ b/raster/stroke.go
@@ -331,25 +331,23 @@ func (k *stroker) Add1(b fixed.Point26_6) {
 func (k *stroker) Add2(b, c fixed.Point26_6) {
 	ab := b.Sub(k.a)
 	bc := c.Sub(b)
-	abnorm := pRot90CCW(pNorm(ab, k.u))
-	if len(k.r) == 0 {
-		k.p.Start(k.a.Add(abnorm))
-		k.r.Start(k.a.Sub(abnorm))
-	} else {
-		k.jr.Join(k.p, &k.r, k.u, k.a, k.anorm, abnorm)
-	}
 
 	// Approximate nearly-degenerate quadratics by linear segments.
 	abIsSmall := pDot(ab, ab) < epsilon
 	bcIsSmall := pDot(bc, bc) < epsilon
 	if abIsSmall || bcIsSmall {
-		acnorm := pRot90CCW(pNorm(c.Sub(k.a), k.u))
-		k.p.Add1(c.Add(acnorm))
-		k.r.Add1(c.Sub(acnorm))
-		k.a, k.anorm = c, acnorm
+		k.Add1(c)
 		return
 	}
 
+	abnorm := pRot90CCW(pNorm(ab, k.u))
+	if len(k.r) == 0 {
+		k.p.Start(k.a.Add(abnorm))
+		k.r.Start(k.a.Sub(abnorm))
+	} else {
+		k.jr.Join(k.p, &k.r, k.u, k.a, k.anorm, abnorm)
+	}
+
 	// The quadratic segment (k.a, b, c) has a point of maximum curvature.
 	// If this occurs at an end point, we process the segment as a whole.
 	t := curviest2(k.a, b, c)
-- 
2.43.0


From b6e497c3d14b0c04f7bb2ca51d49038236cf02c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:43 +0000
Subject: [PATCH 28/28] fix: scale the metrics a compound glyph takes from a
 component only once

---
 truetype/glyph.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/truetype/glyph.go b/truetype/glyph.go
index e2c9a0b..4a7dfcb 100644
--- a/truetype/glyph.go
+++ b/truetype/glyph.go
@@ -46,6 +46,9 @@ type GlyphBuf struct {
 	// phantomPoints are the co-ordinates of the synthetic phantom points
 	// used for hinting and bounding box calculations.
 	phantomPoints [4]Point
+	// phantomsScaled is whether phantomPoints have been scaled, which a
+	// component whose metrics are used does before its compound glyph.
+	phantomsScaled bool
 	// pp1x is the X co-ordinate of the first phantom point. The '1' is
 	// using 1-based indexing; pp1x is almost always phantomPoints[0].X.
 	// TODO: eliminate this and consistently use phantomPoints[0].X.
@@ -214,9 +217,11 @@ func (g *GlyphBuf) load(recursion uint32, i Index, useMyMetrics bool) (err error
 		{X: uhm.AdvanceWidth / 2, Y: boundsYMax + uvm.TopSideBearing},
 		{X: uhm.AdvanceWidth / 2, Y: boundsYMax + uvm.TopSideBearing - uvm.AdvanceHeight},
 	}
+	g.phantomsScaled = false
 	if len(glyf) == 0 {
 		g.addPhantomsAndScale(len(g.Points), len(g.Points), true, true)
 		copy(g.phantomPoints[:], g.Points[len(g.Points)-4:])
+		g.phantomsScaled = true
 		g.Points = g.Points[:len(g.Points)-4]
 		if g.hinting != font.HintingNone {
 			g.InFontUnits = g.InFontUnits[:len(g.InFontUnits)-4]
@@ -267,6 +272,7 @@ func (g *GlyphBuf) load(recursion uint32, i Index, useMyMetrics bool) (err error
 		}
 		if useMyMetrics {
 			copy(g.phantomPoints[:], g.Points[len(g.Points)-4:])
+			g.phantomsScaled = true
 		}
 		g.Points = g.Points[:len(g.Points)-4]
 		if np0 != 0 {
@@ -470,14 +476,14 @@ func (g *GlyphBuf) loadCompound(recursion uint32, uhm HMetric, i Index,
 				offset += 8
 			}
 		}
-		savedPP := g.phantomPoints
+		savedPP, savedScaled := g.phantomPoints, g.phantomsScaled
 		np0 := len(g.Points)
 		componentUMM := useMyMetrics && (flags&flagUseMyMetrics != 0)
 		if err := g.load(recursion+1, component, componentUMM); err != nil {
 			return err
 		}
 		if flags&flagUseMyMetrics == 0 {
-			g.phantomPoints = savedPP
+			g.phantomPoints, g.phantomsScaled = savedPP, savedScaled
 		}
 		if hasTransform {
 			for j := np0; j < len(g.Points); j++ {
@@ -527,6 +533,7 @@ func (g *GlyphBuf) loadCompound(recursion uint32, uhm HMetric, i Index,
 	if instrLen == 0 {
 		if !g.metricsSet {
 			copy(g.phantomPoints[:], points[len(points)-4:])
+			g.phantomsScaled = true
 		}
 		return nil
 	}
@@ -552,6 +559,7 @@ func (g *GlyphBuf) loadCompound(recursion uint32, uhm HMetric, i Index,
 	}
 	if !g.metricsSet {
 		copy(g.phantomPoints[:], points[len(points)-4:])
+		g.phantomsScaled = true
 	}
 	return nil
 }
@@ -563,7 +571,11 @@ func (g *GlyphBuf) addPhantomsAndScale(np0, np1 int, simple, adjust bool) {
 	if simple && g.hinting != font.HintingNone {
 		g.InFontUnits = append(g.InFontUnits, g.Points[np1:]...)
 	}
-	for i := np1; i < len(g.Points); i++ {
+	nscale := len(g.Points)
+	if g.phantomsScaled {
+		nscale -= 4
+	}
+	for i := np1; i < nscale; i++ {
 		p := &g.Points[i]
 		p.X = g.font.scale(g.scale * p.X)
 		p.Y = g.font.scale(g.scale * p.Y)
-- 
2.43.0

