#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list is kept here so that it can be edited readably)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [], "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": observe or [], "hook_needed": hook}})

R, S, G, PA = "raster/raster.go", "raster/stroke.go", "raster/geom.go", "raster/paint.go"
T, L, H, F, C = "truetype/truetype.go", "truetype/glyph.go", "truetype/hint.go", "truetype/face.go", "freetype.go"

p("C01", "Rasterized spans are in bounds, sorted, disjoint and properly terminated",
  "For every sequence of Start/Add1/Add2/Add3 calls, every bounds, offset and winding rule, Rasterize hands its Painter only spans with 0 <= X0 < X1 <= width and 0 <= Y < height (before adding Dx, Dy) and alpha in 1..0xffff. Over the whole rasterization the spans are strictly sorted by Y then X and do not overlap, and done is true on exactly one Paint call, the last.",
  ["inputs", "histories"], "all curve coordinates (inside and outside the bounds), all bounds, offsets and winding rules, any number of spans (one or several batches)",
  "No test looks at spans at all; the benchmarks only draw text. Every consumer (all painters return early or slice pixels on the strength of this order).",
  [R], [("findCell keeps each row's cell list sorted by xi", R), ("Rasterize clips xi0/xi1 and flushes the span buffer", R)],
  observe=["raster.Painter.Paint arguments"])

p("C02", "Coverage of straight-edged shapes equals the true covered area",
  "For every closed polygon of line segments, each pixel's alpha is the exact fraction of the pixel that the polygon covers, up to a rounding error of a few 1/64ths per crossing edge: fully inside pixels are exactly 0xffff, untouched pixels get no span, and rectangles and shapes within one pixel are exact to rounding of the final alpha. The rounding error does not accumulate along a segment: the row or column crossing of a segment is the exact rational crossing rounded to 1/64 pixel.",
  ["inputs"], "all polygon vertices in 26.6 fixed point with all slopes and directions",
  "The tests compare no pixel at all; coverage depends on four coordinates per edge with remainder carries that only particular slopes exercise.",
  [R], [("scan: area/cover accumulation with Bresenham remainders", R), ("Add1: per-scanline decomposition", R), ("areaToAlpha", R)],
  observe=["spans passed to the Painter"])

p("C03", "Rasterizer bounds clip without changing the pixels inside",
  "Rasterizing a path of line segments in smaller bounds gives exactly the pixels that larger bounds give inside the smaller area, and moving a path by whole pixels moves its pixels by exactly as much. This includes paths that extend beyond any side of the bounds, to negative coordinates or past the far edges: clipped geometry to the left still counts towards winding, clipped geometry elsewhere has no effect.",
  ["inputs"], "all line-segment paths, all bounds and whole-pixel offsets, geometry on and beyond every edge",
  "Tests only rasterize glyphs that lie inside the bounds.",
  [R], [("findCell clamps xi to [-1, width] and drops out-of-range rows", R), ("scan/Add1 split coordinates into pixel and fraction", R)],
  observe=["spans passed to the Painter"])

p("C04", "Alpha follows the selected winding rule",
  "A region of winding number w and partial coverage c is painted with min(1, |w|*c) under the non-zero rule and with the even-odd triangle wave of w*c otherwise, independently of contour direction, as a 16-bit alpha that is 0xffff for full coverage. Drawing a contour twice in the same direction therefore saturates under non-zero and cancels under even-odd, and drawing it once in each direction cancels under both.",
  ["inputs", "configurations"], "all fractional coverages and winding numbers, both winding rules",
  "No test sets UseNonZeroWinding or reads an alpha.",
  [R], [("areaToAlpha", R), ("Rasterize accumulates cover along a row", R)], observe=["Span.Alpha"])

p("C05", "Quadratic and cubic segments approximate their Bezier curves",
  "A quadratic or cubic segment is replaced by line segments that start at the pen position, end exactly at the given end point (which becomes the new pen position) and follow the Bezier curve: the area enclosed with its chord equals the curve's exact area up to flattening and rounding error, the painted pixels stay within the control points' bounding box, and a curve whose control points lie evenly on a straight line paints like the line. Flattening works at every subdivision depth.",
  ["inputs"], "all control points and all flatness scales (rasterizer sizes)",
  "Glyph benchmarks execute curves but nothing compares the result with the curve.",
  [R], [("Add2/Add3 recursive subdivision with explicit stacks", R), ("SetBounds chooses splitScale2/3", R)], observe=["spans passed to the Painter"])

p("C06", "A rasterizer that was cleared or resized behaves like a new one",
  "After Clear or SetBounds a Rasterizer produces, for any path, exactly the spans that a freshly created Rasterizer of the same bounds produces, whatever was drawn before. Calling Rasterize again without Clear produces the same spans again, and adding no geometry produces none.",
  ["inputs", "histories"], "all previous paths, bounds and partially finished curves, then any path",
  "Tests use one rasterizer per context and never compare reuse with a fresh one.",
  [R], [("Clear resets pen, cell and per-row lists", R), ("SetBounds re-slices cellIndex", R), ("saveCell flushes the pending cell", R)],
  state=[{"name": "area/cover/cell/cellIndex", "meaning": "accumulated coverage", "where": R}], observe=["spans passed to the Painter"])

p("C07", "Alpha and RGBA painters composite spans exactly within span and image",
  "For every image (any bounds, sub-image stride), span list sorted by Y and colour, AlphaSrcPainter, AlphaOverPainter and RGBAPainter change exactly the pixels covered by both a span and the image and never touch other bytes or panic. Src stores the span's alpha (times the colour, for RGBA), Over computes the Porter-Duff over operator to within one unit in the last place, never lowers an alpha value, and is exact for transparent and opaque spans.",
  ["inputs", "configurations"], "all spans (inside, straddling and outside the image), pixel values, alphas and colours, both operators",
  "Painters other than AlphaSrc are not run by any test; none is checked.",
  [PA], [("span clipping and pixel loops", PA), ("RGBAPainter 16-bit blending", PA)], observe=["image Pix after Paint"])

p("C08", "MonochromePainter paints exactly the pixels at least half covered",
  "Over a whole rasterization, delivered in any batches, the wrapped painter receives fully opaque spans whose union is exactly the pixels of the input spans with alpha >= 0x8000, still sorted and non-overlapping with abutting spans merged, and exactly the last call is flagged done. The painter can then be used again as if new.",
  ["inputs", "histories"], "all sorted span lists, alphas and batch boundaries, any offset, repeated use",
  "No test uses it; the accumulated span crosses batches.",
  [PA], [("MonochromePainter.Paint accumulator and in-place compaction", PA)], state=[{"name": "y, x0, x1", "meaning": "pending span", "where": PA}],
  observe=["Paint calls on the wrapped painter"])

p("C09", "GammaCorrectionPainter changes only alphas, monotonically, fixing 0 and full",
  "For every span list the wrapped painter receives the same spans in the same batches, each with an alpha that depends only on its own alpha: 0 stays 0, 0xffff stays 0xffff, a larger alpha never becomes smaller than a smaller one, and the value is within interpolation error of 0xffff*(alpha/0xffff)^gamma. Gamma 1 changes nothing, also after another gamma was set.",
  ["inputs", "configurations"], "all alphas 0..0xffff and spans; gammas from a fixed list",
  "No test uses it.", [PA], [("GammaCorrectionPainter.Paint interpolation", PA), ("SetGamma table", PA)], observe=["Paint calls on the wrapped painter"])

p("C10", "A recorded Path replays exactly",
  "A Path built from any Start/Add1/Add2/Add3 calls and added to a Rasterizer or another Path has exactly the effect of making the same calls directly, in the same order, with the same points; Clear empties it. Stroking a Path strokes every curve of it, in order, and a Path with an unknown segment tag or cut off within a segment's points (or, for stroking, not beginning with a Start) is rejected by a panic instead of being misread.",
  ["inputs", "histories"], "all call sequences up to the bound and all coordinates",
  "No test builds a Path.", [G, R, S], [("Path encoding with leading and trailing tags", G), ("Rasterizer.AddPath decoding", R), ("addPathReversed walks backwards", G)],
  observe=["Path contents", "spans", "Adder calls"])

p("C11", "A stroke is a closed outline at half the width with its chosen caps and joins",
  "Stroking an open polyline emits, per curve, one closed outline that runs along one side at half the stroke width from each segment, caps the end, returns along the other side and caps the start back to its first point; every emitted side point is the path vertex plus or minus a normal of that segment of length half the width up to rounding. Butt, square and round caps and bevel and round joins have their documented shapes: butt ends at the path end, square extends it by half the width, round passes through the point half a width beyond, bevel connects directly, round follows the arc of the shorter turn on the outer side. The outline of a quadratic segment likewise starts, stays and ends half the width from the curve, also if its control point is very near one of its ends.",
  ["inputs", "configurations"], "all 2- and 3-vertex polylines in the coordinate bound, all widths, caps and joins",
  "No test strokes a path.", [S, G], [("stroker.Add1 and Stroke", S), ("cappers and joiners", S), ("addArc octant selection", S), ("pNorm/pRot*", G)],
  observe=["Adder calls made by Stroke"])

p("C12", "Parsing arbitrary bytes returns a font or an error, never crashes",
  "For every byte string, Parse returns either a Font and no error or an error and no Font: it does not panic, loop forever or allocate memory out of proportion to the input. A table that is truncated, has an inconsistent length or count, or points outside the data is reported as an error.",
  ["inputs"], "all byte strings (bounded length per table; symbolic directory and table contents)",
  "Tests parse three well-formed fonts only.", [T], [("readTable bounds", T), ("parseCmap/parseHead/parseHhea/parseKern/parseMaxp length checks", T), ("parse header and TTC checks", T)],
  observe=["result of truetype.Parse"])

p("C13", "Queries on any successfully parsed font never crash",
  "For every Font that Parse accepted, Index, Kern, Name, HMetric, VMetric and Bounds return without panicking for every argument, whatever the tables contain; glyphs and pairs the font has no data for yield zero values.",
  ["inputs"], "all accepted table contents within the bound, all runes, glyph indexes, name ids",
  "Tests query a handful of runes and glyphs of well-formed fonts.", [T], [("Index binary search and glyph id array", T), ("Kern", T), ("Name", T), ("unscaledHMetric/unscaledVMetric", T)],
  observe=["results of Font methods"])

p("C14", "Rune to glyph lookup follows the font's character map",
  "Index returns, for every rune, the glyph that the chosen cmap subtable (formats 4 and 12) assigns by its segments: delta arithmetic modulo 65536, glyph-array indirection, and 0 for a rune in no segment. A Unicode subtable (full or BMP) is preferred to a Microsoft one, wherever it stands in the table.",
  ["inputs"], "all segment tables up to the bound, all deltas, range offsets, glyph arrays, runes and subtable orders",
  "TestIndex samples 8 runes of one font with one format.", [T], [("parseCmap", T), ("Index", T), ("parseSubtables preference", T)], observe=["Font.Index"])

p("C15", "Kerning is the font's pair value, scaled",
  "Kern returns, for every ordered glyph pair, the value the font's kern table holds for that pair scaled to the requested scale, and 0 for a pair not in the table or a font without one.",
  ["inputs"], "all sorted pair tables up to the bound, all pairs and scales", "TestParse checks one pair.", [T], [("Kern binary search", T), ("parseKern", T)], observe=["Font.Kern"])

p("C16", "Metrics are the table entries, scaled and rounded to nearest",
  "HMetric, VMetric and Bounds return the values of the hmtx, vmtx (or the OS/2 or em-square fallback) and head tables for every glyph - glyphs beyond the long metrics repeat the last advance with their own bearing, glyphs beyond the font are zero - each multiplied by scale/unitsPerEm and rounded to the nearest integer, halves away from zero. At scale equal to FUnitsPerEm every value is exactly the table's.",
  ["inputs"], "all glyph indexes, table contents, units per em, and scales for which the product fits 32 bits",
  "TestParse checks one glyph at the identity scale.", [T], [("unscaledHMetric, unscaledVMetric", T), ("scale", T)], observe=["Font.HMetric", "Font.VMetric", "Font.Bounds"])

p("C17", "Font names are decoded from the preferred Unicode or Microsoft record",
  "Name(id) returns the text of the name record with that id, decoded from UTF-16BE with every non-printable or non-ASCII unit replaced by '?', from a Unicode-platform record if there is one and otherwise a Microsoft one, and the empty string if there is no such record.",
  ["inputs"], "all record lists and string data up to the bound, all name ids", "TestName reads one name of three fonts.", [T], [("Name", T), ("parseSubtables with predicate", T)], observe=["Font.Name"])

p("C18", "A simple glyph's contours are decoded exactly",
  "Loading a simple glyph yields exactly the points the glyf data encodes - short and long deltas of either sign, same-as-previous and repeated flags, on/off-curve bits - with contour ends as encoded and every coordinate scaled and rounded to nearest; the outline is shifted so that its left side bearing agrees with the metrics.",
  ["inputs"], "all flag combinations and deltas up to the point bound, short and long glyph offsets, all scales in range",
  "The scaling tests compare one font at one size.", [L, T], [("loadSimple flag and delta decoding", L), ("load: loca lookup", L), ("addPhantomsAndScale", L)], observe=["GlyphBuf.Points", "GlyphBuf.Ends"])

p("C19", "A compound glyph is its transformed components",
  "Loading a compound glyph yields the concatenation of its components' contours, each transformed by its 2.14 matrix and then displaced by its scaled offset (rounded to whole pixels when asked), nested to any depth up to a fixed limit beyond which loading returns an error. The advance width and bearing are the compound's own, or those of the component flagged use-my-metrics.",
  ["inputs"], "all component flags, offsets, matrices and nesting up to the bound, including self-reference",
  "The test fonts hold few compound glyphs, without matrices.", [L], [("loadCompound", L), ("recursion limit in load", L)], observe=["GlyphBuf fields after Load"])

p("C20", "A loaded glyph has consistent contours, tight bounds and the font's advance",
  "After every successful Load, Ends is non-decreasing and ends at the number of points, Bounds is exactly the bounding box of Points (empty for no points; enlarged to whole pixels when hinted), and AdvanceWidth is the glyph's scaled advance; when hinted it is a whole number of pixels, taken from the font's hdmx record for that size if there is one.",
  ["inputs", "configurations"], "all glyph data within the bound, all scales, hinted and unhinted",
  "The scaling tests compare one font at one size; no font with hdmx is present.", [L], [("Load: advance, hdmx and bounds computation", L)], observe=["GlyphBuf.Bounds", "GlyphBuf.AdvanceWidth", "GlyphBuf.Ends"])

p("C21", "Loading a glyph from malformed data returns an error, never crashes",
  "For every Font that Parse accepted and every glyph index, Load with or without hinting returns normally: truncated or inconsistent loca, glyf, hmtx, hdmx or compound data makes it return an error (or an empty glyph) instead of panicking, and recursive glyphs terminate.",
  ["inputs"], "all loca/glyf/hdmx contents within the bound, all glyph indexes, both hinting modes", "Tests load well-formed glyphs only.", [L], [("load, loadSimple, loadCompound bounds", L)], observe=["GlyphBuf.Load"])

p("C22", "Loading into a reused GlyphBuf gives the same glyph as into a fresh one",
  "A Load's result depends only on its arguments: whatever font, scale, glyph or hinting mode the GlyphBuf was used with before, and whether or not those loads failed, the error is that of a new GlyphBuf and, if there is none, so are the points, contour ends, bounds and advance. (Programs other than the font program that define functions are outside the claim.)",
  ["inputs", "histories"], "all pairs (and triples) of loads over differing fonts, scales, glyphs and hinting, including failing ones", "Tests reuse one buffer with one font and size.",
  [L, H], [("Load resets the buffer", L), ("hinter.init re-runs fpgm/prep when font or scale changes", H)], state=[{"name": "hinter", "meaning": "stack, store, functions, scaled CVT, default graphics state kept across loads", "where": H}],
  observe=["GlyphBuf fields after Load"])

p("C23", "Hinting programs can neither crash nor hang the interpreter",
  "For every font program, control value program and glyph program - any bytes at all - hinting returns normally: an invalid instruction, operands out of range, stack over- or underflow and reaching the step limit give an error (some invalid operands are ignored instead, and a jump out of the program ends it); it never panics and never runs more than a fixed number of steps.",
  ["inputs", "programs"], "every instruction with arbitrary operands and interpreter state; short arbitrary programs", "TestBytecode runs about 20 fixed programs.", [H, "truetype/opcodes.go"],
  [("popCount underflow check", H), ("per-opcode operand checks", H), ("step limit", H)], observe=["error from GlyphBuf.Load with hinting", "hinter.run"])

p("C24", "Stack, arithmetic and logic instructions compute the specified values",
  "Every push, stack-manipulation, storage, comparison, logical and arithmetic instruction of the TrueType instruction set leaves on the stack exactly the value the specification gives for every operand - 26.6 fixed point multiplication and division, two's complement addition, floor/ceiling to pixels, min/max, abs/neg, index copies and moves - and leaves the rest of the stack and the glyph untouched.",
  ["inputs", "programs"], "all 32-bit operands and stack depths within the bound", "TestBytecode checks each on one or two operand values.", [H], [("opcode switch in run", H), ("fmul/fdiv", H)], observe=["interpreter stack after run"])

p("C25", "Control-flow instructions execute exactly the selected code",
  "IF/ELSE/EIF run exactly the branch the condition selects for any nesting and any embedded push data, jumps continue at the target relative to the jump instruction, FDEF/ENDF bodies run only when called, CALL runs its function once and LOOPCALL as often as its count, and execution then continues after the call.",
  ["programs", "inputs"], "all conditions, counts, jump offsets and program layouts within the bound", "TestBytecode has one program per construct.", [H], [("ifelse skipping, skipInstructionPayload", H), ("call stack in run", H)], observe=["interpreter stack after run"])

p("C26", "Rounding instructions follow the selected rounding state",
  "ROUND (and ODD/EVEN) rounds every value as the current rounding state prescribes: to grid, half grid, double grid, up, down, off, or the period, phase and threshold of SROUND/S45ROUND; the result is never of opposite sign to the value and, apart from the 45-degree periods, always lies on the selected grid.",
  ["inputs", "configurations"], "all 32-bit distances without overflow, all rounding instructions and all SROUND operands", "TestBytecode checks two operands.", [H], [("round", H), ("opRTG..opS45ROUND", H)], observe=["interpreter stack after run"])

p("C27", "Point-moving instructions move the named points by the specified distance",
  "Each instruction that moves points (MDAP, MIAP, MDRP, MIRP, MSIRP, SHP, SHC, SHZ, SHPIX, IP, ALIGNRP, ALIGNPTS, ISECT, SCFS, DELTAP) moves exactly the points its operands and reference points designate, along the freedom vector, by the amount that gives the specified distance along the projection vector (SHPIX: by its amount along the freedom vector itself); it touches no other point, and updates reference points and touch flags as specified. The instructions that set vectors from points, flip on-curve flags, measure coordinates and distances (GC, MD) or change control values (DELTAC) do exactly that. A glyph's program starts with the graphics state the control value program left, but with the default vectors, reference points, zone pointers and loop count.",
  ["inputs", "programs"], "all point positions, distances, CVT values and reference points within the bound, axis-aligned vectors (and a few diagonal ones)", "Only one hinted font at one size is compared.", [H], [("move, dotProduct, mulDiv", H), ("opcode cases in run", H)], observe=["GlyphBuf.Points after a hinted Load"])

p("C28", "IUP moves untouched points consistently with the touched ones",
  "IUP leaves touched points in place, moves the untouched points of a contour with one touched point by that point's displacement, places every untouched point between two touched neighbours by interpolation - shifted with the nearer one if outside their original range, and otherwise between their new positions in proportion - and leaves contours with no touched point and the other axis unchanged.",
  ["inputs"], "all original and moved positions and touch patterns for contours up to the bound", "Only one hinted font at one size is compared.", [H], [("opIUP contour walk", H), ("iupInterp", H), ("iupShift", H)], observe=["GlyphBuf.Points after a hinted Load"])

p("C29", "Face metrics, advances, bounds and kerning agree with the font at its scale",
  "For every face built from a font and options, the scale is size*DPI/72 pixels rounded to 1/64, defaults apply to unset options, GlyphAdvance and GlyphBounds are those of loading the rune's glyph at that scale with the face's hinting (y axis flipped), Kern is the font's kerning rounded to whole pixels when hinting, and Metrics has the scaled, rounded-up ascent and descent. Repeated or interleaved queries for any runes give the same answers.",
  ["inputs", "configurations", "histories"], "all integral sizes and DPIs within the bound, hinting modes, table values, rune sequences", "No test reads a face's metrics.", [F], [("NewFace", F), ("index cache", F), ("Metrics/Kern/GlyphBounds/GlyphAdvance", F)], observe=["font.Face methods"])

p("C30", "A face's glyph mask does not depend on what was drawn before",
  "Glyph returns, for every dot position and rune, the same rectangle, advance and mask pixels as a newly created face with the same options, whatever glyphs the face rendered before (cache hits, evictions and collisions included), with the dot quantized per axis to the number of sub-pixel positions the options ask for on that axis. The mask pixels are those of rasterizing the glyph outline at that quantized position, and no pixel outside the glyph's own cell leaks in.",
  ["inputs", "histories", "configurations"], "all dot positions, rune sequences up to the bound, cache sizes and sub-pixel options", "The benchmark only draws text and compares nothing.", [F], [("Glyph cache key and slot", F), ("rasterize and facePainter paint into one cell", F), ("subPixels", F)], state=[{"name": "glyphCache/masks/indexCache", "meaning": "per-face caches", "where": F}], observe=["font.Face.Glyph"])

p("C31", "DrawString advances by the text extent and paints only inside the clip",
  "DrawString returns the start point advanced by the glyphs' advance widths plus the kerning between neighbours (rounded to whole pixels when hinting), paints each glyph at its pen position, and changes no pixel outside the clip rectangle; inside the clip the pixels are exactly those of drawing with no clip. A context without a font reports an error and draws nothing.",
  ["inputs", "configurations"], "all start points, clip rectangles, advances and kerning values within the bound", "The benchmark draws text with a clip equal to the image and compares nothing.", [C], [("DrawString", C), ("glyph/rasterize offsets", C)], observe=["destination image", "returned point"])

p("C32", "A Context draws with its current settings, independent of its history",
  "After any sequence of SetFont, SetFontSize, SetDPI, SetHinting, SetClip, SetDst and SetSrc calls and draws, a DrawString has the effect it would have on a new Context given only the latest settings: no glyph of an earlier font, size, resolution or hinting, or of another glyph sharing its cache slot, is ever shown. (Drawings of the same glyph whose positions share a cache slot - a quarter pixel horizontally, a whole pixel vertically - may share a mask.)",
  ["histories", "configurations", "inputs"], "all setter/draw sequences up to the bound", "No test changes a setting after drawing.", [C], [("recalc and SetHinting invalidate the cache", C), ("glyph cache key", C)], state=[{"name": "Context.cache", "meaning": "glyph masks keyed by glyph and sub-pixel position", "where": C}], observe=["destination image", "returned point"])

p("C33", "Contours are drawn the same however their on-curve points are encoded",
  "A contour's rendering depends only on the curve it describes: spelling out an implied on-curve point midway between two off-curve points, or starting the point list at another point of the same contour (on or off the curve), gives the same painted pixels, in Context and in Face alike; every contour is closed.",
  ["inputs"], "all contours up to the point bound with any on/off pattern and any rotation, midpoints representable", "The scaling tests stop at the points, and nothing compares rendered outlines.", [C, F], [("Context.drawContour", C), ("face.drawContour", F)], observe=["mask pixels", "destination image"])

p("C34", "Using a font or a path never changes it",
  "Parse does not write to the bytes it is given, and afterwards nothing does: no query of a Font, no glyph loaded from it (hinted or not, whatever its programs do, whether or not loading fails), and no face or Context made with it changes the Font, anything it refers to, or the file's bytes. NewFace keeps its Options as they are, drawing text does not change the source image, and adding or stroking a Path (or adding it to a Rasterizer) leaves that Path as it was, including its spare capacity. Hence a query asked again has the same answer, and fonts and paths can be shared, also between goroutines.",
  ["inputs", "programs", "histories"], "all queries, table values within the bound, instructions with small operands in any program, hinting modes, short call sequences, paths up to the bound",
  "No test looks at a font or path after using it, and only the race detector on a lucky schedule would notice a write.",
  [T, L, H, F, C, G, S], [("Font's tables are slices of the file; the hinter copies the CVT", H), ("Name decodes into a buffer of its own", T), ("Path.AddPath, Stroke", G)],
  state=[{"name": "Font and the file's bytes", "meaning": "shared by all users of the font", "where": T}], observe=["memory reachable from the Font, Options or Path"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
