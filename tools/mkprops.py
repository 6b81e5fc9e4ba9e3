#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

TT, GL, HI, FA, FT = "truetype/truetype.go", "truetype/glyph.go", "truetype/hint.go", "truetype/face.go", "freetype.go"
RA, ST, PA, GE = "raster/raster.go", "raster/stroke.go", "raster/paint.go", "raster/geom.go"

prop("C01", "Malformed font data is answered with an error, never a crash",
 "For every byte string, parsing it as a font either fails with an error or yields a font, and it never panics, crashes the process or runs without bound. "
 "For every font so obtained, every query (character lookup, name, bounds, horizontal and vertical metrics, kerning) with any argument returns normally, and loading any glyph index, hinted or not, at any scale either succeeds or returns an error, likewise without panicking or running without bound.",
 ["inputs"], "all byte strings given to Parse/ParseFont, and all glyph indexes, runes, name ids, scales and hinting policies used on a font that parsed",
 "The tests parse one or three well-formed files; no test feeds a truncated, corrupted or adversarial table, and the space of byte strings cannot be sampled by hand.",
 [TT, GL], [("table directory and table slicing checks", TT+":readTable,parse"), ("per-table length checks", TT+":parseCmap,parseKern,parseHhea,parseMaxp,parseHead"), ("composite recursion limit", GL+":load")],
 ["truetype.Parse", "Font.Index/Name/Kern/HMetric/VMetric/Bounds", "GlyphBuf.Load"])
prop("C02", "Hostile hinting programs are contained",
 "Whatever bytes a font carries as font program, control value program or glyph instructions, loading a hinted glyph terminates after a bounded number of instructions and either succeeds or returns an error, without panicking or crashing. "
 "A program cannot affect anything but the result of the load it belongs to: after a program failed or misbehaved, the same glyph buffer loads any glyph of any other font exactly as a fresh buffer does.",
 ["inputs", "histories"], "all instruction byte strings in fpgm, prep and glyph programs, all control values, all point layouts, all sequences of loads on one buffer",
 "The unit tests run a few dozen hand-written straight-line programs and one well-behaved font; instruction sequences with bad operands, zones, jumps, calls, loops and vectors are never run.",
 [HI, GL], [("step, call-depth and stack limits", HI+":hinter.run"), ("operand validation", HI+":hinter.point"), ("interpreter initialisation", HI+":hinter.init")],
 ["GlyphBuf.Load with font.HintingFull"])
prop("C03", "A parsed font is immutable and safe for concurrent use",
 "Any number of goroutines may query one font and load or draw its glyphs at the same time, each with its own glyph buffer, face or drawing context, without data races, and each obtains exactly the results it would obtain alone. "
 "The byte slice a font was parsed from is never written to.",
 ["schedules"], "all interleavings of queries, glyph loads (hinted and not), faces and contexts that share one font",
 "No test starts a goroutine, none runs under the race detector, and none checks that the input bytes are left alone.",
 [TT, GL, HI, FA, FT], [("tables are read-only slices of the input", TT+":Font"), ("all mutable state lives in GlyphBuf/hinter/face/Context", GL+":GlyphBuf")],
 ["Font methods, GlyphBuf.Load, NewFace().Glyph, Context.DrawString from several goroutines"])
prop("C04", "Character to glyph mapping is exactly the font's character map",
 "For every rune, the glyph index reported is the one that the font's preferred character map (the first listed Unicode one if present, else the last listed Microsoft one) assigns to it, and 0 for a rune it does not map. "
 "This holds for segment maps using index deltas (modulo 65536) or glyph index arrays (with the delta applied to non-zero entries), and for 32-bit group maps including characters beyond U+FFFF, at every segment boundary and for negative or out-of-range runes.",
 ["inputs"], "all runes (any int32), all well-formed format 4 and format 12 character maps under the supported encodings, all orders of encoding records",
 "TestIndex looks up eight runes of one font whose map uses only deltas; glyph index arrays, format 12 and subtable preference are never exercised.",
 [TT], [("subtable choice", TT+":parseSubtables"), ("segment decoding", TT+":parseCmap"), ("segment binary search", TT+":Font.Index")], ["Font.Index"])
prop("C05", "Metrics, kerning and names are faithful to the tables",
 "For every glyph and scale, horizontal and vertical metrics, kerning adjustments and the font bounding box equal the values stored in the font multiplied by scale over units-per-em, rounded to nearest; glyphs beyond the long-metrics count share the last advance and keep their own bearing, absent vertical metrics fall back to the OS/2 typographic values and then to the em square, pairs without an entry in the first kerning subtable kern by zero (as do all, if the font parses, when that is not of horizontal pairs), and a glyph index the font does not have gets zero metrics. "
 "A name query returns the printable-ASCII rendering of the Unicode or Microsoft record with that id, preferring Unicode, with other characters shown as '?', and the empty string when there is none.",
 ["inputs"], "all well-formed metrics, kern, OS/2 and name tables; all glyph indexes, pairs, name ids and scales that do not overflow 26.6 arithmetic",
 "TestParse checks one glyph, one pair at one scale, and TestName one id; the short-metrics tail, vertical fallbacks, kern search boundaries, negative values and rounding are unchecked.",
 [TT], [("metric lookup", TT+":unscaledHMetric,unscaledVMetric"), ("rounded scaling", TT+":Font.scale"), ("kern binary search", TT+":Font.Kern"), ("name decoding", TT+":Font.Name")],
 ["Font.HMetric, VMetric, Kern, Bounds, FUnitsPerEm, Name"])
prop("C06", "Font file layout does not change the font",
 "The same tables give the same font however they are laid out: the order of directory entries and of table data, gaps and padding between tables, unknown extra tables, directory checksums and search hints, trailing bytes, and wrapping the font as the first member of a collection change no query result, no loaded glyph and no parse error.",
 ["inputs", "configurations"], "all re-layouts of a well-formed font file, including TTC version 1 and 2 wrapping with any number of members",
 "The tests parse files in one layout only; no test parses a collection.",
 [TT], [("directory walk", TT+":parse"), ("collection header", TT+":parse"), ("table slicing", TT+":readTable")], ["truetype.Parse and all Font queries, GlyphBuf.Load"])
prop("C07", "Simple glyph outlines are decoded and scaled exactly",
 "Loading a simple glyph without hinting yields exactly the contours stored in the font, in order, with every point's on/off-curve mark, whichever coordinate and flag compression the file uses (short or long deltas, repeated values, repeated flags) and whichever location-table format. "
 "Every coordinate is scale over units-per-em times the stored one, rounded to nearest, with the outline shifted horizontally so that its left side bearing is the one in the horizontal metrics; an empty glyph has no contours but keeps its advance.",
 ["inputs"], "all well-formed simple glyphs and their valid encodings, all scales that do not overflow 26.6 arithmetic",
 "TestParse decodes one glyph and the scaling test one font at one size; the encodings a font may use for the same outline are not enumerated.",
 [GL], [("flag and delta decoding", GL+":loadSimple"), ("location lookup", GL+":load"), ("scaling and phantom points", GL+":addPhantomsAndScale")], ["GlyphBuf.Load(HintingNone)", "GlyphBuf.Points, Ends, AdvanceWidth"])
prop("C08", "Composite glyphs are the transformed union of their components",
 "Loading a composite glyph without hinting yields its components' contours in order, each mapped by its own scale, x/y-scale or 2x2 matrix and then moved by its scaled offset (rounded to whole pixels where the component asks for it), nested to any supported depth; where a component is to be placed by matching points, it is, or else the load reports an error. "
 "The advance and left side bearing are those of the composite itself, or of the component marked as supplying the metrics.",
 ["inputs"], "all well-formed composite glyphs: argument sizes, transform kinds, signs, nesting, metric-supplying components, all scales",
 "One font's accented letters at one size are compared; matrices, nesting, byte and word offsets with signs, grid rounding and metric overrides are not driven.",
 [GL], [("component decoding and transform", GL+":loadCompound"), ("metrics override", GL+":load,loadCompound")], ["GlyphBuf.Load(HintingNone)", "GlyphBuf.Points, Ends, AdvanceWidth"])
prop("C09", "A loaded glyph is self-consistent",
 "After every successful load, the contour ends ascend and the last equals the number of points; the bounding box is exactly the smallest box around all points, or with hinting that box grown outward to whole pixels; with no points it is empty. "
 "Without hinting the advance width is the scaled advance from the horizontal metrics (to within one unit of rounding); with hinting it is a whole number of pixels, taken from the device metrics table when that has an entry for the pixel size.",
 ["inputs"], "all fonts, glyphs, scales and hinting policies for which loading succeeds",
 "Bounds are compared for one font at one size; device metrics and other sizes, fonts and hinting combinations are not covered.",
 [GL], [("control box computation", GL+":GlyphBuf.Load"), ("device metrics", GL+":GlyphBuf.Load")], ["GlyphBuf.Bounds, Ends, Points, AdvanceWidth after Load"])
prop("C10", "Hinting instructions act as the TrueType instruction set specifies",
 "For every valid combination of font program, control value program and glyph instructions, hinted glyph loading moves and flags the outline points exactly as the TrueType instruction set defines (stack and arithmetic, control flow and function calls, graphics state and rounding modes, storage and control values, point movement, interpolation, shifting, deltas, the twilight zone, composite instructions), in the grayscale variant of engine version 35. "
 "The untouched copies of the outline kept with the loaded glyph hold the scaled and the unscaled points as they were before hinting.",
 ["programs", "inputs"], "all valid instruction programs over all outlines, control values and scales that stay within 26.6 range",
 "TestBytecode runs some sixty straight-line programs without any points, and the scaling test one font at one size, so most point-moving instructions, rounding states, zones and sizes are unobserved.",
 [HI, GL], [("bytecode interpreter", HI+":hinter.run"), ("rounding", HI+":hinter.round"), ("untouched point interpolation", HI+":iupInterp,iupShift"), ("vector arithmetic", HI+":dotProduct,mulDiv,normalize")],
 ["GlyphBuf.Load(HintingFull)", "GlyphBuf.Points, Unhinted, InFontUnits"])
prop("C11", "Re-using a glyph buffer leaves no trace",
 "The outcome of loading a glyph (points, contour ends, bounds, advance, and whether it fails) depends only on the font, scale, glyph and hinting policy, and not on what the same buffer loaded before: other glyphs, other sizes, other fonts, other hinting policies, or loads that failed at any stage.",
 ["histories"], "all sequences of loads on one buffer, including failing ones, over any fonts, scales, glyphs and hinting policies",
 "The scaling test loads each glyph once, in index order, from one font at one size; no order is compared with another and no load fails.",
 [GL, HI], [("buffer reset", GL+":GlyphBuf.Load"), ("interpreter state per font, size and glyph", HI+":hinter.init,run")], ["GlyphBuf.Load on a shared buffer versus on a fresh one"])
prop("C12", "Rasterised spans are ordered, disjoint, in bounds and complete",
 "Every rasterisation delivers its spans to the painter sorted by row and then column, never overlapping, never empty, never fully transparent, and all within the rasteriser's width and height (displaced by its offset), in one or more batches of which exactly the last is marked final. "
 "Rasterising twice without clearing delivers the same spans, and nothing is delivered for an empty path or a canvas of zero or negative size.",
 ["inputs", "histories"], "all paths of lines, quadratics and cubics, inside and outside the canvas, all canvas sizes, offsets and winding rules",
 "The raster package has no tests; the benchmarks only check that nothing panics.",
 [RA], [("sorted cell lists", RA+":findCell"), ("span emission and batching", RA+":Rasterize")], ["the Painter passed to Rasterizer.Rasterize"])
prop("C13", "Polygon coverage is accurate under both winding rules",
 "For every set of closed polygons each pixel's alpha is the polygons' average winding number over that pixel, saturated at one (non-zero rule) or folded to alternate (even-odd rule), which is the fraction of the pixel they cover where no two contours cross within it, to within the rounding of 26.6 arithmetic: fully covered pixels are fully opaque, uncovered ones are not painted, overlapping areas saturate under the non-zero rule and alternate under the even-odd rule. "
 "This holds for any part of the polygons that falls inside the canvas, however much of them lies beyond any of its four edges.",
 ["inputs"], "all closed polygons with coordinates small enough not to overflow, all canvas sizes, both winding rules, any position relative to the canvas",
 "No test compares a single pixel.",
 [RA], [("area and cover accumulation", RA+":Add1,scan"), ("clipping to the canvas", RA+":findCell"), ("area to alpha", RA+":areaToAlpha")], ["spans delivered by Rasterizer.Rasterize"])
prop("C14", "Curves rasterise as the curves they are",
 "Quadratic and cubic segments cover the pixels that the exact Bezier curves bound, to within a quarter of a pixel of flattening error (a tenth on small canvases), at any size (half a pixel for those of millions of pixels), curvature and degeneracy (cusps, loops, coincident control points), and always end exactly at their end point. "
 "A curve whose control points lie on its chord, in order, covers what the straight line covers, up to rounding.",
 ["inputs"], "all quadratic and cubic segments with coordinates small enough not to overflow, all canvas sizes (which select the flattening tolerance)",
 "No test compares a single pixel of a curve; only the shapes of one font at one size are run at all.",
 [RA], [("adaptive subdivision", RA+":Add2,Add3")], ["spans delivered by Rasterizer.Rasterize"])
prop("C15", "Rasteriser reset, replay and order invariance",
 "A rasteriser that was cleared or re-bounded behaves as a new one whatever it drew before, and adding a recorded path is the same as making its calls directly. "
 "The result does not depend on the order in which closed contours are added, nor (up to rounding) on their direction, and moving a path that stays inside the canvas by whole pixels moves its spans by as much.",
 ["histories", "inputs"], "all histories of Start, Add, Rasterize, Clear and SetBounds calls; all recorded paths and their recordings by calls, appending and clearing",
 "No test re-uses a rasteriser or compares two ways to draw one path.",
 [RA, GE], [("state reset", RA+":Clear,SetBounds"), ("path recording and replay", GE+":Path.Start..Add3,AddPath"), ("replay", RA+":AddPath")], ["spans delivered by Rasterizer.Rasterize", "raster.Path contents"])
prop("C16", "Painters composite spans exactly onto the target pixels",
 "Painting spans changes exactly the pixels of the target image that the spans cover, clipped to the image bounds, and no other byte of its buffer, for any image origin, stride and sub-image. "
 "Each covered pixel becomes the Porter-Duff Over or Src composition of the paint colour at the span's alpha with the pixel, to within rounding (less than two 8-bit steps), where Over keeps the premultiplied invariant and full opacity yields the paint colour.",
 ["inputs"], "all span lists in rasteriser order, all image bounds including negative origins and sub-images, all premultiplied colours, pixel contents and both operators",
 "No test paints onto an image and looks at it.",
 [PA], [("clipping and addressing", PA+":AlphaOverPainter.Paint,AlphaSrcPainter.Paint,RGBAPainter.Paint"), ("composition arithmetic", PA+":RGBAPainter.Paint")], ["Pix of the target image before and after Paint"])
prop("C17", "Monochrome and gamma painters transform alpha only",
 "The monochrome painter passes on exactly the pixels whose alpha is at least one half, fully opaque, as non-empty ordered spans with adjacent ones merged, and marks exactly the last batch final, whatever the batching, and again when re-used for the next rasterisation. "
 "The gamma painter changes nothing but alpha, which follows the power curve monotonically with fully transparent and fully opaque fixed, and is the identity at gamma one.",
 ["inputs", "histories"], "all span sequences and their division into batches, all positive gammas, painters re-used over several rasterisations and with changed gamma",
 "No test uses either painter.",
 [PA], [("threshold and merge with carry-over", PA+":MonochromePainter.Paint"), ("lookup and interpolation", PA+":GammaCorrectionPainter.Paint,SetGamma")], ["the wrapped Painter"])
prop("C18", "Stroked paths cover the band of the stroke width",
 "The stroke of a path of lines and quadratics, of any size up to millions of pixels, covers, under the non-zero rule, every point nearer to the path than half the width (up to about a pixel of approximation; at ends and corners according to the cap and join) and no point farther than half the width, where round caps and joins add exactly the half-discs, square caps extend by half the width, butt caps end at the end point, and bevel joins cut the corner straight. "
 "Curves are followed to within a pixel plus a twentieth of the width as long as they bend gently compared with the width or turn in a hairpin between long arms; segments shorter than the half-width are not held to this. Each curve of the path is stroked independently, and nil caps and joins mean round ones.",
 ["inputs"], "all paths of linear and gently curved quadratic segments, widths, built-in caps and joins, including reversals and sharp corners",
 "No test strokes a path.",
 [ST, GE], [("offsetting", ST+":stroker.Add1,Add2,addNonCurvy2"), ("caps and joins", ST+":roundCapper,squareCapper,buttCapper,roundJoiner,bevelJoiner,addArc"), ("reverse side", GE+":addPathReversed")], ["raster.Stroke output, rasterised"])
prop("C19", "A face's glyph images are right, and its cache is invisible",
 "For every rune and dot, a face returns the coverage of that rune's outline at the dot, rounded to the nearest of the configured number of sub-pixel positions on each axis, with the rectangle placing it; invalid or zero options mean the documented defaults. "
 "The image, rectangle and advance do not depend on which glyphs were requested before, nor on the size of the glyph cache, and no pixel of another glyph shows inside the rectangle.",
 ["histories", "inputs", "configurations"], "all sequences of glyph requests on one face, all dots, runes, sizes, hinting, sub-pixel and cache options",
 "The face has no test; a benchmark draws text and looks at no pixel.",
 [FA], [("sub-pixel quantisation", FA+":subPixels,face.Glyph"), ("cache addressing and keys", FA+":face.Glyph,glyphCacheKey"), ("shared mask image", FA+":face.rasterize,facePainter"), ("rune cache", FA+":face.index")], ["font.Face.Glyph"])
prop("C20", "A face's measurements agree with the font and with each other",
 "A face's glyph advance equals the advance returned with the glyph image, at every dot, and the advance of the loaded glyph; its glyph bounds are the loaded glyph's bounds with the vertical axis flipped, and enclose the image's inked pixels; its kerning is the font's at the face's scale, to whole pixels when hinted; its metrics are the font's ascent and descent rounded up and the em size. "
 "The scale is size times resolution over 72, rounded to the nearest 26.6 unit, and measuring never alters later results.",
 ["inputs", "histories", "configurations"], "all fonts, runes, sizes, resolutions and hinting options, interleaved with any other calls on the face",
 "No test calls a measuring method of the face.",
 [FA], [("measurement", FA+":GlyphAdvance,GlyphBounds,Kern,Metrics"), ("scale", FA+":NewFace")], ["font.Face.GlyphAdvance, GlyphBounds, Kern, Metrics, Glyph"])
prop("C21", "Drawing a string lays out and paints each glyph where it belongs",
 "Drawing a string advances the pen by the sum of the glyphs' advances and the kerning between neighbours (to whole pixels each when hinted), independent of clip, target and colour, and fails, leaving the pen undefined, only when there is no font or a glyph cannot be loaded (or is more than 16380 pixels wide or tall). "
 "Each glyph's coverage, at its pen position to within the quarter-pixel horizontal and whole-pixel vertical cache quantisation, is composited with the source over the target, and previously drawn text, sizes or positions never cause another glyph or another size of it to appear.",
 ["inputs", "histories", "configurations"], "all strings including invalid UTF-8 and unmapped runes, pen positions including negative and fractional, sizes, resolutions, hinting, and drawing histories on one context",
 "The benchmark draws one text and checks only that no error is returned.",
 [FT], [("pen and kerning", FT+":DrawString"), ("glyph cache", FT+":Context.glyph"), ("outline drawing", FT+":rasterize,drawContour")], ["Context.DrawString result and destination pixels"])
prop("C22", "Clipping only hides pixels",
 "Drawing text changes no pixel of the target outside the clip rectangle or outside the target's bounds. "
 "Inside the clip rectangle the pixels are exactly those that drawing without the clip would have given, wherever the clip's four edges cut the glyphs.",
 ["inputs"], "all clip rectangles, target bounds and origins, strings and pen positions",
 "The benchmark's clip is the whole image and no pixel is compared.",
 [FT], [("clip intersection and mask offset", FT+":DrawString")], ["destination pixels after Context.DrawString"])
prop("C23", "A context's settings, not their history, decide the drawing",
 "After any sequence of setter calls and drawing, a context draws as a new context given the same current font, size, resolution, hinting, source, target and clip would, up to the sub-pixel quantisation of its glyph cache. "
 "In particular a glyph drawn before a change of font, size, resolution or hinting is never re-used after it.",
 ["histories", "configurations"], "all interleavings of SetFont, SetFontSize, SetDPI, SetHinting, SetSrc, SetDst, SetClip and DrawString calls",
 "No test changes a setting after drawing.",
 [FT], [("recalculation and cache invalidation", FT+":recalc,SetHinting,SetFont,SetFontSize,SetDPI")], ["Context.DrawString result and destination pixels"])
prop("C24", "Caps and joins of the caller are asked for and used at every end and corner",
 "Stroking asks the given joiner exactly once for every interior node between two segments of non-zero length, in the order of the path, and the given capper once for each of the two ends of every curve with some extent, and nothing else. "
 "Each is told half the stroke's width, the node as the pivot, and normals of that length that are perpendicular to the segments before and after the node; what it adds to either side, of whatever segments, becomes part of the outline at that place. Caps and joins that only call the built-in ones give exactly the strokes of the built-in ones, on any destination.",
 ["inputs", "configurations"], "all paths of lines and quadratics, including repeated points and several curves; all widths; cappers and joiners that record, wrap, or add lines, quadratics and cubics",
 "No test strokes a path.",
 [ST, GE], [("calls of caps and joins", ST+":stroker.Add1,Add2,stroke"), ("the side that is added in reverse", GE+":addPathReversed")], ["Capper and Joiner calls of raster.Stroke, and its output, rasterised"])
prop("C25", "Drawing with any font is contained",
 "For every font that parses, however malformed its bounds, outlines or programs, and every size and resolution, including zero, negative, infinite and undefined ones, creating a face or a context and measuring and drawing any characters and strings with it anywhere returns normally, without panicking, exhausting memory or running without bound. "
 "Each glyph is either drawn or refused, by a face with ok false and by a context with an error: one that does not load is always refused, one that loads and is up to 16380 pixels wide and tall is always drawn and measured. What was refused changes nothing about what is drawn later.",
 ["inputs", "configurations", "histories"], "all fonts that parse (with outlines of moderately many points), all sizes, resolutions, hinting and cache options, runes, strings and positions",
 "The tests draw with well-formed fonts at ordinary sizes only.",
 [FA, FT, RA], [("size of the masks", FA+":NewFace,face.rasterize"), ("bounds of the rasteriser and of glyphs", FT+":Context.recalc,Context.rasterize"), ("arithmetic on far points", RA+":Add1,Add2")],
 ["truetype.NewFace, font.Face.Glyph, GlyphBounds, GlyphAdvance, Kern", "Context.SetFont, SetFontSize, SetDPI, DrawString"])
prop("C26", "Any path can be drawn and stroked",
 "For every path of lines and curves, with whatever co-ordinates 32 bits hold and however degenerate, recording, printing, copying, rasterising it on any canvas at any displacement and painting it with any painter onto any image, and (without cubics) stroking it at any width, negative and zero included, return normally, without panicking, in time and memory that grow with no more than the number of segments and the pixels they cross. "
 "A stroke's outline has a bounded number of segments per segment of the path, always starts a curve before adding to it, and stays within the width's reach of the path's control points (for co-ordinates and widths of up to 2^28 units); spans are well-formed whatever the co-ordinates.",
 ["inputs", "configurations"], "all well-formed paths, widths, built-in caps and joins, canvases, displacements, painters and images",
 "The raster package has no tests; only the outlines of one font at one size are ever rasterised, and nothing is stroked.",
 [RA, ST, GE, PA], [("splitting of curves", RA+":Add2,Add3"), ("scan conversion far from the canvas", RA+":Add1,setCell,findCell"), ("bounded subdivision", ST+":stroker.addNonCurvy2"), ("clipping", PA+":Paint")],
 ["raster.Rasterizer", "raster.Path", "raster.Stroke", "raster painters"])

prop("C27", "Paths record, and strokes depend on, only what they are given",
 "After any history of a path's methods (starting curves, adding segments, adding paths, itself included, adding strokes, its own included, clearing) it records exactly the calls made since it was last cleared, in order, and draws as they do; no other path is affected. "
 "The stroke of a path depends only on the path, the width, the cap and the join: it makes the same calls of any Adder (a path, a rasteriser, the caller's own), by Stroke or AddStroke, alone or from many goroutines at once, after whatever that Adder was given before, which stays; it leaves the path stroked as it was; nil stands for the round cap and join; the stroke of several curves is each one's in turn; and that of lines moves with them exactly.",
 ["histories", "inputs"], "all histories of path methods over several paths; all paths of lines and quadratics, widths, built-in caps and joins",
 "Paths are never recorded, copied or stroked by a test; aliasing between paths shows only after particular sequences of calls.",
 [GE, ST, RA], [("recording", GE+":Path.Start,Add1,Add2,Add3,AddPath,AddStroke,Clear"), ("stroking", ST+":Stroke,stroker"), ("adding to a rasteriser", RA+":AddPath,AddStroke")],
 ["raster.Path", "raster.Stroke", "raster.Rasterizer"])
prop("C28", "Memory is bounded by what is in use, not by how long it was used",
 "However often the operations are repeated, long-lived objects do not hold on to ever more memory: a glyph buffer loading glyphs of any fonts, sizes and hinting (or failing to), a face answering requests, a context drawing text with and without changes of its settings, a rasteriser that is cleared or re-bounded between drawings, a path that is cleared, the painters, and a parsed font being queried keep no more than a bounded multiple of what their largest operations need and their caches are configured for, and glyph images of several megabytes are not kept in great numbers. Fonts, faces, contexts, rasterisers and paths that the program drops are garbage, wholly: nothing else refers to them. No goroutine is left running.",
 ["histories"], "all repetitions of operations on long-lived objects, and all makings and droppings of objects",
 "A leak changes no result: tests that run each operation once cannot see it; a server that draws text for weeks does.",
 [GL, FA, FT, RA, GE], [("re-use of a buffer's slices", GL+":Load"), ("fixed caches", FA+":Glyph; "+FT+":glyph"), ("re-use of cells", RA+":Clear,SetBounds,findCell")],
 ["runtime.MemStats after collections", "runtime.NumGoroutine"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
