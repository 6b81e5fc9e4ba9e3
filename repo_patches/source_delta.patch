From c8699ab91107a1265b69ce2662e0ceb6cc68d2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:10 +0000
Subject: [PATCH 01/39] fix: keep glyph mask and source aligned when the clip
 cuts a glyph's left or top edge

---
 freetype.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/freetype.go b/freetype.go
index 9603586..349ec7b 100644
--- a/freetype.go
+++ b/freetype.go
@@ -249,8 +249,8 @@ func (c *Context) DrawString(s string, p fixed.Point26_6) (fixed.Point26_6, erro
 		glyphRect := mask.Bounds().Add(offset)
 		dr := c.clip.Intersect(glyphRect)
 		if !dr.Empty() {
-			mp := image.Point{0, dr.Min.Y - glyphRect.Min.Y}
-			draw.DrawMask(c.dst, dr, c.src, image.ZP, mask, mp, draw.Over)
+			mp := dr.Min.Sub(glyphRect.Min)
+			draw.DrawMask(c.dst, dr, c.src, mp, mask, mp, draw.Over)
 		}
 		prev, hasPrev = index, true
 	}
-- 
2.43.0


From b69c8655a3a3868ffd14b5882a7897f85492dafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:11 +0000
Subject: [PATCH 02/39] fix: honour Options.SubPixelsY

---
 truetype/face.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/truetype/face.go b/truetype/face.go
index 099006f..ae9a9cb 100644
--- a/truetype/face.go
+++ b/truetype/face.go
@@ -117,9 +117,9 @@ func (o *Options) subPixelsX() (value uint32, halfQuantum, mask fixed.Int26_6) {
 
 func (o *Options) subPixelsY() (value uint32, halfQuantum, mask fixed.Int26_6) {
 	if o != nil {
-		switch o.SubPixelsX {
+		switch o.SubPixelsY {
 		case 1, 2, 4, 8, 16, 32, 64:
-			return subPixels(o.SubPixelsX)
+			return subPixels(o.SubPixelsY)
 		}
 	}
 	// This default value of 1 isn't based on anything scientific, merely that
-- 
2.43.0


From 9adadcc0b5036cb3c87018b92ef2cea67e1d72c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:24 +0000
Subject: [PATCH 03/39] fix: rasterize coordinates just left of or above the
 canvas correctly

Dividing by 64 truncates towards zero, so that points up to one pixel left of
column 0 or above row 0 were accumulated in column or row 0. Round down instead.
---
 raster/raster.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/raster/raster.go b/raster/raster.go
index 7e6cd4e..f6244d2 100644
--- a/raster/raster.go
+++ b/raster/raster.go
@@ -120,9 +120,9 @@ func (r *Rasterizer) setCell(xi, yi int) {
 // and from y0f to y1f fractional vertical units within that scanline.
 func (r *Rasterizer) scan(yi int, x0, y0f, x1, y1f fixed.Int26_6) {
 	// Break the 26.6 fixed point X co-ordinates into integral and fractional parts.
-	x0i := int(x0) / 64
+	x0i := int(x0) >> 6
 	x0f := x0 - fixed.Int26_6(64*x0i)
-	x1i := int(x1) / 64
+	x1i := int(x1) >> 6
 	x1f := x1 - fixed.Int26_6(64*x1i)
 
 	// A perfectly horizontal scan.
@@ -192,7 +192,7 @@ func (r *Rasterizer) scan(yi int, x0, y0f, x1, y1f fixed.Int26_6) {
 
 // Start starts a new curve at the given point.
 func (r *Rasterizer) Start(a fixed.Point26_6) {
-	r.setCell(int(a.X/64), int(a.Y/64))
+	r.setCell(int(a.X>>6), int(a.Y>>6))
 	r.a = a
 }
 
@@ -203,9 +203,9 @@ func (r *Rasterizer) Add1(b fixed.Point26_6) {
 	dx, dy := x1-x0, y1-y0
 	// Break the 26.6 fixed point Y co-ordinates into integral and fractional
 	// parts.
-	y0i := int(y0) / 64
+	y0i := int(y0) >> 6
 	y0f := y0 - fixed.Int26_6(64*y0i)
-	y1i := int(y1) / 64
+	y1i := int(y1) >> 6
 	y1f := y1 - fixed.Int26_6(64*y1i)
 
 	if y0i == y1i {
@@ -224,7 +224,7 @@ func (r *Rasterizer) Add1(b fixed.Point26_6) {
 		} else {
 			edge0, edge1, yiDelta = 64, 0, -1
 		}
-		x0i, yi := int(x0)/64, y0i
+		x0i, yi := int(x0)>>6, y0i
 		x0fTimes2 := (int(x0) - (64 * x0i)) * 2
 		// Do the first pixel.
 		dcover := int(edge1 - y0f)
@@ -272,7 +272,7 @@ func (r *Rasterizer) Add1(b fixed.Point26_6) {
 		x, yi := x0, y0i
 		r.scan(yi, x, y0f, x+xDelta, edge1)
 		x, yi = x+xDelta, yi+yiDelta
-		r.setCell(int(x)/64, yi)
+		r.setCell(int(x)>>6, yi)
 		if yi != y1i {
 			// Do all the intermediate scanlines.
 			p = 64 * dx
@@ -291,7 +291,7 @@ func (r *Rasterizer) Add1(b fixed.Point26_6) {
 				}
 				r.scan(yi, x, edge0, x+xDelta, edge1)
 				x, yi = x+xDelta, yi+yiDelta
-				r.setCell(int(x)/64, yi)
+				r.setCell(int(x)>>6, yi)
 			}
 		}
 		// Do the last scanline.
-- 
2.43.0


From 48c2d5ecb0be651d45275f74d5e91a78c14dcf96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:46 +0000
Subject: [PATCH 04/39] fix: do not emit empty spans from MonochromePainter

The accumulator starts out empty. Emitting it put a span at (0, 0) ahead of spans
with a negative Y, or after the last span, and out of order.
---
 raster/paint.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/raster/paint.go b/raster/paint.go
index 652256c..e5e16c0 100644
--- a/raster/paint.go
+++ b/raster/paint.go
@@ -197,13 +197,18 @@ func (m *MonochromePainter) Paint(ss []Span, done bool) {
 			if m.y == s.Y && m.x1 == s.X0 {
 				m.x1 = s.X1
 			} else {
-				ss[j] = Span{m.y, m.x0, m.x1, 1<<16 - 1}
-				j++
+				if m.x0 < m.x1 {
+					ss[j] = Span{m.y, m.x0, m.x1, 1<<16 - 1}
+					j++
+				}
 				m.y, m.x0, m.x1 = s.Y, s.X0, s.X1
 			}
 		}
 	}
-	if done {
+	if done && m.x0 >= m.x1 {
+		// There is no accumulated Span to flush.
+		m.Painter.Paint(ss[:j], true)
+	} else if done {
 		// Flush the accumulated Span.
 		finalSpan := Span{m.y, m.x0, m.x1, 1<<16 - 1}
 		if j < len(ss) {
-- 
2.43.0


From cfb63269733db6ed55cf789ee205c4fd02a1e684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:13 +0000
Subject: [PATCH 05/39] fix: report malformed cmap, head, hhea, kern and name
 data instead of panicking

---
 truetype/truetype.go | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/truetype/truetype.go b/truetype/truetype.go
index 7270bbf..fe412f6 100644
--- a/truetype/truetype.go
+++ b/truetype/truetype.go
@@ -204,13 +204,16 @@ func (f *Font) parseCmap() error {
 		return err
 	}
 	offset = int(u32(f.cmap, offset+4))
-	if offset <= 0 || offset > len(f.cmap) {
+	if offset <= 0 || offset > len(f.cmap)-2 {
 		return FormatError("bad cmap offset")
 	}
 
 	cmapFormat := u16(f.cmap, offset)
 	switch cmapFormat {
 	case cmapFormat4:
+		if len(f.cmap)-offset < 16 {
+			return FormatError("cmap too short")
+		}
 		language := u16(f.cmap, offset+4)
 		if language != languageIndependent {
 			return UnsupportedError(fmt.Sprintf("language: %d", language))
@@ -220,6 +223,9 @@ func (f *Font) parseCmap() error {
 			return FormatError(fmt.Sprintf("bad segCountX2: %d", segCountX2))
 		}
 		segCount := segCountX2 / 2
+		if len(f.cmap)-offset < 16+8*segCount {
+			return FormatError("cmap too short")
+		}
 		offset += 14
 		f.cm = make([]cm, segCount)
 		for i := 0; i < segCount; i++ {
@@ -243,6 +249,9 @@ func (f *Font) parseCmap() error {
 		return nil
 
 	case cmapFormat12:
+		if len(f.cmap)-offset < 16 {
+			return FormatError("cmap too short")
+		}
 		if u16(f.cmap, offset+2) != 0 {
 			return FormatError(fmt.Sprintf("cmap format: % x", f.cmap[offset:offset+4]))
 		}
@@ -252,9 +261,12 @@ func (f *Font) parseCmap() error {
 			return UnsupportedError(fmt.Sprintf("language: %d", language))
 		}
 		nGroups := u32(f.cmap, offset+12)
-		if length != 12*nGroups+16 {
+		if uint64(length) != 12*uint64(nGroups)+16 {
 			return FormatError("inconsistent cmap length")
 		}
+		if uint64(len(f.cmap)-offset) < uint64(length) {
+			return FormatError("cmap too short")
+		}
 		offset += 16
 		f.cm = make([]cm, nGroups)
 		for i := uint32(0); i < nGroups; i++ {
@@ -273,6 +285,9 @@ func (f *Font) parseHead() error {
 		return FormatError(fmt.Sprintf("bad head length: %d", len(f.head)))
 	}
 	f.fUnitsPerEm = int32(u16(f.head, 18))
+	if f.fUnitsPerEm == 0 {
+		return FormatError("bad unitsPerEm: 0")
+	}
 	f.bounds.Min.X = fixed.Int26_6(int16(u16(f.head, 36)))
 	f.bounds.Min.Y = fixed.Int26_6(int16(u16(f.head, 38)))
 	f.bounds.Max.X = fixed.Int26_6(int16(u16(f.head, 40)))
@@ -295,6 +310,9 @@ func (f *Font) parseHhea() error {
 	f.ascent = int32(int16(u16(f.hhea, 4)))
 	f.descent = int32(int16(u16(f.hhea, 6)))
 	f.nHMetric = int(u16(f.hhea, 34))
+	if f.nHMetric == 0 && f.nGlyph != 0 {
+		return FormatError("bad numberOfHMetrics: 0")
+	}
 	if 4*f.nHMetric+2*(f.nGlyph-f.nHMetric) != len(f.hmtx) {
 		return FormatError(fmt.Sprintf("bad hmtx length: %d", len(f.hmtx)))
 	}
@@ -345,7 +363,7 @@ func (f *Font) parseKern() error {
 		return UnsupportedError(fmt.Sprintf("kern coverage: 0x%04x", coverage))
 	}
 	f.nKern, offset = int(u16(f.kern, offset)), offset+2
-	if 6*f.nKern != length-14 {
+	if 6*f.nKern != length-14 || len(f.kern)-offset < 6*f.nKern {
 		return FormatError("bad kern table length")
 	}
 	return nil
@@ -402,6 +420,9 @@ func (f *Font) Index(x rune) Index {
 			return Index(c + cm.delta)
 		} else {
 			offset := int(cm.offset) + 2*(h-len(f.cm)+int(c-cm.start))
+			if offset < 0 || offset > len(f.cmapIndexes)-2 {
+				return 0
+			}
 			return Index(u16(f.cmapIndexes, offset))
 		}
 	}
@@ -417,7 +438,10 @@ func (f *Font) Name(id NameID) string {
 	if err != nil {
 		return ""
 	}
-	offset, length := u16(f.name, 4)+u16(f.name, x+10), u16(f.name, x+8)
+	offset, length := int(u16(f.name, 4))+int(u16(f.name, x+10)), int(u16(f.name, x+8))
+	if offset+length > len(f.name) {
+		return ""
+	}
 	// Return the ASCII value of the encoded string.
 	// The string is encoded as UTF-16 on non-Apple platformIDs; Apple is platformID 1.
 	src := f.name[offset : offset+length]
-- 
2.43.0


From b07d2a5f78fff8a25cba19bcb28b8cd237d3c317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:13 +0000
Subject: [PATCH 06/39] fix: apply idDelta to non-zero glyph index array
 entries of format 4 cmaps

---
 truetype/truetype.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/truetype/truetype.go b/truetype/truetype.go
index fe412f6..b371ef8 100644
--- a/truetype/truetype.go
+++ b/truetype/truetype.go
@@ -423,7 +423,11 @@ func (f *Font) Index(x rune) Index {
 			if offset < 0 || offset > len(f.cmapIndexes)-2 {
 				return 0
 			}
-			return Index(u16(f.cmapIndexes, offset))
+			g := uint32(u16(f.cmapIndexes, offset))
+			if g == 0 {
+				return 0
+			}
+			return Index(g + cm.delta)
 		}
 	}
 	return 0
-- 
2.43.0


From 576aaf793cef30d224a8d5fb75ea0db19230b1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:59 +0000
Subject: [PATCH 07/39] fix: report malformed glyph data instead of panicking
 or exhausting memory

---
 truetype/glyph.go | 96 ++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 90 insertions(+), 6 deletions(-)

diff --git a/truetype/glyph.go b/truetype/glyph.go
index 6157ad8..fa86ddc 100644
--- a/truetype/glyph.go
+++ b/truetype/glyph.go
@@ -55,8 +55,18 @@ type GlyphBuf struct {
 	metricsSet bool
 	// tmp is a scratch buffer.
 	tmp []Point
+	// nComponents is the number of glyphs and sub-glyphs loaded so far.
+	nComponents int
 }
 
+// These limits are arbitrary, but defend against malformed glyphs. A small
+// glyf table can hold a compound glyph that, fully expanded, has an
+// exponentially large number of components or points.
+const (
+	maxComponents = 1 << 12
+	maxPoints     = 1 << 16
+)
+
 // Flags for decoding a glyph's contours. These flags are documented at
 // http://developer.apple.com/fonts/TTRefMan/RM06/Chap6glyf.html.
 const (
@@ -93,6 +103,7 @@ func (g *GlyphBuf) Load(f *Font, scale fixed.Int26_6, i Index, h font.Hinting) e
 	g.pp1x = 0
 	g.phantomPoints = [4]Point{}
 	g.metricsSet = false
+	g.nComponents = 0
 
 	if h != font.HintingNone {
 		if err := g.hinter.init(f, scale); err != nil {
@@ -175,12 +186,22 @@ func (g *GlyphBuf) load(recursion uint32, i Index, useMyMetrics bool) (err error
 	if recursion >= 32 {
 		return UnsupportedError("excessive compound glyph recursion")
 	}
+	g.nComponents++
+	if g.nComponents > maxComponents {
+		return UnsupportedError("too many compound glyph components")
+	}
 	// Find the relevant slice of g.font.glyf.
 	var g0, g1 uint32
 	if g.font.locaOffsetFormat == locaOffsetFormatShort {
+		if len(g.font.loca) < 2*int(i)+4 {
+			return FormatError("glyph index out of range")
+		}
 		g0 = 2 * uint32(u16(g.font.loca, 2*int(i)))
 		g1 = 2 * uint32(u16(g.font.loca, 2*int(i)+2))
 	} else {
+		if len(g.font.loca) < 4*int(i)+8 {
+			return FormatError("glyph index out of range")
+		}
 		g0 = u32(g.font.loca, 4*int(i))
 		g1 = u32(g.font.loca, 4*int(i)+4)
 	}
@@ -189,7 +210,10 @@ func (g *GlyphBuf) load(recursion uint32, i Index, useMyMetrics bool) (err error
 	// 10 bytes of the glyf data. boundsYMin and boundsXMax, at offsets 4
 	// and 6, are unused.
 	glyf, ne, boundsXMin, boundsYMax := []byte(nil), 0, fixed.Int26_6(0), fixed.Int26_6(0)
-	if g0+10 <= g1 {
+	if uint64(g0)+10 <= uint64(g1) {
+		if uint64(g1) > uint64(len(g.font.glyf)) {
+			return FormatError("glyph data out of range")
+		}
 		glyf = g.font.glyf[g0:g1]
 		ne = int(int16(u16(glyf, 0)))
 		boundsXMin = fixed.Int26_6(int16(u16(glyf, 2)))
@@ -226,7 +250,10 @@ func (g *GlyphBuf) load(recursion uint32, i Index, useMyMetrics bool) (err error
 		}
 	} else {
 		np0, ne0 := len(g.Points), len(g.Ends)
-		program := g.loadSimple(glyf, ne)
+		program, err := g.loadSimple(glyf, ne)
+		if err != nil {
+			return err
+		}
 		g.addPhantomsAndScale(np0, np0, true, true)
 		pp1x = g.Points[len(g.Points)-4].X
 		if g.hinting != font.HintingNone {
@@ -270,35 +297,58 @@ func (g *GlyphBuf) load(recursion uint32, i Index, useMyMetrics bool) (err error
 // 10 bytes are the number of contours and the bounding box.
 const loadOffset = 10
 
-func (g *GlyphBuf) loadSimple(glyf []byte, ne int) (program []byte) {
+func (g *GlyphBuf) loadSimple(glyf []byte, ne int) (program []byte, err error) {
+	errTooShort := FormatError("glyph data too short")
 	offset := loadOffset
+	if len(glyf)-offset < 2*ne+2 {
+		return nil, errTooShort
+	}
+	ne0 := len(g.Ends)
 	for i := 0; i < ne; i++ {
 		g.Ends = append(g.Ends, 1+int(u16(glyf, offset)))
 		offset += 2
+		if n := len(g.Ends); n-1 > ne0 && g.Ends[n-1] < g.Ends[n-2] {
+			return nil, FormatError("glyph contour ends are out of order")
+		}
 	}
 
 	// Note the TrueType hinting instructions.
 	instrLen := int(u16(glyf, offset))
 	offset += 2
+	if len(glyf)-offset < instrLen {
+		return nil, errTooShort
+	}
 	program = glyf[offset : offset+instrLen]
 	offset += instrLen
 
 	if ne == 0 {
-		return program
+		return program, nil
 	}
 
 	np0 := len(g.Points)
 	np1 := np0 + int(g.Ends[len(g.Ends)-1])
+	if np1 > maxPoints {
+		return nil, UnsupportedError("too many points")
+	}
 
 	// Decode the flags.
 	for i := np0; i < np1; {
+		if len(glyf)-offset < 1 {
+			return nil, errTooShort
+		}
 		c := uint32(glyf[offset])
 		offset++
 		g.Points = append(g.Points, Point{Flags: c})
 		i++
 		if c&flagRepeat != 0 {
-			count := glyf[offset]
+			if len(glyf)-offset < 1 {
+				return nil, errTooShort
+			}
+			count := int(glyf[offset])
 			offset++
+			if count > np1-i {
+				count = np1 - i
+			}
 			for ; count > 0; count-- {
 				g.Points = append(g.Points, Point{Flags: c})
 				i++
@@ -311,6 +361,9 @@ func (g *GlyphBuf) loadSimple(glyf []byte, ne int) (program []byte) {
 	for i := np0; i < np1; i++ {
 		f := g.Points[i].Flags
 		if f&flagXShortVector != 0 {
+			if len(glyf)-offset < 1 {
+				return nil, errTooShort
+			}
 			dx := int16(glyf[offset])
 			offset++
 			if f&flagPositiveXShortVector == 0 {
@@ -319,6 +372,9 @@ func (g *GlyphBuf) loadSimple(glyf []byte, ne int) (program []byte) {
 				x += dx
 			}
 		} else if f&flagThisXIsSame == 0 {
+			if len(glyf)-offset < 2 {
+				return nil, errTooShort
+			}
 			x += int16(u16(glyf, offset))
 			offset += 2
 		}
@@ -328,6 +384,9 @@ func (g *GlyphBuf) loadSimple(glyf []byte, ne int) (program []byte) {
 	for i := np0; i < np1; i++ {
 		f := g.Points[i].Flags
 		if f&flagYShortVector != 0 {
+			if len(glyf)-offset < 1 {
+				return nil, errTooShort
+			}
 			dy := int16(glyf[offset])
 			offset++
 			if f&flagPositiveYShortVector == 0 {
@@ -336,13 +395,16 @@ func (g *GlyphBuf) loadSimple(glyf []byte, ne int) (program []byte) {
 				y += dy
 			}
 		} else if f&flagThisYIsSame == 0 {
+			if len(glyf)-offset < 2 {
+				return nil, errTooShort
+			}
 			y += int16(u16(glyf, offset))
 			offset += 2
 		}
 		g.Points[i].Y = fixed.Int26_6(y)
 	}
 
-	return program
+	return program, nil
 }
 
 func (g *GlyphBuf) loadCompound(recursion uint32, uhm HMetric, i Index,
@@ -363,13 +425,20 @@ func (g *GlyphBuf) loadCompound(recursion uint32, uhm HMetric, i Index,
 		flagUseMyMetrics
 		flagOverlapCompound
 	)
+	errTooShort := FormatError("compound glyph data too short")
 	np0, ne0 := len(g.Points), len(g.Ends)
 	offset := loadOffset
 	for {
+		if len(glyf)-offset < 6 {
+			return errTooShort
+		}
 		flags := u16(glyf, offset)
 		component := Index(u16(glyf, offset+2))
 		dx, dy, transform, hasTransform := fixed.Int26_6(0), fixed.Int26_6(0), [4]int16{}, false
 		if flags&flagArg1And2AreWords != 0 {
+			if len(glyf)-offset < 8 {
+				return errTooShort
+			}
 			dx = fixed.Int26_6(int16(u16(glyf, offset+4)))
 			dy = fixed.Int26_6(int16(u16(glyf, offset+6)))
 			offset += 8
@@ -385,14 +454,23 @@ func (g *GlyphBuf) loadCompound(recursion uint32, uhm HMetric, i Index,
 			hasTransform = true
 			switch {
 			case flags&flagWeHaveAScale != 0:
+				if len(glyf)-offset < 2 {
+					return errTooShort
+				}
 				transform[0] = int16(u16(glyf, offset+0))
 				transform[3] = transform[0]
 				offset += 2
 			case flags&flagWeHaveAnXAndYScale != 0:
+				if len(glyf)-offset < 4 {
+					return errTooShort
+				}
 				transform[0] = int16(u16(glyf, offset+0))
 				transform[3] = int16(u16(glyf, offset+2))
 				offset += 4
 			case flags&flagWeHaveATwoByTwo != 0:
+				if len(glyf)-offset < 8 {
+					return errTooShort
+				}
 				transform[0] = int16(u16(glyf, offset+0))
 				transform[1] = int16(u16(glyf, offset+2))
 				transform[2] = int16(u16(glyf, offset+4))
@@ -406,6 +484,9 @@ func (g *GlyphBuf) loadCompound(recursion uint32, uhm HMetric, i Index,
 		if err := g.load(recursion+1, component, componentUMM); err != nil {
 			return err
 		}
+		if len(g.Points) > maxPoints {
+			return UnsupportedError("too many points")
+		}
 		if flags&flagUseMyMetrics == 0 {
 			g.phantomPoints = savedPP
 		}
@@ -442,6 +523,9 @@ func (g *GlyphBuf) loadCompound(recursion uint32, uhm HMetric, i Index,
 	if g.hinting != font.HintingNone && offset+2 <= len(glyf) {
 		instrLen = int(u16(glyf, offset))
 		offset += 2
+		if len(glyf)-offset < instrLen {
+			return errTooShort
+		}
 	}
 
 	g.addPhantomsAndScale(np0, len(g.Points), false, instrLen > 0)
-- 
2.43.0


From 376038bcd80c45af354468f8694c27224a026998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:59 +0000
Subject: [PATCH 08/39] fix: do not take the overlap flag of a glyph's point
 for its touched flag

---
 truetype/glyph.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/truetype/glyph.go b/truetype/glyph.go
index fa86ddc..d5d0c8b 100644
--- a/truetype/glyph.go
+++ b/truetype/glyph.go
@@ -336,7 +336,9 @@ func (g *GlyphBuf) loadSimple(glyf []byte, ne int) (program []byte, err error) {
 		if len(glyf)-offset < 1 {
 			return nil, errTooShort
 		}
-		c := uint32(glyf[offset])
+		// Ignore the flags (such as OVERLAP_SIMPLE) that share their bits with
+		// the internal flags.
+		c := uint32(glyf[offset]) &^ (flagTouchedX | flagTouchedY)
 		offset++
 		g.Points = append(g.Points, Point{Flags: c})
 		i++
-- 
2.43.0


From 3a878ad70fbb41bc0d99c6a9a35ad4de24beeae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:59 +0000
Subject: [PATCH 09/39] fix: handle empty components of compound glyphs

Drop the phantom points of an empty component from InFontUnits and Unhinted, as
for other components, so that the components after it are hinted with their own
points, and do not scale the metrics it supplies twice.
---
 truetype/glyph.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/truetype/glyph.go b/truetype/glyph.go
index d5d0c8b..eb592c1 100644
--- a/truetype/glyph.go
+++ b/truetype/glyph.go
@@ -233,7 +233,14 @@ func (g *GlyphBuf) load(recursion uint32, i Index, useMyMetrics bool) (err error
 		g.addPhantomsAndScale(len(g.Points), len(g.Points), true, true)
 		copy(g.phantomPoints[:], g.Points[len(g.Points)-4:])
 		g.Points = g.Points[:len(g.Points)-4]
-		// TODO: also trim g.InFontUnits and g.Unhinted?
+		if g.hinting != font.HintingNone {
+			g.InFontUnits = g.InFontUnits[:len(g.InFontUnits)-4]
+			g.Unhinted = g.Unhinted[:len(g.Unhinted)-4]
+		}
+		if useMyMetrics && !g.metricsSet {
+			g.metricsSet = true
+			g.pp1x = g.phantomPoints[0].X
+		}
 		return nil
 	}
 
-- 
2.43.0


From 19950b797cf967ce6606ec3ef0273a7af6aa5d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:52 +0000
Subject: [PATCH 10/39] fix: report invalid operands of hinting instructions
 instead of panicking

---
 truetype/hint.go | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/truetype/hint.go b/truetype/hint.go
index 13f785b..cd5c38c 100644
--- a/truetype/hint.go
+++ b/truetype/hint.go
@@ -331,10 +331,16 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 
 		case opSZP0, opSZP1, opSZP2:
 			top--
+			if x := h.stack[top]; x < 0 || numZone <= x {
+				return errors.New("truetype: hinting: invalid data")
+			}
 			h.gs.zp[opcode-opSZP0] = h.stack[top]
 
 		case opSZPS:
 			top--
+			if x := h.stack[top]; x < 0 || numZone <= x {
+				return errors.New("truetype: hinting: invalid data")
+			}
 			h.gs.zp[0] = h.stack[top]
 			h.gs.zp[1] = h.stack[top]
 			h.gs.zp[2] = h.stack[top]
@@ -642,6 +648,9 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 			}
 			p := h.point(1, pointType, h.gs.rp[2])
 			oldP := h.point(0, pointType, h.gs.rp[1])
+			if p == nil || oldP == nil {
+				return errors.New("truetype: hinting: point out of range")
+			}
 			oldRange := dotProduct(p.X-oldP.X, p.Y-oldP.Y, h.gs.dv)
 
 			p = h.point(1, current, h.gs.rp[2])
@@ -651,6 +660,9 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 				top--
 				i := h.stack[top]
 				p = h.point(2, pointType, i)
+				if p == nil {
+					return errors.New("truetype: hinting: point out of range")
+				}
 				oldDist := dotProduct(p.X-oldP.X, p.Y-oldP.Y, h.gs.dv)
 				p = h.point(2, current, i)
 				curDist := dotProduct(p.X-curP.X, p.Y-curP.Y, h.gs.pv)
@@ -720,11 +732,17 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 			if h.gs.zp[0] == 0 {
 				p := h.point(0, unhinted, i)
 				q := h.point(0, current, i)
+				if p == nil || q == nil {
+					return errors.New("truetype: hinting: point out of range")
+				}
 				p.X = fixed.Int26_6((int64(distance) * int64(h.gs.fv[0])) >> 14)
 				p.Y = fixed.Int26_6((int64(distance) * int64(h.gs.fv[1])) >> 14)
 				*q = *p
 			}
 			p := h.point(0, current, i)
+			if p == nil {
+				return errors.New("truetype: hinting: point out of range")
+			}
 			oldDist := dotProduct(p.X, p.Y, h.gs.pv)
 			if opcode == opMIAP1 {
 				if fabs(distance-oldDist) > h.gs.controlValueCutIn {
@@ -771,9 +789,15 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 			i := h.stack[top-1]
 			if opcode == opGC0 {
 				p := h.point(2, current, i)
+				if p == nil {
+					return errors.New("truetype: hinting: point out of range")
+				}
 				h.stack[top-1] = int32(dotProduct(p.X, p.Y, h.gs.pv))
 			} else {
 				p := h.point(2, unhinted, i)
+				if p == nil {
+					return errors.New("truetype: hinting: point out of range")
+				}
 				// Using dv as per C Freetype.
 				h.stack[top-1] = int32(dotProduct(p.X, p.Y, h.gs.dv))
 			}
@@ -894,6 +918,9 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 
 		case opSDS:
 			top--
+			if x := h.stack[top]; x < 0 || 6 < x {
+				return errors.New("truetype: hinting: invalid data")
+			}
 			h.gs.deltaShift = h.stack[top]
 
 		case opADD:
@@ -1353,7 +1380,7 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 			}
 			top--
 			n := h.stack[top]
-			if int32(top) < 2*n {
+			if n < 0 || int32(top)/2 < n {
 				return errors.New("truetype: hinting: stack underflow")
 			}
 			for ; n > 0; n-- {
@@ -1464,6 +1491,11 @@ func (h *hinter) move(p *Point, distance fixed.Int26_6, touch bool) {
 	}
 
 	fvDotPv := (fvx*pvx + fvy*pvy) >> 14
+	if -0x400 < fvDotPv && fvDotPv < 0x400 {
+		// The vectors are (almost) perpendicular. As per C Freetype, avoid
+		// overflows and spikes.
+		fvDotPv = 0x4000
+	}
 
 	if fvx != 0 {
 		p.X += fixed.Int26_6(mulDiv(fvx, int64(distance), fvDotPv))
@@ -1642,6 +1674,9 @@ type f2dot14 int16
 
 func normalize(x, y f2dot14) [2]f2dot14 {
 	fx, fy := float64(x), float64(y)
+	if fx == 0 && fy == 0 {
+		return [2]f2dot14{0x4000, 0}
+	}
 	l := 0x4000 / math.Hypot(fx, fy)
 	fx *= l
 	if fx >= 0 {
-- 
2.43.0


From 175588ca635da45baa3b503160981964b01e8074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:10 +0000
Subject: [PATCH 11/39] fix: start every hinted glyph from the state that fpgm
 and prep set up

What a glyph's program wrote to the storage area, the Control Value Table, the
twilight zone or the function definitions leaked into the glyphs loaded after
it. The twilight points set by prep were lost for all glyphs but the first. A
failing fpgm or prep was reported only once. The storage area, CVT, stack size
and graphics state of the previous font or scale were visible to the next one.
---
 truetype/hint.go | 159 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 110 insertions(+), 49 deletions(-)

diff --git a/truetype/hint.go b/truetype/hint.go
index cd5c38c..b085ce8 100644
--- a/truetype/hint.go
+++ b/truetype/hint.go
@@ -42,8 +42,14 @@ type callStackEntry struct {
 type hinter struct {
 	stack, store []int32
 
-	// functions is a map from function number to bytecode.
-	functions map[int32][]byte
+	// functions is a map from function number to bytecode. functionsShared is
+	// whether it is the same map as saved.functions, so that it must be copied
+	// before it is modified.
+	functions       map[int32][]byte
+	functionsShared bool
+
+	// saved is the state that every glyph's program starts with.
+	saved hinterState
 
 	// font and scale are the font and scale last used for this hinter.
 	// Changing the font will require running the new font's fpgm bytecode.
@@ -115,61 +121,116 @@ func resetTwilightPoints(f *Font, p []Point) []Point {
 	return p
 }
 
+// hinterState is the part of a hinter's state that is set up by a font's fpgm
+// and prep programs, and that a glyph's program can modify.
+type hinterState struct {
+	functions            map[int32][]byte
+	store                []int32
+	twilight             [numPointType][]Point
+	scaledCVTInitialized bool
+	scaledCVT            []fixed.Int26_6
+}
+
+// init prepares h to run glyph programs for the given font and scale. What an
+// earlier glyph's program did to the storage area, the Control Value Table,
+// the twilight zone or the function definitions does not carry over.
 func (h *hinter) init(f *Font, scale fixed.Int26_6) error {
-	h.points[twilightZone][0] = resetTwilightPoints(f, h.points[twilightZone][0])
-	h.points[twilightZone][1] = resetTwilightPoints(f, h.points[twilightZone][1])
-	h.points[twilightZone][2] = resetTwilightPoints(f, h.points[twilightZone][2])
-
-	rescale := h.scale != scale
-	if h.font != f {
-		h.font, rescale = f, true
-		if h.functions == nil {
-			h.functions = make(map[int32][]byte)
-		} else {
-			for k := range h.functions {
-				delete(h.functions, k)
-			}
+	if h.font != f || h.scale != scale {
+		if err := h.runFontPrograms(f, scale); err != nil {
+			// Have the next init call try, and fail, again.
+			h.font = nil
+			return err
 		}
+		h.saveState()
+	} else {
+		h.restoreState()
+	}
+	return nil
+}
 
-		if x := int(f.maxStackElements); x > len(h.stack) {
-			x += 255
-			x &^= 255
-			h.stack = make([]int32, x)
-		}
-		if x := int(f.maxStorage); x > len(h.store) {
-			x += 15
-			x &^= 15
-			h.store = make([]int32, x)
+// runFontPrograms runs the font's fpgm and prep programs from a clean slate.
+func (h *hinter) runFontPrograms(f *Font, scale fixed.Int26_6) error {
+	h.font, h.scale = f, scale
+	h.functions, h.functionsShared = make(map[int32][]byte), false
+	h.scaledCVTInitialized = false
+	h.defaultGS = globalDefaultGS
+	for i := range h.points[twilightZone] {
+		h.points[twilightZone][i] = resetTwilightPoints(f, h.points[twilightZone][i])
+	}
+
+	h.stack = resizeInt32s(h.stack, (int(f.maxStackElements)+255)&^255)
+	h.store = resizeInt32s(h.store, (int(f.maxStorage)+15)&^15)
+	for i := range h.store {
+		h.store[i] = 0
+	}
+
+	if len(f.fpgm) != 0 {
+		if err := h.run(f.fpgm, nil, nil, nil, nil); err != nil {
+			return err
 		}
-		if len(f.fpgm) != 0 {
-			if err := h.run(f.fpgm, nil, nil, nil, nil); err != nil {
-				return err
-			}
+	}
+	if len(f.prep) != 0 {
+		if err := h.run(f.prep, nil, nil, nil, nil); err != nil {
+			return err
 		}
+		h.defaultGS = h.gs
+		// The MS rasterizer doesn't allow the following graphics state
+		// variables to be modified by the CVT program.
+		h.defaultGS.pv = globalDefaultGS.pv
+		h.defaultGS.fv = globalDefaultGS.fv
+		h.defaultGS.dv = globalDefaultGS.dv
+		h.defaultGS.rp = globalDefaultGS.rp
+		h.defaultGS.zp = globalDefaultGS.zp
+		h.defaultGS.loop = globalDefaultGS.loop
+	}
+	return nil
+}
+
+// saveState saves the state as it is after running the fpgm and prep programs.
+func (h *hinter) saveState() {
+	s := &h.saved
+	s.functions = h.functions
+	s.store = append(s.store[:0], h.store...)
+	for i, p := range h.points[twilightZone] {
+		s.twilight[i] = append(s.twilight[i][:0], p...)
 	}
+	s.scaledCVTInitialized = h.scaledCVTInitialized
+	s.scaledCVT = append(s.scaledCVT[:0], h.scaledCVT...)
+	h.functionsShared = true
+}
 
-	if rescale {
-		h.scale = scale
-		h.scaledCVTInitialized = false
-
-		h.defaultGS = globalDefaultGS
-
-		if len(f.prep) != 0 {
-			if err := h.run(f.prep, nil, nil, nil, nil); err != nil {
-				return err
-			}
-			h.defaultGS = h.gs
-			// The MS rasterizer doesn't allow the following graphics state
-			// variables to be modified by the CVT program.
-			h.defaultGS.pv = globalDefaultGS.pv
-			h.defaultGS.fv = globalDefaultGS.fv
-			h.defaultGS.dv = globalDefaultGS.dv
-			h.defaultGS.rp = globalDefaultGS.rp
-			h.defaultGS.zp = globalDefaultGS.zp
-			h.defaultGS.loop = globalDefaultGS.loop
+// restoreState restores the state saved by saveState.
+func (h *hinter) restoreState() {
+	s := &h.saved
+	h.functions, h.functionsShared = s.functions, true
+	copy(h.store, s.store)
+	for i, p := range h.points[twilightZone] {
+		copy(p, s.twilight[i])
+	}
+	h.scaledCVTInitialized = s.scaledCVTInitialized
+	if h.scaledCVTInitialized {
+		copy(h.scaledCVT, s.scaledCVT)
+	}
+}
+
+// defineFunction sets the bytecode for the given function number.
+func (h *hinter) defineFunction(n int32, bytecode []byte) {
+	if h.functionsShared {
+		m := make(map[int32][]byte, len(h.functions)+1)
+		for k, v := range h.functions {
+			m[k] = v
 		}
+		h.functions, h.functionsShared = m, false
 	}
-	return nil
+	h.functions[n] = bytecode
+}
+
+// resizeInt32s returns a slice of length n, re-using p's memory if possible.
+func resizeInt32s(p []int32, n int) []int32 {
+	if n <= cap(p) {
+		return p[:n]
+	}
+	return make([]int32, n)
 }
 
 func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point, ends []int) error {
@@ -484,7 +545,7 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 					return errors.New("truetype: hinting: nested FDEF")
 				case opENDF:
 					top--
-					h.functions[h.stack[top]] = program[startPC : pc+1]
+					h.defineFunction(h.stack[top], program[startPC:pc+1])
 					break fdefloop
 				default:
 					var ok bool
-- 
2.43.0


From 7b9681f6dc6a39ba6187ed51e048bffd431e58c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:24 +0000
Subject: [PATCH 12/39] fix: flatten cubic segments by how much they curve,
 wherever they are

---
 raster/raster.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/raster/raster.go b/raster/raster.go
index f6244d2..50aa038 100644
--- a/raster/raster.go
+++ b/raster/raster.go
@@ -364,17 +364,20 @@ func (r *Rasterizer) Add2(b, c fixed.Point26_6) {
 // Add3 adds a cubic segment to the current curve.
 func (r *Rasterizer) Add3(b, c, d fixed.Point26_6) {
 	// Calculate nSplit (the number of recursive decompositions) based on how
-	// 'curvy' it is.
-	dev2 := maxAbs(r.a.X-3*(b.X+c.X)+d.X, r.a.Y-3*(b.Y+c.Y)+d.Y) / fixed.Int26_6(r.splitScale2)
-	dev3 := maxAbs(r.a.X-2*b.X+d.X, r.a.Y-2*b.Y+d.Y) / fixed.Int26_6(r.splitScale3)
+	// 'curvy' it is. Specifically, how much the middle points b and c deviate
+	// from (a+c)/2 and (b+d)/2.
+	dev := maxAbs(r.a.X-2*b.X+c.X, r.a.Y-2*b.Y+c.Y)
+	if d := maxAbs(b.X-2*c.X+d.X, b.Y-2*c.Y+d.Y); dev < d {
+		dev = d
+	}
+	dev /= fixed.Int26_6(r.splitScale3)
 	nsplit := 0
-	for dev2 > 0 || dev3 > 0 {
-		dev2 /= 8
-		dev3 /= 4
+	for dev > 0 {
+		dev /= 4
 		nsplit++
 	}
-	// devN is 32-bit, and nsplit++ every time we shift off 2 bits, so
-	// maxNsplit is 16.
+	// dev is 32-bit, and nsplit++ every time we shift off 2 bits, so maxNsplit
+	// is 16.
 	const maxNsplit = 16
 	if nsplit > maxNsplit {
 		panic("freetype/raster: Add3 nsplit too large: " + strconv.Itoa(nsplit))
-- 
2.43.0


From 8b662e791d87e13f73e82252d3e6f782a7de0314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:49 +0000
Subject: [PATCH 13/39] fix: normalize short vectors to the requested length

pNorm divided by the length rounded down to a whole number of units, so
that short segments were stroked up to 1.4 times too wide.
---
 raster/geom.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/raster/geom.go b/raster/geom.go
index f3696ea..37d5dc0 100644
--- a/raster/geom.go
+++ b/raster/geom.go
@@ -49,14 +49,15 @@ func pLen(p fixed.Point26_6) fixed.Int26_6 {
 // pNorm returns the vector p normalized to the given length, or zero if p is
 // degenerate.
 func pNorm(p fixed.Point26_6, length fixed.Int26_6) fixed.Point26_6 {
-	d := pLen(p)
+	px, py := float64(p.X), float64(p.Y)
+	d := math.Sqrt(px*px + py*py)
 	if d == 0 {
 		return fixed.Point26_6{}
 	}
-	s, t := int64(length), int64(d)
-	x := int64(p.X) * s / t
-	y := int64(p.Y) * s / t
-	return fixed.Point26_6{fixed.Int26_6(x), fixed.Int26_6(y)}
+	// The vector's length is not rounded to a whole number of units before it
+	// divides, since that would be far off for short vectors.
+	s := float64(length) / d
+	return fixed.Point26_6{fixed.Int26_6(px * s), fixed.Int26_6(py * s)}
 }
 
 // pRot45CW returns the vector p rotated clockwise by 45 degrees.
-- 
2.43.0


From 4ede0daf42d314b2b555b4629b6e404403f84be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:49 +0000
Subject: [PATCH 14/39] fix: stroke segments of zero length and quadratics with
 coincident points

Their joins and caps were made with a zero or arbitrary normal, so that the
stroke lost the join or cap there, or tapered off.
---
 raster/stroke.go | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/raster/stroke.go b/raster/stroke.go
index bcc66b2..03f0bd6 100644
--- a/raster/stroke.go
+++ b/raster/stroke.go
@@ -315,6 +315,10 @@ func (k *stroker) addNonCurvy2(b, c fixed.Point26_6) {
 
 // Add1 adds a linear segment to the stroker.
 func (k *stroker) Add1(b fixed.Point26_6) {
+	if b == k.a {
+		// A segment of zero length has no direction, and adds nothing.
+		return
+	}
 	bnorm := pRot90CCW(pNorm(b.Sub(k.a), k.u))
 	if len(k.r) == 0 {
 		k.p.Start(k.a.Add(bnorm))
@@ -331,25 +335,23 @@ func (k *stroker) Add1(b fixed.Point26_6) {
 func (k *stroker) Add2(b, c fixed.Point26_6) {
 	ab := b.Sub(k.a)
 	bc := c.Sub(b)
-	abnorm := pRot90CCW(pNorm(ab, k.u))
-	if len(k.r) == 0 {
-		k.p.Start(k.a.Add(abnorm))
-		k.r.Start(k.a.Sub(abnorm))
-	} else {
-		k.jr.Join(k.p, &k.r, k.u, k.a, k.anorm, abnorm)
-	}
 
 	// Approximate nearly-degenerate quadratics by linear segments.
 	abIsSmall := pDot(ab, ab) < epsilon
 	bcIsSmall := pDot(bc, bc) < epsilon
 	if abIsSmall || bcIsSmall {
-		acnorm := pRot90CCW(pNorm(c.Sub(k.a), k.u))
-		k.p.Add1(c.Add(acnorm))
-		k.r.Add1(c.Sub(acnorm))
-		k.a, k.anorm = c, acnorm
+		k.Add1(c)
 		return
 	}
 
+	abnorm := pRot90CCW(pNorm(ab, k.u))
+	if len(k.r) == 0 {
+		k.p.Start(k.a.Add(abnorm))
+		k.r.Start(k.a.Sub(abnorm))
+	} else {
+		k.jr.Join(k.p, &k.r, k.u, k.a, k.anorm, abnorm)
+	}
+
 	// The quadratic segment (k.a, b, c) has a point of maximum curvature.
 	// If this occurs at an end point, we process the segment as a whole.
 	t := curviest2(k.a, b, c)
-- 
2.43.0


From 1ee2ee2270d33ce2e585173aa09ecd7a3e8340d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:49 +0000
Subject: [PATCH 15/39] fix: recognise hairpin quadratics of any direction when
 stroking

The test compared the dot product of two normals, each rounded down to whole
units, with the square of the exact half-width, so that except along the
axes it failed even for a curve that goes exactly there and back.
---
 raster/stroke.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/raster/stroke.go b/raster/stroke.go
index 03f0bd6..ee6be7e 100644
--- a/raster/stroke.go
+++ b/raster/stroke.go
@@ -6,6 +6,8 @@
 package raster
 
 import (
+	"math"
+
 	"golang.org/x/image/math/fixed"
 )
 
@@ -370,7 +372,8 @@ func (k *stroker) Add2(b, c fixed.Point26_6) {
 	// then the decomposition can become unstable, so we approximate the
 	// quadratic segment by two linear segments joined by an arc.
 	bcnorm := pRot90CCW(pNorm(bc, k.u))
-	if pDot(abnorm, bcnorm) < -fixed.Int52_12(k.u)*fixed.Int52_12(k.u)*2047/2048 {
+	abLen2, bcLen2 := float64(pDot(ab, ab)), float64(pDot(bc, bc))
+	if float64(pDot(ab, bc)) < -math.Sqrt(abLen2*bcLen2)*2047/2048 {
 		pArc := pDot(abnorm, bc) < 0
 
 		k.p.Add1(mabc.Add(abnorm))
-- 
2.43.0


From ae08e1300e02faa18274768eee591d961a79c363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:49 +0000
Subject: [PATCH 16/39] fix: stroke quadratics that curve the most close to one
 of their ends

The part cut off there could be a unit long, whose direction is arbitrary, or
zero; and the normal that a curve begins with was that of the segment before.
---
 raster/stroke.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/raster/stroke.go b/raster/stroke.go
index ee6be7e..dac7492 100644
--- a/raster/stroke.go
+++ b/raster/stroke.go
@@ -353,6 +353,7 @@ func (k *stroker) Add2(b, c fixed.Point26_6) {
 	} else {
 		k.jr.Join(k.p, &k.r, k.u, k.a, k.anorm, abnorm)
 	}
+	k.anorm = abnorm
 
 	// The quadratic segment (k.a, b, c) has a point of maximum curvature.
 	// If this occurs at an end point, we process the segment as a whole.
@@ -368,6 +369,14 @@ func (k *stroker) Add2(b, c fixed.Point26_6) {
 	mbc := interpolate(b, c, t)
 	mabc := interpolate(mab, mbc, t)
 
+	// If one of the parts would be too short for its control points to say
+	// which way it goes, we process the segment as a whole.
+	amabc, mabcc := mabc.Sub(k.a), c.Sub(mabc)
+	if pDot(amabc, amabc) < epsilon || pDot(mabcc, mabcc) < epsilon {
+		k.addNonCurvy2(b, c)
+		return
+	}
+
 	// If the vectors ab and bc are close to being in opposite directions,
 	// then the decomposition can become unstable, so we approximate the
 	// quadratic segment by two linear segments joined by an arc.
-- 
2.43.0


From 6e9c2c78ca630a02adda6469621794ba5321891f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:54 +0000
Subject: [PATCH 17/39] fix: have MSIRP[1] set rp1 to the old rp0

---
 truetype/hint.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/truetype/hint.go b/truetype/hint.go
index b085ce8..197e088 100644
--- a/truetype/hint.go
+++ b/truetype/hint.go
@@ -753,11 +753,11 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 			curDist := dotProduct(p.X-ref.X, p.Y-ref.Y, h.gs.pv)
 
 			// Set-RP0 bit.
+			h.gs.rp[1] = h.gs.rp[0]
+			h.gs.rp[2] = i
 			if opcode == opMSIRP1 {
 				h.gs.rp[0] = i
 			}
-			h.gs.rp[1] = h.gs.rp[0]
-			h.gs.rp[2] = i
 
 			// Move the point.
 			h.move(p, distance-curDist, true)
-- 
2.43.0


From 4f84a3cdc7312c232dd84985be3a96ad5c3944bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:54 +0000
Subject: [PATCH 18/39] fix: have SPVTL and SFVTL use zone pointers 1 and 2

---
 truetype/hint.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/truetype/hint.go b/truetype/hint.go
index 197e088..6a6e441 100644
--- a/truetype/hint.go
+++ b/truetype/hint.go
@@ -288,8 +288,8 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 
 		case opSPVTL0, opSPVTL1, opSFVTL0, opSFVTL1:
 			top -= 2
-			p1 := h.point(0, current, h.stack[top+0])
-			p2 := h.point(0, current, h.stack[top+1])
+			p1 := h.point(1, current, h.stack[top+0])
+			p2 := h.point(2, current, h.stack[top+1])
 			if p1 == nil || p2 == nil {
 				return errors.New("truetype: hinting: point out of range")
 			}
-- 
2.43.0


From 4f215facea0f9f35f4e5a58707ac7dbe09805d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:54 +0000
Subject: [PATCH 19/39] fix: have UTP untouch points along the freedom vector
 only

---
 truetype/hint.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/truetype/hint.go b/truetype/hint.go
index 6a6e441..18e693b 100644
--- a/truetype/hint.go
+++ b/truetype/hint.go
@@ -508,7 +508,13 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 			if p == nil {
 				return errors.New("truetype: hinting: point out of range")
 			}
-			p.Flags &^= flagTouchedX | flagTouchedY
+			// Only the directions that the freedom vector points in are untouched.
+			if h.gs.fv[0] != 0 {
+				p.Flags &^= flagTouchedX
+			}
+			if h.gs.fv[1] != 0 {
+				p.Flags &^= flagTouchedY
+			}
 
 		case opLOOPCALL, opCALL:
 			if callStackTop >= len(callStack) {
-- 
2.43.0


From 7b7e650495147ffe08fb0f6a7a96b399ed69d744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:54 +0000
Subject: [PATCH 20/39] fix: have SHPIX shift points by a distance along the
 freedom vector

The distance was taken as one along the projection vector, so that points
moved too far whenever the two vectors differ.
---
 truetype/hint.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/truetype/hint.go b/truetype/hint.go
index 18e693b..b39f193 100644
--- a/truetype/hint.go
+++ b/truetype/hint.go
@@ -690,7 +690,10 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 
 		case opSHPIX:
 			top--
+			// The distance is along the freedom vector, not the projection vector.
 			d := fixed.Int26_6(h.stack[top])
+			dx := dotProduct(d, 0, h.gs.fv)
+			dy := dotProduct(0, d, h.gs.fv)
 			if top < int(h.gs.loop) {
 				return errors.New("truetype: hinting: stack underflow")
 			}
@@ -700,7 +703,14 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 				if p == nil {
 					return errors.New("truetype: hinting: point out of range")
 				}
-				h.move(p, d, true)
+				if h.gs.fv[0] != 0 {
+					p.X += dx
+					p.Flags |= flagTouchedX
+				}
+				if h.gs.fv[1] != 0 {
+					p.Y += dy
+					p.Flags |= flagTouchedY
+				}
 			}
 			h.gs.loop = 1
 
-- 
2.43.0


From 7902822cdcd7177c388c6e0e7baa416750ee5d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:54 +0000
Subject: [PATCH 21/39] fix: have MIAP round the coordinates of twilight points

---
 truetype/hint.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/truetype/hint.go b/truetype/hint.go
index b39f193..b61331f 100644
--- a/truetype/hint.go
+++ b/truetype/hint.go
@@ -812,8 +812,8 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 				if p == nil || q == nil {
 					return errors.New("truetype: hinting: point out of range")
 				}
-				p.X = fixed.Int26_6((int64(distance) * int64(h.gs.fv[0])) >> 14)
-				p.Y = fixed.Int26_6((int64(distance) * int64(h.gs.fv[1])) >> 14)
+				p.X = dotProduct(distance, 0, h.gs.fv)
+				p.Y = dotProduct(0, distance, h.gs.fv)
 				*q = *p
 			}
 			p := h.point(0, current, i)
-- 
2.43.0


From 46a9943ed56a044a616789d0cb34070b1d807872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:54 +0000
Subject: [PATCH 22/39] fix: set vectors to lines between points more than 512
 pixels apart

The difference of their coordinates was truncated to 16 bits.
---
 truetype/hint.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/truetype/hint.go b/truetype/hint.go
index b61331f..eb41c0b 100644
--- a/truetype/hint.go
+++ b/truetype/hint.go
@@ -293,15 +293,14 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 			if p1 == nil || p2 == nil {
 				return errors.New("truetype: hinting: point out of range")
 			}
-			dx := f2dot14(p1.X - p2.X)
-			dy := f2dot14(p1.Y - p2.Y)
+			dx, dy := p1.X-p2.X, p1.Y-p2.Y
 			if dx == 0 && dy == 0 {
 				dx = 0x4000
 			} else if opcode&1 != 0 {
 				// Counter-clockwise rotation.
 				dx, dy = -dy, dx
 			}
-			v := normalize(dx, dy)
+			v := normalize26_6(dx, dy)
 			if opcode < opSFVTL0 {
 				h.gs.pv = v
 				h.gs.dv = v
@@ -1158,8 +1157,7 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 				if p == nil || q == nil {
 					return errors.New("truetype: hinting: point out of range")
 				}
-				dx := f2dot14(p.X - q.X)
-				dy := f2dot14(p.Y - q.Y)
+				dx, dy := p.X-q.X, p.Y-q.Y
 				if dx == 0 && dy == 0 {
 					dx = 0x4000
 				} else if opcode&1 != 0 {
@@ -1167,9 +1165,9 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 					dx, dy = -dy, dx
 				}
 				if i == 0 {
-					h.gs.dv = normalize(dx, dy)
+					h.gs.dv = normalize26_6(dx, dy)
 				} else {
-					h.gs.pv = normalize(dx, dy)
+					h.gs.pv = normalize26_6(dx, dy)
 				}
 			}
 
@@ -1750,7 +1748,14 @@ func skipInstructionPayload(program []byte, pc int) (newPC int, ok bool) {
 type f2dot14 int16
 
 func normalize(x, y f2dot14) [2]f2dot14 {
-	fx, fy := float64(x), float64(y)
+	return normalizeFloats(float64(x), float64(y))
+}
+
+func normalize26_6(x, y fixed.Int26_6) [2]f2dot14 {
+	return normalizeFloats(float64(x), float64(y))
+}
+
+func normalizeFloats(fx, fy float64) [2]f2dot14 {
 	if fx == 0 && fy == 0 {
 		return [2]f2dot14{0x4000, 0}
 	}
-- 
2.43.0


From 57d80eb3a48e69d0979f9c083edbee28633f2c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:54 +0000
Subject: [PATCH 23/39] fix: have MPPEM round the pixels per em like the DELTA
 instructions do

At fractional sizes, programs that combine the two were led astray.
---
 truetype/hint.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/truetype/hint.go b/truetype/hint.go
index eb41c0b..aeaba22 100644
--- a/truetype/hint.go
+++ b/truetype/hint.go
@@ -927,7 +927,7 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 				return errors.New("truetype: hinting: stack overflow")
 			}
 			// For MPS, point size should be irrelevant; we return the PPEM.
-			h.stack[top] = int32(h.scale) >> 6
+			h.stack[top] = h.ppem()
 			top++
 
 		case opFLIPON, opFLIPOFF:
@@ -1469,7 +1469,7 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 					c += 32
 				}
 				c += h.gs.deltaBase
-				if ppem := (int32(h.scale) + 1<<5) >> 6; ppem != c {
+				if h.ppem() != c {
 					continue
 				}
 				b = (b & 0x0f) - 8
@@ -1498,6 +1498,11 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 	return nil
 }
 
+// ppem returns the number of pixels per em, rounded to the nearest integer.
+func (h *hinter) ppem() int32 {
+	return (int32(h.scale) + 1<<5) >> 6
+}
+
 func (h *hinter) initializeScaledCVT() {
 	h.scaledCVTInitialized = true
 	if n := len(h.font.cvt) / 2; n <= cap(h.scaledCVT) {
-- 
2.43.0


From f958a0457104877d09336a4d2e9e9b620beaa97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:54 +0000
Subject: [PATCH 24/39] fix: scale the original distances that MD and MDRP
 measure once and exactly

The programs of compound glyphs refer to the already scaled points of their
components, which were scaled again. MD also overflowed and did not round.
---
 truetype/glyph.go |  5 ++++-
 truetype/hint.go  | 16 ++++++++++++++--
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/truetype/glyph.go b/truetype/glyph.go
index eb592c1..c514b1d 100644
--- a/truetype/glyph.go
+++ b/truetype/glyph.go
@@ -562,7 +562,10 @@ func (g *GlyphBuf) loadCompound(recursion uint32, uhm HMetric, i Index,
 	// Hinting instructions of a composite glyph completely refer to the
 	// (already) hinted subglyphs.
 	g.tmp = append(g.tmp[:0], points...)
-	if err := g.hinter.run(program, points, g.tmp, g.tmp, ends); err != nil {
+	g.hinter.compound = true
+	err := g.hinter.run(program, points, g.tmp, g.tmp, ends)
+	g.hinter.compound = false
+	if err != nil {
 		return err
 	}
 	if np0 != 0 {
diff --git a/truetype/hint.go b/truetype/hint.go
index aeaba22..5e3f692 100644
--- a/truetype/hint.go
+++ b/truetype/hint.go
@@ -67,6 +67,10 @@ type hinter struct {
 	points [numZone][numPointType][]Point
 	ends   []int
 
+	// compound is whether the program being run is that of a compound glyph,
+	// whose inFontUnits points are already scaled.
+	compound bool
+
 	// scaledCVT is the lazily initialized scaled Control Value Table.
 	scaledCVTInitialized bool
 	scaledCVT            []fixed.Int26_6
@@ -918,7 +922,7 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 			}
 			d := int32(dotProduct(p.X-q.X, p.Y-q.Y, v))
 			if scale {
-				d = int32(int64(d*int32(h.scale)) / int64(h.font.fUnitsPerEm))
+				d = int32(h.scaleInFontUnits(fixed.Int26_6(d)))
 			}
 			h.stack[top-1] = d
 
@@ -1255,7 +1259,7 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 					p0 := h.point(1, inFontUnits, i)
 					p1 := h.point(0, inFontUnits, h.gs.rp[0])
 					oldDist = dotProduct(p0.X-p1.X, p0.Y-p1.Y, h.gs.dv)
-					oldDist = h.font.scale(h.scale * oldDist)
+					oldDist = h.scaleInFontUnits(oldDist)
 				}
 
 				// Single-width cut-in test.
@@ -1498,6 +1502,14 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 	return nil
 }
 
+// scaleInFontUnits scales a distance between inFontUnits points to pixels.
+func (h *hinter) scaleInFontUnits(d fixed.Int26_6) fixed.Int26_6 {
+	if h.compound {
+		return d
+	}
+	return h.font.scale(h.scale * d)
+}
+
 // ppem returns the number of pixels per em, rounded to the nearest integer.
 func (h *hinter) ppem() int32 {
 	return (int32(h.scale) + 1<<5) >> 6
-- 
2.43.0


From 7c1b276402f6533e0a2365b462dadd5fa2996341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:33 +0000
Subject: [PATCH 25/39] fix: give glyphs larger than the font's bounds a mask
 of their own

The shared mask has no room for them: a Face returned them without their last
rows and columns, and showed the next glyph of the cache there instead.
---
 truetype/face.go | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/truetype/face.go b/truetype/face.go
index ae9a9cb..f29b589 100644
--- a/truetype/face.go
+++ b/truetype/face.go
@@ -168,6 +168,8 @@ type glyphCacheVal struct {
 	offset       image.Point
 	gw           int
 	gh           int
+	// mask is the glyph's own mask, if it is too large for the shared one.
+	mask *image.Alpha
 }
 
 type indexCacheEntry struct {
@@ -315,6 +317,9 @@ func (a *face) Glyph(dot fixed.Point26_6, r rune) (
 		X: dr.Min.X + v.gw,
 		Y: dr.Min.Y + v.gh,
 	}
+	if v.mask != nil {
+		return dr, v.mask, image.Point{}, v.advanceWidth, true
+	}
 	return dr, a.masks, image.Point{Y: a.paintOffset}, v.advanceWidth, true
 }
 
@@ -371,21 +376,33 @@ func (a *face) rasterize(index Index, fx, fy fixed.Int26_6) (v glyphCacheVal, ok
 	// space. xmin and ymin are typically <= 0.
 	fx -= fixed.Int26_6(xmin << 6)
 	fy -= fixed.Int26_6(ymin << 6)
+	// A glyph can be larger than the font's bounds: hinting and the sub-pixel
+	// offset move its edges, and the bounds might not be accurate.
+	gw, gh := xmax-xmin, ymax-ymin
+	p, mask := a.p, (*image.Alpha)(nil)
+	if gw > a.maxw || gh > a.maxh {
+		mask = image.NewAlpha(image.Rect(0, 0, gw, gh))
+		p = raster.NewAlphaSrcPainter(mask)
+		a.r.SetBounds(gw, gh)
+		defer a.r.SetBounds(a.maxw, a.maxh)
+	} else {
+		a.r.Clear()
+		pixOffset := a.paintOffset * a.maxw
+		clear(a.masks.Pix[pixOffset : pixOffset+a.maxw*a.maxh])
+	}
 	// Rasterize the glyph's vectors.
-	a.r.Clear()
-	pixOffset := a.paintOffset * a.maxw
-	clear(a.masks.Pix[pixOffset : pixOffset+a.maxw*a.maxh])
 	e0 := 0
 	for _, e1 := range a.glyphBuf.Ends {
 		a.drawContour(a.glyphBuf.Points[e0:e1], fx, fy)
 		e0 = e1
 	}
-	a.r.Rasterize(a.p)
+	a.r.Rasterize(p)
 	return glyphCacheVal{
 		a.glyphBuf.AdvanceWidth,
 		image.Point{xmin, ymin},
-		xmax - xmin,
-		ymax - ymin,
+		gw,
+		gh,
+		mask,
 	}, true
 }
 
-- 
2.43.0


From 05b8a488a76edba42f4dfbab024044c114d31c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:33 +0000
Subject: [PATCH 26/39] fix: draw all of a glyph that is larger than the font's
 bounds

A Context cut off its last rows and columns.
---
 freetype.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/freetype.go b/freetype.go
index 349ec7b..b993d4d 100644
--- a/freetype.go
+++ b/freetype.go
@@ -71,6 +71,8 @@ type Context struct {
 	fontSize, dpi float64
 	scale         fixed.Int26_6
 	hinting       font.Hinting
+	// maxw and maxh are the rasterizer's bounds.
+	maxw, maxh int
 	// cache is the glyph cache.
 	cache [nGlyphs * nXFractions * nYFractions]cacheEntry
 }
@@ -179,8 +181,15 @@ func (c *Context) rasterize(glyph truetype.Index, fx, fy fixed.Int26_6) (
 	// space. xmin and ymin are typically <= 0.
 	fx -= fixed.Int26_6(xmin << 6)
 	fy -= fixed.Int26_6(ymin << 6)
-	// Rasterize the glyph's vectors.
-	c.r.Clear()
+	// Rasterize the glyph's vectors. A glyph can be larger than the font's
+	// bounds: hinting and the sub-pixel offset move its edges, and the bounds
+	// might not be accurate.
+	if gw, gh := xmax-xmin, ymax-ymin; gw > c.maxw || gh > c.maxh {
+		c.r.SetBounds(gw, gh)
+		defer c.r.SetBounds(c.maxw, c.maxh)
+	} else {
+		c.r.Clear()
+	}
 	e0 := 0
 	for _, e1 := range c.glyphBuf.Ends {
 		c.drawContour(c.glyphBuf.Points[e0:e1], fx, fy)
@@ -262,7 +271,7 @@ func (c *Context) DrawString(s string, p fixed.Point26_6) (fixed.Point26_6, erro
 func (c *Context) recalc() {
 	c.scale = fixed.Int26_6(c.fontSize * c.dpi * (64.0 / 72.0))
 	if c.f == nil {
-		c.r.SetBounds(0, 0)
+		c.maxw, c.maxh = 0, 0
 	} else {
 		// Set the rasterizer's bounds to be big enough to handle the largest glyph.
 		b := c.f.Bounds(c.scale)
@@ -270,8 +279,9 @@ func (c *Context) recalc() {
 		ymin := -int(b.Max.Y) >> 6
 		xmax := +int(b.Max.X+63) >> 6
 		ymax := -int(b.Min.Y-63) >> 6
-		c.r.SetBounds(xmax-xmin, ymax-ymin)
+		c.maxw, c.maxh = xmax-xmin, ymax-ymin
 	}
+	c.r.SetBounds(c.maxw, c.maxh)
 	for i := range c.cache {
 		c.cache[i] = cacheEntry{}
 	}
-- 
2.43.0


From 6cf79d069db8d30ed669e3e797495435b58f28ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:33 +0000
Subject: [PATCH 27/39] fix: read the vertical metrics that share the last
 advance height

---
 truetype/truetype.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/truetype/truetype.go b/truetype/truetype.go
index b371ef8..46fd5e7 100644
--- a/truetype/truetype.go
+++ b/truetype/truetype.go
@@ -176,7 +176,7 @@ type cm struct {
 type Font struct {
 	// Tables sliced from the TTF data. The different tables are documented
 	// at http://developer.apple.com/fonts/TTRefMan/RM06/Chap6.html
-	cmap, cvt, fpgm, glyf, hdmx, head, hhea, hmtx, kern, loca, maxp, name, os2, prep, vmtx []byte
+	cmap, cvt, fpgm, glyf, hdmx, head, hhea, hmtx, kern, loca, maxp, name, os2, prep, vhea, vmtx []byte
 
 	cmapIndexes []byte
 
@@ -509,6 +509,17 @@ func (f *Font) unscaledVMetric(i Index, yMax fixed.Int26_6) (v VMetric) {
 	if j < 0 || f.nGlyph <= j {
 		return VMetric{}
 	}
+	// The glyphs beyond the first numOfLongVerMetrics ones share the last of
+	// those's advance height, and have only a top side bearing of their own.
+	if len(f.vhea) >= 36 {
+		n := int(u16(f.vhea, 34))
+		if p := 4*n + 2*(j-n); 0 < n && n <= j && p+2 <= len(f.vmtx) {
+			return VMetric{
+				AdvanceHeight:  fixed.Int26_6(u16(f.vmtx, 4*(n-1))),
+				TopSideBearing: fixed.Int26_6(int16(u16(f.vmtx, p))),
+			}
+		}
+	}
 	if 4*j+4 <= len(f.vmtx) {
 		return VMetric{
 			AdvanceHeight:  fixed.Int26_6(u16(f.vmtx, 4*j)),
@@ -653,6 +664,8 @@ func parse(ttf []byte, offset int) (font *Font, err error) {
 			f.os2, err = readTable(ttf, ttf[x+8:x+16])
 		case "prep":
 			f.prep, err = readTable(ttf, ttf[x+8:x+16])
+		case "vhea":
+			f.vhea, err = readTable(ttf, ttf[x+8:x+16])
 		case "vmtx":
 			f.vmtx, err = readTable(ttf, ttf[x+8:x+16])
 		}
-- 
2.43.0


From b7b8b606944b7fcd1f714855c7442c84bb53486e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:27 +0000
Subject: [PATCH 28/39] fix: take the last glyph's advance from the device
 metrics too

It was not looked up in records without padding.
---
 truetype/glyph.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/truetype/glyph.go b/truetype/glyph.go
index c514b1d..c131f42 100644
--- a/truetype/glyph.go
+++ b/truetype/glyph.go
@@ -129,7 +129,7 @@ func (g *GlyphBuf) Load(f *Font, scale fixed.Int26_6, i Index, h font.Hinting) e
 	advanceWidth := g.phantomPoints[1].X - g.phantomPoints[0].X
 	if h != font.HintingNone {
 		if len(f.hdmx) >= 8 {
-			if n := u32(f.hdmx, 4); n > 3+uint32(i) {
+			if n := u32(f.hdmx, 4); n > 2+uint32(i) {
 				for hdmx := f.hdmx[8:]; uint32(len(hdmx)) >= n; hdmx = hdmx[n:] {
 					if fixed.Int26_6(hdmx[0]) == scale>>6 {
 						advanceWidth = fixed.Int26_6(hdmx[2+i]) << 6
-- 
2.43.0


From 885ef2eb3fcaafd94e7687bbde6d095f7467f690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:59 +0000
Subject: [PATCH 29/39] fix: scale the phantom points of compound glyphs once,
 whichever component supplies them

---
 truetype/glyph.go | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/truetype/glyph.go b/truetype/glyph.go
index c131f42..d34b5b7 100644
--- a/truetype/glyph.go
+++ b/truetype/glyph.go
@@ -280,9 +280,7 @@ func (g *GlyphBuf) load(recursion uint32, i Index, useMyMetrics bool) (err error
 			g.InFontUnits = g.InFontUnits[:len(g.InFontUnits)-4]
 			g.Unhinted = g.Unhinted[:len(g.Unhinted)-4]
 		}
-		if useMyMetrics {
-			copy(g.phantomPoints[:], g.Points[len(g.Points)-4:])
-		}
+		copy(g.phantomPoints[:], g.Points[len(g.Points)-4:])
 		g.Points = g.Points[:len(g.Points)-4]
 		if np0 != 0 {
 			// The hinting program expects the []Ends values to be indexed
@@ -436,6 +434,13 @@ func (g *GlyphBuf) loadCompound(recursion uint32, uhm HMetric, i Index,
 	)
 	errTooShort := FormatError("compound glyph data too short")
 	np0, ne0 := len(g.Points), len(g.Ends)
+	// Scale the phantom points now, since a component that supplies the metrics
+	// replaces them by its own, which are scaled (and hinted) already.
+	for j := range g.phantomPoints {
+		p := &g.phantomPoints[j]
+		p.X = g.font.scale(g.scale * p.X)
+		p.Y = g.font.scale(g.scale * p.Y)
+	}
 	offset := loadOffset
 	for {
 		if len(glyf)-offset < 6 {
@@ -545,9 +550,7 @@ func (g *GlyphBuf) loadCompound(recursion uint32, uhm HMetric, i Index,
 	}
 
 	if instrLen == 0 {
-		if !g.metricsSet {
-			copy(g.phantomPoints[:], points[len(points)-4:])
-		}
+		copy(g.phantomPoints[:], points[len(points)-4:])
 		return nil
 	}
 
@@ -573,23 +576,23 @@ func (g *GlyphBuf) loadCompound(recursion uint32, uhm HMetric, i Index,
 			ends[i] += np0
 		}
 	}
-	if !g.metricsSet {
-		copy(g.phantomPoints[:], points[len(points)-4:])
-	}
+	copy(g.phantomPoints[:], points[len(points)-4:])
 	return nil
 }
 
 func (g *GlyphBuf) addPhantomsAndScale(np0, np1 int, simple, adjust bool) {
 	// Add the four phantom points.
 	g.Points = append(g.Points, g.phantomPoints[:]...)
-	// Scale the points.
-	if simple && g.hinting != font.HintingNone {
-		g.InFontUnits = append(g.InFontUnits, g.Points[np1:]...)
-	}
-	for i := np1; i < len(g.Points); i++ {
-		p := &g.Points[i]
-		p.X = g.font.scale(g.scale * p.X)
-		p.Y = g.font.scale(g.scale * p.Y)
+	// Scale the points. Those of a compound glyph are scaled already.
+	if simple {
+		if g.hinting != font.HintingNone {
+			g.InFontUnits = append(g.InFontUnits, g.Points[np1:]...)
+		}
+		for i := np1; i < len(g.Points); i++ {
+			p := &g.Points[i]
+			p.X = g.font.scale(g.scale * p.X)
+			p.Y = g.font.scale(g.scale * p.Y)
+		}
 	}
 	if g.hinting == font.HintingNone {
 		return
-- 
2.43.0


From 12f18aea0063aba4705ae94c0427d080e83995a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:15 +0000
Subject: [PATCH 30/39] fix: require all of the kerning pairs to be present

---
 truetype/truetype.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/truetype/truetype.go b/truetype/truetype.go
index 46fd5e7..6fb0841 100644
--- a/truetype/truetype.go
+++ b/truetype/truetype.go
@@ -363,7 +363,8 @@ func (f *Font) parseKern() error {
 		return UnsupportedError(fmt.Sprintf("kern coverage: 0x%04x", coverage))
 	}
 	f.nKern, offset = int(u16(f.kern, offset)), offset+2
-	if 6*f.nKern != length-14 || len(f.kern)-offset < 6*f.nKern {
+	// The pairs follow the searchRange, entrySelector and rangeShift values.
+	if 6*f.nKern != length-14 || len(f.kern)-(offset+6) < 6*f.nKern {
 		return FormatError("bad kern table length")
 	}
 	return nil
-- 
2.43.0


From 28eb28617206e486127ccbf0852961a239d7acc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:57 +0000
Subject: [PATCH 31/39] fix: fill the glyphs by the non-zero winding rule

Where the contours of a glyph overlap, as the cedilla does the C of the
Luxi fonts' U+00C7, the glyph was drawn with a hole.
---
 freetype.go      | 5 ++++-
 truetype/face.go | 2 ++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/freetype.go b/freetype.go
index b993d4d..b8eebaf 100644
--- a/freetype.go
+++ b/freetype.go
@@ -342,8 +342,11 @@ func (c *Context) SetClip(clip image.Rectangle) {
 
 // NewContext creates a new Context.
 func NewContext() *Context {
+	r := raster.NewRasterizer(0, 0)
+	// A TrueType glyph's contours can overlap.
+	r.UseNonZeroWinding = true
 	return &Context{
-		r:        raster.NewRasterizer(0, 0),
+		r:        r,
 		fontSize: 12,
 		dpi:      72,
 		scale:    12 << 6,
diff --git a/truetype/face.go b/truetype/face.go
index f29b589..1190a5c 100644
--- a/truetype/face.go
+++ b/truetype/face.go
@@ -207,6 +207,8 @@ func NewFace(f *Font, opts *Options) font.Face {
 	a.maxh = ymax - ymin
 	a.masks = image.NewAlpha(image.Rect(0, 0, a.maxw, a.maxh*len(a.glyphCache)))
 	a.r.SetBounds(a.maxw, a.maxh)
+	// A TrueType glyph's contours can overlap.
+	a.r.UseNonZeroWinding = true
 	a.p = facePainter{a}
 
 	return a
-- 
2.43.0


From c987628bb308459fc72a714861b1e597d944d3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:39 +0000
Subject: [PATCH 32/39] fix: do not take the most negative int for a power of 2

---
 truetype/face.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/truetype/face.go b/truetype/face.go
index 1190a5c..d755be9 100644
--- a/truetype/face.go
+++ b/truetype/face.go
@@ -15,7 +15,7 @@ import (
 )
 
 func powerOf2(i int) bool {
-	return i != 0 && (i&(i-1)) == 0
+	return i > 0 && (i&(i-1)) == 0
 }
 
 // Options are optional arguments to NewFace.
-- 
2.43.0


From 12fc7e24de7b14fd6cf155a90d58357e4764a3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:01 +0000
Subject: [PATCH 33/39] fix: look up device metrics of glyph 65534 without
 overflow

The index into a device record was computed as an Index, a 16-bit number:
the last glyph of a font of 65535 glyphs had the record's size as its width.
---
 truetype/glyph.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/truetype/glyph.go b/truetype/glyph.go
index d34b5b7..fa69180 100644
--- a/truetype/glyph.go
+++ b/truetype/glyph.go
@@ -132,7 +132,7 @@ func (g *GlyphBuf) Load(f *Font, scale fixed.Int26_6, i Index, h font.Hinting) e
 			if n := u32(f.hdmx, 4); n > 2+uint32(i) {
 				for hdmx := f.hdmx[8:]; uint32(len(hdmx)) >= n; hdmx = hdmx[n:] {
 					if fixed.Int26_6(hdmx[0]) == scale>>6 {
-						advanceWidth = fixed.Int26_6(hdmx[2+i]) << 6
+						advanceWidth = fixed.Int26_6(hdmx[2+int(i)]) << 6
 						break
 					}
 				}
-- 
2.43.0


From cb3c5969f869a4b28c0f16c6296f8069422cd77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:53 +0000
Subject: [PATCH 34/39] fix: rasterize lines longer than 2^18 pixels without
 overflow

---
 raster/raster.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/raster/raster.go b/raster/raster.go
index 50aa038..bdd70c3 100644
--- a/raster/raster.go
+++ b/raster/raster.go
@@ -118,12 +118,12 @@ func (r *Rasterizer) setCell(xi, yi int) {
 // scan accumulates area/coverage for the yi'th scanline, going from
 // x0 to x1 in the horizontal direction (in 26.6 fixed point co-ordinates)
 // and from y0f to y1f fractional vertical units within that scanline.
-func (r *Rasterizer) scan(yi int, x0, y0f, x1, y1f fixed.Int26_6) {
+func (r *Rasterizer) scan(yi int, x0, y0f, x1, y1f int64) {
 	// Break the 26.6 fixed point X co-ordinates into integral and fractional parts.
 	x0i := int(x0) >> 6
-	x0f := x0 - fixed.Int26_6(64*x0i)
+	x0f := x0 - int64(64*x0i)
 	x1i := int(x1) >> 6
-	x1f := x1 - fixed.Int26_6(64*x1i)
+	x1f := x1 - int64(64*x1i)
 
 	// A perfectly horizontal scan.
 	if y0f == y1f {
@@ -141,7 +141,7 @@ func (r *Rasterizer) scan(yi int, x0, y0f, x1, y1f fixed.Int26_6) {
 	// all intermediate cells go through the full width of the cell,
 	// or 64 units in 26.6 fixed point format.
 	var (
-		p, q, edge0, edge1 fixed.Int26_6
+		p, q, edge0, edge1 int64
 		xiDelta            int
 	)
 	if dx > 0 {
@@ -198,15 +198,16 @@ func (r *Rasterizer) Start(a fixed.Point26_6) {
 
 // Add1 adds a linear segment to the current curve.
 func (r *Rasterizer) Add1(b fixed.Point26_6) {
-	x0, y0 := r.a.X, r.a.Y
-	x1, y1 := b.X, b.Y
+	// Use 64 bits: a difference, let alone 64 times one, can exceed 32.
+	x0, y0 := int64(r.a.X), int64(r.a.Y)
+	x1, y1 := int64(b.X), int64(b.Y)
 	dx, dy := x1-x0, y1-y0
 	// Break the 26.6 fixed point Y co-ordinates into integral and fractional
 	// parts.
 	y0i := int(y0) >> 6
-	y0f := y0 - fixed.Int26_6(64*y0i)
+	y0f := y0 - int64(64*y0i)
 	y1i := int(y1) >> 6
-	y1f := y1 - fixed.Int26_6(64*y1i)
+	y1f := y1 - int64(64*y1i)
 
 	if y0i == y1i {
 		// There is only one scanline.
@@ -216,7 +217,7 @@ func (r *Rasterizer) Add1(b fixed.Point26_6) {
 		// This is a vertical line segment. We avoid calling r.scan and instead
 		// manipulate r.area and r.cover directly.
 		var (
-			edge0, edge1 fixed.Int26_6
+			edge0, edge1 int64
 			yiDelta      int
 		)
 		if dy > 0 {
@@ -253,7 +254,7 @@ func (r *Rasterizer) Add1(b fixed.Point26_6) {
 		// scanlines, all intermediate scanlines go through the full height of
 		// the row, or 64 units in 26.6 fixed point format.
 		var (
-			p, q, edge0, edge1 fixed.Int26_6
+			p, q, edge0, edge1 int64
 			yiDelta            int
 		)
 		if dy > 0 {
-- 
2.43.0


From f2b17ff219f83d4d7061f20ec2e9b102642661a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:54 +0000
Subject: [PATCH 35/39] fix: flatten curves with co-ordinates of millions of
 pixels without overflow

---
 raster/geom.go   |  2 +-
 raster/raster.go | 53 +++++++++++++++++++++++++++++++-----------------
 2 files changed, 35 insertions(+), 20 deletions(-)

diff --git a/raster/geom.go b/raster/geom.go
index 37d5dc0..72faa77 100644
--- a/raster/geom.go
+++ b/raster/geom.go
@@ -13,7 +13,7 @@ import (
 )
 
 // maxAbs returns the maximum of abs(a) and abs(b).
-func maxAbs(a, b fixed.Int26_6) fixed.Int26_6 {
+func maxAbs(a, b int64) int64 {
 	if a < 0 {
 		a = -a
 	}
diff --git a/raster/raster.go b/raster/raster.go
index bdd70c3..4e2176f 100644
--- a/raster/raster.go
+++ b/raster/raster.go
@@ -302,18 +302,32 @@ func (r *Rasterizer) Add1(b fixed.Point26_6) {
 	r.a = b
 }
 
+// widePoint is a point in 26.6 co-ordinates with room for sums of them.
+type widePoint struct {
+	X, Y int64
+}
+
+func wide(p fixed.Point26_6) widePoint {
+	return widePoint{int64(p.X), int64(p.Y)}
+}
+
+func narrow(x, y int64) fixed.Point26_6 {
+	return fixed.Point26_6{fixed.Int26_6(x), fixed.Int26_6(y)}
+}
+
 // Add2 adds a quadratic segment to the current curve.
 func (r *Rasterizer) Add2(b, c fixed.Point26_6) {
 	// Calculate nSplit (the number of recursive decompositions) based on how
 	// 'curvy' it is. Specifically, how much the middle point b deviates from
 	// (a+c)/2.
-	dev := maxAbs(r.a.X-2*b.X+c.X, r.a.Y-2*b.Y+c.Y) / fixed.Int26_6(r.splitScale2)
+	pa, pb, pc := wide(r.a), wide(b), wide(c)
+	dev := maxAbs(pa.X-2*pb.X+pc.X, pa.Y-2*pb.Y+pc.Y) / int64(r.splitScale2)
 	nsplit := 0
 	for dev > 0 {
 		dev /= 4
 		nsplit++
 	}
-	// dev is 32-bit, and nsplit++ every time we shift off 2 bits, so maxNsplit
+	// dev is at most 32-bit after scaling, and nsplit++ every time we shift off 2 bits, so maxNsplit
 	// is 16.
 	const maxNsplit = 16
 	if nsplit > maxNsplit {
@@ -321,14 +335,14 @@ func (r *Rasterizer) Add2(b, c fixed.Point26_6) {
 	}
 	// Recursively decompose the curve nSplit levels deep.
 	var (
-		pStack [2*maxNsplit + 3]fixed.Point26_6
+		pStack [2*maxNsplit + 3]widePoint
 		sStack [maxNsplit + 1]int
 		i      int
 	)
 	sStack[0] = nsplit
-	pStack[0] = c
-	pStack[1] = b
-	pStack[2] = r.a
+	pStack[0] = pc
+	pStack[1] = pb
+	pStack[2] = pa
 	for i >= 0 {
 		s := sStack[i]
 		p := pStack[2*i:]
@@ -355,8 +369,8 @@ func (r *Rasterizer) Add2(b, c fixed.Point26_6) {
 			// approximation.
 			midx := (p[0].X + 2*p[1].X + p[2].X) / 4
 			midy := (p[0].Y + 2*p[1].Y + p[2].Y) / 4
-			r.Add1(fixed.Point26_6{midx, midy})
-			r.Add1(p[0])
+			r.Add1(narrow(midx, midy))
+			r.Add1(narrow(p[0].X, p[0].Y))
 			i--
 		}
 	}
@@ -367,17 +381,18 @@ func (r *Rasterizer) Add3(b, c, d fixed.Point26_6) {
 	// Calculate nSplit (the number of recursive decompositions) based on how
 	// 'curvy' it is. Specifically, how much the middle points b and c deviate
 	// from (a+c)/2 and (b+d)/2.
-	dev := maxAbs(r.a.X-2*b.X+c.X, r.a.Y-2*b.Y+c.Y)
-	if d := maxAbs(b.X-2*c.X+d.X, b.Y-2*c.Y+d.Y); dev < d {
+	pa, pb, pc, pd := wide(r.a), wide(b), wide(c), wide(d)
+	dev := maxAbs(pa.X-2*pb.X+pc.X, pa.Y-2*pb.Y+pc.Y)
+	if d := maxAbs(pb.X-2*pc.X+pd.X, pb.Y-2*pc.Y+pd.Y); dev < d {
 		dev = d
 	}
-	dev /= fixed.Int26_6(r.splitScale3)
+	dev /= int64(r.splitScale3)
 	nsplit := 0
 	for dev > 0 {
 		dev /= 4
 		nsplit++
 	}
-	// dev is 32-bit, and nsplit++ every time we shift off 2 bits, so maxNsplit
+	// dev is at most 32-bit after scaling, and nsplit++ every time we shift off 2 bits, so maxNsplit
 	// is 16.
 	const maxNsplit = 16
 	if nsplit > maxNsplit {
@@ -385,15 +400,15 @@ func (r *Rasterizer) Add3(b, c, d fixed.Point26_6) {
 	}
 	// Recursively decompose the curve nSplit levels deep.
 	var (
-		pStack [3*maxNsplit + 4]fixed.Point26_6
+		pStack [3*maxNsplit + 4]widePoint
 		sStack [maxNsplit + 1]int
 		i      int
 	)
 	sStack[0] = nsplit
-	pStack[0] = d
-	pStack[1] = c
-	pStack[2] = b
-	pStack[3] = r.a
+	pStack[0] = pd
+	pStack[1] = pc
+	pStack[2] = pb
+	pStack[3] = pa
 	for i >= 0 {
 		s := sStack[i]
 		p := pStack[3*i:]
@@ -427,8 +442,8 @@ func (r *Rasterizer) Add3(b, c, d fixed.Point26_6) {
 			// Replace the level-0 cubic with a two-linear-piece approximation.
 			midx := (p[0].X + 3*(p[1].X+p[2].X) + p[3].X) / 8
 			midy := (p[0].Y + 3*(p[1].Y+p[2].Y) + p[3].Y) / 8
-			r.Add1(fixed.Point26_6{midx, midy})
-			r.Add1(p[0])
+			r.Add1(narrow(midx, midy))
+			r.Add1(narrow(p[0].X, p[0].Y))
 			i--
 		}
 	}
-- 
2.43.0


From 8326898d6289c292acce7516e3655bb83e4cc8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:57 +0000
Subject: [PATCH 36/39] fix: refuse glyphs too large to draw instead of
 exhausting memory

---
 freetype.go      | 28 +++++++++++++++++++++++-----
 truetype/face.go | 47 ++++++++++++++++++++++++++++++++++++++---------
 2 files changed, 61 insertions(+), 14 deletions(-)

diff --git a/freetype.go b/freetype.go
index b8eebaf..7200cd1 100644
--- a/freetype.go
+++ b/freetype.go
@@ -29,6 +29,15 @@ const (
 	nYFractions = 1
 )
 
+const (
+	// maxGlyphSize limits the width and height in pixels of the glyphs that
+	// are drawn.
+	maxGlyphSize = 1 << 14
+	// maxCachedMaskSize limits the number of bytes of a mask that is kept in
+	// the glyph cache.
+	maxCachedMaskSize = 1 << 20
+)
+
 // An entry in the glyph cache is keyed explicitly by the glyph index and
 // implicitly by the quantized x and y fractional offset. It maps to a mask
 // image and an offset.
@@ -167,13 +176,16 @@ func (c *Context) rasterize(glyph truetype.Index, fx, fy fixed.Int26_6) (
 		return 0, nil, image.Point{}, err
 	}
 	// Calculate the integer-pixel bounds for the glyph.
-	xmin := int(fx+c.glyphBuf.Bounds.Min.X) >> 6
-	ymin := int(fy-c.glyphBuf.Bounds.Max.Y) >> 6
-	xmax := int(fx+c.glyphBuf.Bounds.Max.X+0x3f) >> 6
-	ymax := int(fy-c.glyphBuf.Bounds.Min.Y+0x3f) >> 6
+	xmin := (int(fx) + int(c.glyphBuf.Bounds.Min.X)) >> 6
+	ymin := (int(fy) - int(c.glyphBuf.Bounds.Max.Y)) >> 6
+	xmax := (int(fx) + int(c.glyphBuf.Bounds.Max.X) + 0x3f) >> 6
+	ymax := (int(fy) - int(c.glyphBuf.Bounds.Min.Y) + 0x3f) >> 6
 	if xmin > xmax || ymin > ymax {
 		return 0, nil, image.Point{}, errors.New("freetype: negative sized glyph")
 	}
+	if xmax-xmin > maxGlyphSize || ymax-ymin > maxGlyphSize {
+		return 0, nil, image.Point{}, errors.New("freetype: glyph too large")
+	}
 	// A TrueType's glyph's nodes can have negative co-ordinates, but the
 	// rasterizer clips anything left of x=0 or above y=0. xmin and ymin are
 	// the pixel offsets, based on the font's FUnit metrics, that let a
@@ -224,7 +236,9 @@ func (c *Context) glyph(glyph truetype.Index, p fixed.Point26_6) (
 	if err != nil {
 		return 0, nil, image.Point{}, err
 	}
-	c.cache[t] = cacheEntry{true, glyph, advanceWidth, mask, offset}
+	if len(mask.Pix) <= maxCachedMaskSize {
+		c.cache[t] = cacheEntry{true, glyph, advanceWidth, mask, offset}
+	}
 	return advanceWidth, mask, offset.Add(image.Point{ix, iy}), nil
 }
 
@@ -280,6 +294,10 @@ func (c *Context) recalc() {
 		xmax := +int(b.Max.X+63) >> 6
 		ymax := -int(b.Min.Y-63) >> 6
 		c.maxw, c.maxh = xmax-xmin, ymax-ymin
+		if c.maxw > maxGlyphSize || c.maxh > maxGlyphSize {
+			// Have every glyph set the bounds that it needs.
+			c.maxw, c.maxh = 0, 0
+		}
 	}
 	c.r.SetBounds(c.maxw, c.maxh)
 	for i := range c.cache {
diff --git a/truetype/face.go b/truetype/face.go
index d755be9..3458fc3 100644
--- a/truetype/face.go
+++ b/truetype/face.go
@@ -205,7 +205,17 @@ func NewFace(f *Font, opts *Options) font.Face {
 	ymax := -int(b.Min.Y-63) >> 6
 	a.maxw = xmax - xmin
 	a.maxh = ymax - ymin
-	a.masks = image.NewAlpha(image.Rect(0, 0, a.maxw, a.maxh*len(a.glyphCache)))
+	if a.maxw <= 0 || a.maxh <= 0 || a.maxw > maxGlyphSize || a.maxh > maxGlyphSize {
+		// The bounds are invalid or too large. Have every glyph set the bounds
+		// that it needs.
+		a.maxw, a.maxh = 0, 0
+	}
+	if a.maxw*a.maxh <= maxMasksSize/len(a.glyphCache) {
+		a.masks = image.NewAlpha(image.Rect(0, 0, a.maxw, a.maxh*len(a.glyphCache)))
+	} else {
+		// Have every glyph use a mask of its own.
+		a.masks = &image.Alpha{}
+	}
 	a.r.SetBounds(a.maxw, a.maxh)
 	// A TrueType glyph's contours can overlap.
 	a.r.UseNonZeroWinding = true
@@ -239,6 +249,17 @@ type face struct {
 
 const indexCacheLen = 256
 
+const (
+	// maxMasksSize limits the number of bytes of a face's shared masks.
+	maxMasksSize = 1 << 30
+	// maxGlyphSize limits the width and height in pixels of the glyphs that
+	// are drawn.
+	maxGlyphSize = 1 << 14
+	// maxCachedMaskSize limits the number of bytes of a glyph's own mask that
+	// is kept in the cache.
+	maxCachedMaskSize = 1 << 20
+)
+
 func (a *face) index(r rune) Index {
 	const mask = indexCacheLen - 1
 	c := &a.indexCache[r&mask]
@@ -306,7 +327,9 @@ func (a *face) Glyph(dot fixed.Point26_6, r rune) (
 		if !ok {
 			return image.Rectangle{}, nil, image.Point{}, 0, false
 		}
-		a.glyphCache[cIndex] = glyphCacheEntry{k, v}
+		if v.mask == nil || len(v.mask.Pix) <= maxCachedMaskSize {
+			a.glyphCache[cIndex] = glyphCacheEntry{k, v}
+		}
 	} else {
 		v = a.glyphCache[cIndex].val
 	}
@@ -364,13 +387,17 @@ func (a *face) rasterize(index Index, fx, fy fixed.Int26_6) (v glyphCacheVal, ok
 		return glyphCacheVal{}, false
 	}
 	// Calculate the integer-pixel bounds for the glyph.
-	xmin := int(fx+a.glyphBuf.Bounds.Min.X) >> 6
-	ymin := int(fy-a.glyphBuf.Bounds.Max.Y) >> 6
-	xmax := int(fx+a.glyphBuf.Bounds.Max.X+0x3f) >> 6
-	ymax := int(fy-a.glyphBuf.Bounds.Min.Y+0x3f) >> 6
+	xmin := (int(fx) + int(a.glyphBuf.Bounds.Min.X)) >> 6
+	ymin := (int(fy) - int(a.glyphBuf.Bounds.Max.Y)) >> 6
+	xmax := (int(fx) + int(a.glyphBuf.Bounds.Max.X) + 0x3f) >> 6
+	ymax := (int(fy) - int(a.glyphBuf.Bounds.Min.Y) + 0x3f) >> 6
 	if xmin > xmax || ymin > ymax {
 		return glyphCacheVal{}, false
 	}
+	gw, gh := xmax-xmin, ymax-ymin
+	if gw > maxGlyphSize || gh > maxGlyphSize {
+		return glyphCacheVal{}, false
+	}
 	// A TrueType's glyph's nodes can have negative co-ordinates, but the
 	// rasterizer clips anything left of x=0 or above y=0. xmin and ymin are
 	// the pixel offsets, based on the font's FUnit metrics, that let a
@@ -380,15 +407,17 @@ func (a *face) rasterize(index Index, fx, fy fixed.Int26_6) (v glyphCacheVal, ok
 	fy -= fixed.Int26_6(ymin << 6)
 	// A glyph can be larger than the font's bounds: hinting and the sub-pixel
 	// offset move its edges, and the bounds might not be accurate.
-	gw, gh := xmax-xmin, ymax-ymin
 	p, mask := a.p, (*image.Alpha)(nil)
 	if gw > a.maxw || gh > a.maxh {
-		mask = image.NewAlpha(image.Rect(0, 0, gw, gh))
-		p = raster.NewAlphaSrcPainter(mask)
 		a.r.SetBounds(gw, gh)
 		defer a.r.SetBounds(a.maxw, a.maxh)
 	} else {
 		a.r.Clear()
+	}
+	if gw > a.maxw || gh > a.maxh || len(a.masks.Pix) == 0 {
+		mask = image.NewAlpha(image.Rect(0, 0, gw, gh))
+		p = raster.NewAlphaSrcPainter(mask)
+	} else {
 		pixOffset := a.paintOffset * a.maxw
 		clear(a.masks.Pix[pixOffset : pixOffset+a.maxw*a.maxh])
 	}
-- 
2.43.0


From ef9d9ab445df3b09c9e0304d0e2478727a60828d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:37 +0000
Subject: [PATCH 37/39] fix: stroke lines wider than a million pixels without
 overflow

---
 raster/geom.go   |  9 +++++++++
 raster/stroke.go | 16 ++++++++--------
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/raster/geom.go b/raster/geom.go
index 72faa77..6493162 100644
--- a/raster/geom.go
+++ b/raster/geom.go
@@ -38,6 +38,15 @@ func pDot(p fixed.Point26_6, q fixed.Point26_6) fixed.Int52_12 {
 	return fixed.Int52_12(px*qx + py*qy)
 }
 
+// pMul returns the vector p*k. Unlike p.Mul(k), it does not overflow for vectors
+// that are long.
+func pMul(p fixed.Point26_6, k fixed.Int26_6) fixed.Point26_6 {
+	return fixed.Point26_6{
+		fixed.Int26_6(int64(p.X) * int64(k) / 64),
+		fixed.Int26_6(int64(p.Y) * int64(k) / 64),
+	}
+}
+
 // pLen returns the length of the vector p.
 func pLen(p fixed.Point26_6) fixed.Int26_6 {
 	// TODO(nigeltao): use fixed point math.
diff --git a/raster/stroke.go b/raster/stroke.go
index dac7492..560dbfc 100644
--- a/raster/stroke.go
+++ b/raster/stroke.go
@@ -54,7 +54,7 @@ func roundCapper(p Adder, halfWidth fixed.Int26_6, pivot, n1 fixed.Point26_6) {
 	e := pRot90CCW(n1)
 	side := pivot.Add(e)
 	start, end := pivot.Sub(n1), pivot.Add(n1)
-	d, e := n1.Mul(k), e.Mul(k)
+	d, e := pMul(n1, k), pMul(e, k)
 	p.Add3(start.Add(e), side.Sub(d), side)
 	p.Add3(side.Add(d), end.Add(e), end)
 }
@@ -129,12 +129,12 @@ func addArc(p Adder, pivot, n0, n1 fixed.Point26_6) {
 				s = n0
 			} else {
 				// n1 is between 45 and 90 degrees clockwise of n0.
-				p.Add2(pivot.Add(n0).Add(m1.Mul(tpo8)), pivot.Add(m0))
+				p.Add2(pivot.Add(n0).Add(pMul(m1, tpo8)), pivot.Add(m0))
 				s = m0
 			}
 		} else {
-			pm1, n0t := pivot.Add(m1), n0.Mul(tpo8)
-			p.Add2(pivot.Add(n0).Add(m1.Mul(tpo8)), pivot.Add(m0))
+			pm1, n0t := pivot.Add(m1), pMul(n0, tpo8)
+			p.Add2(pivot.Add(n0).Add(pMul(m1, tpo8)), pivot.Add(m0))
 			p.Add2(pm1.Add(n0t), pm1)
 			if pDot(m0, n1) >= 0 {
 				// n1 is between 90 and 135 degrees clockwise of n0.
@@ -152,12 +152,12 @@ func addArc(p Adder, pivot, n0, n1 fixed.Point26_6) {
 				s = n0
 			} else {
 				// n1 is between 45 and 90 degrees counter-clockwise of n0.
-				p.Add2(pivot.Add(n0).Sub(m1.Mul(tpo8)), pivot.Sub(m2))
+				p.Add2(pivot.Add(n0).Sub(pMul(m1, tpo8)), pivot.Sub(m2))
 				s = pNeg(m2)
 			}
 		} else {
-			pm1, n0t := pivot.Sub(m1), n0.Mul(tpo8)
-			p.Add2(pivot.Add(n0).Sub(m1.Mul(tpo8)), pivot.Sub(m2))
+			pm1, n0t := pivot.Sub(m1), pMul(n0, tpo8)
+			p.Add2(pivot.Add(n0).Sub(pMul(m1, tpo8)), pivot.Sub(m2))
 			p.Add2(pm1.Add(n0t), pm1)
 			if pDot(m2, n1) <= 0 {
 				// n1 is between 90 and 135 degrees counter-clockwise of n0.
@@ -185,7 +185,7 @@ func addArc(p Adder, pivot, n0, n1 fixed.Point26_6) {
 	// between 0 and 45 degrees then d ranges between 256/256 and 181/256.
 	d := 256 * pDot(s, n1) / r2
 	multiple := fixed.Int26_6(150-(150-128)*(d-181)/(256-181)) >> 2
-	p.Add2(pivot.Add(s.Add(n1).Mul(multiple)), pivot.Add(n1))
+	p.Add2(pivot.Add(pMul(s.Add(n1), multiple)), pivot.Add(n1))
 }
 
 // midpoint returns the midpoint of two Points.
-- 
2.43.0


From a1dacc334b53613042c0a0fa68c4c2f470bdd35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:10 +0000
Subject: [PATCH 38/39] fix: find the sharpest turn of curves of half a million
 pixels without overflow

---
 raster/stroke.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/raster/stroke.go b/raster/stroke.go
index 560dbfc..a1690fc 100644
--- a/raster/stroke.go
+++ b/raster/stroke.go
@@ -223,14 +223,16 @@ func interpolate(a, b fixed.Point26_6, t fixed.Int52_12) fixed.Point26_6 {
 // 2*x′*x″+2*y′*y″ = 0, or (dx+ex*t)*ex + (dy+ey*t)*ey = 0.
 // Solving for t gives t = -(dx*ex+dy*ey) / (ex*ex+ey*ey).
 func curviest2(a, b, c fixed.Point26_6) fixed.Int52_12 {
-	dx := int64(b.X - a.X)
-	dy := int64(b.Y - a.Y)
-	ex := int64(c.X - 2*b.X + a.X)
-	ey := int64(c.Y - 2*b.Y + a.Y)
+	dx := int64(b.X) - int64(a.X)
+	dy := int64(b.Y) - int64(a.Y)
+	ex := int64(c.X) - 2*int64(b.X) + int64(a.X)
+	ey := int64(c.Y) - 2*int64(b.Y) + int64(a.Y)
 	if ex == 0 && ey == 0 {
 		return 2048
 	}
-	return fixed.Int52_12(-4096 * (dx*ex + dy*ey) / (ex*ex + ey*ey))
+	// The products of long vectors do not fit in 64 bits.
+	fdx, fdy, fex, fey := float64(dx), float64(dy), float64(ex), float64(ey)
+	return fixed.Int52_12(-4096 * (fdx*fex + fdy*fey) / (fex*fex + fey*fey))
 }
 
 // A stroker holds state for stroking a path.
-- 
2.43.0


From 8ee57b5d6127b4ccd7810ce1122bd6d47bd2f45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:29 +0000
Subject: [PATCH 39/39] fix: take bytes after a compound glyph for instructions
 only if it says it has some

---
 truetype/glyph.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/truetype/glyph.go b/truetype/glyph.go
index fa69180..f80c74b 100644
--- a/truetype/glyph.go
+++ b/truetype/glyph.go
@@ -441,12 +441,15 @@ func (g *GlyphBuf) loadCompound(recursion uint32, uhm HMetric, i Index,
 		p.X = g.font.scale(g.scale * p.X)
 		p.Y = g.font.scale(g.scale * p.Y)
 	}
-	offset := loadOffset
+	offset, haveInstructions := loadOffset, false
 	for {
 		if len(glyf)-offset < 6 {
 			return errTooShort
 		}
 		flags := u16(glyf, offset)
+		if flags&flagWeHaveInstructions != 0 {
+			haveInstructions = true
+		}
 		component := Index(u16(glyf, offset+2))
 		dx, dy, transform, hasTransform := fixed.Int26_6(0), fixed.Int26_6(0), [4]int16{}, false
 		if flags&flagArg1And2AreWords != 0 {
@@ -534,7 +537,7 @@ func (g *GlyphBuf) loadCompound(recursion uint32, uhm HMetric, i Index,
 	}
 
 	instrLen := 0
-	if g.hinting != font.HintingNone && offset+2 <= len(glyf) {
+	if g.hinting != font.HintingNone && haveInstructions && offset+2 <= len(glyf) {
 		instrLen = int(u16(glyf, offset))
 		offset += 2
 		if len(glyf)-offset < instrLen {
-- 
2.43.0

