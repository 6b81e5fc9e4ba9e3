package checks

import (
	"fmt"
	"image"
	"image/color"

	"github.com/golang/freetype"
	"github.com/golang/freetype/raster"
	"github.com/golang/freetype/truetype"
	"golang.org/x/image/font"
	"golang.org/x/image/math/fixed"

	"verif/harness/mon"
)

// The long streams use one object tens of thousands of times, for what only
// adds up or wraps around: budgets, counters, buffers that grow. What each use
// should give is found once, with a new object.

// longLen is the number of uses: beyond 16 bits, at times, unless they are slow.
func longLen(c *mon.Case, slow bool) int {
	if n := c.R.IntN(4); n == 0 && !slow {
		return 70000
	} else if n == 1 {
		return 5000
	}
	return 10000 + c.R.IntN(10000)
}

// c11Long loads glyphs into one buffer again and again.
func c11Long(c *mon.Case) {
	r := c.R
	type combo struct {
		ft    *truetype.Font
		s     int64
		i     int
		h     font.Hinting
		fresh *truetype.GlyphBuf
		err   error
		name  string
	}
	var combos []combo
	for k := 1 + r.IntN(3); k > 0; k-- {
		f := stateFont(r, r.IntN(2) == 0)
		b := f.Encode(r)
		if r.IntN(4) == 0 {
			b = damaged(r, f)
		}
		ft, err := parseFont(b)
		if err != nil {
			continue
		}
		for j := 1 + r.IntN(2); j > 0; j-- {
			s := randScale(r, f.MaxScale())
			for i := 0; i <= len(f.Glyphs); i++ {
				for _, h := range []font.Hinting{font.HintingNone, font.HintingFull} {
					x := combo{ft: ft, s: s, i: i, h: h, fresh: &truetype.GlyphBuf{}, name: fmt.Sprintf("font %d scale %d glyph %d hinting %d, fpgm %x prep %x %s", k, s, i, h, f.FPGM, f.Prep, glyphString(f, min(i, len(f.Glyphs)-1)))}
					x.err = load(x.fresh, ft, s, i, h)
					combos = append(combos, x)
				}
			}
		}
	}
	if len(combos) == 0 {
		return
	}
	buf := &truetype.GlyphBuf{}
	n, k := longLen(c, false), 0
	for j := 1; j <= n; j++ {
		// Mostly the neighbours, which share the font, the scale and the programs.
		if r.IntN(50) == 0 {
			k = r.IntN(len(combos))
		} else {
			k = (k + r.IntN(3)) % len(combos)
		}
		x := &combos[k]
		err := load(buf, x.ft, x.s, x.i, x.h)
		if msg := diffLoads(err, x.err, buf, x.fresh); msg != "" {
			c.Describe("load %d of one buffer, %s", j, x.name)
			c.Fail("after %d loads: %s", j-1, msg)
		}
	}
	c.Eval(n)
	c.Event("loads of buffers used thousands of times", n)
	c.Nontrivial(mon.Hash(c.Index, n, len(combos)))
	c.Sample("%d loads of %d combinations of font, scale, glyph and hinting", n, len(combos))
}

// c15Long uses one rasteriser again and again.
func c15Long(c *mon.Case) {
	r := c.R
	type combo struct {
		w, h    int
		nonZero bool
		s       shape
		p       *spanRec
	}
	var combos []combo
	for k := 2 + r.IntN(6); k > 0; k-- {
		w, h := 1+r.IntN(20), 1+r.IntN(20)
		x := combo{w, h, r.IntN(2) == 0, randShape(r, w, h, allKinds, true), nil}
		if x.s.far(100) || x.s.nsegs() > 60 {
			continue
		}
		fresh := raster.NewRasterizer(w, h)
		fresh.UseNonZeroWinding = x.nonZero
		x.p = rasterise(fresh, x.s)
		if len(x.p.spans) < 500 {
			combos = append(combos, x)
		}
	}
	if len(combos) == 0 {
		return
	}
	ras := raster.NewRasterizer(combos[0].w, combos[0].h)
	w, h := combos[0].w, combos[0].h
	n, k := longLen(c, false), 0
	for j := 1; j <= n; j++ {
		if r.IntN(3) == 0 {
			k = r.IntN(len(combos))
		}
		x := &combos[k]
		ras.UseNonZeroWinding = x.nonZero
		if w == x.w && h == x.h && r.IntN(8) != 0 {
			ras.Clear()
		} else {
			w, h = x.w, x.h
			ras.SetBounds(w, h)
		}
		if msg := sameSpans(rasterise(ras, x.s).spans, x.p.spans); msg != "" {
			c.Describe("rasterisation %d of one rasteriser, canvas %dx%d: %v", j, w, h, x.s)
			c.Fail("after %d rasterisations, used and new rasteriser differ: %s", j-1, msg)
		}
	}
	c.Eval(n)
	c.Event("rasterisations by rasterisers used thousands of times", n)
	c.Nontrivial(mon.Hash(c.Index, n, len(combos)))
	c.Sample("%d rasterisations of %d shapes", n, len(combos))
}

// c17Long uses one monochrome painter, and one gamma painter, again and again.
func c17Long(c *mon.Case) {
	r := c.R
	rec, grec := &spanRec{}, &spanRec{}
	m := raster.NewMonochromePainter(rec)
	g := raster.NewGammaCorrectionPainter(grec, 1)
	type combo struct {
		ss []raster.Span
		bs [][]raster.Span
	}
	var combos []combo
	for k := 5; k > 0; k-- {
		ss := orderedSpans(r)
		combos = append(combos, combo{ss, batchesOf(r, ss)})
	}
	n := longLen(c, false)
	scratch := []raster.Span(nil)
	for j := 1; j <= n; j++ {
		x := combos[r.IntN(len(combos))]
		*rec, *grec = spanRec{}, spanRec{}
		for i, b := range x.bs {
			// The painters may change the spans that they are given.
			scratch = append(scratch[:0], b...)
			m.Paint(scratch, i == len(x.bs)-1)
			scratch = append(scratch[:0], b...)
			g.Paint(scratch, i == len(x.bs)-1)
		}
		if j%64 == 1 || j > n-64 || j%4096 < 8 {
			c.Describe("rasterisation %d of one monochrome and one gamma painter: %v", j, x.ss)
			c17MonoOracle(c, x.ss, rec)
			if msg := sameSpans(grec.spans, x.ss); msg != "" {
				c.Fail("gamma painter of gamma one: %s", msg)
			}
		}
	}
	c.Eval(n)
	c.Event("rasterisations by painters used thousands of times", n)
	c.Nontrivial(mon.Hash(c.Index, n))
	c.Sample("%d rasterisations", n)
}

// c19Long asks one face for glyphs again and again.
func c19Long(c *mon.Case) {
	r := c.R
	t := newTextFont(c)
	if r.IntN(4) == 0 {
		t = realTextFont(c)
	}
	x := randFaceOpts(r, t, 1<<19)
	for k := 0; k < 20 && t.extent(x.scale) > 1<<10; k++ {
		x = randFaceOpts(r, t, 1<<19)
	}
	if t.extent(x.scale) > 1<<12 {
		return
	}
	l := newLoader(t.ft, x.scale, x.h)
	var rs []rune
	for k := 2 + r.IntN(30); k > 0; k-- {
		if a := t.rune(r); t.drawable(l, a) {
			rs = append(rs, a)
		}
	}
	if len(rs) == 0 {
		return
	}
	c.Describe("%s font upem %d, options %v (scale %d)", t.name, t.model.UPEM, x, x.scale)
	type key struct {
		r    rune
		x, y int
	}
	type val struct {
		dr  image.Rectangle
		p   *image.Alpha
		adv fixed.Int26_6
		ok  bool
	}
	memo := map[key]val{}
	ask := func(f font.Face, k key) (v val) {
		dr, mask, mp, adv, ok := f.Glyph(fixed.Point26_6{X: fixed.Int26_6(k.x), Y: fixed.Int26_6(k.y)}, k.r)
		v = val{dr: dr, adv: adv, ok: ok}
		if ok {
			v.p = placed(dr, mask, mp)
		}
		return v
	}
	f := truetype.NewFace(t.ft, x.o)
	n := longLen(c, true)
	nx, ny := 1+r.IntN(4), 1+r.IntN(2)
	for j := 1; j <= n; j++ {
		k := key{rs[r.IntN(len(rs))], 64/nx*r.IntN(nx) + 64*(r.IntN(3)-1), 64/ny*r.IntN(ny) + 128}
		want, ok := memo[k]
		if !ok {
			o := x.o
			if o != nil {
				o = &truetype.Options{}
				*o = *x.o
				o.GlyphCacheEntries = 1
			}
			want = ask(truetype.NewFace(t.ft, o), k)
			memo[k] = want
		}
		got := ask(f, k)
		msg := ""
		switch {
		case got.ok != want.ok || got.adv != want.adv || got.dr != want.dr:
			msg = fmt.Sprintf("rectangle %v, advance %d, ok %v; a new face gives %v, %d, %v", got.dr, got.adv, got.ok, want.dr, want.adv, want.ok)
		case got.ok:
			msg = sameAlpha(got.p, want.p)
		}
		if msg != "" {
			c.Describe("%s font upem %d, options %v (scale %d), request %d: rune %#x at %d,%d", t.name, t.model.UPEM, x, x.scale, j, k.r, k.x, k.y)
			c.Fail("after %d requests: %s", j-1, msg)
		}
	}
	c.Eval(n)
	c.Event("images of faces used thousands of times", n)
	c.Nontrivial(mon.Hash(c.Index, n, len(rs), x.String()))
	c.Sample("%d images of %d glyphs and positions, options %v", n, len(memo), x)
}

// c23Long draws glyphs with one context again and again.
func c23Long(c *mon.Case) {
	r := c.R
	var fonts []*textFont
	for k := 1 + r.IntN(2); k > 0; k-- {
		if r.IntN(3) == 0 {
			fonts = append(fonts, realTextFont(c))
		} else {
			fonts = append(fonts, newTextFont(c))
		}
	}
	sizes := []float64{float64(4 + r.IntN(8)), float64(8+r.IntN(20)) / 2}
	for _, f := range fonts {
		for _, s := range sizes {
			if v := int64(s * 64); v > f.model.MaxScale() || f.extent(v) > 1<<11 {
				return
			}
		}
	}
	type key struct {
		f, s int
		h    font.Hinting
		r    rune
	}
	type val struct {
		p   *image.RGBA
		end fixed.Point26_6
		err bool
	}
	memo := map[key]val{}
	b := image.Rect(0, 0, 12, 12)
	// Always at one fraction of a pixel, so that the cache's quantisation does
	// not show.
	at := fixed.Point26_6{X: 3*64 + fixed.Int26_6(r.IntN(64)), Y: 8*64 + fixed.Int26_6(r.IntN(64))}
	src := image.NewUniform(color.RGBA{200, 100, 50, 255})
	draw := func(ctx *freetype.Context, x rune) (v val) {
		v.p = image.NewRGBA(b)
		ctx.SetDst(v.p)
		end, err := ctx.DrawString(string(x), at)
		v.end, v.err = end, err != nil
		return v
	}
	set := func(ctx *freetype.Context, k key) {
		ctx.SetFont(fonts[k.f].ft)
		ctx.SetFontSize(sizes[k.s])
		ctx.SetHinting(k.h)
	}
	var rs []rune
	for k := 0; k < 40; k++ {
		x := fonts[r.IntN(len(fonts))].rune(r)
		if x < 0 || x > 0x10ffff || 0xd800 <= x && x <= 0xdfff {
			continue
		}
		rs = append(rs, x)
	}
	if len(rs) == 0 {
		return
	}
	ctx := freetype.NewContext()
	ctx.SetSrc(src)
	ctx.SetClip(b)
	cur := key{}
	set(ctx, cur)
	n, change := longLen(c, true), pick(r, 3, 20, 300)
	for j := 1; j <= n; j++ {
		if r.IntN(change) == 0 {
			cur.f, cur.s, cur.h = r.IntN(len(fonts)), r.IntN(len(sizes)), pick(r, font.HintingNone, font.HintingFull)
			set(ctx, cur)
		}
		cur.r = rs[r.IntN(len(rs))]
		want, ok := memo[cur]
		if !ok {
			fresh := freetype.NewContext()
			fresh.SetSrc(src)
			fresh.SetClip(b)
			set(fresh, cur)
			want = draw(fresh, cur.r)
			memo[cur] = want
		}
		got := draw(ctx, cur.r)
		msg := ""
		switch {
		case got.err != want.err || !got.err && got.end != want.end:
			msg = fmt.Sprintf("ends at %v, failed %v; a fresh context: %v, %v", got.end, got.err, want.end, want.err)
		case !want.err && string(got.p.Pix) != string(want.p.Pix):
			msg = "pixels differ from those of a fresh context"
		}
		if msg != "" {
			c.Describe("drawing %d of one context: fonts %d (upem %d), size %v, hinting %v, rune %#x at %v", j, cur.f, fonts[cur.f].model.UPEM, sizes[cur.s], cur.h, cur.r, at)
			c.Fail("after %d drawings: %s", j-1, msg)
		}
	}
	c.Eval(n)
	c.Event("drawings of contexts used thousands of times", n)
	c.Nontrivial(mon.Hash(c.Index, n, len(memo)))
	c.Sample("%d drawings of %d combinations", n, len(memo))
}

// far tells whether any point of a shape is so many pixels from the origin.
func (s shape) far(pixels int) bool {
	out := func(p fixed.Point26_6) bool {
		return max(p.X, -p.X) > fixed.Int26_6(64*pixels) || max(p.Y, -p.Y) > fixed.Int26_6(64*pixels)
	}
	for _, c := range s {
		if out(c.start) {
			return true
		}
		for _, g := range c.segs {
			for _, p := range g {
				if out(p) {
					return true
				}
			}
		}
	}
	return false
}
