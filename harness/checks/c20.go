package checks

import (
	"image"
	"math/rand/v2"

	"github.com/golang/freetype/truetype"
	"golang.org/x/image/font"
	"golang.org/x/image/math/fixed"

	"verif/harness/fontgen"
	"verif/harness/mon"
)

func init() {
	mon.Register(&mon.Check{
		ID:   "C20",
		Rule: "A case makes a face of a random or a real font with random options, and interleaves measurements (advance, bounds, kerning, metrics) with glyph images; each is compared with the font's, from a fresh buffer, and with the image. Non-trivial: a measurement of a glyph that loads; distinct by font, scale and glyph.",
		Assumptions: []string{
			"the metrics of the font are those that C05 judges, the loaded glyphs those that C07 to C11 judge",
			"sizes and resolutions whose scale is within a millionth of half a 26.6 unit are left out: floating-point arithmetic may round them either way",
		},
		Streams: []mon.Stream{
			{Name: "random", Quick: 27000, Thorough: 300000, Run: func(c *mon.Case) { c20Run(c, newTextFont(c)) }},
			{Name: "real", Quick: 4500, Thorough: 50000, Run: func(c *mon.Case) { c20Run(c, realTextFont(c)) }},
			{Name: "scales", Quick: 60000, Thorough: 500000, Run: c20Scales},
			{Name: "metrics", Quick: 36000, Thorough: 500000, Run: c20Metrics},
		},
		Required: []string{"advances", "bounds", "kernings", "kernings rounded to pixels", "negative kernings rounded", "metrics", "metrics just above a whole unit", "scales", "scales rounded up", "scales rounded down", "images enclosed", "glyphs that do not load", "bounds of empty glyphs"},
	})
}

func ceilDiv(a, b int64) int64 {
	q := a / b
	if a%b > 0 {
		q++
	}
	return q
}

// c20Measure asks a face for one measurement and checks it.
func c20Measure(c *mon.Case, r *rand.Rand, f font.Face, t *textFont, x *faceOpts, l *glyphLoader, rs []rune) {
	a := rs[r.IntN(len(rs))]
	i := t.ft.Index(a)
	g := l.load(i)
	switch r.IntN(4) {
	case 0:
		adv, ok := f.GlyphAdvance(a)
		if ok != (g != nil) {
			c.Fail("rune %#x: GlyphAdvance ok is %v, the glyph loads: %v", a, ok, g != nil)
		}
		if g == nil {
			c.Event("glyphs that do not load", 1)
			return
		}
		if adv != g.AdvanceWidth {
			c.Fail("rune %#x: GlyphAdvance %d, want %d", a, adv, g.AdvanceWidth)
		}
		c.Event("advances", 1)
	case 1:
		b, adv, ok := f.GlyphBounds(a)
		if ok != (g != nil) {
			c.Fail("rune %#x: GlyphBounds ok is %v, the glyph loads: %v", a, ok, g != nil)
		}
		if g == nil {
			c.Event("glyphs that do not load", 1)
			return
		}
		want := fixed.Rectangle26_6{Min: fixed.Point26_6{X: g.Bounds.Min.X, Y: -g.Bounds.Max.Y}, Max: fixed.Point26_6{X: g.Bounds.Max.X, Y: -g.Bounds.Min.Y}}
		if b != want || adv != g.AdvanceWidth {
			c.Fail("rune %#x: GlyphBounds %v, advance %d, want %v, %d", a, b, adv, want, g.AdvanceWidth)
		}
		if len(g.Points) == 0 {
			c.Event("bounds of empty glyphs", 1)
		}
		c.Event("bounds", 1)
	case 2:
		b := rs[r.IntN(len(rs))]
		k0 := t.ft.Kern(fixed.Int26_6(x.scale), i, t.ft.Index(b))
		got := f.Kern(a, b)
		if x.h == font.HintingNone {
			if got != k0 {
				c.Fail("Kern(%#x, %#x) is %d, want %d", a, b, got, k0)
			}
		} else {
			d := got - k0
			if got%64 != 0 || d > 32 || d < -32 {
				c.Fail("Kern(%#x, %#x) is %d, want %d rounded to pixels", a, b, got, k0)
			}
			if k0%64 != 0 {
				c.Event("kernings rounded to pixels", 1)
				if k0 < 0 {
					c.Event("negative kernings rounded", 1)
				}
			}
		}
		if k0 != 0 {
			c.Event("kernings", 1)
		}
	case 3:
		m := f.Metrics()
		up := int64(t.model.UPEM)
		asc, desc := ceilDiv(x.scale*int64(t.model.Ascent), up), ceilDiv(-x.scale*int64(t.model.Descent), up)
		if int64(m.Height) != x.scale || int64(m.Ascent) != asc || int64(m.Descent) != desc {
			c.Fail("metrics %+v, want height %d, ascent %d (%d units), descent %d (%d units)", m, x.scale, asc, t.model.Ascent, desc, t.model.Descent)
		}
		c.Event("metrics", 1)
	}
	c.Eval(1)
	if g != nil {
		c.Nontrivial(mon.Hash(t.name, t.model.UPEM, int(x.scale), int(i), len(g.Points), int(g.AdvanceWidth)))
	}
}

func c20Run(c *mon.Case, t *textFont) {
	r := c.R
	x := randFaceOpts(r, t, 1<<21)
	c.Describe("%s font, options %v", t.name, x)
	f := truetype.NewFace(t.ft, x.o)
	l := newLoader(t.ft, x.scale, x.h)
	var rs []rune
	for k := 2 + r.IntN(8); k > 0; k-- {
		if a := t.rune(r); t.drawable(l, a) {
			rs = append(rs, a)
		}
	}
	if k := t.model.Kern; len(k) > 0 && len(t.runes) > 1 {
		// A pair that is kerned.
		p := k[r.IntN(len(k))]
		var a, b rune = -1, -1
		for _, x := range t.runes {
			switch t.ft.Index(x) {
			case truetype.Index(p.L):
				a = x
			}
			if t.ft.Index(x) == truetype.Index(p.R) {
				b = x
			}
		}
		if a >= 0 && b >= 0 && t.drawable(l, a) && t.drawable(l, b) {
			rs = append(rs[:min(len(rs), 3)], a, b)
		}
	}
	if len(rs) == 0 {
		return
	}
	c.Sample("%s font, options %v, runes %x", t.name, x, rs)
	for n := 0; n < 40; n++ {
		c.Describe("%s font upem %d ascent %d descent %d, options %v (scale %d), runes %x", t.name, t.model.UPEM, t.model.Ascent, t.model.Descent, x, x.scale, rs)
		if r.IntN(3) != 0 {
			c20Measure(c, r, f, t, x, l, rs)
			continue
		}
		a := rs[r.IntN(len(rs))]
		d := randDot(r)
		dr, mask, mp, adv, ok := f.Glyph(d, a)
		b, badv, bok := f.GlyphBounds(a)
		aadv, aok := f.GlyphAdvance(a)
		if ok != bok || ok != aok {
			c.Fail("rune %#x: Glyph ok is %v, GlyphBounds' %v, GlyphAdvance's %v", a, ok, bok, aok)
		}
		if !ok {
			continue
		}
		if adv != badv || adv != aadv {
			c.Fail("rune %#x at %v: Glyph's advance is %d, GlyphBounds' %d, GlyphAdvance's %d", a, d, adv, badv, aadv)
		}
		// The bounds at the dot, rounded to the sub-pixel position.
		q := fixed.Point26_6{X: quantise(d.X, x.qx), Y: quantise(d.Y, x.qy)}
		box := image.Rect(int(q.X+b.Min.X)>>6, int(q.Y+b.Min.Y)>>6, -(int(-q.X-b.Max.X) >> 6), -(int(-q.Y-b.Max.Y) >> 6))
		// Still the image that was returned before measuring?
		p := placed(dr, mask, mp)
		for y := dr.Min.Y; y < dr.Max.Y; y++ {
			for xx := dr.Min.X; xx < dr.Max.X; xx++ {
				if alphaAt(p, xx, y) != 0 && !(image.Point{X: xx, Y: y}).In(box) {
					c.Fail("rune %#x at %v: ink at (%d,%d), outside the bounds %v, which are pixels %v", a, d, xx, y, b, box)
				}
			}
		}
		if g := l.load(t.ft.Index(a)); g != nil {
			if msg := diffImage(p, g, q); msg != "" {
				c.Fail("rune %#x at %v, after measuring: %s", a, d, msg)
			}
		}
		c.Event("images enclosed", 1)
		c.Eval(1)
	}
}

// c20Scales: the scale, seen in the metrics.
func c20Scales(c *mon.Case) {
	r := c.R
	t := newTextFontTiny(c)
	for k := 0; k < 20; k++ {
		size, dpi := float64(1+r.IntN(100)), pick(r, 72.0, 96, 75, 100, 120, 150, 300)
		switch r.IntN(3) {
		case 0:
			size, dpi = r.Float64()*100, r.Float64()*200
		case 1:
			size /= 8
		}
		want, ok := scaleOf(size, dpi)
		if !ok || want > t.model.MaxScale() || size <= 0 || dpi <= 0 {
			continue
		}
		c.Describe("size %v dpi %v", size, dpi)
		m := truetype.NewFace(t.ft, &truetype.Options{Size: size, DPI: dpi, GlyphCacheEntries: 1}).Metrics()
		if int64(m.Height) != want {
			c.Fail("the em is %d, want %v*%v/72 = %v, that is %d", m.Height, size, dpi, size*dpi/72, want)
		}
		v := size * dpi * 64 / 72
		if float64(want) > v {
			c.Event("scales rounded up", 1)
		} else if float64(want) < v {
			c.Event("scales rounded down", 1)
		}
		c.Event("scales", 1)
		c.Nontrivial(mon.Hash(size, dpi))
		c.Sample("size %v dpi %v scale %d", size, dpi, want)
	}
}

// c20Metrics: the metrics at scales where they are barely above, or exactly,
// a whole number of 26.6 units.
func c20Metrics(c *mon.Case) {
	r := c.R
	f := fontgen.Rand(r, fontgen.Opts{MaxGlyphs: 1, MaxPoints: 3, Plain: true, Runes: true, Drawable: true})
	f.XMin, f.YMin, f.XMax, f.YMax = 0, 0, 1, 1
	f.Ascent, f.Descent = int16(r.UintN(65536)), int16(r.UintN(65536))
	if r.IntN(2) == 0 {
		f.Ascent, f.Descent = int16(r.IntN(2*f.UPEM)), int16(-r.IntN(f.UPEM))
	}
	ft := parse(c, f)
	up := int64(f.UPEM)
	lim := min(f.MaxScale(), (1<<31-1)*up/32768)
	for k := 0; k < 40; k++ {
		s := 1 + r.Int64N(pick(r, min(lim, 6400), min(lim, 1<<16), min(lim, 1<<20), lim))
		// The next scale that leaves little over the whole, if any is near.
		for j := int64(0); j < 2*up && s+j <= lim; j++ {
			if m := (s + j) * int64(f.Ascent) % up; m == 1 || m == 1-up {
				s += j
				break
			}
		}
		c.Describe("units per em %d ascent %d descent %d scale %d", up, f.Ascent, f.Descent, s)
		m := truetype.NewFace(ft, &truetype.Options{Size: float64(s) / 64, DPI: 72, GlyphCacheEntries: 1}).Metrics()
		asc, desc := ceilDiv(s*int64(f.Ascent), up), ceilDiv(-s*int64(f.Descent), up)
		if int64(m.Height) != s || int64(m.Ascent) != asc || int64(m.Descent) != desc {
			c.Fail("metrics %+v, want height %d, ascent %d, descent %d", m, s, asc, desc)
		}
		c.Event("metrics", 1)
		if (s*int64(f.Ascent)-1)%up == 0 {
			c.Event("metrics just above a whole unit", 1)
		}
		c.Nontrivial(mon.Hash(int(up), int(f.Ascent), int(f.Descent), int(s)))
		c.Eval(1)
	}
}
