package checks

import (
	"fmt"
	"image"
	"image/color"
	"math/rand/v2"

	"github.com/golang/freetype/truetype"
	"golang.org/x/image/font"
	"golang.org/x/image/math/fixed"

	"verif/harness/fontgen"
	"verif/harness/mon"
	"verif/harness/ttgen"
)

// A textFont is a font to draw with.
type textFont struct {
	name  string
	ft    *truetype.Font
	model *fontgen.Font
	runes []rune // that show glyphs
	// The sizes of the glyphs, once computed.
	np, nc []int
}

// colliding are offsets between runes that a cache might take for equal.
var colliding = []int{0, 256, 512, 1024, 0x8000}

// newTextFont makes a random font.
func newTextFont(c *mon.Case) *textFont { return newTextFontOf(c, false) }

func newTextFontOf(c *mon.Case, many bool) *textFont {
	r := c.R
	o := fontgen.Opts{MaxGlyphs: 2 + r.IntN(12), MaxPoints: 12, Composites: true, Matrices: r.IntN(2) == 0, UseMetrics: r.IntN(3) == 0, Honest: r.IntN(3) != 0, Drawable: r.IntN(4) != 0, Runes: true, Kern: true}
	o.Plain = r.IntN(2) == 0
	if r.IntN(20) == 0 || many {
		// Glyph indexes that a cache might take for equal.
		o.MaxGlyphs, o.MaxPoints = 300+r.IntN(300), 4
	}
	f := fontgen.Rand(r, o)
	n := len(f.Glyphs)
	t := &textFont{model: f}
	if n < 200 {
		// Map further runes, to the same glyphs in another order.
		var segs []fontgen.Seg4
		for _, d := range colliding {
			g := fontgen.Seg4{Start: uint16(fontgen.Base + d), End: uint16(fontgen.Base + d + n - 1)}
			for i := 0; i < n; i++ {
				k := i
				if d != 0 {
					k = r.IntN(n)
					if r.IntN(20) == 0 {
						// A glyph that the font does not have.
						k = pick(r, n+r.IntN(5), 256+r.IntN(n))
					}
				}
				g.Glyphs = append(g.Glyphs, uint16(k))
			}
			segs = append(segs, g)
		}
		f.CmapSubs = []fontgen.CmapSub{{Format: 4, Segs: segs}}
	} else if r.IntN(2) == 0 {
		// Also runes for glyphs that the font does not have, whose indexes a
		// cache might take for those of others.
		g := fontgen.Seg4{Start: fontgen.Base, End: uint16(fontgen.Base + 2*n - 1)}
		for i := 0; i < n; i++ {
			g.Glyphs = append(g.Glyphs, uint16(i))
		}
		for i := 0; i < n; i++ {
			g.Glyphs = append(g.Glyphs, uint16(i%256+256*(2+n/256)))
		}
		f.CmapSubs = []fontgen.CmapSub{{Format: 4, Segs: []fontgen.Seg4{g}}}
	}
	if !o.Honest {
		// Bounds that are too small, off or empty, but not large.
		e := f.UPEM
		v := func() int16 { return int16(max(-16000, min(16000, r.IntN(2*e)-e))) }
		f.XMin, f.YMin = v(), v()
		f.XMax, f.YMax = f.XMin+int16(r.IntN(e)), f.YMin+int16(r.IntN(e))
		switch r.IntN(6) {
		case 0:
			f.XMin, f.YMin, f.XMax, f.YMax = 0, 0, 0, 0
		case 1:
			f.XMin, f.XMax = f.XMax, f.XMin
		case 2:
			f.YMin, f.YMax = f.YMax, f.YMin
		}
	}
	if o.Drawable && r.IntN(3) == 0 {
		ttgen.Programs(r, f, int64(64*(6+r.IntN(30))), 5)
	}
	t.name = "random"
	t.ft = parse(c, f)
	t.scan()
	return t
}

// scan finds the runes.
func (t *textFont) scan() {
	t.runes = nil
	f := t.model
	seen := 0
	for _, s := range f.Cmap().Segs {
		for r := int(s.Start); r <= int(s.End) && r < 0xffff && seen < 4000; r++ {
			if g := f.Cmap().Lookup(int32(r)); g != 0 && int(g) < len(f.Glyphs) {
				t.runes = append(t.runes, rune(r))
				seen++
			}
		}
	}
	for _, s := range f.Cmap().Groups {
		for r := s.Start; r <= s.End && r <= 0x10ffff && seen < 4000; r++ {
			if g := f.Cmap().Lookup(int32(r)); g != 0 && int(g) < len(f.Glyphs) {
				t.runes = append(t.runes, rune(r))
				seen++
			}
		}
	}
}

// realTextFont is one of the real fonts.
func realTextFont(c *mon.Case) *textFont {
	fs := realFonts()
	f := fs[c.R.IntN(len(fs))]
	if f.model == nil || f.ft == nil {
		c.Fail("font %s: %v %v", f.name, f.err, f.modelErr)
	}
	t := &textFont{name: f.name, ft: f.ft, model: f.model}
	t.scan()
	return t
}

// rune picks a rune: mostly one that shows a glyph.
func (t *textFont) rune(r *rand.Rand) rune {
	switch k := r.IntN(30); {
	case k == 0:
		return pick(r, rune(-1), -2, 0, 0x10ffff, 0x110000, 1<<30, -1<<31, 0xffff, 0xfffd)
	case k == 1:
		return rune(r.IntN(0x3000))
	case k == 2:
		return rune(fontgen.Base + pick(r, colliding...) + r.IntN(len(t.model.Glyphs)))
	case len(t.runes) == 0:
		return rune(r.IntN(100))
	}
	return t.runes[r.IntN(len(t.runes))]
}

// drawable tells whether a rune's glyph is small enough to be worth drawing.
func (t *textFont) drawable(l *glyphLoader, x rune) bool {
	if t.np == nil {
		t.np, t.nc = loadSize(t.model)
	}
	i := t.ft.Index(x)
	if int(i) >= len(t.np) {
		return true
	}
	if t.np[i] > 4000 || t.nc[i] > 500 {
		return false
	}
	g := l.load(i)
	if g == nil {
		return true
	}
	b := pixelBox(g.Bounds, fixed.Point26_6{})
	return b.Dx() <= 4000 && b.Dy() <= 4000 && b.Dx()*b.Dy() <= 1<<17
}

// extent is the area of the font's bounds in pixels at a scale, about.
func (t *textFont) extent(scale int64) int64 {
	f := t.model
	px := func(a, b int16) int64 {
		d := int64(b) - int64(a)
		if d < 0 {
			d = -d
		}
		return d*scale/int64(f.UPEM)/64 + 3
	}
	return px(f.XMin, f.XMax) * px(f.YMin, f.YMax)
}

// A glyphLoader loads glyphs with fresh buffers.
type glyphLoader struct {
	ft    *truetype.Font
	scale int64
	h     font.Hinting
	cache map[truetype.Index]*truetype.GlyphBuf
}

func newLoader(ft *truetype.Font, scale int64, h font.Hinting) *glyphLoader {
	return &glyphLoader{ft, scale, h, map[truetype.Index]*truetype.GlyphBuf{}}
}

// load returns nil if the glyph does not load.
func (l *glyphLoader) load(i truetype.Index) *truetype.GlyphBuf {
	g, ok := l.cache[i]
	if !ok {
		g = &truetype.GlyphBuf{}
		if g.Load(l.ft, fixed.Int26_6(l.scale), i, l.h) != nil {
			g = nil
		}
		l.cache[i] = g
	}
	return g
}

// glyphAt draws a loaded glyph with its origin at d. The image's rectangle
// places it.
func glyphAt(g *truetype.GlyphBuf, d fixed.Point26_6, h rendering) *image.Alpha {
	b := pixelBox(g.Bounds, d)
	// Keep the coordinates small.
	fx, fy := d.X-fixed.Int26_6(b.Min.X<<6), d.Y-fixed.Int26_6(b.Min.Y<<6)
	m := drawShape(outlineShape(g.Points, g.Ends, fx, fy, h.mid), b.Dx(), b.Dy(), h.canvas)
	m.Rect = b
	return m
}

// alphaAt is the alpha at a point, 0 outside.
func alphaAt(m *image.Alpha, x, y int) uint8 {
	if !(image.Point{X: x, Y: y}).In(m.Rect) {
		return 0
	}
	return m.Pix[m.PixOffset(x, y)]
}

// placed is the part of mask at mp that dr places, as an image of its own.
func placed(dr image.Rectangle, mask image.Image, mp image.Point) *image.Alpha {
	out := image.NewAlpha(dr)
	if a, ok := mask.(*image.Alpha); ok {
		for y := dr.Min.Y; y < dr.Max.Y; y++ {
			for x := dr.Min.X; x < dr.Max.X; x++ {
				out.Pix[out.PixOffset(x, y)] = alphaAt(a, x-dr.Min.X+mp.X, y-dr.Min.Y+mp.Y)
			}
		}
		return out
	}
	for y := dr.Min.Y; y < dr.Max.Y; y++ {
		for x := dr.Min.X; x < dr.Max.X; x++ {
			_, _, _, v := mask.At(x-dr.Min.X+mp.X, y-dr.Min.Y+mp.Y).RGBA()
			out.SetAlpha(x, y, color.Alpha{A: uint8(v >> 8)})
		}
	}
	return out
}

// sameAlpha compares two placed images; "" means equal.
func sameAlpha(got, want *image.Alpha) string {
	u := got.Rect.Union(want.Rect)
	for y := u.Min.Y; y < u.Max.Y; y++ {
		for x := u.Min.X; x < u.Max.X; x++ {
			if a, b := alphaAt(got, x, y), alphaAt(want, x, y); a != b {
				return fmt.Sprintf("pixel (%d,%d) has coverage %d, want %d (got rectangle %v, want %v)", x, y, a, b, got.Rect, want.Rect)
			}
		}
	}
	return ""
}

// diffImage compares a placed image with a glyph drawn at d, under any of
// the renderings.
func diffImage(got *image.Alpha, g *truetype.GlyphBuf, d fixed.Point26_6) string {
	var first string
	for k, h := range renderings {
		msg := sameAlpha(got, glyphAt(g, d, h))
		if msg == "" {
			return ""
		}
		if k == 0 {
			first = msg
		}
	}
	return first
}

// inked tells whether a placed image has a pixel that is not 0.
func inked(m *image.Alpha) bool {
	for _, p := range m.Pix {
		if p != 0 {
			return true
		}
	}
	return false
}

// newTextFontTiny makes a font with small bounds.
func newTextFontTiny(c *mon.Case) *textFont {
	f := fontgen.Rand(c.R, fontgen.Opts{MaxGlyphs: 1, MaxPoints: 3, Plain: true, Runes: true, Drawable: true})
	f.XMin, f.YMin, f.XMax, f.YMax = 0, 0, 1, 1
	return &textFont{name: "tiny", ft: parse(c, f), model: f}
}

// lookalike makes a font that differs from a modelled one only in its simple
// glyphs, which are mirrored within the boxes of their points: it has the same
// bounds, glyph indexes and metrics.
func (t *textFont) lookalike(c *mon.Case) *textFont {
	m := *t.model
	dx := c.R.IntN(2) == 0
	m.Glyphs = nil
	for _, g := range t.model.Glyphs {
		g2 := *g
		g2.Contours = nil
		x0, x1, y0, y1 := int16(32767), int16(-32768), int16(32767), int16(-32768)
		for _, k := range g.Contours {
			for _, p := range k {
				x0, x1, y0, y1 = min(x0, p.X), max(x1, p.X), min(y0, p.Y), max(y1, p.Y)
			}
		}
		if x0 < -16000 || x1 > 16000 || y0 < -16000 || y1 > 16000 {
			m.Glyphs = append(m.Glyphs, g)
			continue
		}
		for _, k := range g.Contours {
			var ps []fontgen.Pt
			for _, p := range k {
				if dx {
					p.X = x0 + x1 - p.X
				} else {
					p.Y = y0 + y1 - p.Y
				}
				ps = append(ps, p)
			}
			g2.Contours = append(g2.Contours, ps)
		}
		m.Glyphs = append(m.Glyphs, &g2)
	}
	u := &textFont{name: t.name + " mirrored", ft: parse(c, &m), model: &m}
	u.scan()
	return u
}
