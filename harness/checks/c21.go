package checks

import (
	"image"
	"math"

	"github.com/golang/freetype"
	"golang.org/x/image/font"
	"golang.org/x/image/math/fixed"

	"verif/harness/mon"
)

func init() {
	mon.Register(&mon.Check{
		ID:   "C21",
		Rule: "A case draws strings (of mapped, unmapped and kerned runes, and of bytes that are not UTF-8) with one context, at random pen positions, sizes, resolutions and hinting, onto images of several kinds; the returned position is compared with the sum of advances and kernings, the image with the glyphs, loaded and rasterised afresh, composited one by one; and pixels and points are converted to 26.6 units. Non-trivial: a string that changed the target; distinct by the target's pixels.",
		Assumptions: []string{
			"the outlines, kernings and coverages are those that C05, C07 to C11 and C12 to C15 judge; image/draw composites",
			"a glyph may appear at any position less than a quarter of a pixel horizontally and a pixel vertically from its own, as the cache quantises positions",
			"sources are of one colour; C22 has others",
			"scales are such that the rasteriser's bounds fit in memory",
		},
		Streams: []mon.Stream{
			{Name: "fresh", Quick: 40000, Thorough: 250000, Run: func(c *mon.Case) { c21Run(c, newTextFont(c), 1+c.R.IntN(2), 8) }},
			{Name: "history", Quick: 30000, Thorough: 200000, Run: func(c *mon.Case) { c21Run(c, newTextFont(c), 4+c.R.IntN(30), 2) }},
			{Name: "real", Quick: 6000, Thorough: 80000, Run: func(c *mon.Case) { c21Run(c, realTextFont(c), 1+c.R.IntN(20), 6) }},
			{Name: "long", Quick: 60, Thorough: 3000, Run: c21Long},
			{Name: "measures", Quick: 4000, Thorough: 50000, Run: c21Measures},
		},
		Required: []string{"strings drawn", "strings that changed the target", "strings with a glyph that does not load", "drawings without a font", "kernings", "kernings rounded to pixels", "invalid UTF-8", "unmapped runes", "glyphs drawn nearby before", "glyphs a cache's size apart", "hinted strings", "negative pens", "drawings as predicted", "drawings that go on after a failure", "points converted", "pixels converted", "strings of hundreds of runes"},
	})
}

func c21Run(c *mon.Case, t *textFont, draws, length int) {
	r := c.R
	m := newCtxModel()
	m.setDst(randDst(r, 10+r.IntN(60), 10+r.IntN(40), false))
	m.setSrc(image.NewUniform(randColor(r)))
	m.setClip(m.dst.Bounds())
	if r.IntN(30) == 0 {
		m.drawAndJudge(c, "x", fixed.Point26_6{})
	}
	if !m.randSettings(c, t) {
		return
	}
	b := m.dst.Bounds()
	var strs []string
	for k := 0; k < draws; k++ {
		if r.IntN(6) == 0 {
			m.setSrc(image.NewUniform(randColor(r)))
		}
		if r.IntN(10) == 0 {
			// Neither clip nor target matter to the positions.
			m.setClip(image.Rect(b.Min.X+r.IntN(20)-10, b.Min.Y+r.IntN(20)-10, b.Max.X+r.IntN(20)-10, b.Max.Y+r.IntN(20)-10))
		}
		var s string
		if len(strs) > 0 && r.IntN(2) == 0 {
			s = strs[r.IntN(len(strs))]
		} else {
			s = m.randString(c, 1+r.IntN(length))
			if n := len(t.runes); n > 256 && r.IntN(3) == 0 {
				// Glyphs that are a cache's size apart.
				l := m.loader(c)
				x := t.runes[r.IntN(n)]
				for _, y := range t.runes {
					if int(t.ft.Index(x))%256 == int(t.ft.Index(y))%256 && x != y && t.drawable(l, x) && t.drawable(l, y) {
						s = string([]rune{x, y, x})
						c.Event("glyphs a cache's size apart", 1)
						break
					}
				}
			}
			strs = append(strs, s)
		}
		v := func(lo, hi int) fixed.Int26_6 { return fixed.Int26_6(64*lo + r.IntN(64*(hi-lo)+1)) }
		p := fixed.Point26_6{X: v(b.Min.X-4, b.Max.X), Y: v(b.Min.Y, b.Max.Y+4)}
		switch r.IntN(6) {
		case 0:
			p.X &^= 63
			p.Y &^= 63
		case 1:
			p.Y &^= 63
		}
		if p.X < 0 || p.Y < 0 {
			c.Event("negative pens", 1)
		}
		if m.h != font.HintingNone {
			c.Event("hinted strings", 1)
		}
		c.Sample("%v: %q at %d,%d", m, s, p.X, p.Y)
		if !m.drawAndJudge(c, s, p) {
			if r.IntN(2) == 0 {
				c.Event("drawings that go on after a failure", 1)
				continue
			}
			m.setHinting(m.h)
			m.setDst(randDst(r, b.Dx()+10, b.Dy()+10, false))
			b = m.dst.Bounds()
			m.setClip(b)
		}
	}
}

// c21Measures converts pixels and points.
func c21Measures(c *mon.Case) {
	r := c.R
	ctx := freetype.NewContext()
	dpi := 72.0
	for k := 0; k < 10; k++ {
		if r.IntN(3) == 0 {
			dpi = pick(r, 72, 96, 36.5, 300, 1+float64(r.IntN(400)), r.Float64()*300)
			ctx.SetDPI(dpi)
		}
		switch r.IntN(4) {
		case 0:
			ctx.SetFontSize(r.Float64() * 100)
		case 1:
			ctx.SetHinting(font.Hinting(r.IntN(3)))
		}
		x := pick(r, 0, 1, 12, -1, float64(r.IntN(1000)-500), r.Float64()*1000, r.NormFloat64()*20)
		c.Describe("dpi %v", dpi)
		if got, want := float64(ctx.PointToFixed(x)), x*dpi*64/72; math.Abs(got-want) > 1+math.Abs(want)*1e-9 {
			c.Fail("%v points are %v units, want %v", x, got, want)
		}
		c.Event("points converted", 1)
		px, py := r.IntN(1<<25)-1<<24, r.IntN(2000)-1000
		if r.IntN(2) == 0 {
			px, py = py, px
		}
		if got := freetype.Pt(px, py); int(got.X) != 64*px || int(got.Y) != 64*py {
			c.Fail("Pt(%d, %d) is %v", px, py, got)
		}
		c.Event("pixels converted", 1)
		c.Eval(2)
		c.Nontrivial(mon.Hash(dpi, x, px, py))
	}
}

// c21Long draws strings of hundreds or thousands of runes.
func c21Long(c *mon.Case) {
	r := c.R
	t := newTextFont(c)
	m := newCtxModel()
	m.setDst(randDst(r, 25, 30, false))
	m.setSrc(image.NewUniform(randColor(r)))
	m.setClip(m.dst.Bounds())
	if !m.randSettings(c, t) {
		return
	}
	if s := m.loader(c); t.extent(int64(m.ctx.PointToFixed(m.size))) > 1<<14 || s == nil {
		return
	}
	n := pick(r, 255, 256, 257, 300, 1000, 5000) + r.IntN(20)
	var s []rune
	x := []rune(m.randString(c, 20))
	if len(x) == 0 {
		return
	}
	for len(s) < n {
		s = append(s, x[r.IntN(len(x))])
	}
	b := m.dst.Bounds()
	if m.drawAndJudge(c, string(s), fixed.Point26_6{X: fixed.Int26_6(64 * b.Min.X), Y: fixed.Int26_6(64*b.Min.Y + 64*20)}) {
		c.Event("strings of hundreds of runes", 1)
	}
}
