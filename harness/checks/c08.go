package checks

import (
	"github.com/golang/freetype/truetype"
	"golang.org/x/image/font"

	"verif/harness/fontgen"
	"verif/harness/mon"
	"verif/harness/reftt"
)

func init() {
	mon.Register(&mon.Check{
		ID:   "C08",
		Rule: "A case encodes a random font with composite glyphs (argument sizes, transforms, nesting, rounding, metric suppliers), loads them unhinted at random scales and compares points, contour ends and advance with the reference loader; or does so for the composite glyphs of real fonts. Non-trivial: a composite load with points; distinct by components, metrics and scale.",
		Assumptions: []string{
			"components are placed by offsets, which a transform does not scale; where a component is placed by matching points, a load may fail but not ignore that",
			"at most one component of a glyph supplies its metrics",
		},
		Streams: []mon.Stream{
			{Name: "random", Quick: 240000, Thorough: 2000000, Run: c08Random},
			{Name: "nested", Quick: 24000, Thorough: 200000, Run: c08Nested},
			{Name: "huge", Quick: 24, Thorough: 1000, Run: c08Huge},
			{Name: "matched", Quick: 16000, Thorough: 100000, Run: c08Matched},
			{Name: "real", Quick: 1200, Thorough: 10000, Run: c08Real},
		},
		Required: []string{"loads", "kind 1 components", "kind 2 components", "kind 3 components", "rounded offsets", "metric suppliers", "metric suppliers within components", "word offsets", "empty components", "nesting of 8 and more", "fonts of more than 32767 glyphs", "components placed by points", "real: loads"},
	})
}

func c08Random(c *mon.Case) {
	r := c.R
	f := fontgen.Rand(r, fontgen.Opts{MaxGlyphs: 9, MaxPoints: 8, Composites: true, Matrices: true, UseMetrics: true})
	ft := parse(c, f)
	g := &truetype.GlyphBuf{}
	for k := 0; k < 3; k++ {
		c08Loads(c, f, ft, g, randScale(r, f.MaxScale()), r.Perm(len(f.Glyphs)), "")
	}
}

func depthOf(f *fontgen.Font, i int) int {
	d := 0
	for _, c := range f.Glyphs[i].Components {
		d = max(d, 1+depthOf(f, int(c.Glyph)))
	}
	return d
}

func c08Loads(c *mon.Case, f *fontgen.Font, ft *truetype.Font, g *truetype.GlyphBuf, s int64, is []int, name string) {
	env, out := reftt.NewEnv(f, s, false)
	if out != nil {
		c.Fail("reference: %v", out)
	}
	np, nc := loadSize(f)
	for _, i := range is {
		gl := f.Glyphs[i]
		if !gl.Composite() || np[i] > 20000 || nc[i] > 2000 {
			continue
		}
		c.Describe("%s upem %d scale %d %s", name, f.UPEM, s, glyphString(f, i))
		w, out := env.Load(i)
		if out != nil {
			c.Event("not decided: "+out.Error()[:10], 1)
			continue
		}
		if err := load(g, ft, s, i, font.HintingNone); err != nil {
			c.Fail("load fails: %v", err)
		}
		if msg := diffGlyph(g, w, false); msg != "" {
			c.Fail("%s", msg)
		}
		c.Eval(1)
		c.Event(name+"loads", 1)
		if depthOf(f, i) >= 8 {
			c.Event("nesting of 8 and more", 1)
		}
		for _, p := range gl.Components {
			if p.Kind > 0 {
				c.Event([]string{"", "kind 1 components", "kind 2 components", "kind 3 components"}[p.Kind], 1)
			}
			if p.RoundXY {
				c.Event("rounded offsets", 1)
			}
			if p.DX > 127 || p.DX < -128 {
				c.Event("word offsets", 1)
			}
			if f.Glyphs[p.Glyph].Empty {
				c.Event("empty components", 1)
			}
			if p.UseMetrics {
				c.Event("metric suppliers", 1)
				for _, q := range f.Glyphs[p.Glyph].Components {
					if q.UseMetrics {
						c.Event("metric suppliers within components", 1)
					}
				}
			}
		}
		if len(w.Points) > 0 {
			c.Nontrivial(mon.Hash(f.UPEM, int(s), glyphString(f, i)))
			c.Sample("upem %d scale %d %s", f.UPEM, s, glyphString(f, i))
		}
	}
}

// c08Nested: chains of components, with a second component here and there.
func c08Nested(c *mon.Case) {
	r := c.R
	f := fontgen.Rand(r, fontgen.Opts{MaxGlyphs: 2, MaxPoints: 6, Plain: true, Coord: 500})
	f = extendChain(r, f, 2+r.IntN(27))
	ft := parse(c, f)
	n := len(f.Glyphs)
	c08Loads(c, f, ft, &truetype.GlyphBuf{}, randScale(r, f.MaxScale()), []int{n - 1, r.IntN(n)}, "")
}

// c08Huge: fonts of more than 32767 glyphs.
func c08Huge(c *mon.Case) {
	r := c.R
	f := fontgen.Rand(r, fontgen.Opts{MaxGlyphs: 60, MaxPoints: 5, Composites: true, Matrices: true, UseMetrics: true})
	is := fontgen.Spread(r, f)
	c.Event("fonts of more than 32767 glyphs", 1)
	c08Loads(c, f, parse(c, f), &truetype.GlyphBuf{}, randScale(r, f.MaxScale()), is, "")
}

// c08Matched: composites that have components placed by points.
func c08Matched(c *mon.Case) {
	r := c.R
	f := fontgen.Rand(r, fontgen.Opts{MaxGlyphs: 9, MaxPoints: 8, Composites: true, Matrices: true, UseMetrics: true})
	np, _ := loadSize(f)
	matched := make([]bool, len(f.Glyphs))
	for i, gl := range f.Glyphs {
		n := 0
		for k := range gl.Components {
			p := &gl.Components[k]
			q := np[p.Glyph]
			matched[i] = matched[i] || matched[p.Glyph]
			if n > 0 && q > 0 && r.IntN(2) == 0 {
				p.Match, p.DX, p.DY = true, int16(r.IntN(min(n, 300))), int16(r.IntN(min(q, 300)))
				matched[i] = true
			}
			n += q
		}
	}
	ft := parse(c, f)
	s := randScale(r, f.MaxScale())
	env, out := reftt.NewEnv(f, s, false)
	if out != nil {
		c.Fail("reference: %v", out)
	}
	g := &truetype.GlyphBuf{}
	for i := range f.Glyphs {
		if !matched[i] || np[i] > 20000 {
			continue
		}
		c.Describe("upem %d scale %d %s", f.UPEM, s, glyphString(f, i))
		w, out := env.Load(i)
		if out != nil {
			c.Event("not decided: "+out.Error()[:10], 1)
			continue
		}
		c.Event("components placed by points", 1)
		c.Eval(1)
		if err := load(g, ft, s, i, font.HintingNone); err != nil {
			c.Event("components placed by points: refused", 1)
			continue
		}
		if msg := diffGlyph(g, w, false); msg != "" {
			c.Fail("components are placed by points, but %s", msg)
		}
		c.Event("components placed by points: loads", 1)
	}
}

func c08Real(c *mon.Case) {
	r := c.R
	fs := realFonts()
	f := fs[c.Index%len(fs)]
	if f.model == nil || f.ft == nil {
		c.Fail("font %s: %v %v", f.name, f.err, f.modelErr)
	}
	c08Loads(c, f.model, f.ft, &truetype.GlyphBuf{}, randScale(r, f.model.MaxScale()), r.Perm(len(f.model.Glyphs)), "real: ")
}
