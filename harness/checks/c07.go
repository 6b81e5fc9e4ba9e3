package checks

import (
	"github.com/golang/freetype/truetype"
	"golang.org/x/image/font"

	"verif/harness/fontgen"
	"verif/harness/mon"
	"verif/harness/reftt"
)

func init() {
	mon.Register(&mon.Check{
		ID:   "C07",
		Rule: "A case encodes a random font (flag and coordinate compression, location format and layout at random), loads its simple and empty glyphs unhinted at random scales with a buffer in random use, and compares points, contour ends and advance with the reference loader; or does so for glyphs of real fonts. Non-trivial: a load with points; distinct by outline, metrics and scale.",
		Assumptions: []string{
			"scales are limited such that font units times scale stay within 32 bits, as 26.6 arithmetic needs",
		},
		Streams: []mon.Stream{
			{Name: "random", Quick: 180000, Thorough: 2000000, Run: c07Random},
			{Name: "large", Quick: 60, Thorough: 1500, Run: c07Large},
			{Name: "huge", Quick: 24, Thorough: 1000, Run: c07Huge},
			{Name: "real", Quick: 1800, Thorough: 20000, Run: c07Real},
		},
		Required: []string{"loads", "empty glyphs", "glyphs without contours", "long loca", "short loca", "long loca, glyphs beyond 64 KB", "short loca, glyphs beyond 64 KB", "lsb other than xMin", "fonts of more than 32767 glyphs", "real: loads", "glyphs of more than 255 contours"},
	})
}

func c07Random(c *mon.Case) {
	r := c.R
	f := fontgen.Rand(r, fontgen.Opts{MaxGlyphs: 6})
	t := f.Tables(r)
	ft, err := parseFont(fontgen.File(r, t, fontgen.RandLayout(r)))
	if err != nil {
		c.Fail("parse fails: %v", err)
	}
	g := &truetype.GlyphBuf{}
	if f.LocaLong {
		c.Event("long loca", 1)
	} else {
		c.Event("short loca", 1)
	}
	if len(t["glyf"]) > 1<<16 {
		if f.LocaLong {
			c.Event("long loca, glyphs beyond 64 KB", 1)
		} else {
			c.Event("short loca, glyphs beyond 64 KB", 1)
		}
	}
	for k := 0; k < 3; k++ {
		s := randScale(r, f.MaxScale())
		c07Loads(c, f, ft, g, s, r.Perm(len(f.Glyphs)), "")
	}
}

func c07Loads(c *mon.Case, f *fontgen.Font, ft *truetype.Font, g *truetype.GlyphBuf, s int64, is []int, name string) {
	env, out := reftt.NewEnv(f, s, false)
	if out != nil {
		c.Fail("reference: %v", out)
	}
	for _, i := range is {
		gl := f.Glyphs[i]
		if gl.Composite() {
			continue
		}
		c.Describe("%s upem %d scale %d %s", name, f.UPEM, s, glyphString(f, i))
		w, out := env.Load(i)
		if out != nil {
			c.Fail("reference: %v", out)
		}
		if err := load(g, ft, s, i, font.HintingNone); err != nil {
			c.Fail("load fails: %v", err)
		}
		if msg := diffGlyph(g, w, false); msg != "" {
			c.Fail("%s", msg)
		}
		c.Eval(1)
		c.Event(name+"loads", 1)
		switch {
		case gl.Empty:
			c.Event("empty glyphs", 1)
		case len(gl.Contours) == 0:
			c.Event("glyphs without contours", 1)
		default:
			if f.LSB[i] != gl.XMin {
				c.Event("lsb other than xMin", 1)
			}
			c.Event("points", len(w.Points))
			c.Nontrivial(mon.Hash(f.UPEM, int(s), glyphString(f, i)))
			c.Sample("upem %d scale %d %s", f.UPEM, s, glyphString(f, i))
		}
	}
}

// c07Large: glyphs of many points, and fonts of many glyphs.
func c07Large(c *mon.Case) {
	r := c.R
	f := fontgen.Rand(r, fontgen.Opts{MaxGlyphs: 2, MaxPoints: 3})
	if r.IntN(2) == 0 {
		g := &fontgen.Glyph{}
		size := pick(r, 1, 3, 100, 5000)
		for n := 200 + r.IntN(pick(r, 1000, 40000)); n > 0 && len(g.Contours) < 32767; {
			m := min(n, 1+r.IntN(size))
			g.Contours = append(g.Contours, fontgen.RandContour(r, m, min(f.UPEM, 16383)))
			n -= m
		}
		g.SetBounds()
		f.Glyphs[0] = g
		if len(g.Contours) > 255 {
			c.Event("glyphs of more than 255 contours", 1)
		}
	} else {
		f = fontgen.Rand(r, fontgen.Opts{MaxGlyphs: 3000, MaxPoints: 8})
	}
	n := 0
	for _, g := range f.Glyphs {
		n += g.NPoints()
	}
	// Short offsets reach 128 KiB.
	f.LocaLong = f.LocaLong || n*8+len(f.Glyphs)*40 > 1<<17
	ft := parse(c, f)
	c07Loads(c, f, ft, &truetype.GlyphBuf{}, randScale(r, f.MaxScale()), r.Perm(len(f.Glyphs)), "")
}

// c07Huge: fonts of more than 32767 glyphs.
func c07Huge(c *mon.Case) {
	r := c.R
	f := fontgen.Rand(r, fontgen.Opts{MaxGlyphs: 60, MaxPoints: 9})
	is := fontgen.Spread(r, f)
	for k := 0; k < 20; k++ {
		is = append(is, r.IntN(len(f.Glyphs)))
	}
	c.Event("fonts of more than 32767 glyphs", 1)
	c07Loads(c, f, parse(c, f), &truetype.GlyphBuf{}, randScale(r, f.MaxScale()), is, "")
}

func c07Real(c *mon.Case) {
	r := c.R
	fs := realFonts()
	f := fs[c.Index%len(fs)]
	if f.model == nil || f.ft == nil {
		c.Fail("font %s: %v %v", f.name, f.err, f.modelErr)
	}
	is := r.Perm(len(f.model.Glyphs))
	c07Loads(c, f.model, f.ft, &truetype.GlyphBuf{}, randScale(r, f.model.MaxScale()), is[:min(len(is), 150)], "real: ")
}
