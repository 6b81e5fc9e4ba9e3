package checks

import (
	"fmt"

	"github.com/golang/freetype/truetype"
	"golang.org/x/image/font"

	"verif/harness/fontgen"
	"verif/harness/mon"
	"verif/harness/reftt"
	"verif/harness/ttgen"
)

func init() {
	mon.Register(&mon.Check{
		ID:   "C10",
		Rule: "A case generates a font with valid programs at a scale, unit by unit against the reference interpreter, and compares every glyph's hinted load with the reference's, at that scale and at others where the programs are valid. Non-trivial: a load that ran a program; distinct by programs, scale and glyph.",
		Assumptions: []string{
			"the reference interpreter's reading of the instruction set (engine version 35); instructions the specification leaves open are not generated, see DESIGN.md",
		},
		Streams: []mon.Stream{
			{Name: "real", Quick: 3600, Thorough: 20000, Run: c10Real},
			{Name: "short", Quick: 450000, Thorough: 2000000, Run: func(c *mon.Case) { c10Run(c, 4, 1, 12) }},
			{Name: "long", Quick: 60000, Thorough: 500000, Run: func(c *mon.Case) { c10Run(c, 40, 1, 12) }},
			{Name: "composite", Quick: 120000, Thorough: 800000, Run: func(c *mon.Case) { c10Run(c, 8, 6, 12) }},
			{Name: "big", Quick: 24000, Thorough: 200000, Run: func(c *mon.Case) { c10Run(c, 30, 1, 400) }},
			{Name: "limits", Quick: 36000, Thorough: 300000, Run: c10Limits},
		},
		Required: []string{"loads compared", "programs run", "loads at another scale", "limits: stack", "limits: calls",
			"limits: conditionals", "limits: skipped data", "limits: functions", "limits: points", "limits: loop of calls", "limits: storage",
			"limits: jumps", "limits: length", "limits: deltas", "limits: values and twilight points"},
	})
}

func c10Run(c *mon.Case, units, glyphs, points int) {
	r := c.R
	o := fontgen.Opts{MaxGlyphs: glyphs, MaxPoints: points, Composites: glyphs > 1, Matrices: true, UseMetrics: true}
	f := fontgen.Rand(r, o)
	scale := randScale(r, min(f.MaxScale(), 20000))
	// Coordinates of at most 2000 pixels.
	for scale*f.MaxAbs()/int64(f.UPEM) > 128000 {
		scale /= 2
	}
	if scale == 0 {
		scale = 1
	}
	if glyphs == 1 && f.Glyphs[0].Empty {
		c.Event("empty glyph", 1)
		return
	}
	g := &ttgen.G{R: r, F: f, Big: points > 100, Bare: points < 100 && r.IntN(4) == 0}
	env := g.Programs(scale, units)
	c.Event("units kept", g.Units)
	c.Event("units dropped", g.Drops)
	if env == nil {
		c.Event("no environment", 1)
		return
	}
	desc := fmt.Sprintf("upem %d cvt %v fpgm %x prep %x", f.UPEM, f.CVT, f.FPGM, f.Prep)
	c.Describe("%s", desc)
	ft := parse(c, f)
	buf := &truetype.GlyphBuf{}
	for k := 0; k < 3; k++ {
		s := scale
		if k > 0 {
			s = max(1, min(randScale(r, f.MaxScale()), scale*4))
			var out *reftt.Outcome
			if env, out = reftt.NewEnv(f, s, true); out != nil {
				c.Event("invalid at another scale", 1)
				continue
			}
		}
		c10Loads(c, env, ft, buf, desc, s, k == 0)
	}
}

// c10Loads compares the loads of every glyph at a scale.
func c10Loads(c *mon.Case, env *reftt.Env, ft *truetype.Font, buf *truetype.GlyphBuf, desc string, s int64, own bool) {
	f := env.F
	for i, gl := range f.Glyphs {
		w, out := env.Load(i)
		if out != nil {
			if own {
				c.Event("invalid at the scale", 1)
			} else {
				c.Event("invalid at another scale", 1)
			}
			continue
		}
		c.Describe("%s; scale %d glyph %d bounds %d,%d..%d,%d lsb %d adv %d points %v components %+v program %x", desc, s, i, gl.XMin, gl.YMin, gl.XMax, gl.YMax, f.LSB[i], f.Advance(i), gl.Contours, gl.Components, gl.Program)
		if err := load(buf, ft, s, i, font.HintingFull); err != nil {
			c.Fail("load fails: %v", err)
		}
		if msg := diffGlyph(buf, w, true); msg != "" {
			c.Fail("%s", msg)
		}
		c.Event("loads compared", 1)
		if !own {
			c.Event("loads at another scale", 1)
		}
		c.Event("programs run", w.Programs)
		if w.Programs > 0 {
			c.Nontrivial(mon.Hash(f.FPGM, f.Prep, gl.Program, int(s), i))
			c.Sample("%s; scale %d glyph %d program %x", desc, s, i, gl.Program)
		}
		c.Eval(1)
	}
	for op, n := range env.Ops {
		if n > 0 {
			c.Seen("instructions executed", uint64(op))
			c.Event("instructions", n)
		}
	}
}

// c10Limits is about programs that are large in one respect.
func c10Limits(c *mon.Case) {
	r := c.R
	n := pick(r, 1, 2, 10, 255, 256, 257, 1+r.IntN(700))
	f := fontgen.Rand(r, fontgen.Opts{MaxGlyphs: 1, MaxPoints: 6, UseMetrics: true})
	gl := &fontgen.Glyph{}
	for left := n; left > 0; {
		k := min(left, 1+r.IntN(left))
		var ct []fontgen.Pt
		for ; k > 0; k-- {
			ct = append(ct, fontgen.Pt{X: int16(r.IntN(f.UPEM)), Y: int16(r.IntN(f.UPEM)), On: r.IntN(3) != 0})
			left--
		}
		gl.Contours = append(gl.Contours, ct)
	}
	gl.SetBounds()
	f.Glyphs[0] = gl
	scale := min(randScale(r, f.MaxScale()), int64(f.UPEM)*8)
	for scale*f.MaxAbs()/int64(f.UPEM) > 64000 {
		scale /= 2
	}
	scale = max(scale, 1)
	g := &ttgen.G{R: r, F: f}
	what := g.Limits(n)
	desc := fmt.Sprintf("%s: upem %d stack %d functions %d storage %d twilight %d values %d fpgm %x prep %x", what, f.UPEM, f.MaxStack, f.MaxFunctions, f.MaxStorage, f.MaxTwilight, len(f.CVT), f.FPGM, f.Prep)
	env, out := reftt.NewEnv(f, scale, true)
	if out != nil {
		c.Event("limits: font programs invalid", 1)
		c.Sample("%s at %d: %v", desc, scale, out)
		return
	}
	if _, out := env.Load(0); out != nil {
		c.Event("limits: invalid: "+what, 1)
		return
	}
	c.Event("limits: "+what, 1)
	c10Loads(c, env, parse(c, f), &truetype.GlyphBuf{}, desc, scale, true)
}

// c10Real compares loads of the glyphs of real fonts.
func c10Real(c *mon.Case) {
	r := c.R
	fs := realFonts()
	f := fs[c.Index%len(fs)]
	if f.model == nil || f.ft == nil {
		c.Fail("font %s: %v %v", f.name, f.err, f.modelErr)
	}
	s := int64(6*64 + r.IntN(40*64))
	if r.IntN(3) == 0 {
		s = s &^ 63
	}
	if r.IntN(5) == 0 {
		s = int64(64 + r.IntN(200*64))
	}
	env, out := reftt.NewEnv(f.model, s, true)
	if out != nil {
		c.Event("real: font programs not decided", 1)
		c.Sample("%s at %d: %v", f.name, s, out)
		return
	}
	buf := &truetype.GlyphBuf{}
	n := len(f.model.Glyphs)
	for k := 0; k < min(n, 60); k++ {
		i := r.IntN(n)
		c.Describe("font %s scale %d glyph %d", f.name, s, i)
		w, out := env.Load(i)
		if out != nil {
			c.Event("real: glyph not decided: "+out.Error(), 1)
			continue
		}
		if err := load(buf, f.ft, s, i, font.HintingFull); err != nil {
			c.Fail("load fails: %v", err)
		}
		if msg := diffGlyph(buf, w, true); msg != "" {
			c.Fail("%s", msg)
		}
		c.Event("real: loads compared", 1)
		c.Eval(1)
		if w.Programs > 0 {
			c.Nontrivial(mon.Hash(f.name, int(s), i))
		}
	}
	for op, n := range env.Ops {
		if n > 0 {
			c.Seen("instructions executed", uint64(op))
			c.Event("instructions", n)
		}
	}
}
