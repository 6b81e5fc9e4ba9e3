package checks

import (
	"fmt"
	"math/rand/v2"

	"github.com/golang/freetype/truetype"
	"golang.org/x/image/font"
	"golang.org/x/image/math/fixed"

	"verif/harness/fontgen"
	"verif/harness/mon"
	"verif/harness/reftt"
	"verif/harness/ttgen"
)

func init() {
	mon.Register(&mon.Check{
		ID:   "C09",
		Rule: "A case loads the glyphs of a random font (simple and composite glyphs; valid, random or no programs; with and without device metrics) or of a real or a damaged font, unhinted and hinted, with one buffer, and checks every glyph loaded against itself and (not those of damaged fonts) against the font's metrics. Non-trivial: a load; distinct by font, scale, glyph and hinting.",
		Assumptions: []string{
			"device metrics are looked up at scales of a whole number of pixels per em",
			"at most one component of a glyph supplies its metrics",
		},
		Streams: []mon.Stream{
			{Name: "real", Quick: 1800, Thorough: 20000, Run: c09Real},
			{Name: "random", Quick: 120000, Thorough: 1500000, Run: c09Random},
			{Name: "programs", Quick: 45000, Thorough: 500000, Run: c09Programs},
			{Name: "nested", Quick: 12000, Thorough: 100000, Run: c09Nested},
			{Name: "huge", Quick: 24, Thorough: 1000, Run: c09Huge},
			{Name: "damaged", Quick: 120000, Thorough: 1500000, Run: c09Damaged},
		},
		Required: []string{"damaged glyphs loaded", "damaged glyphs refused", "loads", "hinted loads", "loads without points", "device metrics used", "device metrics beyond glyph 32767", "device metrics of the last glyph used", "device metrics without the size", "advances of a component", "bounds grown by hinting", "hinted programs loaded", "real: loads"},
	})
}

// selfConsistent checks a loaded glyph against itself.
func selfConsistent(g *truetype.GlyphBuf, hinted bool) string {
	e := 0
	for _, x := range g.Ends {
		if x < e {
			return fmt.Sprintf("contour ends %v do not ascend", g.Ends)
		}
		e = x
	}
	if e != len(g.Points) {
		return fmt.Sprintf("contour ends %v for %d points", g.Ends, len(g.Points))
	}
	var b fixed.Rectangle26_6
	for i, p := range g.Points {
		if i == 0 {
			b = fixed.Rectangle26_6{Min: fixed.Point26_6{X: p.X, Y: p.Y}, Max: fixed.Point26_6{X: p.X, Y: p.Y}}
		}
		b.Min.X, b.Min.Y = min(b.Min.X, p.X), min(b.Min.Y, p.Y)
		b.Max.X, b.Max.Y = max(b.Max.X, p.X), max(b.Max.Y, p.Y)
	}
	if hinted {
		floor := func(x fixed.Int26_6) fixed.Int26_6 { return x >> 6 << 6 }
		b.Min.X, b.Min.Y = floor(b.Min.X), floor(b.Min.Y)
		b.Max.X, b.Max.Y = -floor(-b.Max.X), -floor(-b.Max.Y)
		if g.AdvanceWidth%64 != 0 {
			return fmt.Sprintf("hinted advance width %d", g.AdvanceWidth)
		}
	}
	if g.Bounds != b {
		return fmt.Sprintf("bounds %v, want %v (%d points)", g.Bounds, b, len(g.Points))
	}
	return ""
}

// supplier is the glyph whose metrics a glyph has.
func supplier(f *fontgen.Font, i int) int {
	for _, c := range f.Glyphs[i].Components {
		if c.UseMetrics {
			return supplier(f, int(c.Glyph))
		}
	}
	return i
}

// device looks up the device metrics.
func device(f *fontgen.Font, i int, scale int64) (int64, bool) {
	for _, d := range f.Device {
		if int64(d.PPEM)*64 == scale && i < len(d.Widths) {
			return int64(d.Widths[i]) * 64, true
		}
	}
	return 0, false
}

// c09Loads loads and checks glyphs; env, if any, is the hinting reference.
func c09Loads(c *mon.Case, f *fontgen.Font, ft *truetype.Font, g *truetype.GlyphBuf, s int64, is []int, name string, mayFail bool) {
	np, nc := loadSize(f)
	dev := fmt.Sprint(f.Device)
	dev = dev[:min(len(dev), 2000)]
	var env *reftt.Env
	var out *reftt.Outcome
	if mayFail {
		env, out = nil, nil
	} else if env, out = reftt.NewEnv(f, s, true); out != nil {
		env = nil
	}
	for _, i := range is {
		if np[i] > 20000 || nc[i] > 2000 {
			continue
		}
		for _, h := range []font.Hinting{font.HintingNone, font.HintingFull, font.HintingVertical} {
			hinted := h != font.HintingNone
			if name != "" && len(is) > 100 && h == font.HintingVertical && i%8 != 0 {
				continue
			}
			c.Describe("%s upem %d scale %d hinting %v device %v (size %d) NHM %d supplier %d; fpgm %x prep %x %s", name, f.UPEM, s, h, dev, f.DeviceSize, f.NHM, supplier(f, i), f.FPGM, f.Prep, glyphString(f, i))
			if err := load(g, ft, s, i, h); err != nil {
				if hinted && mayFail {
					c.Event("hinted loads refused", 1)
					continue
				}
				if hinted && env == nil {
					c.Event("hinted loads not decided", 1)
					continue
				}
				if hinted {
					if _, out := env.Load(i); out != nil {
						c.Event("hinted loads not decided", 1)
						continue
					}
				}
				c.Fail("load fails: %v", err)
			}
			if msg := selfConsistent(g, hinted); msg != "" {
				c.Fail("%s", msg)
			}
			sup := supplier(f, i)
			c.Event(name+"loads", 1)
			c.Eval(1)
			c.Nontrivial(mon.Hash(f.UPEM, int(s), i, int(h), glyphString(f, i)))
			c.Sample("%s upem %d scale %d hinting %v %s", name, f.UPEM, s, h, glyphString(f, i))
			if len(g.Points) == 0 {
				c.Event("loads without points", 1)
			}
			if !hinted {
				if sup != i {
					c.Event("advances of a component", 1)
				}
				adv := reftt.MulDiv(s, int64(f.Advance(sup)), int64(f.UPEM))
				if d := int64(g.AdvanceWidth) - adv; d < -1 || d > 1 {
					c.Fail("advance width %d, want %d", g.AdvanceWidth, adv)
				}
				continue
			}
			c.Event("hinted loads", 1)
			if len(f.Glyphs[i].Program)+len(f.Prep) > 0 {
				c.Event("hinted programs loaded", 1)
			}
			for _, p := range g.Points {
				if p.X%64 != 0 {
					c.Event("bounds grown by hinting", 1)
					break
				}
			}
			if s%64 == 0 && len(f.Device) > 0 {
				if w, ok := device(f, i, s); ok {
					c.Event("device metrics used", 1)
					if i > 32767 {
						c.Event("device metrics beyond glyph 32767", 1)
					}
					if i == len(f.Glyphs)-1 {
						c.Event("device metrics of the last glyph used", 1)
					}
					if int64(g.AdvanceWidth) != w {
						c.Fail("advance width %d, device metrics have %d", g.AdvanceWidth, w)
					}
					continue
				}
				c.Event("device metrics without the size", 1)
			}
			if s%64 != 0 && len(f.Device) > 0 {
				continue
			}
			if env != nil {
				if w, out := env.Load(i); out == nil {
					if int64(g.AdvanceWidth) != w.Advance {
						c.Fail("hinted advance width %d, want %d", g.AdvanceWidth, w.Advance)
					}
					c.Event("hinted advances compared", 1)
				}
			}
		}
	}
}

// withDevice gives most fonts device metrics with a record for the scale.
func withDevice(r *rand.Rand, f *fontgen.Font, s *int64) {
	if r.IntN(3) == 0 || f.DeviceSize == 0 && r.IntN(2) == 0 {
		return
	}
	if len(f.Device) == 0 {
		n := len(f.Glyphs)
		f.DeviceSize = n + 2
		if r.IntN(2) == 0 {
			f.DeviceSize = (n + 5) &^ 3
		}
		for k, p := 1+r.IntN(5), 1; k > 0; k-- {
			p += 1 + r.IntN(40)
			d := fontgen.DeviceRec{PPEM: uint8(p)}
			for i := 0; i < n; i++ {
				d.Widths = append(d.Widths, uint8(r.IntN(256)))
			}
			f.Device = append(f.Device, d)
		}
	}
	if r.IntN(4) != 0 {
		*s = int64(f.Device[r.IntN(len(f.Device))].PPEM) * 64
	} else {
		*s &^= 63
	}
}

func c09Random(c *mon.Case) {
	r := c.R
	f := fontgen.Rand(r, fontgen.Opts{MaxGlyphs: 7, MaxPoints: 8, Composites: true, Matrices: true, UseMetrics: true})
	mayFail := false
	if r.IntN(3) == 0 {
		// Random instructions: whatever loads is consistent.
		mayFail = true
		h := &ttgen.H{R: r, N: 8, F: 2, S: int(f.MaxStorage), C: len(f.CVT)}
		f.FPGM = h.Functions()
		if r.IntN(3) == 0 {
			f.Prep = h.Program(1 + r.IntN(3))
		}
		for _, g := range f.Glyphs {
			if !g.Empty && r.IntN(2) == 0 {
				g.Program = h.Program(1 + r.IntN(4))
			}
		}
	}
	s := randScale(r, f.MaxScale())
	withDevice(r, f, &s)
	s = min(s, f.MaxScale())
	ft := parse(c, f)
	g := &truetype.GlyphBuf{}
	c09Loads(c, f, ft, g, s, r.Perm(len(f.Glyphs)), "", mayFail)
}

func c09Programs(c *mon.Case) {
	r := c.R
	f := fontgen.Rand(r, fontgen.Opts{MaxGlyphs: 5, MaxPoints: 10, Composites: true, Matrices: true, UseMetrics: true})
	scale := randScale(r, min(f.MaxScale(), 20000))
	for scale*f.MaxAbs()/int64(f.UPEM) > 128000 {
		scale /= 2
	}
	scale = max(1, scale)
	withDevice(r, f, &scale)
	if scale*f.MaxAbs()/int64(f.UPEM) > 128000 {
		return
	}
	env, _ := ttgen.Programs(r, f, scale, 8)
	if env == nil {
		return
	}
	ft := parse(c, f)
	c09Loads(c, f, ft, &truetype.GlyphBuf{}, scale, r.Perm(len(f.Glyphs)), "", false)
}

func c09Nested(c *mon.Case) {
	r := c.R
	f := fontgen.Rand(r, fontgen.Opts{MaxGlyphs: 2, MaxPoints: 6, Plain: true, Coord: 500})
	f = extendChain(r, f, 2+r.IntN(27))
	f.Device = nil
	s := randScale(r, f.MaxScale())
	withDevice(r, f, &s)
	s = min(s, f.MaxScale())
	ft := parse(c, f)
	n := len(f.Glyphs)
	c09Loads(c, f, ft, &truetype.GlyphBuf{}, s, []int{n - 1, r.IntN(n)}, "", false)
}

// c09Huge loads glyphs of fonts of more than 32767 glyphs.
func c09Huge(c *mon.Case) {
	r := c.R
	f := fontgen.Rand(r, fontgen.Opts{MaxGlyphs: 30, MaxPoints: 5, Composites: true, Matrices: true, UseMetrics: true})
	f.Device, f.DeviceSize = nil, 0
	is := fontgen.Spread(r, f)
	s := randScale(r, f.MaxScale())
	if r.IntN(4) != 0 {
		f.DeviceSize = len(f.Glyphs) + 2 + r.IntN(3)
		withDevice(r, f, &s)
	}
	s = min(s, f.MaxScale())
	c09Loads(c, f, parse(c, f), &truetype.GlyphBuf{}, s, is, "", false)
}

func c09Real(c *mon.Case) {
	r := c.R
	fs := realFonts()
	f := fs[c.Index%len(fs)]
	if f.model == nil || f.ft == nil {
		c.Fail("font %s: %v %v", f.name, f.err, f.modelErr)
	}
	s := min(randScale(r, f.model.MaxScale()), 20000)
	if d := f.model.Device; len(d) > 0 && r.IntN(2) == 0 {
		s = int64(d[r.IntN(len(d))].PPEM) * 64
	}
	is := r.Perm(len(f.model.Glyphs))
	c09Loads(c, f.model, f.ft, &truetype.GlyphBuf{}, s, is[:min(len(is), 60)], "real: ", false)
}

// c09Damaged loads what can be loaded of fonts with damaged glyph data.
func c09Damaged(c *mon.Case) {
	r := c.R
	f := c01Font(r)
	t := f.Tables(r)
	for k := 1 + r.IntN(2); k > 0; k-- {
		n := pick(r, "glyf", "glyf", "glyf", "glyf", "glyf", "loca", "hmtx", "maxp", "hdmx")
		if t[n] == nil {
			n = "glyf"
		}
		t[n] = damageTable(r, t[n])
	}
	b := fontgen.File(r, t, fontgen.Plain)
	c.Describe("file %x", b)
	ft, err := parseFont(b)
	if err != nil {
		return
	}
	g := &truetype.GlyphBuf{}
	s := min(randScale(r, f.MaxScale()), 20000)
	for i := range f.Glyphs {
		for _, h := range []font.Hinting{font.HintingNone, font.HintingFull} {
			c.Describe("glyph %d scale %d hinting %d of file %x", i, s, h, b)
			if load(g, ft, s, i, h) != nil {
				c.Event("damaged glyphs refused", 1)
				continue
			}
			far := false
			for _, p := range g.Points {
				far = far || p.X > 1<<29 || p.X < -1<<29 || p.Y > 1<<29 || p.Y < -1<<29
			}
			if far {
				continue
			}
			if msg := selfConsistent(g, h != font.HintingNone); msg != "" {
				c.Fail("%s", msg)
			}
			c.Event("damaged glyphs loaded", 1)
			c.Eval(1)
			c.Nontrivial(mon.Hash(b, i, int(h)))
		}
	}
}
