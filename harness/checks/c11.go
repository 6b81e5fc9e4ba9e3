package checks

import (
	"fmt"
	"math/rand/v2"
	"slices"

	"github.com/golang/freetype/truetype"
	"golang.org/x/image/font"

	"verif/harness/fontgen"
	"verif/harness/mon"
	"verif/harness/ttgen"
)

func init() {
	mon.Register(&mon.Check{
		ID:   "C11",
		Rule: "A case makes a few fonts whose programs leave state behind and act on the state they find (also hostile and failing programs, damaged glyphs, and real fonts), and runs a random history of loads on one buffer, comparing each with the same load on a fresh buffer. Non-trivial: a load after another one; distinct by history.",
		Streams: []mon.Stream{
			{Name: "state", Quick: 60000, Thorough: 1000000, Run: func(c *mon.Case) { c11Run(c, false) }},
			{Name: "hostile", Quick: 24000, Thorough: 400000, Run: func(c *mon.Case) { c11Run(c, true) }},
			{Name: "real", Quick: 300, Thorough: 4000, Run: c11Real},
			{Name: "long", Quick: 400, Thorough: 2000, Run: c11Long},
		},
		Required: []string{"loads compared", "failing loads", "loads after a failing load", "loads after another font", "loads after another scale", "loads after another hinting policy", "hinted loads", "composite loads", "loads of fonts whose programs fail", "real: loads compared", "loads of buffers used thousands of times"},
	})
}

// stateFont is a font whose programs leave traces in the interpreter and act on those they find.
func stateFont(r *rand.Rand, hostile bool) *fontgen.Font {
	f := fontgen.Rand(r, fontgen.Opts{MaxGlyphs: 6, MaxPoints: 6, Composites: true, Matrices: true, UseMetrics: true, Coord: 2000})
	f.MaxStorage = uint16(r.IntN(5))
	f.MaxTwilight = uint16(r.IntN(5))
	f.MaxStack = uint16(10 + r.IntN(600))
	f.CVT = nil
	for k := r.IntN(6); k > 0; k-- {
		f.CVT = append(f.CVT, int16(r.IntN(2000)-1000))
	}
	// The package rounds the storage up, and so must not expose more of it.
	s, cv, t := (int(f.MaxStorage)+15)&^15, len(f.CVT), int(f.MaxTwilight)+4
	h := &ttgen.H{R: r, N: 8, F: 3, S: s, C: cv}
	if r.IntN(4) != 0 {
		if hostile && r.IntN(3) == 0 {
			f.FPGM = h.Functions()
		} else {
			for i := 0; i < 4; i++ {
				f.FPGM = append(append(f.FPGM, 0xb0, byte(i), 0x2c), ttgen.Dirty(r, 0, s, 0, 0, r.IntN(3), true)...)
				f.FPGM = append(f.FPGM, 0x2d)
			}
		}
	}
	nf := 0
	if len(f.FPGM) > 0 {
		nf = 4
	}
	if r.IntN(3) != 0 {
		f.Prep = ttgen.Dirty(r, 0, s, cv, t, r.IntN(8), false)
		if hostile && r.IntN(3) == 0 {
			f.Prep = append(f.Prep, h.Program(2)...)
		}
		if r.IntN(6) == 0 {
			// Fails at some sizes only: MPPEM, a limit, GT, IF, POP on empty.
			f.Prep = append(f.Prep, 0x4b, 0xb0, byte(r.IntN(40)), pick(r, byte(0x52), 0x50), 0x58, 0x21, 0x21, 0x21, 0x21, 0x21, 0x21, 0x21, 0x21, 0x21, 0x21, 0x21, 0x21, 0x59)
		}
	}
	for _, g := range f.Glyphs {
		if g.Empty || r.IntN(6) == 0 {
			continue
		}
		n := g.NPoints() + 4
		if g.Composite() {
			n = 4
		}
		p := ttgen.Expose(r, n, s, cv, t, nf, r.IntN(6))
		p = append(p, ttgen.Dirty(r, n, s, cv, t, r.IntN(10), false)...)
		if r.IntN(4) == 0 {
			p = append(p, ttgen.Expose(r, n, s, cv, t, nf, r.IntN(4))...)
		}
		if hostile && r.IntN(3) == 0 {
			p = append(p, h.Program(1+r.IntN(4))...)
		}
		if r.IntN(12) == 0 {
			p = append(p, 0x21, 0x21, 0x21, 0x21, 0x21, 0x21, 0x21) // likely to fail
		}
		g.Program = p
	}
	return f
}

// damaged encodes a font and damages its glyph data and locations.
func damaged(r *rand.Rand, f *fontgen.Font) []byte {
	t := f.Tables(r)
	for k := 1 + r.IntN(4); k > 0; k-- {
		name := pick(r, "glyf", "glyf", "glyf", "loca", "fpgm", "prep", "hmtx", "cvt ")
		b := slices.Clone(t[name])
		if len(b) == 0 {
			continue
		}
		b[r.IntN(len(b))] = pick(r, byte(0xff), 0, 0x80, byte(r.UintN(256)))
		t[name] = b
	}
	return fontgen.File(r, t, fontgen.Plain)
}

// A loaded is what a load produced.
type loaded struct {
	err bool
	g   truetype.GlyphBuf
}

func samePoints(a, b []truetype.Point) bool { return slices.Equal(a, b) }

// diffLoads compares two outcomes of the same load.
func diffLoads(e1, e2 error, a, b *truetype.GlyphBuf) string {
	switch {
	case (e1 != nil) != (e2 != nil):
		return fmt.Sprintf("error %v, fresh %v", e1, e2)
	case e1 != nil:
		return ""
	case a.AdvanceWidth != b.AdvanceWidth:
		return fmt.Sprintf("advance width %d, fresh %d", a.AdvanceWidth, b.AdvanceWidth)
	case a.Bounds != b.Bounds:
		return fmt.Sprintf("bounds %v, fresh %v", a.Bounds, b.Bounds)
	case !slices.Equal(a.Ends, b.Ends):
		return fmt.Sprintf("ends %v, fresh %v", a.Ends, b.Ends)
	case !samePoints(a.Points, b.Points):
		return fmt.Sprintf("points %v, fresh %v", a.Points, b.Points)
	case !samePoints(a.Unhinted, b.Unhinted):
		return fmt.Sprintf("unhinted points %v, fresh %v", a.Unhinted, b.Unhinted)
	case !samePoints(a.InFontUnits, b.InFontUnits):
		return fmt.Sprintf("unscaled points %v, fresh %v", a.InFontUnits, b.InFontUnits)
	}
	return ""
}

type c11Font struct {
	name      string
	f         *fontgen.Font
	ft        *truetype.Font
	scales    []int64
	n         int
	composite func(int) bool
}

func c11Run(c *mon.Case, hostile bool) {
	r := c.R
	var pool []c11Font
	for k := 2 + r.IntN(3); k > 0; k-- {
		f := stateFont(r, hostile)
		b := f.Encode(r)
		if r.IntN(4) == 0 {
			b = damaged(r, f)
		}
		ft, err := parseFont(b)
		if err != nil {
			continue
		}
		p := c11Font{f: f, ft: ft, n: len(f.Glyphs), name: fmt.Sprint(len(pool)), composite: func(i int) bool { return i < len(f.Glyphs) && f.Glyphs[i].Composite() }}
		for j := 1 + r.IntN(2); j > 0; j-- {
			p.scales = append(p.scales, randScale(r, f.MaxScale()))
			if r.IntN(3) == 0 {
				// A scale that is easily taken for the last one.
				t := p.scales[len(p.scales)-1]
				t += pick(r, int64(1), 1, -1, 1<<6, 1<<8, 1<<12, 1<<15, 1<<16, 1<<17, 1<<20, 1<<24)
				if t > 0 && t <= f.MaxScale() {
					p.scales = append(p.scales, t)
				}
			}
		}
		pool = append(pool, p)
		if r.IntN(4) == 0 {
			// The same bytes again are another font.
			if ft, err := parseFont(b); err == nil {
				p.ft = ft
				pool = append(pool, p)
			}
		}
	}
	if len(pool) == 0 {
		return
	}
	c11History(c, pool, 40, "")
}

func c11History(c *mon.Case, pool []c11Font, n int, name string) {
	r := c.R
	buf := &truetype.GlyphBuf{}
	var hist []string
	var prev struct {
		ft   *truetype.Font
		s    int64
		h    font.Hinting
		fail bool
	}
	steps := 0
	sticky := r.IntN(3) // how much to stay with one font and scale
	k := r.IntN(len(pool))
	s := pool[k].scales[0]
	sig := uint64(0)
	for ; n > 0; n-- {
		if sticky == 0 || r.IntN(sticky*4) == 0 {
			k = r.IntN(len(pool))
			s = pick(r, pool[k].scales...)
		}
		p := pool[k]
		i := r.IntN(p.n)
		if r.IntN(20) == 0 {
			i = p.n + r.IntN(3)
		}
		h := font.HintingFull
		if r.IntN(4) == 0 {
			h = font.Hinting(r.IntN(3))
		}
		hist = append(hist, fmt.Sprintf("(font %s scale %d glyph %d hinting %d)", p.name, s, i, h))
		e1 := load(buf, p.ft, s, i, h)
		fresh := &truetype.GlyphBuf{}
		e2 := load(fresh, p.ft, s, i, h)
		if msg := diffLoads(e1, e2, buf, fresh); msg != "" {
			desc := fmt.Sprint("loads ", hist)
			for _, q := range pool {
				if q.f != nil {
					desc += fmt.Sprintf("; font %s cvt %v fpgm %x prep %x", q.name, q.f.CVT, q.f.FPGM, q.f.Prep)
					if i < len(q.f.Glyphs) && q.name == p.name {
						desc += " " + glyphString(q.f, i)
					}
				}
			}
			c.Describe("%s", desc)
			c.Fail("%s", msg)
		}
		c.Eval(1)
		c.Event(name+"loads compared", 1)
		if e1 != nil {
			c.Event("failing loads", 1)
			if h != 0 && load(fresh, p.ft, s, p.n+5, h) != nil && i < p.n {
				if e := load(fresh, p.ft, s, i, font.HintingNone); e == nil {
					c.Event("loads of fonts whose programs fail", 1)
				}
			}
		}
		if steps > 0 {
			if prev.fail {
				c.Event("loads after a failing load", 1)
			}
			if prev.ft != p.ft {
				c.Event("loads after another font", 1)
			}
			if prev.ft == p.ft && prev.s != s {
				c.Event("loads after another scale", 1)
			}
			if prev.h != h {
				c.Event("loads after another hinting policy", 1)
			}
			sig = mon.Hash(int(sig), c.Index, k, int(s), i, int(h))
			c.Nontrivial(sig)
		}
		if h != 0 {
			c.Event("hinted loads", 1)
		}
		if p.composite != nil && p.composite(i) {
			c.Event("composite loads", 1)
		}
		steps++
		prev.ft, prev.s, prev.h, prev.fail = p.ft, s, h, e1 != nil
	}
	c.Sample("loads %v", hist)
}

func c11Real(c *mon.Case) {
	r := c.R
	var pool []c11Font
	fs := realFonts()
	for k := 2; k > 0; k-- {
		f := fs[r.IntN(len(fs))]
		if f.ft == nil || f.model == nil {
			c.Fail("font %s: %v", f.name, f.err)
		}
		pool = append(pool, c11Font{name: f.name, ft: f.ft, n: len(f.model.Glyphs), scales: []int64{int64(6*64 + r.IntN(30*64)), int64(8+r.IntN(20)) * 64}, composite: func(i int) bool { return i < len(f.model.Glyphs) && f.model.Glyphs[i].Composite() }})
	}
	f := stateFont(r, false)
	if ft, err := parseFont(f.Encode(r)); err == nil {
		pool = append(pool, c11Font{name: "made", f: f, ft: ft, n: len(f.Glyphs), scales: []int64{randScale(r, f.MaxScale())}})
	}
	c11History(c, pool, 40, "real: ")
}
