package checks

import (
	"fmt"
	"math"

	"github.com/golang/freetype/truetype"

	"verif/harness/fontgen"
	"verif/harness/mon"
)

func init() {
	mon.Register(&mon.Check{
		ID:   "C04",
		Rule: "A case encodes a random font with several character maps (segment maps with deltas and shared glyph arrays, group maps, maps of other formats and for other platforms) and compares the index of the runes at and next to every boundary, random and out-of-range ones with the model's; some cases, and real fonts, sweep every rune from -2 to U+10FFFF and beyond. Non-trivial: a lookup; distinct by map and rune class.",
		Streams: []mon.Stream{
			{Name: "boundaries", Quick: 180000, Thorough: 2000000, Run: func(c *mon.Case) { c04Run(c, false) }},
			{Name: "sweep", Quick: 900, Thorough: 8000, Run: func(c *mon.Case) { c04Run(c, true) }},
			{Name: "large", Quick: 60, Thorough: 2000, Run: c04Large},
			{Name: "real", Quick: 24, Thorough: 200, Run: c04Real},
		},
		Required: []string{"mapped by delta", "mapped by glyph array", "zero in a glyph array", "mapped by group", "mapped beyond U+FFFF", "not mapped", "negative runes", "Unicode map chosen", "Microsoft map chosen", "fonts of several maps", "real: lookups"},
	})
}

func cmapString(f *fontgen.Font) string {
	s := f.Cmap()
	d := fmt.Sprintf("records %v chosen format %d", f.CmapRecs, s.Format)
	if n := len(s.Segs) + len(s.Groups); n < 60 {
		d += fmt.Sprintf(" segments %v groups %v", s.Segs, s.Groups)
	} else {
		d += fmt.Sprintf(" of %d", n)
	}
	return d
}

func c04Check(c *mon.Case, f *fontgen.Font, ft *truetype.Font, s *fontgen.CmapSub, x rune, name string) {
	want := s.Lookup(x)
	if got := ft.Index(x); uint16(got) != want {
		c.Describe("%s", cmapString(f))
		c.Fail("rune %#x has index %d, want %d", x, got, want)
	}
}

// c04Count counts what kinds of lookups there were.
func c04Count(c *mon.Case, s *fontgen.CmapSub, xs []rune) {
	var delta, array, zero, group, beyond, none, neg int
	for _, x := range xs {
		if x < 0 {
			neg++
		}
		if s.Lookup(x) == 0 {
			none++
		}
		for _, g := range s.Segs {
			if x >= rune(g.Start) && x <= rune(g.End) {
				if g.Glyphs == nil {
					delta++
				} else if g.Glyphs[x-rune(g.Start)] != 0 {
					array++
				} else {
					zero++
				}
			}
		}
		for _, g := range s.Groups {
			if x >= 0 && uint32(x) >= g.Start && uint32(x) <= g.End {
				group++
				if x > 0xffff {
					beyond++
				}
			}
		}
	}
	c.Event("mapped by delta", delta)
	c.Event("mapped by glyph array", array)
	c.Event("zero in a glyph array", zero)
	c.Event("mapped by group", group)
	c.Event("mapped beyond U+FFFF", beyond)
	c.Event("not mapped", none)
	c.Event("negative runes", neg)
}

// c04Edges are the runes around the boundaries of a map.
func c04Edges(s *fontgen.CmapSub) (xs []rune) {
	near := func(x uint32) {
		for d := int64(-2); d <= 2; d++ {
			if v := int64(x) + d; v >= math.MinInt32 && v <= math.MaxInt32 {
				xs = append(xs, rune(v))
			}
		}
	}
	for _, g := range s.Segs {
		near(uint32(g.Start))
		near(uint32(g.End))
		near(uint32(g.Start) + 0x10000)
		near((uint32(g.Start) + uint32(g.End)) / 2)
	}
	for _, g := range s.Groups {
		near(g.Start)
		near(g.End)
		near(g.Start + (g.End-g.Start)/2)
	}
	for _, x := range []uint32{0, 0x7f, 0xd800, 0xdfff, 0xffff, 0x10000, 0x10ffff, math.MaxInt32} {
		near(x)
	}
	return append(xs, math.MinInt32, math.MinInt32+1, -0x10000, -0xffff+0x41)
}

func c04Run(c *mon.Case, sweep bool) {
	r := c.R
	f := fontgen.Rand(r, fontgen.Opts{MaxGlyphs: 3, MaxPoints: 3})
	ft := parse(c, f)
	s := f.Cmap()
	for _, rec := range f.CmapRecs {
		if s == &f.CmapSubs[rec.Sub] {
			c.Event([]string{"Unicode map chosen", "", "", "Microsoft map chosen"}[rec.PID&3], 1)
			break
		}
	}
	if len(f.CmapRecs) > 1 {
		c.Event("fonts of several maps", 1)
	}
	c.Sample("%s", cmapString(f))
	c.Nontrivial(mon.Hash(cmapString(f)))
	xs := c04Edges(s)
	for k := 0; k < 40; k++ {
		xs = append(xs, rune(r.IntN(0x110000)), rune(r.IntN(0x10000)), rune(r.Uint32()))
	}
	for _, x := range xs {
		c04Check(c, f, ft, s, x, "")
	}
	c.Eval(len(xs))
	c04Count(c, s, xs)
	if sweep {
		for x := rune(-2); x <= 0x110010; x++ {
			c04Check(c, f, ft, s, x, "")
		}
		c.Eval(0x110012)
		c.Event("lookups in sweeps", 0x110012)
	}
}

// c04Large: maps of very many segments or groups.
func c04Large(c *mon.Case) {
	r := c.R
	f := fontgen.Rand(r, fontgen.Opts{MaxGlyphs: 2, MaxPoints: 3})
	var s fontgen.CmapSub
	if r.IntN(2) == 0 {
		s.Format = 4
		at := r.IntN(30)
		// The length field and the array offsets limit the number.
		for n := 500 + r.IntN(6000); n > 0 && at < 0xff00; n-- {
			g := fontgen.Seg4{Start: uint16(at), End: uint16(at + r.IntN(6)), Delta: uint16(r.UintN(65536))}
			if len(s.Segs) > 500 && n < 200 && r.IntN(3) == 0 {
				for x := g.Start; x <= g.End; x++ {
					g.Glyphs = append(g.Glyphs, uint16(r.UintN(65536)))
				}
			}
			s.Segs = append(s.Segs, g)
			at = int(g.End) + 1 + r.IntN(8)
		}
	} else {
		s.Format = 12
		at := uint32(r.IntN(30))
		for n := 500 + r.IntN(30000); n > 0 && at < 0x10ff00; n-- {
			g := fontgen.Group{Start: at, End: at + uint32(r.IntN(30)), Glyph: uint32(r.UintN(65536))}
			s.Groups = append(s.Groups, g)
			at = g.End + 1 + uint32(r.IntN(8))
		}
	}
	f.CmapSubs = []fontgen.CmapSub{s}
	f.CmapRecs = []fontgen.CmapRec{{PID: 3, PSID: pick(r, uint16(1), 10), Sub: 0}}
	ft := parse(c, f)
	c.Nontrivial(mon.Hash(c.Index, len(s.Segs), len(s.Groups)))
	// The model scans; walk the map alongside instead.
	n := 0
	check := func(x int64, want uint16) {
		n++
		if got := ft.Index(rune(x)); uint16(got) != want {
			c.Describe("format %d of %d", s.Format, len(s.Segs)+len(s.Groups))
			c.Fail("rune %#x has index %d, want %d", x, got, want)
		}
	}
	last := int64(-1)
	for _, g := range s.Segs {
		for x := last + 1; x < int64(g.Start); x++ {
			check(x, 0)
		}
		for x := int64(g.Start); x <= int64(g.End); x++ {
			w := uint16(x) + g.Delta
			if g.Glyphs != nil {
				if w = g.Glyphs[x-int64(g.Start)]; w != 0 {
					w += g.Delta
				}
			}
			check(x, w)
		}
		last = int64(g.End)
	}
	for _, g := range s.Groups {
		for x := last + 1; x < int64(g.Start); x++ {
			check(x, 0)
		}
		for x := int64(g.Start); x <= int64(g.End); x++ {
			check(x, uint16(g.Glyph+uint32(x)-g.Start))
		}
		last = int64(g.End)
	}
	for x := last + 1; x < last+1000; x++ {
		check(x, 0)
	}
	c.Event("lookups in large maps", n)
	c.Eval(n)
}

func c04Real(c *mon.Case) {
	fs := realFonts()
	f := fs[c.Index%len(fs)]
	if f.model == nil || f.ft == nil {
		c.Fail("font %s: %v %v", f.name, f.err, f.modelErr)
	}
	s := f.model.Cmap()
	lo := rune(0x110000 / 8 * (c.Index / len(fs)))
	hi := lo + 0x110000/8
	if !c.Thorough() {
		// Mostly where the runes are.
		lo, hi = rune(0x4000*(c.Index/len(fs))-2), rune(0x4000*(c.Index/len(fs)+1))
	}
	for _, x := range append(c04Edges(s), rune(c.R.Uint32())) {
		c04Check(c, f.model, f.ft, s, x, f.name)
	}
	for x := lo; x < hi; x++ {
		c04Check(c, f.model, f.ft, s, x, f.name)
	}
	c.Event("real: lookups", int(hi-lo))
	c.Eval(int(hi - lo))
	c.Nontrivial(mon.Hash(f.name, int(lo)))
}
