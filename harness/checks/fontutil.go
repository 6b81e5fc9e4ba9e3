package checks

import (
	"fmt"
	"math/rand/v2"

	"github.com/golang/freetype"
	"github.com/golang/freetype/truetype"
	"golang.org/x/image/font"
	"golang.org/x/image/math/fixed"

	"verif/harness/fontgen"
	"verif/harness/mon"
	"verif/harness/reftt"
)

// parseFont parses a font by one of the two functions that do the same, chosen
// by the content.
func parseFont(b []byte) (*truetype.Font, error) {
	x := len(b)
	for i := 0; i < len(b); i += 1 + len(b)/64 {
		x = 31*x + int(b[i])
	}
	if x>>2&1 == 0 {
		return freetype.ParseFont(b)
	}
	return truetype.Parse(b)
}

// parse encodes and parses a modelled font.
func parse(c *mon.Case, f *fontgen.Font) *truetype.Font {
	ft, err := parseFont(f.Encode(c.R))
	if err != nil {
		c.Fail("a well-formed font does not parse: %v", err)
	}
	return ft
}

// randScale is a scale for a font, at most lim.
func randScale(r *rand.Rand, lim int64) int64 {
	var s int64
	switch r.IntN(8) {
	case 0:
		s = int64(r.IntN(64 * 9))
	case 1:
		s = int64(r.IntN(40)) * 64
	case 2:
		s = int64(r.IntN(200 * 64))
	case 3:
		s = int64(r.IntN(2000 * 64))
	default:
		s = int64(8*64 + r.IntN(60*64))
	}
	return min(s, lim)
}

// diffGlyph compares a loaded glyph with the reference's.
func diffGlyph(g *truetype.GlyphBuf, w *reftt.Glyph, hinted bool) string {
	if len(g.Points) != len(w.Points) || len(g.Ends) != len(w.Ends) {
		return fmt.Sprintf("%d points in %d contours, want %d in %d", len(g.Points), len(g.Ends), len(w.Points), len(w.Ends))
	}
	for i, e := range w.Ends {
		if g.Ends[i] != e {
			return fmt.Sprintf("contour ends %v, want %v", g.Ends, w.Ends)
		}
	}
	for i, p := range w.Points {
		q := g.Points[i]
		if int64(q.X) != p.X || int64(q.Y) != p.Y || (q.Flags&1 != 0) != p.On {
			return fmt.Sprintf("point %d of %d is (%d,%d) on=%v, want (%d,%d) on=%v", i, len(w.Points), q.X, q.Y, q.Flags&1 != 0, p.X, p.Y, p.On)
		}
	}
	if d := int64(g.AdvanceWidth) - w.Advance; d != 0 && (hinted || d < -1 || d > 1) {
		return fmt.Sprintf("advance width %d, want %d", g.AdvanceWidth, w.Advance)
	}
	if !hinted || !w.Simple {
		return ""
	}
	if len(g.Unhinted) != len(w.Unhinted) || len(g.InFontUnits) != len(w.InFontUnits) {
		return fmt.Sprintf("%d unhinted and %d unscaled points, want %d and %d", len(g.Unhinted), len(g.InFontUnits), len(w.Unhinted), len(w.InFontUnits))
	}
	for i, p := range w.Unhinted {
		if q := g.Unhinted[i]; int64(q.X) != p.X || int64(q.Y) != p.Y {
			return fmt.Sprintf("unhinted point %d is (%d,%d), want (%d,%d)", i, q.X, q.Y, p.X, p.Y)
		}
	}
	for i, p := range w.InFontUnits {
		if q := g.InFontUnits[i]; int64(q.X) != p.X || int64(q.Y) != p.Y {
			return fmt.Sprintf("unscaled point %d is (%d,%d), want (%d,%d)", i, q.X, q.Y, p.X, p.Y)
		}
	}
	return ""
}

func load(g *truetype.GlyphBuf, f *truetype.Font, scale int64, i int, h font.Hinting) error {
	return g.Load(f, fixed.Int26_6(scale), truetype.Index(i), h)
}

// loadSize counts the points and components that loading a glyph visits.
func loadSize(f *fontgen.Font) (points, comps []int) {
	const big = 1 << 30
	points, comps = make([]int, len(f.Glyphs)), make([]int, len(f.Glyphs))
	for i, g := range f.Glyphs {
		points[i] = g.NPoints()
		comps[i] = 1
		// Components are glyphs before it.
		for _, c := range g.Components {
			points[i] = min(big, points[i]+points[c.Glyph])
			comps[i] = min(big, comps[i]+comps[c.Glyph])
		}
	}
	return
}

func glyphString(f *fontgen.Font, i int) string {
	g := f.Glyphs[i]
	return fmt.Sprintf("glyph %d bounds %d,%d..%d,%d lsb %d adv %d points %v components %+v program %x", i, g.XMin, g.YMin, g.XMax, g.YMax, f.LSB[i], f.Advance(i), g.Contours, g.Components, g.Program)
}

// extendChain adds n composite glyphs, each of the one before it.
func extendChain(r *rand.Rand, f *fontgen.Font, n int) *fontgen.Font {
	base := len(f.Glyphs)
	ums := r.IntN(3)
	for k := 0; k < n; k++ {
		i := len(f.Glyphs)
		small := func() int16 { return int16(r.IntN(61) - 30) }
		g := &fontgen.Glyph{XMin: small(), YMax: small()}
		one := func(j int) {
			p := fontgen.Component{Glyph: uint16(j), DX: small() * int16(1+r.IntN(10)), DY: small(), RoundXY: r.IntN(4) == 0}
			p.UseMetrics = j == i-1 && (ums == 1 || ums == 2 && r.IntN(2) == 0)
			if r.IntN(3) == 0 {
				p.Kind = 1 + r.IntN(3)
				p.M = [4]int16{0x4000, 0, 0, 0x4000}
				if p.Kind == 3 {
					p.M[1], p.M[2] = int16(r.IntN(0x2000)-0x1000), int16(r.IntN(0x2000)-0x1000)
				}
			}
			g.Components = append(g.Components, p)
		}
		if r.IntN(4) == 0 {
			one(r.IntN(base))
		}
		one(i - 1)
		if r.IntN(4) == 0 {
			one(r.IntN(base))
		}
		f.Glyphs = append(f.Glyphs, g)
		f.Adv = append(f.Adv, uint16(r.IntN(1000)))
		f.LSB = append(f.LSB, small())
	}
	f.NHM = len(f.Glyphs)
	return f
}
