package checks

import (
	"fmt"
	"sort"

	"github.com/golang/freetype/truetype"
	"golang.org/x/image/math/fixed"

	"verif/harness/fontgen"
	"verif/harness/mon"
)

func init() {
	mon.Register(&mon.Check{
		ID:   "C05",
		Rule: "A case encodes a random font (metrics shared and not, vertical metrics from each source, kerning pairs, names for several platforms) and compares every metric, kerning and name query, for glyphs it has and has not and at random scales, with the model; or does so for a real font. Non-trivial: a query of a glyph or name the font has; distinct by font and scale.",
		Assumptions: []string{
			"scales are limited such that font units times scale stay within 32 bits, as 26.6 arithmetic needs",
			"only the first kerning subtable counts",
			"vertical metrics that share the last advance do so by the vhea table's count of long metrics",
		},
		Streams: []mon.Stream{
			{Name: "random", Quick: 240000, Thorough: 2000000, Run: c05Random},
			{Name: "large", Quick: 1200, Thorough: 10000, Run: c05Large},
			{Name: "huge", Quick: 24, Thorough: 1000, Run: c05Huge},
			{Name: "kerns", Quick: 24000, Thorough: 200000, Run: c05Kerns},
			{Name: "real", Quick: 800, Thorough: 5000, Run: c05Real},
		},
		Required: []string{"horizontal metrics", "horizontal metrics that share an advance", "vertical metrics from vmtx", "vertical metrics that share an advance", "vertical metrics from OS/2", "vertical metrics from the em square", "glyphs the font does not have", "kerned pairs", "pairs not kerned", "fonts without kerning", "more kerning subtables", "other kinds of kerning", "names", "names missing", "bounds", "fonts of more than 32767 glyphs", "real: queries"},
	})
}

// nearest tells whether got is the integer nearest to v*scale/upem.
func nearest(got fixed.Int26_6, v, scale int64, upem int) bool {
	d := 2 * (int64(got)*int64(upem) - v*scale)
	return d >= -int64(upem) && d <= int64(upem)
}

func c05Random(c *mon.Case) {
	r := c.R
	f := fontgen.Rand(r, fontgen.Opts{MaxGlyphs: 9, MaxPoints: 3, Kern: true})
	c05Font(c, f, parse(c, f), 3, "")
}

// nameIDs are the name identifiers, as the OpenType specification numbers them.
var nameIDs = []struct {
	id truetype.NameID
	n  uint16
}{
	{truetype.NameIDCopyright, 0},
	{truetype.NameIDFontFamily, 1},
	{truetype.NameIDFontSubfamily, 2},
	{truetype.NameIDUniqueSubfamilyID, 3},
	{truetype.NameIDFontFullName, 4},
	{truetype.NameIDNameTableVersion, 5},
	{truetype.NameIDPostscriptName, 6},
	{truetype.NameIDTrademarkNotice, 7},
	{truetype.NameIDManufacturerName, 8},
	{truetype.NameIDDesignerName, 9},
	{truetype.NameIDFontDescription, 10},
	{truetype.NameIDFontVendorURL, 11},
	{truetype.NameIDFontDesignerURL, 12},
	{truetype.NameIDFontLicense, 13},
	{truetype.NameIDFontLicenseURL, 14},
	{truetype.NameIDPreferredFamily, 16},
	{truetype.NameIDPreferredSubfamily, 17},
	{truetype.NameIDCompatibleName, 18},
	{truetype.NameIDSampleText, 19},
}

func c05Large(c *mon.Case) {
	r := c.R
	f := fontgen.Rand(r, fontgen.Opts{MaxGlyphs: 2000, MaxPoints: 1, Kern: true})
	if r.IntN(2) == 0 {
		f.HasKern = true
		f.Kern = nil
		seen := map[uint32]bool{}
		for n := r.IntN(10900); n > 0; n-- {
			k := r.Uint32() & pick(r, uint32(0xffffffff), 0x003f003f, 0x00ff01ff)
			if !seen[k] {
				seen[k] = true
				f.Kern = append(f.Kern, fontgen.KernPair{L: uint16(k >> 16), R: uint16(k), Value: int16(r.Uint32())})
			}
		}
		sortKern(f.Kern)
	}
	n := 0
	for _, g := range f.Glyphs {
		n += g.NPoints()
	}
	f.LocaLong = f.LocaLong || n*6+len(f.Glyphs)*40 > 1<<17
	c05Font(c, f, parse(c, f), 1, "")
}

// c05Huge: fonts of more than 32767 glyphs.
func c05Huge(c *mon.Case) {
	r := c.R
	f := fontgen.Rand(r, fontgen.Opts{MaxGlyphs: 40, MaxPoints: 2, Kern: true})
	fontgen.Spread(r, f)
	c.Event("fonts of more than 32767 glyphs", 1)
	c05Font(c, f, parse(c, f), 1, "")
}

func c05Real(c *mon.Case) {
	fs := realFonts()
	f := fs[c.Index%len(fs)]
	if f.model == nil || f.ft == nil {
		c.Fail("font %s: %v %v", f.name, f.err, f.modelErr)
	}
	c05Font(c, f.model, f.ft, 1, "real: ")
}

func c05Font(c *mon.Case, f *fontgen.Font, ft *truetype.Font, scales int, name string) {
	r := c.R
	if ft.FUnitsPerEm() != int32(f.UPEM) {
		c.Fail("%d units per em, want %d", ft.FUnitsPerEm(), f.UPEM)
	}
	n := len(f.Glyphs)
	for k := 0; k < scales; k++ {
		s := randScale(r, f.MaxScale())
		if r.IntN(4) == 0 {
			s = f.MaxScale() - int64(r.IntN(3))
		}
		s = max(0, s)
		sc := fixed.Int26_6(s)
		c.Describe("%s%d glyphs upem %d scale %d adv %v lsb %v nhm %d vadv %v tsb %v nvm %d vhea %v os/2 %d %d %d", name, n, f.UPEM, s, head(f.Adv), head(f.LSB), f.NHM, head(f.VAdv), head(f.TSB), f.NVM, f.Vhea, f.OS2, f.TypoAsc, f.TypoDesc)
		near := func(what string, i int, got fixed.Int26_6, v int64) {
			if !nearest(got, v, s, f.UPEM) {
				c.Fail("%s of glyph %d is %d at scale %d, which is not %d units", what, i, got, s, v)
			}
		}
		b := ft.Bounds(sc)
		near("bounds Min.X", -1, b.Min.X, int64(f.XMin))
		near("bounds Min.Y", -1, b.Min.Y, int64(f.YMin))
		near("bounds Max.X", -1, b.Max.X, int64(f.XMax))
		near("bounds Max.Y", -1, b.Max.Y, int64(f.YMax))
		c.Event("bounds", 1)
		is := r.Perm(n)
		if len(is) > 400 {
			is = append(is[:400], n-1, f.NHM-1, min(f.NHM, n-1), max(0, f.NHM-2))
		}
		for _, i := range is {
			h := ft.HMetric(sc, truetype.Index(i))
			near("advance width", i, h.AdvanceWidth, int64(f.Advance(i)))
			near("left side bearing", i, h.LeftSideBearing, int64(f.LSB[i]))
			va, tsb := f.VMetrics(i, 0)
			v := ft.VMetric(sc, truetype.Index(i))
			near("advance height", i, v.AdvanceHeight, int64(va))
			near("top side bearing", i, v.TopSideBearing, int64(tsb))
			c.Event("horizontal metrics", 1)
			if i >= f.NHM {
				c.Event("horizontal metrics that share an advance", 1)
			}
			switch {
			case f.VAdv != nil && f.Vhea && i >= f.NVM:
				c.Event("vertical metrics that share an advance", 1)
			case f.VAdv != nil:
				c.Event("vertical metrics from vmtx", 1)
			case f.OS2 >= 72:
				c.Event("vertical metrics from OS/2", 1)
			default:
				c.Event("vertical metrics from the em square", 1)
			}
		}
		c.Eval(4 * len(is))
		c.Event(name+"queries", 4*len(is))
		for _, i := range []int{n, n + 1, n + r.IntN(65536-n), 0xffff} {
			if i < n || i > 0xffff {
				continue
			}
			if h := ft.HMetric(sc, truetype.Index(i)); h != (truetype.HMetric{}) {
				c.Fail("glyph %d of %d has horizontal metrics %v", i, n, h)
			}
			if v := ft.VMetric(sc, truetype.Index(i)); v != (truetype.VMetric{}) {
				c.Fail("glyph %d of %d has vertical metrics %v", i, n, v)
			}
			c.Event("glyphs the font does not have", 1)
		}
		// Pairs with and without an entry, and those next to entries.
		kern := func(l, r uint16) {
			w := f.KernValue(l, r)
			if got := ft.Kern(sc, truetype.Index(l), truetype.Index(r)); !nearest(got, int64(w), s, f.UPEM) {
				c.Describe("upem %d kern %v", f.UPEM, f.Kern)
				c.Fail("kerning of %d and %d at scale %d is %d, which is not %d units", l, r, s, got, w)
			}
			if w != 0 {
				c.Event("kerned pairs", 1)
			} else {
				c.Event("pairs not kerned", 1)
			}
		}
		ks := r.Perm(len(f.Kern))
		for _, j := range ks[:min(len(ks), 300)] {
			k := f.Kern[j]
			kern(k.L, k.R)
			kern(k.L, k.R+1)
			kern(k.L, k.R-1)
			kern(k.L+1, k.R)
			kern(k.R, k.L)
		}
		if len(f.Kern) > 0 {
			for _, j := range []int{0, len(f.Kern) - 1} {
				kern(f.Kern[j].L, f.Kern[j].R)
			}
		} else {
			c.Event("fonts without kerning", 1)
		}
		for j := 0; j < 10; j++ {
			kern(uint16(r.UintN(65536)), uint16(r.UintN(65536)))
			kern(uint16(r.IntN(n+1)), uint16(r.IntN(n+1)))
		}
		c.Eval(5*min(len(ks), 300) + 20)
		c.Nontrivial(mon.Hash(fmt.Sprint(f.UPEM, s, f.Adv, f.LSB, f.VAdv, f.Kern)))
	}
	ids := []uint16{uint16(r.UintN(65536))}
	for id := uint16(0); id < 30; id++ {
		ids = append(ids, id)
	}
	for _, x := range f.Names {
		ids = append(ids, x.ID, x.ID+1, x.ID^0x100)
	}
	for _, x := range nameIDs {
		if got, w := ft.Name(x.id), f.Name(x.n); got != w {
			c.Describe("names %v", f.Names)
			c.Fail("the name of constant %d is %q, want that of %d, %q", x.id, got, x.n, w)
		}
	}
	for _, id := range ids {
		w := f.Name(id)
		if got := ft.Name(truetype.NameID(id)); got != w {
			c.Describe("names %v", f.Names)
			c.Fail("name %d is %q, want %q", id, got, w)
		}
		if w != "" {
			c.Event("names", 1)
			c.Seen("names", mon.Hash(w))
			c.Sample("name %d %q", id, w)
		} else {
			c.Event("names missing", 1)
		}
	}
	c.Eval(len(ids))
}

func head[T any](xs []T) string {
	if len(xs) > 40 {
		return fmt.Sprint(xs[:40]) + "..."
	}
	return fmt.Sprint(xs)
}

func sortKern(ks []fontgen.KernPair) {
	sort.Slice(ks, func(i, j int) bool {
		a, b := ks[i], ks[j]
		return a.L < b.L || a.L == b.L && a.R < b.R
	})
}

// c05Kerns queries fonts with several kerning subtables, or with one that is
// not for horizontal kerning, which must not be taken for such.
func c05Kerns(c *mon.Case) {
	r := c.R
	f := fontgen.Rand(r, fontgen.Opts{MaxGlyphs: 9, MaxPoints: 2, Kern: true})
	t := f.Tables(r)
	k := append([]byte{}, t["kern"]...)
	if len(k) < 18 {
		return
	}
	more := func() {
		// Another subtable, with pairs of its own.
		n := r.IntN(4)
		b := []byte{0, byte(r.IntN(2)), 0, byte(14 + 6*n), 0, pick(r, byte(1), 0, 3, 9), 0, byte(n), 0, 0, 0, 0, 0, 0}
		for i := 0; i < n; i++ {
			b = append(b, 0, byte(r.IntN(9)), 0, byte(r.IntN(9)), byte(r.UintN(256)), byte(r.UintN(256)))
		}
		k = append(k, b...)
		k[3]++
	}
	for r.IntN(2) == 0 {
		more()
	}
	other := r.IntN(2) == 0
	if other {
		switch r.IntN(3) {
		case 0: // vertical, minimum values or cross-stream
			k[9] = pick(r, byte(0), 2, 3, 4, 5, 6, 7)
		case 1: // formats other than pairs
			k[8] = byte(1 + r.IntN(3))
		case 2: // no subtable
			k[2], k[3] = 0, 0
		}
	}
	t["kern"] = k
	ft, err := parseFont(fontgen.File(r, t, fontgen.RandLayout(r)))
	c.Describe("kern %x", k)
	if err != nil {
		if !other {
			c.Fail("parse fails: %v", err)
		}
		c.Event("other kinds of kerning", 1)
		c.Event("other kinds of kerning refused", 1)
		return
	}
	s := max(1, randScale(r, f.MaxScale()))
	for i := 0; i < len(f.Glyphs)+2; i++ {
		for j := 0; j < len(f.Glyphs)+2; j++ {
			got := ft.Kern(fixed.Int26_6(s), truetype.Index(i), truetype.Index(j))
			want := int64(0)
			if !other {
				want = int64(f.KernValue(uint16(i), uint16(j)))
			}
			if !nearest(got, want, s, f.UPEM) {
				c.Fail("kerning of %d and %d at scale %d and upem %d is %d, want %d units", i, j, s, f.UPEM, got, want)
			}
			c.Eval(1)
		}
	}
	if other {
		c.Event("other kinds of kerning", 1)
	} else if len(k) > 18+6*len(f.Kern) {
		c.Event("more kerning subtables", 1)
	}
	c.Nontrivial(mon.Hash(k))
}
