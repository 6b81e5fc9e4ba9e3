package checks

import (
	"fmt"
	"math/rand/v2"

	"github.com/golang/freetype/truetype"
	"golang.org/x/image/font"
	"golang.org/x/image/math/fixed"

	"verif/harness/fontgen"
	"verif/harness/mon"
	"verif/harness/ttgen"
)

func init() {
	mon.Register(&mon.Check{
		ID:   "C06",
		Rule: "A case lays the tables of a font (modelled, whole or damaged; or real) out plainly and in random ways (directory and data order, gaps, padding, unknown tables, checksums, search hints, trailing bytes, collections), and compares the results of parsing, of queries and of glyph loads. Non-trivial: a pair of different layouts; distinct by tables and layout.",
		Assumptions: []string{
			"no table is listed twice in a directory",
		},
		Streams: []mon.Stream{
			{Name: "whole", Quick: 30000, Thorough: 500000, Run: func(c *mon.Case) { c06Run(c, false) }},
			{Name: "damaged", Quick: 60000, Thorough: 1000000, Run: func(c *mon.Case) { c06Run(c, true) }},
			{Name: "real", Quick: 200, Thorough: 2000, Run: c06Real},
			{Name: "far", Quick: 60, Thorough: 1000, Run: c06Far},
		},
		Required: []string{"layouts compared", "collections", "unknown tables", "many unknown tables", "directories after the tables", "gaps", "shuffled data", "shuffled directories", "trailing bytes", "fonts refused in both layouts", "damaged fonts parsed in both layouts", "loads compared", "failing loads compared", "real: layouts compared", "tables megabytes into the file"},
	})
}

// a probe is a list of questions to ask a font.
type probe struct {
	runes  []rune
	names  []uint16
	glyphs []int
	pairs  [][2]int
	scales []int64
}

func newProbe(r *rand.Rand, f *fontgen.Font, n int) *probe {
	p := &probe{}
	if s := f.Cmap(); s != nil {
		es := c04Edges(s)
		for k := 0; k < 60; k++ {
			p.runes = append(p.runes, es[r.IntN(len(es))])
		}
	}
	for i := uint16(0); i < 8; i++ {
		p.names = append(p.names, i)
	}
	ng := len(f.Glyphs)
	for k := 0; k < n; k++ {
		if n >= ng && k < ng {
			p.glyphs = append(p.glyphs, k)
		} else {
			p.glyphs = append(p.glyphs, r.IntN(ng+2))
		}
	}
	for k := 0; k < 10; k++ {
		p.pairs = append(p.pairs, [2]int{r.IntN(ng + 1), r.IntN(ng + 1)})
		if len(f.Kern) > 0 {
			x := f.Kern[r.IntN(len(f.Kern))]
			p.pairs = append(p.pairs, [2]int{int(x.L), int(x.R)})
		}
	}
	p.scales = []int64{randScale(r, f.MaxScale()), randScale(r, f.MaxScale())}
	return p
}

// ask asks and gives the answers as text.
func (p *probe) ask(c *mon.Case, ft *truetype.Font) (out []string) {
	say := func(f string, a ...any) { out = append(out, fmt.Sprintf(f, a...)) }
	for _, x := range p.runes {
		say("index of %#x: %d", x, ft.Index(x))
	}
	for _, x := range p.names {
		say("name %d: %q", x, ft.Name(truetype.NameID(x)))
	}
	g := &truetype.GlyphBuf{}
	for _, s := range p.scales {
		sc := fixed.Int26_6(s)
		say("bounds at %d: %v", s, ft.Bounds(sc))
		for _, x := range p.pairs {
			say("kerning of %v at %d: %d", x, s, ft.Kern(sc, truetype.Index(x[0]), truetype.Index(x[1])))
		}
		for _, i := range p.glyphs {
			say("metrics of glyph %d at %d: %v %v", i, s, ft.HMetric(sc, truetype.Index(i)), ft.VMetric(sc, truetype.Index(i)))
			for _, h := range []font.Hinting{font.HintingNone, font.HintingFull} {
				if err := load(g, ft, s, i, h); err != nil {
					say("glyph %d at %d hinting %d: %v", i, s, h, err)
					c.Event("failing loads compared", 1)
				} else {
					say("glyph %d at %d hinting %d: %v %v %v %v", i, s, h, g.AdvanceWidth, g.Bounds, g.Ends, g.Points)
					c.Event("loads compared", 1)
				}
			}
		}
	}
	return out
}

func c06Compare(c *mon.Case, t map[string][]byte, p *probe, name string, n int) {
	r := c.R
	plain := fontgen.File(r, t, fontgen.Plain)
	ft, err := truetype.Parse(plain)
	var want []string
	if err == nil {
		want = p.ask(c, ft)
	}
	for k := 0; k < n; k++ {
		l := fontgen.RandLayout(r)
		u := map[string][]byte{}
		for k, v := range t {
			u[k] = v
		}
		extra := r.IntN(4)
		for j := extra; j > 0; j-- {
			u[pick(r, "GPOS", "GSUB", "DSIG", "gasp", "zzzz", "AAAA", "post", "LTSH", "cvt\x00", "Head", "OS/3", "    ", "CFF ", "\xff\xff\xff\xff", "EBDT", "kerx")] = ttgen.RandBytes(r, r.IntN(60))
		}
		if r.IntN(20) == 0 {
			// Many of them. (The upper-case hexadecimal digits keep them apart from
			// "head", "hhea" and "loca".)
			extra = r.IntN(300)
			for j := 0; j < extra; j++ {
				u[fmt.Sprintf("%c%c%02X", 'A'+r.IntN(58), 'A'+r.IntN(58), j&0xff)] = ttgen.RandBytes(r, r.IntN(9))
			}
			c.Event("many unknown tables", 1)
		}
		b := fontgen.File(r, u, l)
		c.Describe("%slayout %+v with %d unknown tables", name, l, extra)
		ft2, err2 := parseFont(b)
		c.Event(name+"layouts compared", 1)
		c.Eval(1)
		c.Nontrivial(mon.Hash(b))
		c.Sample("%slayout %+v with %d unknown tables", name, l, extra)
		if l.TTC > 0 {
			c.Event("collections", 1)
		}
		if l.DirLast {
			c.Event("directories after the tables", 1)
		}
		if extra > 0 {
			c.Event("unknown tables", 1)
		}
		if l.Gaps {
			c.Event("gaps", 1)
		}
		if !l.SortedData {
			c.Event("shuffled data", 1)
		}
		if !l.SortedDir {
			c.Event("shuffled directories", 1)
		}
		if l.Trailing > 0 {
			c.Event("trailing bytes", 1)
		}
		if (err == nil) != (err2 == nil) || err != nil && err.Error() != err2.Error() {
			c.Fail("parsing gives %v, and %v laid out otherwise (plain file %x)", err, err2, clip(plain))
		}
		if err != nil {
			c.Event("fonts refused in both layouts", 1)
			continue
		}
		if name == "damaged: " {
			c.Event("damaged fonts parsed in both layouts", 1)
		}
		got := p.ask(c, ft2)
		for i := range want {
			if got[i] != want[i] {
				c.Fail("%s, laid out otherwise %s", want[i], got[i])
			}
		}
	}
}

func clip(b []byte) []byte { return b[:min(len(b), 1500)] }

func c06Run(c *mon.Case, damage bool) {
	r := c.R
	f := c01Font(r)
	t := f.Tables(r)
	name := ""
	if damage {
		name = "damaged: "
		ns := tableNames(t)
		for k := 1 + r.IntN(2); k > 0; k-- {
			n := ns[r.IntN(len(ns))]
			if r.IntN(2) == 0 && len(t[n]) > 0 {
				t[n] = t[n][:len(t[n])-1-r.IntN(min(8, len(t[n])))]
			} else {
				t[n] = damageTable(r, t[n])
			}
		}
	}
	c06Compare(c, t, newProbe(r, f, len(f.Glyphs)+1), name, 2)
}

func c06Real(c *mon.Case) {
	r := c.R
	fs := realFonts()
	f := fs[c.Index%len(fs)]
	if f.model == nil || f.ft == nil {
		c.Fail("font %s: %v %v", f.name, f.err, f.modelErr)
	}
	t := map[string][]byte{}
	d := f.data
	for i := 0; i < int(d[4])<<8|int(d[5]); i++ {
		e := d[12+16*i:]
		o := int(e[8])<<24 | int(e[9])<<16 | int(e[10])<<8 | int(e[11])
		n := int(e[12])<<24 | int(e[13])<<16 | int(e[14])<<8 | int(e[15])
		t[string(e[:4])] = d[o : o+n]
	}
	c06Compare(c, t, newProbe(r, f.model, 40), "real: ", 2)
}

// c06Far: tables that lie megabytes into the file, as in fonts of many glyphs.
func c06Far(c *mon.Case) {
	r := c.R
	f := c01Font(r)
	t := f.Tables(r)
	// An unknown table amid the others.
	far := map[string][]byte{}
	for k, v := range t {
		far[k] = v
	}
	n := pick(r, 1<<16, 1<<20, 1<<22, 1<<23, 1<<24, 20_000_000) + r.IntN(1<<16)
	far[pick(r, "AAAA", "hhhh", "CFF ", "zzzz")] = make([]byte, n)
	p := newProbe(r, f, len(f.Glyphs)+1)
	ft, err := truetype.Parse(fontgen.File(r, t, fontgen.Plain))
	c.Describe("an unknown table of %d bytes amid the others", n)
	ft2, err2 := parseFont(fontgen.File(r, far, fontgen.RandLayout(r)))
	if (err == nil) != (err2 == nil) {
		c.Fail("parsing gives %v, and %v laid out otherwise", err, err2)
	}
	if err != nil {
		return
	}
	want, got := p.ask(c, ft), p.ask(c, ft2)
	for i := range want {
		if got[i] != want[i] {
			c.Fail("%s, laid out otherwise %s", want[i], got[i])
		}
	}
	c.Eval(1)
	c.Event("tables megabytes into the file", 1)
	c.Nontrivial(mon.Hash(c.Index, n))
}
