package checks

import (
	"fmt"
	"image"

	"github.com/golang/freetype"
	"golang.org/x/image/font"
	"golang.org/x/image/math/fixed"

	"verif/harness/fontgen"
	"verif/harness/mon"
)

func init() {
	mon.Register(&mon.Check{
		ID:   "C23",
		Rule: "A case makes random calls of a context's setters (to new values, to earlier ones and to the current ones, with and without a font) and draws strings in between, of few runes so that they repeat; each drawing is compared with what the current settings alone give, and its result with a fresh context's. Non-trivial: a string that changed the target after a change of settings; distinct by the target's pixels.",
		Assumptions: []string{
			"a glyph may appear at any position less than a quarter of a pixel horizontally and a pixel vertically from its own, as the cache quantises positions",
			"outlines, kernings and coverages are those that C05, C07 to C11 and C12 to C15 judge; image/draw composites",
		},
		Streams: []mon.Stream{
			{Name: "settings", Quick: 32000, Thorough: 300000, Run: c23Run},
			{Name: "long", Quick: 300, Thorough: 2000, Run: c23Long},
		},
		Required: []string{"strings drawn", "strings that changed the target", "drawings after a change of font", "drawings after a change of size", "drawings after a change of resolution", "drawings after a change of hinting", "drawings after a change of source", "drawings after a change of target", "drawings after a change of clip", "drawings after setting the same again", "drawings without a font", "glyphs drawn nearby before", "drawings with glyphs drawn before a change", "fonts with equal bounds and metrics", "glyphs a cache's size apart", "drawings that go on after a failure", "drawings of contexts used thousands of times"},
	})
}

func c23Run(c *mon.Case) {
	r := c.R
	var fonts []*textFont
	for k := 2 + r.IntN(2); k > 0; k-- {
		if r.IntN(3) == 0 {
			fonts = append(fonts, realTextFont(c))
		} else {
			fonts = append(fonts, newTextFontOf(c, r.IntN(10) == 0))
		}
	}
	if n := fonts[0]; n.name == "random" && r.IntN(3) == 0 {
		// A font that a cache might take for the other.
		fonts[1] = n.lookalike(c)
		c.Event("fonts with equal bounds and metrics", 1)
	}
	sizes, dpis := []float64{float64(4 + r.IntN(20)), float64(4+r.IntN(40)) / 2}, []float64{72, pick(r, 71.0, 96, 80, 36)}
	switch r.IntN(8) {
	case 0: // Nearly the same.
		sizes = append(sizes, sizes[0]+pick(r, 1.0/64, 1.0/32, -1.0/64, 0.1))
	case 1:
		dpis = append(dpis, dpis[r.IntN(2)]+pick(r, 0.1, 0.2, 0.5, -0.3))
	case 2:
		sizes = append(sizes, pick(r, 0, 0.01, 1.0/64, 0.5))
	}
	for _, f := range fonts {
		for _, s := range sizes {
			for _, d := range dpis {
				if v := int64(s * d * 64 / 72); v > f.model.MaxScale() || f.extent(v) > 1<<20 {
					return
				}
			}
		}
	}
	m := newCtxModel()
	b := image.Rect(0, 0, 20+r.IntN(30), 15+r.IntN(20))
	m.setDst(randDst(r, b.Dx(), b.Dy(), true))
	m.setSrc(image.NewUniform(randColor(r)))
	m.setClip(m.dst.Bounds())
	if r.IntN(6) != 0 {
		m.setFont(fonts[0])
	}
	log := ""
	say := func(format string, args ...any) {
		if len(log) < 4000 {
			log += fmt.Sprintf(" "+format, args...)
		}
		c.Describe("%s", log)
	}
	var changes []string
	// Few runes, which all fonts have.
	var rs []rune
	for k := 0; k < 4; k++ {
		rs = append(rs, fonts[r.IntN(len(fonts))].rune(r))
	}
	for _, t := range fonts {
		if t.name != "random" {
			continue
		}
		if n := len(t.model.Glyphs); n >= 200 && r.IntN(4) != 0 {
			// Glyphs of the ends of a cache, and one that the font has not.
			g := pick(r, 0, 0, 1, 255, 255, 255, r.IntN(256))
			rs = rs[:2]
			for _, i := range []int{g, g + 256, n + g} {
				if i >= n && i < n+256 && t.ft.Index(rune(fontgen.Base+i)) == 0 {
					continue
				}
				rs = append(rs, rune(fontgen.Base+i))
			}
			c.Event("glyphs a cache's size apart", 1)
		} else if n < 200 && r.IntN(4) == 0 {
			for _, x := range t.model.Cmap().Segs {
				for k, g := range x.Glyphs {
					if int(g) >= 256 {
						rs = append(rs[1:3], rune(int(x.Start)+k), rune(fontgen.Base+int(g)-256))
					}
				}
			}
		}
	}
	// The runes drawn under earlier settings.
	drawn, before := map[rune]bool{}, map[rune]bool{}
	change := func(what string, same bool) {
		if same {
			what = "setting the same again"
		}
		changes = append(changes, what)
	}
	for n := 6 + r.IntN(40); n > 0; n-- {
		switch k := r.IntN(14); k {
		case 0:
			f := fonts[r.IntN(len(fonts))]
			if r.IntN(12) == 0 {
				f = nil
			}
			change("a change of font", f == m.t)
			say("SetFont(%p)", f)
			m.setFont(f)
		case 1:
			v := sizes[r.IntN(len(sizes))]
			change("a change of size", v == m.size)
			say("SetFontSize(%v)", v)
			m.setSize(v)
		case 2:
			v := dpis[r.IntN(len(dpis))]
			change("a change of resolution", v == m.dpi)
			say("SetDPI(%v)", v)
			m.setDPI(v)
		case 3:
			v := pick(r, font.HintingNone, font.HintingFull, font.HintingVertical)
			change("a change of hinting", v == m.h)
			say("SetHinting(%v)", v)
			m.setHinting(v)
		case 4:
			change("a change of source", false)
			m.setSrc(image.NewUniform(randColor(r)))
			say("SetSrc(%v)", m.src)
		case 5:
			change("a change of target", false)
			m.setDst(randDst(r, b.Dx(), b.Dy(), true))
			m.setClip(m.dst.Bounds())
			say("SetDst, SetClip(%v)", m.clip)
		case 6:
			change("a change of clip", false)
			k := m.dst.Bounds()
			m.setClip(image.Rect(k.Min.X+r.IntN(12)-6, k.Min.Y+r.IntN(12)-6, k.Max.X+r.IntN(12)-6, k.Max.Y+r.IntN(12)-6))
			say("SetClip(%v)", m.clip)
		default:
			for _, what := range changes {
				c.Event("drawings after "+what, 1)
				if what != "setting the same again" && what != "a change of clip" && what != "a change of target" && what != "a change of source" {
					for x := range drawn {
						before[x] = true
					}
				}
			}
			var s []rune
			if m.t != nil {
				l := m.loader(c)
				for k := 1 + r.IntN(3); k > 0; k-- {
					if x := rs[r.IntN(len(rs))]; m.t.drawable(l, x) && m.t.drawable(l, 0xfffd) {
						s = append(s, x)
						if before[x] {
							c.Event("drawings with glyphs drawn before a change", 1)
						}
						drawn[x] = true
					}
				}
			} else {
				s = rs
			}
			d := m.dst.Bounds()
			p := fixed.Point26_6{X: fixed.Int26_6(64*d.Min.X + r.IntN(64*d.Dx()/2)), Y: fixed.Int26_6(64*d.Min.Y + 32*d.Dy() + r.IntN(32*d.Dy()))}
			if r.IntN(2) == 0 {
				p = fixed.Point26_6{X: p.X&^15 + 3, Y: p.Y&^63 + 17}
			}
			say("DrawString(%q, %d,%d)", string(s), p.X, p.Y)
			// What a fresh context returns.
			fresh := freetype.NewContext()
			if m.t != nil {
				fresh.SetFont(m.t.ft)
			}
			fresh.SetFontSize(m.size)
			fresh.SetDPI(m.dpi)
			fresh.SetHinting(m.h)
			fresh.SetSrc(m.srcImage)
			fresh.SetDst(cloneImage(m.dst))
			fresh.SetClip(m.clip)
			e0, err0 := fresh.DrawString(string(s), p)
			ok := m.drawAndJudge(c, string(s), p)
			if ok != (err0 == nil) {
				c.Fail("the string is drawn: %v; a fresh context: %v", ok, err0)
			}
			if ok {
				// drawAndJudge has compared the result with the layout.
				if _, end, _ := m.layout(c, string(s), p); end != e0 {
					c.Fail("a fresh context returns %v, the layout is %v", e0, end)
				}
				c.Sample("%s", log)
			} else if m.t != nil {
				c.Event("drawings that go on after a failure", 1)
			}
			changes = changes[:0]
		}
	}
}
