package checks

import (
	"fmt"
	"image"
	"image/color"
	"image/draw"
	"math"
	"math/rand/v2"
	"runtime"
	"slices"
	"sync"

	"github.com/golang/freetype"
	"github.com/golang/freetype/truetype"
	"golang.org/x/image/font"
	"golang.org/x/image/math/fixed"

	"verif/harness/fontgen"
	"verif/harness/mon"
	"verif/harness/ttgen"
)

func init() {
	mon.Register(&mon.Check{
		ID:   "C25",
		Rule: "A case makes a font that parses, with damaged tables, hostile hinting programs, programs that move points to chosen distances, or extreme bounds, or takes a good one, and creates faces and contexts of it at ordinary and extreme sizes and resolutions, which measure and draw glyphs and strings; a process that panics, or uses more than 10 GB or 60 CPU seconds, is a violation, and so is a glyph that is refused though it loads and is small enough, or not refused though it does not load. Non-trivial: a face or context that drew or refused glyphs; distinct by what they are.",
		Assumptions: []string{
			"what loads is judged by a fresh buffer at the face's or context's own scale (C11)",
			"the outlines have up to a few hundred points; the time that drawing takes may grow with their number and with the pixels that they cover",
			"glyphs of more than 16380 pixels in either direction may be drawn, measured or refused",
		},
		Streams: []mon.Stream{
			{Name: "far", Quick: 4000, Thorough: 100000, Run: c25Far},
			{Name: "bounds", Quick: 3000, Thorough: 80000, Run: c25Bounds},
			{Name: "hostile", Quick: 3000, Thorough: 100000, Run: c25Hostile},
			{Name: "damaged", Quick: 4000, Thorough: 100000, Run: c25Damaged},
			{Name: "sizes", Quick: 3000, Thorough: 80000, Run: c25Sizes},
			{Name: "real", Quick: 400, Thorough: 20000, Run: c25Real},
		},
		MemGB: 10,
		Required: []string{"glyphs drawn", "glyphs drawn that are thousands of pixels large", "glyphs refused that are too large", "glyphs refused that do not load",
			"glyphs with a point billions of units away", "faces of fonts with impossible bounds", "faces of fonts with enormous bounds", "faces and contexts at extreme scales", "faces of damaged fonts",
			"glyphs measured that are too large to draw", "strings drawn", "strings refused", "strings that go on after a refusal", "glyphs as before after a refusal"},
	})
}

// c25Max is the size in pixels up to which a glyph has to be drawn.
const c25Max = 16380

type c25State struct {
	ft     *truetype.Font
	runes  []rune
	loader map[string]*truetype.GlyphBuf
	budget int64 // pixels still to be spent on large glyphs
}

// verdict is what has to become of a glyph: 1 drawn, -1 refused, 0 either.
func (s *c25State) verdict(scale fixed.Int26_6, i truetype.Index, h font.Hinting) (v int, w, ht int64) {
	k := fmt.Sprint(scale, i, h)
	g, ok := s.loader[k]
	if !ok {
		g = &truetype.GlyphBuf{}
		if g.Load(s.ft, scale, i, h) != nil {
			g = nil
		}
		s.loader[k] = g
	}
	if g == nil {
		return -1, 0, 0
	}
	w = (int64(g.Bounds.Max.X) - int64(g.Bounds.Min.X)) / 64
	ht = (int64(g.Bounds.Max.Y) - int64(g.Bounds.Min.Y)) / 64
	if w <= c25Max && ht <= c25Max {
		return 1, w, ht
	}
	return 0, w, ht
}

// c25Use creates faces and contexts of a font and uses them.
func c25Use(c *mon.Case, ft *truetype.Font, runes []rune, name string, sizes func() (size, dpi float64)) {
	r := c.R
	s := &c25State{ft: ft, runes: runes, loader: map[string]*truetype.GlyphBuf{}, budget: 1 << 26}
	for k := 1 + r.IntN(2); k > 0; k-- {
		size, dpi := sizes()
		if r.IntN(2) == 0 {
			c25Face(c, s, size, dpi, name)
		} else {
			c25Context(c, s, size, dpi, name)
		}
	}
}

func c25Rune(r *rand.Rand, s *c25State) rune {
	if len(s.runes) == 0 || r.IntN(20) == 0 {
		return pick(r, rune(-1), 0, 'A', 0xffff, 0x10ffff, 0x7fffffff, rune(r.Uint32()))
	}
	return s.runes[r.IntN(len(s.runes))]
}

// affordable tells whether to draw a glyph of a size; it makes large ones rare.
func (s *c25State) affordable(v int, w, h int64) bool {
	if v < 0 || w > 1<<17 || h > 1<<17 {
		return true
	}
	cost := w*h + (w+h)*100
	if v == 0 {
		// It is to be refused, but need not be.
		cost /= 8
	}
	if cost > s.budget {
		return false
	}
	s.budget -= cost
	return true
}

// c25Large is held while a face with large masks is in use.
var c25Large sync.Mutex

// truetypeScale is about the scale of a face.
func truetypeScale(size, dpi float64) fixed.Int26_6 {
	if !(size > 0) {
		size = 12
	}
	if !(dpi > 0) {
		dpi = 72
	}
	return fixed.Int26_6(min(size*dpi*64/72, math.MaxInt32))
}

func c25Face(c *mon.Case, s *c25State, size, dpi float64, name string) {
	r := c.R
	o := &truetype.Options{Size: size, DPI: dpi}
	o.Hinting = pick(r, font.HintingNone, font.HintingFull, font.HintingFull)
	o.GlyphCacheEntries = pick(r, 0, 1, 4, 64, 512)
	o.SubPixelsX, o.SubPixelsY = pick(r, 0, 1, 4, 64), pick(r, 0, 1, 4, 64)
	what := fmt.Sprintf("%s: face %+v", name, o)
	c.Describe("%s", what)
	if b := s.ft.Bounds(truetypeScale(size, dpi)); true {
		n := int64(o.GlyphCacheEntries)
		if n == 0 {
			n = 512
		}
		if (int64(b.Max.X)-int64(b.Min.X))/64*((int64(b.Max.Y)-int64(b.Min.Y))/64)*n > 1<<26 {
			// One at a time.
			c25Large.Lock()
			defer c25Large.Unlock()
			defer runtime.GC()
		}
	}
	face := truetype.NewFace(s.ft, o)
	defer face.Close()
	h := o.Hinting
	scale := face.Metrics().Height
	if scale > 1<<20 || scale < 0 {
		c.Event("faces and contexts at extreme scales", 1)
	}
	sig := mon.Hash(what)
	drew := 0
	for k := 2 + r.IntN(8); k > 0; k-- {
		x := c25Rune(r, s)
		i := s.ft.Index(x)
		v, w, ht := s.verdict(scale, i, h)
		at := fmt.Sprintf("%s, rune %#x, glyph %d of %d×%d pixels", what, x, i, w, ht)
		dot := fixed.Point26_6{X: fixed.Int26_6(r.IntN(4096)), Y: fixed.Int26_6(r.IntN(4096))}
		if r.IntN(10) == 0 {
			dot = fixed.Point26_6{X: fixed.Int26_6(pick(r, math.MaxInt32, math.MinInt32, int32(r.Uint32()))), Y: fixed.Int26_6(pick(r, math.MaxInt32, math.MinInt32, int32(r.Uint32())))}
		}
		switch r.IntN(8) {
		case 0:
			c.Describe("%s: advance", at)
			_, ok := face.GlyphAdvance(x)
			c25Measured(c, at, "GlyphAdvance", v, ok)
		case 1:
			c.Describe("%s: bounds", at)
			_, _, ok := face.GlyphBounds(x)
			c25Measured(c, at, "GlyphBounds", v, ok)
		case 2:
			c.Describe("%s: kern", at)
			face.Kern(x, c25Rune(r, s))
		case 3:
			// A string, unless a glyph of it is too dear.
			var rs []rune
			for q := 1 + r.IntN(4); q > 0; q-- {
				y := c25Rune(r, s)
				if v, w, ht := s.verdict(scale, s.ft.Index(y), h); s.affordable(v, w, ht) {
					rs = append(rs, y)
				}
			}
			c.Describe("%s: drawer, %q", what, string(rs))
			dst := image.NewRGBA(image.Rect(0, 0, 20, 20))
			d := &font.Drawer{Dst: dst, Src: image.NewUniform(color.Black), Face: face, Dot: dot}
			d.DrawString(string(rs))
			d.MeasureString(string(rs))
			font.BoundString(face, string(rs))
			c.Event("strings drawn", 1)
		default:
			if !s.affordable(v, w, ht) {
				continue
			}
			c.Describe("%s: glyph at %v", at, dot)
			dr, mask, mp, _, ok := face.Glyph(dot, x)
			if !c25Drawn(c, at, v, w, ht, ok) {
				return
			}
			if ok {
				if got := (image.Rectangle{Min: mp, Max: mp.Add(dr.Size())}); !dr.Empty() && !got.In(mask.Bounds()) {
					c.Fail("%s: part %v of a mask of %v", at, got, mask.Bounds())
					return
				}
				dst := image.NewRGBA(image.Rect(0, 0, 20, 20))
				draw.DrawMask(dst, dst.Bounds(), image.NewUniform(color.Black), image.Point{}, mask, mp, draw.Over)
				drew++
			}
			if k == 1 && drew > 0 && w < 200 && ht < 200 {
				// What was refused has left no trace.
				if d := c25Same(face, o, s.ft, dot, x); d != "" {
					c.Fail("%s: %s", at, d)
					return
				}
				c.Event("glyphs as before after a refusal", 1)
			}
		}
		c.Eval(1)
		c.Seen("verdicts", mon.Hash(v, min(w, 1<<15)/1024, min(ht, 1<<15)/1024, h))
	}
	c.Nontrivial(sig)
}

// c25Same compares a glyph with that of a fresh face.
func c25Same(face font.Face, o *truetype.Options, ft *truetype.Font, dot fixed.Point26_6, x rune) string {
	small := *o
	small.GlyphCacheEntries = 1
	fresh := truetype.NewFace(ft, &small)
	dr1, m1, p1, a1, ok1 := face.Glyph(dot, x)
	dr2, m2, p2, a2, ok2 := fresh.Glyph(dot, x)
	if ok1 != ok2 || a1 != a2 || dr1 != dr2 {
		return fmt.Sprintf("%v %v %v, from a new face %v %v %v", ok1, a1, dr1, ok2, a2, dr2)
	}
	if !ok1 {
		return ""
	}
	for y := 0; y < dr1.Dy(); y++ {
		for x := 0; x < dr1.Dx(); x++ {
			_, _, _, b1 := m1.At(p1.X+x, p1.Y+y).RGBA()
			_, _, _, b2 := m2.At(p2.X+x, p2.Y+y).RGBA()
			if b1 != b2 {
				return fmt.Sprintf("alpha %#x at %d,%d of the glyph, from a new face %#x", b1, x, y, b2)
			}
		}
	}
	return ""
}

func c25Measured(c *mon.Case, at, what string, v int, ok bool) {
	switch {
	case ok && v < 0:
		c.Fail("%s: does not load but %s reports ok", at, what)
	case !ok && v > 0:
		c.Fail("%s: loads but %s does not report ok", at, what)
	case ok && v == 0:
		c.Event("glyphs measured that are too large to draw", 1)
	}
}

func c25Drawn(c *mon.Case, at string, v int, w, h int64, ok bool) bool {
	switch {
	case ok && v < 0:
		c.Fail("%s: drawn though it does not load", at)
		return false
	case !ok && v > 0:
		c.Fail("%s: not drawn though it loads and is small enough", at)
		return false
	case ok:
		c.Event("glyphs drawn", 1)
		if max(w, h) > 2000 {
			c.Event("glyphs drawn that are thousands of pixels large", 1)
		}
	case v < 0:
		c.Event("glyphs refused that do not load", 1)
	default:
		c.Event("glyphs refused that are too large", 1)
		if max(w, h) > 1<<24 {
			c.Event("glyphs with a point billions of units away", 1)
		}
	}
	return true
}

func c25Context(c *mon.Case, s *c25State, size, dpi float64, name string) {
	r := c.R
	ctx := freetype.NewContext()
	h := pick(r, font.HintingNone, font.HintingFull, font.HintingFull)
	dst := image.NewRGBA(image.Rect(0, 0, 20, 20))
	what := fmt.Sprintf("%s: context of size %v at %v dpi, hinting %v", name, size, dpi, h)
	c.Describe("%s", what)
	set := []func(){
		func() { ctx.SetFont(s.ft) },
		func() { ctx.SetFontSize(size) },
		func() { ctx.SetDPI(dpi) },
		func() { ctx.SetHinting(h) },
		func() { ctx.SetDst(dst) },
		func() { ctx.SetSrc(image.NewUniform(color.Black)) },
		func() {
			ctx.SetClip(pick(r, dst.Bounds(), dst.Bounds(), image.Rect(3, 4, 15, 16), image.Rect(-1<<40, -1<<40, 1<<40, 1<<40)))
		},
	}
	for _, i := range r.Perm(len(set)) {
		set[i]()
	}
	scale := ctx.PointToFixed(size)
	if scale > 1<<20 || scale < 0 {
		c.Event("faces and contexts at extreme scales", 1)
	}
	refused := false
	for k := 2 + r.IntN(6); k > 0; k-- {
		var rs []rune
		want := 1
		lw, lh := int64(0), int64(0)
		for q := 1 + r.IntN(3); q > 0; q-- {
			y := rune(string([]rune{c25Rune(r, s)})[0])
			if x := []rune(string([]rune{c25Rune(r, s)})); len(x) == 1 {
				y = x[0]
			}
			v, w, ht := s.verdict(scale, s.ft.Index(y), h)
			if !s.affordable(v, w, ht) {
				continue
			}
			rs = append(rs, y)
			want = min(want, v)
			lw, lh = max(lw, w), max(lh, ht)
		}
		p := fixed.Point26_6{X: fixed.Int26_6(r.IntN(2000) - 200), Y: fixed.Int26_6(r.IntN(2000) - 200)}
		if r.IntN(10) == 0 {
			p = fixed.Point26_6{X: fixed.Int26_6(int32(r.Uint32())), Y: fixed.Int26_6(int32(r.Uint32()))}
		}
		at := fmt.Sprintf("%s, %q, %d×%d pixels", what, string(rs), lw, lh)
		c.Describe("%s at %v", at, p)
		_, err := ctx.DrawString(string(rs), p)
		if len(rs) == 1 {
			if !c25Drawn(c, at, want, lw, lh, err == nil) {
				return
			}
		} else if want == 1 && err != nil || want == -1 && err == nil {
			c.Fail("%s: error %v; the glyphs load and are small enough: %v", at, err, want == 1)
			return
		}
		if err != nil {
			c.Event("strings refused", 1)
			refused = true
		} else {
			c.Event("strings drawn", 1)
			if refused {
				c.Event("strings that go on after a refusal", 1)
			}
		}
		c.Eval(1)
	}
	c.Nontrivial(mon.Hash(what))
}

// c25Sizes are mostly ordinary, and sometimes extreme sizes and resolutions.
func c25Size(r *rand.Rand) (size, dpi float64) {
	size, dpi = float64(1+r.IntN(60)), pick(r, 72.0, 72, 96, 300)
	if r.IntN(6) == 0 {
		return c25Extreme(r)
	}
	return
}

func c25Extreme(r *rand.Rand) (size, dpi float64) {
	odd := func() float64 {
		switch r.IntN(6) {
		case 0:
			return pick(r, math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat64, math.SmallestNonzeroFloat64, -math.MaxFloat64, 0, -1, -12)
		case 1:
			return math.Exp2(float64(r.IntN(80) - 20))
		case 2:
			return -math.Exp2(float64(r.IntN(40)))
		default:
			return math.Exp2(r.Float64()*26 - 2)
		}
	}
	size, dpi = float64(1+r.IntN(60)), 72.0
	switch r.IntN(4) {
	case 0:
		dpi = odd()
	case 1:
		size, dpi = odd(), odd()
	default:
		size = odd()
	}
	return
}

func c25Runes(f *fontgen.Font) (rs []rune) {
	for i := range f.Glyphs {
		rs = append(rs, fontgen.Base+rune(i))
	}
	return
}

// c25Drawable is a good font of small glyphs.
func c25Drawable(r *rand.Rand) *fontgen.Font {
	return fontgen.Rand(r, fontgen.Opts{MaxGlyphs: 5, MaxPoints: 8, Composites: true, Honest: true, Drawable: true, Runes: true, Kern: true})
}

// c25Push pushes a value, or one near it.
func c25Push(b []byte, v int64) []byte {
	n := 0
	for v < -32768 || v > 32767 {
		v /= 256
		n++
	}
	b = append(b, 0xb8, byte(v>>8), byte(v))
	for ; n > 0; n-- {
		b = append(b, 0xb8, 0x40, 0, 0x63) // MUL by 256
	}
	return b
}

// c25Far: glyphs whose programs move points to chosen distances.
func c25Far(c *mon.Case) {
	r := c.R
	f := c25Drawable(r)
	f.FPGM, f.Prep = nil, nil
	f.MaxStack = 100
	for _, g := range f.Glyphs {
		if g.Empty || r.IntN(3) == 0 {
			continue
		}
		var p []byte
		p = append(p, byte(r.IntN(2))) // SVTCA
		for k := 1 + r.IntN(4); k > 0; k-- {
			n := g.NPoints() + 4
			if g.Composite() {
				n = 4 + r.IntN(20) // fails if there is none
			}
			var d int64
			switch r.IntN(6) {
			case 0:
				d = 64 * int64(100+r.IntN(3000))
			case 1:
				d = 64*16384 + int64(r.IntN(64*64)-32*64)
			case 2:
				d = 64 * int64(16384+r.IntN(1<<20))
			case 3:
				d = int64(1)<<31 - 1 - int64(r.IntN(3))
			default:
				d = int64(math.Exp2(6 + r.Float64()*25))
			}
			if r.IntN(2) == 0 {
				d = -d
			}
			p = append(p, 0xb0, byte(r.IntN(n)))
			p = append(c25Push(p, d), 0x48) // SCFS
			if r.IntN(3) == 0 {
				p = append(p, byte(r.IntN(2)))
			}
			if r.IntN(4) == 0 {
				p = append(p, 0x30+byte(r.IntN(2))) // IUP
			}
		}
		g.Program = p
	}
	ft := parse(c, f)
	if ft == nil {
		return
	}
	c25Use(c, ft, c25Runes(f), "far", func() (float64, float64) { return c25Size(r) })
}

// c25Bounds: fonts with extreme bounds and units per em.
func c25Bounds(c *mon.Case) {
	r := c.R
	f := c25Drawable(r)
	if r.IntN(3) == 0 {
		f.UPEM = pick(r, 16, 17, 64, 16384, 1)
	}
	v := func() int16 {
		return pick(r, int16(math.MinInt16), math.MaxInt16, 0, 1, -1, int16(r.IntN(1000)), int16(r.Uint32()))
	}
	f.XMin, f.XMax, f.YMin, f.YMax = v(), v(), v(), v()
	f.Ascent, f.Descent = v(), v()
	name := fmt.Sprintf("bounds %d,%d - %d,%d, %d units", f.XMin, f.YMin, f.XMax, f.YMax, f.UPEM)
	if f.XMin > f.XMax || f.YMin > f.YMax {
		c.Event("faces of fonts with impossible bounds", 1)
	} else if int(f.XMax)-int(f.XMin) > 10*f.UPEM || int(f.YMax)-int(f.YMin) > 10*f.UPEM {
		c.Event("faces of fonts with enormous bounds", 1)
	}
	ft, err := parseFont(f.Encode(r))
	if err != nil {
		return
	}
	c25Use(c, ft, c25Runes(f), name, func() (float64, float64) { return c25Size(r) })
}

// c25Hostile: fonts with hostile programs.
func c25Hostile(c *mon.Case) {
	r := c.R
	f := c25Drawable(r)
	h := &ttgen.H{R: r, N: 8, F: 3, S: int(f.MaxStorage), C: len(f.CVT)}
	if r.IntN(2) == 0 {
		f.FPGM = h.Functions()
	}
	if r.IntN(3) == 0 {
		f.Prep = h.Program(1 + r.IntN(4))
	}
	f.MaxStack = uint16(20 + r.IntN(500))
	for _, g := range f.Glyphs {
		if !g.Empty {
			h.N = g.NPoints() + 4
			g.Program = h.Program(1 + r.IntN(12))
		}
	}
	ft, err := parseFont(f.Encode(r))
	if err != nil {
		return
	}
	c25Use(c, ft, c25Runes(f), "hostile", func() (float64, float64) { return c25Size(r) })
}

// c25Damaged: fonts whose tables are damaged.
func c25Damaged(c *mon.Case) {
	r := c.R
	f := c25Drawable(r)
	if r.IntN(3) == 0 {
		f = c01Font(r)
	}
	var b []byte
	if r.IntN(2) == 0 {
		b = damaged(r, f)
	} else {
		t := f.Tables(r)
		for k := 1 + r.IntN(2); k > 0; k-- {
			name := pick(r, "head", "head", "hhea", "maxp", "glyf", "glyf", "loca", "hmtx", "kern", "cmap", "OS/2", "cvt ", "fpgm")
			if len(t[name]) > 0 {
				t[name] = damageTable(r, slices.Clone(t[name]))
			}
		}
		b = fontgen.File(r, t, fontgen.Plain)
	}
	ft, err := parseFont(b)
	if err != nil {
		c.Event("damaged fonts that do not parse", 1)
		return
	}
	c.Event("faces of damaged fonts", 1)
	c25Use(c, ft, c25Runes(f), "damaged", func() (float64, float64) { return c25Size(r) })
}

// c25Sizes: good fonts at extreme sizes.
func c25Sizes(c *mon.Case) {
	r := c.R
	f := c25Drawable(r)
	ft := parse(c, f)
	if ft == nil {
		return
	}
	c25Use(c, ft, c25Runes(f), "sizes", func() (float64, float64) { return c25Extreme(r) })
}

// c25Real: real fonts, with damaged headers, at all sizes.
func c25Real(c *mon.Case) {
	r := c.R
	rf := pick(r, realFonts()...)
	b := rf.data
	var rs []rune
	for k := 0; k < 8; k++ {
		rs = append(rs, rune(0x20+r.IntN(0x400)))
	}
	ft, err := parseFont(b)
	if err != nil {
		return
	}
	if r.IntN(2) == 0 && len(b) < 1<<20 {
		b = slices.Clone(b)
		for k := 1 + r.IntN(3000); k > 0; k-- {
			i := r.IntN(len(b))
			if i > 300 {
				b[i] = byte(r.UintN(256))
			}
		}
		if f2, err := parseFont(b); err == nil {
			ft = f2
			c.Event("faces of damaged fonts", 1)
		}
	}
	c25Use(c, ft, rs, rf.name, func() (float64, float64) {
		if r.IntN(2) == 0 {
			return c25Extreme(r)
		}
		return c25Size(r)
	})
}
