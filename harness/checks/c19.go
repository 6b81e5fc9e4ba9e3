package checks

import (
	"fmt"
	"image"
	"math"
	"math/rand/v2"

	"github.com/golang/freetype/truetype"
	"golang.org/x/image/font"
	"golang.org/x/image/math/fixed"

	"verif/harness/mon"
)

func init() {
	mon.Register(&mon.Check{
		ID:   "C19",
		Rule: "A case makes a face of a random font (honest, wrong or empty font bounds; programs; composites) or of a real one, with random options including ones that are not valid, and asks it for glyphs in a random order with repeats: runes and glyph indexes that collide in the caches, runes without glyphs, dots of all signs and fractions. Every image is compared with the glyph, loaded afresh, drawn alone on a canvas of its own. Non-trivial: an image with ink; distinct by font, options, glyph and sub-pixel position.",
		Assumptions: []string{
			"the outline of a glyph is what a fresh buffer loads (judged by C07 to C11) and its coverage is what a fresh rasteriser gives under the non-zero rule (judged by C12 to C15)",
			"the fonts' bounds are not so large that the cache does not fit in memory",
			"dots are at least a pixel away from the ends of the 26.6 range",
			"an implied point between two 26.6 points may be rounded either way",
		},
		Streams: []mon.Stream{
			{Name: "random", Quick: 60000, Thorough: 200000, Run: func(c *mon.Case) { c19Run(c, newTextFont(c)) }},
			{Name: "real", Quick: 6000, Thorough: 50000, Run: func(c *mon.Case) { c19Run(c, realTextFont(c)) }},
			{Name: "options", Quick: 6000, Thorough: 30000, Run: c19Options},
			{Name: "long", Quick: 64, Thorough: 2000, Run: c19Long},
		},
		Required: []string{"images compared", "images asked for again", "images asked for again after another took the slot of a small cache", "images larger than the font's bounds", "images without ink", "horizontal sub-pixel positions other than 0", "vertical sub-pixel positions other than 0", "dots rounded up to the next pixel", "negative dots", "hinted images", "glyphs that do not load", "runes that share the low byte", "default options used for invalid ones", "images of faces used thousands of times"},
	})
}

// faceOpts are options with their meaning.
type faceOpts struct {
	o       *truetype.Options
	scale   int64
	h       font.Hinting
	qx, qy  int
	entries int
	invalid bool
}

func (o *faceOpts) String() string { return fmt.Sprintf("%+v", o.o) }

// scaleOf is size*dpi/72 in 26.6, rounded; ok is false if it is too close to
// a tie.
func scaleOf(size, dpi float64) (int64, bool) {
	v := size * dpi * 64 / 72
	s := math.Floor(v + 0.5)
	return int64(s), math.Abs(v-math.Floor(v)-0.5) > 1e-6 && v < 1<<24
}

// randFaceOpts are random options whose caches fit into a number of pixels.
func randFaceOpts(r *rand.Rand, t *textFont, pixels int64) *faceOpts {
	for {
		o := &truetype.Options{}
		x := &faceOpts{o: o, qx: 4, qy: 1, entries: 512}
		size, dpi := 12.0, 72.0
		switch r.IntN(12) {
		case 0:
			o.Size = 0
		case 1:
			o.Size = pick(r, -1, -0.001, math.NaN(), math.Inf(-1))
			x.invalid = true
		case 2:
			o.Size = float64(r.IntN(200)) * 0.37
		default:
			o.Size = float64(1+r.IntN(40)) * pick(r, 1, 1, 0.5, 0.1, 0.77)
		}
		if o.Size > 0 {
			size = o.Size
		}
		switch r.IntN(6) {
		case 0:
			o.DPI = pick(r, -72, -1, math.NaN(), math.Inf(-1))
			x.invalid = true
		case 1:
			o.DPI = 0
		default:
			o.DPI = pick(r, 72.0, 96, 100, 150, 30, 0.5, 71.9, 300)
		}
		if o.DPI > 0 {
			dpi = o.DPI
		}
		x.h = pick(r, font.HintingNone, font.HintingNone, font.HintingFull, font.HintingVertical)
		o.Hinting = x.h
		if x.h == font.HintingVertical {
			x.h = font.HintingFull
		}
		if r.IntN(20) == 0 {
			o.Hinting = pick(r, font.Hinting(3), 7, -1)
			x.h = font.HintingNone
			x.invalid = true
		}
		o.GlyphCacheEntries = pick(r, 0, 1, 2, 4, 8, 16, 64, 256, 512, 1024)
		if o.GlyphCacheEntries != 0 {
			x.entries = o.GlyphCacheEntries
		}
		if r.IntN(6) == 0 {
			o.GlyphCacheEntries = pick(r, 3, 5, 6, 7, 12, 100, 511, -1, -2, -512, -1<<63, 1<<40+1)
			x.entries = 512
			x.invalid = true
		}
		q := func(v *int, q *int) {
			switch r.IntN(5) {
			case 0:
			case 1:
				*v = pick(r, -1, -4, 3, 5, 63, 65, 128, 1<<20, -1<<63, 1<<32+2)
				x.invalid = true
			default:
				*v = 1 << r.IntN(7)
				*q = *v
			}
		}
		q(&o.SubPixelsX, &x.qx)
		q(&o.SubPixelsY, &x.qy)
		ok := false
		if x.scale, ok = scaleOf(size, dpi); !ok {
			continue
		}
		if x.scale > t.model.MaxScale() || t.extent(x.scale)*int64(x.entries) > pixels {
			continue
		}
		if r.IntN(30) == 0 && t.extent(12*64)*512 <= pixels && t.model.MaxScale() >= 12*64 {
			return &faceOpts{scale: 12 * 64, qx: 4, qy: 1, entries: 512, h: font.HintingNone}
		}
		return x
	}
}

// quantise rounds to the nearest multiple of 64/q.
func quantise(x fixed.Int26_6, q int) fixed.Int26_6 {
	step := 64 / q
	return fixed.Int26_6((int(x) + step/2) >> log2(step) << log2(step))
}

func log2(x int) (n uint) {
	for x > 1 {
		x >>= 1
		n++
	}
	return
}

func randDot(r *rand.Rand) fixed.Point26_6 {
	d := func() fixed.Int26_6 {
		switch r.IntN(8) {
		case 0:
			return fixed.Int26_6(r.IntN(64))
		case 1:
			return fixed.Int26_6(64 * (r.IntN(9) - 4))
		case 2:
			return fixed.Int26_6(r.IntN(1<<20) - 1<<19)
		case 3:
			return fixed.Int26_6(r.IntN(1<<32-256) - 1<<31 + 128)
		}
		return fixed.Int26_6(r.IntN(640) - 320)
	}
	return fixed.Point26_6{X: d(), Y: d()}
}

func c19Run(c *mon.Case, t *textFont) {
	r := c.R
	x := randFaceOpts(r, t, 1<<22)
	c.Describe("%s font, options %v", t.name, x)
	f := truetype.NewFace(t.ft, x.o)
	l := newLoader(t.ft, x.scale, x.h)
	if x.invalid {
		c.Event("default options used for invalid ones", 1)
	}
	// A few runes and dots, so that they repeat.
	var rs []rune
	for k := 2 + r.IntN(12); k > 0; k-- {
		if a := t.rune(r); t.drawable(l, a) {
			rs = append(rs, a)
			// One that the cache might take for it.
			if b := a ^ rune(pick(r, 256, 512, 1024, 0x8000)); r.IntN(3) == 0 && t.drawable(l, b) {
				rs = append(rs, b)
				if l.ft.Index(b) != l.ft.Index(a) {
					c.Event("runes that share the low byte", 1)
				}
			}
		}
	}
	// Glyphs a cache's size apart.
	if len(t.runes) > 256 && r.IntN(2) == 0 {
		a := r.IntN(len(t.runes) - 256)
		for _, k := range []int{a, a + 256, a + 128, a + 64} {
			if t.drawable(l, t.runes[k]) {
				rs = append(rs, t.runes[k])
			}
		}
	}
	if len(rs) == 0 {
		return
	}
	var ds []fixed.Point26_6
	for k := 1 + r.IntN(8); k > 0; k-- {
		ds = append(ds, randDot(r))
	}
	type key struct {
		i      truetype.Index
		fx, fy fixed.Int26_6
	}
	last := map[key]int{}
	bx := pixelBox(t.ft.Bounds(fixed.Int26_6(x.scale)), fixed.Point26_6{})
	history := ""
	for n := 0; n < 40; n++ {
		a, d := rs[r.IntN(len(rs))], ds[r.IntN(len(ds))]
		i := t.ft.Index(a)
		q := fixed.Point26_6{X: quantise(d.X, x.qx), Y: quantise(d.Y, x.qy)}
		if len(history) < 1500 {
			history += fmt.Sprintf(" %#x@%d,%d", a, d.X, d.Y)
		}
		c.Describe("%s font upem %d, options %v (scale %d); history%s; now rune %#x (glyph %d) at %d,%d", t.name, t.model.UPEM, x, x.scale, history, a, i, d.X, d.Y)
		g := l.load(i)
		if r.IntN(6) == 0 {
			c20Measure(c, r, f, t, x, l, rs)
		}
		dr, mask, mp, adv, ok := f.Glyph(d, a)
		if g == nil {
			if ok {
				c.Fail("an image of a glyph that does not load")
			}
			c.Event("glyphs that do not load", 1)
			continue
		}
		if !ok {
			c.Fail("no image")
		}
		if adv != g.AdvanceWidth {
			c.Fail("advance %d, want %d", adv, g.AdvanceWidth)
		}
		if dr.Dx() > 1<<14 || dr.Dy() > 1<<14 {
			c.Fail("rectangle %v for glyph bounds %v", dr, g.Bounds)
		}
		p := placed(dr, mask, mp)
		if msg := diffImage(p, g, q); msg != "" {
			c.Fail("%s; points %v ends %v bounds %v", msg, g.Points, g.Ends, g.Bounds)
		}
		c.Eval(1)
		c.Event("images compared", 1)
		k := key{i, q.X & 63, q.Y & 63}
		if at, ok := last[k]; ok {
			c.Event("images asked for again", 1)
			if n-at > 1 && x.entries <= 4 && len(last) > x.entries {
				c.Event("images asked for again after another took the slot of a small cache", 1)
			}
		}
		last[k] = n
		if dr.Dx() > bx.Dx() || dr.Dy() > bx.Dy() {
			c.Event("images larger than the font's bounds", 1)
		}
		if k.fx != 0 {
			c.Event("horizontal sub-pixel positions other than 0", 1)
		}
		if k.fy != 0 {
			c.Event("vertical sub-pixel positions other than 0", 1)
		}
		if q.X>>6 > d.X>>6 || q.Y>>6 > d.Y>>6 {
			c.Event("dots rounded up to the next pixel", 1)
		}
		if d.X < 0 || d.Y < 0 {
			c.Event("negative dots", 1)
		}
		if x.h != font.HintingNone {
			c.Event("hinted images", 1)
		}
		if !inked(p) {
			c.Event("images without ink", 1)
			continue
		}
		c.Seen("images", mon.Hash(p.Pix, p.Rect.Dx()))
		c.Nontrivial(mon.Hash(t.name, t.model.UPEM, int(x.scale), int(i), int(k.fx), int(k.fy), p.Pix))
		c.Sample("%s options %v rune %#x at %v", t.name, x, a, d)
	}
}

// c19Options: all faces of a font whose options differ in the cache alone
// give the same images.
func c19Options(c *mon.Case) {
	r := c.R
	t := newTextFont(c)
	x := randFaceOpts(r, t, 1<<21)
	if x.o == nil {
		return
	}
	l := newLoader(t.ft, x.scale, x.h)
	var fs []font.Face
	for _, n := range []int{0, 1, 2, 32, 7} {
		o := *x.o
		o.GlyphCacheEntries = n
		if n&(n-1) != 0 || n == 0 {
			if t.extent(x.scale)*512 > 1<<22 {
				continue
			}
		} else if t.extent(x.scale)*int64(n) > 1<<22 {
			continue
		}
		fs = append(fs, truetype.NewFace(t.ft, &o))
	}
	if len(fs) < 2 {
		return
	}
	history := ""
	for n := 0; n < 20; n++ {
		a := t.rune(r)
		d := fixed.Point26_6{X: fixed.Int26_6(r.IntN(128)), Y: fixed.Int26_6(r.IntN(128))}
		if !t.drawable(l, a) {
			continue
		}
		history += fmt.Sprintf(" %#x@%d,%d", a, d.X, d.Y)
		c.Describe("%s font, options %v (scale %d), caches of several sizes; history%s", t.name, x, x.scale, history)
		type res struct {
			p   *image.Alpha
			adv fixed.Int26_6
			ok  bool
		}
		var first res
		for k, f := range fs {
			dr, mask, mp, adv, ok := f.Glyph(d, a)
			v := res{adv: adv, ok: ok}
			if ok {
				v.p = placed(dr, mask, mp)
			}
			if k == 0 {
				first = v
				continue
			}
			if v.ok != first.ok || v.adv != first.adv {
				c.Fail("advance %d, ok %v; with another cache size %d, %v", first.adv, first.ok, v.adv, v.ok)
			}
			if ok && v.p.Rect != first.p.Rect {
				c.Fail("rectangle %v, with another cache size %v", first.p.Rect, v.p.Rect)
			}
			if ok {
				if msg := sameAlpha(v.p, first.p); msg != "" {
					c.Fail("with another cache size %s", msg)
				}
			}
			c.Event("images compared between cache sizes", 1)
		}
	}
	c.Nontrivial(mon.Hash(history, x.String()))
}
