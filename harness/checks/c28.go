package checks

import (
	"fmt"
	"image"
	"image/color"
	"math/rand/v2"
	"runtime"
	"sync"

	"github.com/golang/freetype"
	"github.com/golang/freetype/raster"
	"github.com/golang/freetype/truetype"
	"golang.org/x/image/font"
	"golang.org/x/image/math/fixed"

	"verif/harness/mon"
)

func init() {
	mon.Register(&mon.Check{
		ID:   "C28",
		Rule: "A case has eight goroutines repeat a fixed set of operations on long-lived objects of one kind, each its own, and measures the live heap after a warm-up and after thousands more; heap that grows by more than 64 KB and an eighth of what the objects held, or goroutines left over, are a violation. Non-trivial: a case whose objects were measured; distinct by its operations.",
		Assumptions: []string{
			"the live heap is what the Go runtime reports after two collections; what is reachable but will be let go of by the next operations counts too, so it is measured after the same last operations",
			"objects may keep what the operations so far needed at most, and the warm-up does each of them several times in several orders",
		},
		Streams: []mon.Stream{
			{Name: "buffers", Quick: 12, Thorough: 500, Run: func(c *mon.Case) { c28Run(c, 250, c28Buffer) }},
			{Name: "faces", Quick: 16, Thorough: 600, Run: func(c *mon.Case) { c28Run(c, 150, c28Face) }},
			{Name: "contexts", Quick: 16, Thorough: 600, Run: func(c *mon.Case) { c28Run(c, 60, c28Context) }},
			{Name: "rasterisers", Quick: 16, Thorough: 600, Run: func(c *mon.Case) { c28Run(c, 150, c28Rasteriser) }},
			{Name: "paths", Quick: 12, Thorough: 500, Run: func(c *mon.Case) { c28Run(c, 200, c28Path) }},
			{Name: "queries", Quick: 6, Thorough: 300, Run: func(c *mon.Case) { c28Run(c, 150, c28Queries) }},
			{Name: "large", Quick: 3, Thorough: 60, Run: c28Large},
			{Name: "dropped", Quick: 12, Thorough: 500, Run: func(c *mon.Case) { c28Run(c, 60, c28Dropped) }},
		},
		Serial: true,
		Required: []string{"buffers measured", "faces measured", "contexts measured", "rasterisers measured", "paths measured", "fonts measured", "dropped objects measured",
			"operations", "failed loads", "settings changed", "histories cleared", "glyphs that take each other's place", "enormous images"},
	})
}

// A c28Actor has operations to repeat, which do the same each time.
type c28Actor struct {
	kind string
	what string
	ops  []func()
	seed [2]uint64
}

// run does rounds of the operations in random orders, and one in order.
func (a *c28Actor) run(rounds int) {
	r := rand.New(rand.NewPCG(a.seed[0], a.seed[1]+uint64(rounds)))
	for ; rounds > 0; rounds-- {
		for range a.ops {
			a.ops[r.IntN(len(a.ops))]()
		}
	}
	for _, op := range a.ops {
		op()
	}
}

func c28Live() int64 {
	var m runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

func c28Run(c *mon.Case, rounds int, mk func(c *mon.Case) *c28Actor) {
	realFonts()
	as := make([]*c28Actor, 8)
	what := ""
	for i := range as {
		as[i] = mk(c)
		as[i].seed = [2]uint64{c.R.Uint64(), c.R.Uint64()}
		what += fmt.Sprintf("%d: %s\n", i, as[i].what)
	}
	c.Describe("%s", what)
	all := func(n int) {
		var wg sync.WaitGroup
		var mu sync.Mutex
		msg := ""
		for _, a := range as {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if x, st := mon.Catch(func() { a.run(n) }); x != nil {
					mu.Lock()
					msg = fmt.Sprintf("panic: %v\n%s", x, st)
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
		if msg != "" {
			c.Fail("%s", msg)
		}
	}
	n0, base := runtime.NumGoroutine(), c28Live()
	for i := 0; i < 4; i++ {
		all(2)
	}
	h0 := c28Live()
	all(rounds)
	h1 := c28Live()
	lim := max(h0-base, 0)/8 + 64<<10
	if h1-h0 > lim {
		// What the orders of the warm-up did not need may be once more.
		all(rounds)
		if h2 := c28Live(); h2-h1 > lim/2 {
			c.Fail("the live heap is %d bytes after the warm-up (%d before), %d after %d rounds, and %d after as many more", h0, base, h1, rounds, h2)
		}
	}
	if n := runtime.NumGoroutine(); n > n0+2 {
		c.Fail("%d goroutines are left of %d", n, n0)
	}
	ops := 0
	for _, a := range as {
		ops += len(a.ops) * (rounds + 1)
	}
	c.Event(as[0].kind+" measured", len(as))
	c.Event("operations", ops)
	c.Eval(1)
	c.Seen("growth of the live heap in KB", uint64(max(h1-h0, 0)>>10))
	if h1-h0 > 4<<10 {
		c.Sample("%s: %d bytes before, %d after the warm-up, %d after the rounds", as[0].kind, base, h0, h1)
	}
	c.Nontrivial(mon.Hash(what))
	runtime.KeepAlive(as)
}

func c28Font(c *mon.Case) *textFont {
	if c.R.IntN(3) == 0 {
		return realTextFont(c)
	}
	return newTextFont(c)
}

func c28Scale(c *mon.Case) fixed.Int26_6 { return fixed.Int26_6(64*6 + c.R.IntN(64*25)) }

func c28Hinting(c *mon.Case) font.Hinting {
	if c.R.IntN(2) == 0 {
		return font.HintingFull
	}
	return font.HintingNone
}

func c28Buffer(c *mon.Case) *c28Actor {
	r := c.R
	a := &c28Actor{kind: "buffers"}
	g := &truetype.GlyphBuf{}
	for k := 1 + r.IntN(3); k > 0; k-- {
		t := c28Font(c)
		l := newLoader(t.ft, 64*10, font.HintingNone)
		for n := 5; n > 0; n-- {
			x := t.rune(r)
			i := t.ft.Index(x)
			if !t.drawable(l, x) {
				continue
			}
			if r.IntN(8) == 0 {
				i = truetype.Index(60000 + r.IntN(5000))
			}
			s, h := c28Scale(c), c28Hinting(c)
			if g.Load(t.ft, s, i, h) != nil {
				c.Event("failed loads", 1)
			}
			a.ops = append(a.ops, func() { g.Load(t.ft, s, i, h) })
			a.what += fmt.Sprintf("%s (upem %d) glyph %d scale %d hinting %v; ", t.name, t.model.UPEM, i, s, h)
		}
	}
	return a
}

func c28Face(c *mon.Case) *c28Actor {
	r := c.R
	a := &c28Actor{kind: "faces"}
	t := c28Font(c)
	x := randFaceOpts(r, t, 1<<18)
	f := truetype.NewFace(t.ft, x.o)
	l := newLoader(t.ft, x.scale, x.h)
	a.what = fmt.Sprintf("%s (upem %d) options %v", t.name, t.model.UPEM, x)
	for n := 12; n > 0; n-- {
		x, y := t.rune(r), t.rune(r)
		d := fixed.Point26_6{X: fixed.Int26_6(r.IntN(9999) - 5000), Y: fixed.Int26_6(r.IntN(9999) - 5000)}
		switch r.IntN(6) {
		case 0:
			// Runes that a cache may take for equal.
			a.ops = append(a.ops, func() { f.Kern(x, y); f.Kern(y+256, x+512) })
		case 1:
			a.ops = append(a.ops, func() { f.GlyphAdvance(x); f.Metrics() })
		case 2:
			a.ops = append(a.ops, func() { f.GlyphBounds(x) })
		default:
			if !t.drawable(l, x) {
				continue
			}
			a.ops = append(a.ops, func() { f.Glyph(d, x) })
			if r.IntN(2) == 0 {
				if y := x + 256; t.drawable(l, y) {
					d.X += 64
					a.ops = append(a.ops, func() { f.Glyph(d, y) })
				}
			}
		}
		a.what += fmt.Sprintf(" %#x", x)
	}
	return a
}

func c28Context(c *mon.Case) *c28Actor {
	r := c.R
	a := &c28Actor{kind: "contexts"}
	ctx := freetype.NewContext()
	var dsts []*image.RGBA
	for i := 0; i < 2; i++ {
		dsts = append(dsts, image.NewRGBA(image.Rect(0, 0, 60+r.IntN(40), 40)))
	}
	ctx.SetDst(dsts[0])
	ctx.SetSrc(image.Black)
	ctx.SetClip(dsts[0].Bounds())
	var ts []*textFont
	for k := 1 + r.IntN(2); k > 0; k-- {
		t := c28Font(c)
		ts = append(ts, t)
		a.what += fmt.Sprintf("%s (upem %d); ", t.name, t.model.UPEM)
	}
	if r.IntN(2) == 0 {
		// Glyphs that take each other's place in the cache.
		t := newTextFontOf(c, true)
		if len(t.runes) > 256 {
			ts = ts[:0]
			ts = append(ts, t)
			l := newLoader(t.ft, 64*24, font.HintingNone)
			for k := 0; k < 8; k++ {
				x, n := t.runes[r.IntN(len(t.runes)-256)], 0
				p := freetype.Pt(5, 30)
				for _, y := range t.runes {
					if n < 2 && t.ft.Index(y)%256 == t.ft.Index(x)%256 && y > 0 && y < 0xd800 && t.drawable(l, y) {
						n++
						a.ops = append(a.ops, func() { ctx.DrawString(string(y), p) })
					}
				}
				if n == 2 {
					c.Event("glyphs that take each other's place", 1)
				}
			}
			a.what += "colliding glyphs of " + t.name
		}
	}
	ctx.SetFont(ts[0].ft)
	mode := r.IntN(3) // how often the settings change
	for n := 10; n > 0; n-- {
		t := ts[r.IntN(len(ts))]
		l := newLoader(t.ft, 64*24, font.HintingNone)
		s := ""
		for k := r.IntN(5); k > 0; k-- {
			if x := t.rune(r); x >= 0 && x < 0xd800 && t.drawable(l, x) {
				s += string(x)
			}
		}
		size, dpi, h := pick(r, 8.0, 12, 12, 17.5), pick(r, 72.0, 72, 90), c28Hinting(c)
		p := fixed.Point26_6{X: fixed.Int26_6(r.IntN(64 * 60)), Y: fixed.Int26_6(r.IntN(64 * 40))}
		dst := dsts[r.IntN(2)]
		src := image.NewUniform(randColor(r))
		set := r.IntN(3) < mode
		own := len(ts) == 1 && !set
		if set {
			c.Event("settings changed", 1)
		}
		a.ops = append(a.ops, func() {
			if set || !own {
				ctx.SetFont(t.ft)
			}
			if set {
				ctx.SetFontSize(size)
				ctx.SetDPI(dpi)
				ctx.SetHinting(h)
				ctx.SetSrc(src)
				ctx.SetDst(dst)
				ctx.SetClip(dst.Bounds())
			}
			ctx.DrawString(s, p)
		})
		a.what += fmt.Sprintf("%q at %v (set %v); ", s, p, set)
	}
	return a
}

func c28Rasteriser(c *mon.Case) *c28Actor {
	r := c.R
	a := &c28Actor{kind: "rasterisers"}
	w, h := 10+r.IntN(80), 10+r.IntN(80)
	ras := raster.NewRasterizer(w, h)
	ras.UseNonZeroWinding = r.IntN(2) == 0
	rgba := raster.NewRGBAPainter(image.NewRGBA(image.Rect(0, 0, w, h)))
	rgba.SetColor(color.NRGBA{1, 99, 200, 128})
	alpha := raster.NewAlphaOverPainter(image.NewAlpha(image.Rect(0, 0, w, h)))
	ps := []raster.Painter{rgba, alpha, raster.NewMonochromePainter(rgba), raster.NewGammaCorrectionPainter(alpha, 2.2), raster.NewMonochromePainter(raster.NewGammaCorrectionPainter(alpha, 0.7))}
	a.what = fmt.Sprintf("%d×%d: ", w, h)
	bounds := r.IntN(2) == 0
	for n := 10; n > 0; n-- {
		s := randShape(r, w, h, allKinds, true)
		for s.nsegs() > 60 {
			s = randShape(r, w, h, allKinds, true)
		}
		p := ps[r.IntN(len(ps))]
		bw, bh := 1+r.IntN(99), 1+r.IntN(999)
		if r.IntN(3) != 0 {
			bw, bh = w, h
		}
		again := r.IntN(3)
		stroke := r.IntN(3) == 0
		q := raster.Path{}
		c27Shape(c, 2).addTo(&q)
		st := c27Style(c)
		a.ops = append(a.ops, func() {
			if bounds {
				ras.SetBounds(bw, bh)
			} else {
				ras.Clear()
			}
			s.addTo(ras)
			if stroke {
				ras.AddStroke(q, st.width, st.capper(), st.joiner())
			}
			for k := again; k >= 0; k-- {
				ras.Rasterize(p)
			}
		})
		c.Event("histories cleared", 1)
		a.what += fmt.Sprint(s, "; ")
	}
	return a
}

func c28Path(c *mon.Case) *c28Actor {
	r := c.R
	a := &c28Actor{kind: "paths"}
	var p, q raster.Path
	for n := 10; n > 0; n-- {
		s := c27Shape(c, 1+r.IntN(3))
		st := c27Style(c)
		two := r.IntN(2) == 0
		a.ops = append(a.ops, func() {
			p.Clear()
			s.addTo(&p)
			if two {
				p.AddPath(p)
			}
			q.Clear()
			q.AddStroke(p, st.width, st.capper(), st.joiner())
			_ = p.String()
		})
		a.what += fmt.Sprint(s, "; ")
	}
	return a
}

func c28Queries(c *mon.Case) *c28Actor {
	r := c.R
	a := &c28Actor{kind: "fonts"}
	t := c28Font(c)
	a.what = fmt.Sprintf("%s (upem %d)", t.name, t.model.UPEM)
	for n := 20; n > 0; n-- {
		x, y, s := t.rune(r), t.rune(r), c28Scale(c)
		id := truetype.NameID(r.IntN(30))
		f := t.ft
		a.ops = append(a.ops, func() {
			i, j := f.Index(x), f.Index(y)
			f.Kern(s, i, j)
			f.HMetric(s, i)
			f.VMetric(s, j)
			f.Bounds(s)
			f.Name(id)
		})
		a.what += fmt.Sprintf(" %#x", x)
	}
	return a
}

// c28Dropped: objects that are made and dropped leave nothing.
func c28Dropped(c *mon.Case) *c28Actor {
	r := c.R
	a := &c28Actor{kind: "dropped objects"}
	t := newTextFont(c)
	data := t.model.Encode(r)
	a.what = fmt.Sprintf("%s (upem %d)", t.name, t.model.UPEM)
	l := newLoader(t.ft, 64*24, font.HintingNone)
	x := rune(' ')
	for k := 0; k < 5; k++ {
		if y := t.rune(r); y > 0 && y < 0xd800 && t.drawable(l, y) {
			x = y
		}
	}
	h := c28Hinting(c)
	s := c27Shape(c, 2)
	st := c27Style(c)
	// Long-lived objects do not keep what they were once given.
	var long truetype.GlyphBuf
	lctx := freetype.NewContext()
	lctx.SetSrc(image.Black)
	lras := raster.NewRasterizer(40, 40)
	var lpath raster.Path
	lmono := raster.NewMonochromePainter(nil)
	a.ops = []func(){
		func() {
			f, err := parseFont(data)
			if err != nil {
				return
			}
			long.Load(f, 640, f.Index(x), h)
			dst := image.NewRGBA(image.Rect(0, 0, 60, 60))
			lctx.SetFont(f)
			lctx.SetDst(dst)
			lctx.SetClip(dst.Bounds())
			lctx.SetSrc(image.NewUniform(color.Gray{7}))
			lctx.DrawString(string(x), freetype.Pt(1, 15))
		},
		func() {
			lras.Clear()
			lpath.Clear()
			s.addTo(&lpath)
			lpath.AddStroke(lpath, st.width, st.capper(), st.joiner())
			lras.AddPath(lpath)
			lmono.Painter = raster.NewAlphaSrcPainter(image.NewAlpha(image.Rect(0, 0, 40, 40)))
			lras.Rasterize(lmono)
		},
		func() {
			if f, err := parseFont(data); err == nil {
				var g truetype.GlyphBuf
				g.Load(f, 640, f.Index(x), h)
				f.Name(truetype.NameIDFontFamily)
				face := truetype.NewFace(f, &truetype.Options{Size: 7, Hinting: h, GlyphCacheEntries: 1})
				face.Glyph(fixed.P(3, 4), x)
				ctx := freetype.NewContext()
				ctx.SetFont(f)
				ctx.SetSrc(image.White)
				dst := image.NewRGBA(image.Rect(0, 0, 20, 20))
				ctx.SetDst(dst)
				ctx.SetClip(dst.Bounds())
				ctx.DrawString(string(x), freetype.Pt(1, 15))
			}
		},
		func() { parseFont(data[:len(data)/2]) },
		func() {
			f := truetype.NewFace(t.ft, &truetype.Options{Size: 8, Hinting: h, GlyphCacheEntries: 4})
			f.Glyph(fixed.P(3, 4), x)
			f.Close()
		},
		func() {
			f := truetype.NewFace(t.ft, &truetype.Options{Size: 8, GlyphCacheEntries: 1})
			f.Glyph(fixed.P(3, 4), x)
		},
		func() {
			ctx := freetype.NewContext()
			dst := image.NewRGBA(image.Rect(0, 0, 20, 20))
			ctx.SetFont(t.ft)
			ctx.SetDst(dst)
			ctx.SetSrc(image.Black)
			ctx.SetHinting(h)
			ctx.SetClip(dst.Bounds())
			ctx.DrawString(string(x), freetype.Pt(1, 15))
		},
		func() {
			ras := raster.NewRasterizer(30, 30)
			s.addTo(ras)
			var p, q raster.Path
			s.addTo(&p)
			q.AddStroke(p, st.width, st.capper(), st.joiner())
			ras.AddPath(q)
			ras.Rasterize(raster.NewMonochromePainter(raster.NewAlphaOverPainter(image.NewAlpha(image.Rect(0, 0, 30, 30)))))
		},
	}
	return a
}

// c28Large: faces and contexts do not hoard enormous images.
func c28Large(c *mon.Case) {
	r := c.R
	var t *textFont
	for t == nil || len(t.runes) < 50 {
		t = realTextFont(c)
	}
	size := 3500 + r.IntN(1500)
	l := newLoader(t.ft, int64(size)*64, font.HintingNone)
	c.Describe("glyphs of %s at %d pixels", t.name, size)
	f := truetype.NewFace(t.ft, &truetype.Options{Size: float64(size), SubPixelsY: 4})
	ctx := freetype.NewContext()
	ctx.SetFont(t.ft)
	ctx.SetFontSize(float64(size))
	ctx.SetSrc(image.Black)
	dst := image.NewRGBA(image.Rect(0, 0, 30, 30))
	ctx.SetDst(dst)
	ctx.SetClip(dst.Bounds())
	h0, n := c28Live(), 0
	bytes := 0
	for k := 0; k < 2000 && n < 40; k++ {
		x := t.runes[r.IntN(len(t.runes))]
		g := l.load(t.ft.Index(x))
		if g == nil || x >= 0xd800 {
			continue
		}
		b := pixelBox(g.Bounds, fixed.Point26_6{})
		if b.Dx() < 2200 || b.Dy() < 2200 || b.Dx()*b.Dy() > 1<<25 || len(g.Points) > 300 {
			continue
		}
		d := fixed.Point26_6{X: fixed.Int26_6(r.IntN(64)), Y: fixed.Int26_6(r.IntN(64))}
		if n%2 == 0 {
			f.Glyph(d, x)
		} else {
			ctx.DrawString(string(x), d)
		}
		n++
		bytes += b.Dx() * b.Dy()
	}
	if n == 0 {
		return
	}
	h1 := c28Live()
	c.Event("enormous images", n)
	c.Eval(1)
	if h1-h0 > 64<<20 && h1-h0 > int64(bytes)/4 {
		c.Fail("after %d glyphs with images of %d bytes in total the live heap is %d bytes, up from %d", n, bytes, h1, h0)
	}
	c.Nontrivial(mon.Hash(t.name, size))
	runtime.KeepAlive(f)
	runtime.KeepAlive(ctx)
}
