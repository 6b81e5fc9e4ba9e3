package checks

import (
	"fmt"

	"github.com/golang/freetype/raster"
	"golang.org/x/image/math/fixed"

	"verif/harness/mon"
)

var allKinds = kinds{true, true, true}

func init() {
	mon.Register(&mon.Check{
		ID:   "C12",
		Rule: "A case is a random path (lines, quadratics, cubics; closed or open; inside, across or far outside the canvas) with a random canvas, offset and winding rule, rasterised twice or more on a new or a used rasteriser, and its spans checked online against the trace specification. Non-trivial: at least one span was delivered; distinct by the hash of the spans.",
		Streams: []mon.Stream{
			{Name: "paths", Quick: 60000, Thorough: 3000000, Run: c12Paths},
			{Name: "dense", Quick: 1500, Thorough: 60000, Run: c12Dense},
			{Name: "long", Quick: 1000, Thorough: 40000, Run: func(c *mon.Case) {
				w, h := longCanvas(c)
				c12Run(c, randShape(c.R, w, h, allKinds, true), w, h, true)
			}},
			{Name: "empty", Quick: 2000, Thorough: 20000, Run: c12Empty},
		},
		Required: []string{"spans", "non-final batches", "rasterised twice", "empty paths", "negative sizes", "open paths", "canvases above 4096 pixels", "canvases above 32768 pixels"},
	})
}

func c12Run(c *mon.Case, s shape, w, h int, closed bool) {
	r := c.R
	ras := raster.NewRasterizer(w, h)
	if r.IntN(3) == 0 {
		// A rasteriser with a past.
		w0, h0 := canvasSize(r)
		ras.SetBounds(w0, h0)
		rasterise(ras, randShape(r, w0, h0, allKinds, true))
		ras.SetBounds(w, h)
	}
	ras.UseNonZeroWinding = r.IntN(2) == 0
	if r.IntN(2) == 0 {
		ras.Dx, ras.Dy = r.IntN(2000)-1000, r.IntN(2000)-1000
	}
	c.Describe("canvas %dx%d nonzero=%v dx=%d dy=%d: %v", w, h, ras.UseNonZeroWinding, ras.Dx, ras.Dy, s)
	s.addTo(ras)
	p := &spanRec{scratch: r.IntN(2) == 0}
	ras.Rasterize(p)
	if msg := checkSpans(p, w, h, ras.Dx, ras.Dy); msg != "" {
		c.Fail("%s", msg)
	}
	c.Event("spans", len(p.spans))
	c.Event("batches", len(p.batches))
	c.Event("non-final batches", len(p.batches)-1)
	if !closed {
		c.Event("open paths", 1)
	}
	for i := 0; i < 1+r.IntN(2); i++ {
		p2 := &spanRec{scratch: r.IntN(2) == 0}
		ras.Rasterize(p2)
		if msg := checkSpans(p2, w, h, ras.Dx, ras.Dy); msg != "" {
			c.Fail("second rasterisation: %s", msg)
		}
		if len(p.spans) != len(p2.spans) {
			c.Fail("rasterising again gave %d spans instead of %d", len(p2.spans), len(p.spans))
		}
		for j := range p.spans {
			if p.spans[j] != p2.spans[j] {
				c.Fail("rasterising again gave %v instead of %v", p2.spans[j], p.spans[j])
			}
		}
		c.Event("rasterised twice", 1)
		c.Eval(1)
	}
	// The result does not depend on where it is displaced to.
	dx, dy := ras.Dx, ras.Dy
	ras.Dx, ras.Dy = 0, 0
	p3 := &spanRec{}
	ras.Rasterize(p3)
	if len(p3.spans) != len(p.spans) {
		c.Fail("without the offset there are %d spans instead of %d", len(p3.spans), len(p.spans))
	}
	for j, s := range p3.spans {
		if p.spans[j] != (raster.Span{Y: s.Y + dy, X0: s.X0 + dx, X1: s.X1 + dx, Alpha: s.Alpha}) {
			c.Fail("span %v displaced by (%d,%d) became %v", s, dx, dy, p.spans[j])
		}
	}
	if len(p.spans) > 0 {
		c.Nontrivial(mon.Hash(fmt.Sprint(p3.spans)))
		c.Sample("canvas %dx%d, %d spans in %d batches: %v", w, h, len(p.spans), len(p.batches), s)
	}
}

func c12Paths(c *mon.Case) {
	w, h := canvasSize(c.R)
	closed := c.R.IntN(4) != 0
	c12Run(c, randShape(c.R, w, h, allKinds, closed), w, h, closed)
}

// c12Dense makes many cells and spans per row: many batches, and growth of
// the rasteriser's buffers.
func c12Dense(c *mon.Case) {
	r := c.R
	w, h := 20+r.IntN(400), 5+r.IntN(150)
	var s shape
	switch r.IntN(3) {
	case 0: // a comb
		pitch := fixed.Int26_6(40 + r.IntN(200))
		for x := fixed.Int26_6(r.IntN(200) - 100); x < fixed.Int26_6(64*w); x += pitch {
			y0, y1 := fixed.Int26_6(r.IntN(64*h)), fixed.Int26_6(r.IntN(64*h))
			s = append(s, rectContour(x, y0, x+pitch/2, y1, r.IntN(2) == 0))
		}
	case 1: // a zigzag
		k := contour{start: fixed.P(0, 0)}
		n := 50 + r.IntN(400)
		for i := 0; i < n; i++ {
			y := fixed.Int26_6(0)
			if i%2 == 0 {
				y = fixed.Int26_6(64*h) - fixed.Int26_6(r.IntN(64))
			}
			k.segs = append(k.segs, seg{{X: fixed.Int26_6(64 * w * i / n), Y: y}})
		}
		k.segs = append(k.segs, seg{k.start})
		s = append(s, k)
	default: // many small shapes
		n := 100 + r.IntN(300)
		for i := 0; i < n; i++ {
			g := newPtGen(r, w, h)
			g.mode = ptCluster
			g.rad = 64 + r.IntN(400)
			s = append(s, g.contour(allKinds, 5, true))
		}
	}
	c12Run(c, s, w, h, true)
}

func c12Empty(c *mon.Case) {
	r := c.R
	w, h := canvasSize(r)
	ras := raster.NewRasterizer(w, h)
	ras.UseNonZeroWinding = r.IntN(2) == 0
	ras.Dx, ras.Dy = r.IntN(100)-50, r.IntN(100)-50
	what := "nothing"
	switch r.IntN(7) {
	case 0:
	case 6:
		what = "a canvas of negative size"
		w0, h0 := w, h
		switch r.IntN(3) {
		case 0:
			w0 = -1 - r.IntN(100)
		case 1:
			h0 = -1 - r.IntN(100)
		case 2:
			w0, h0 = -1-r.IntN(3), -1-r.IntN(3)
		}
		if r.IntN(2) == 0 {
			ras.SetBounds(w0, h0)
		} else {
			ras = raster.NewRasterizer(w0, h0)
		}
		randShape(r, w, h, allKinds, r.IntN(2) == 0).addTo(ras)
		c.Event("negative sizes", 1)
	case 1:
		what = "an empty path"
		ras.AddPath(raster.Path{})
	case 2:
		what = "start points only"
		g := newPtGen(r, w, h)
		for i := 0; i < 1+r.IntN(4); i++ {
			ras.Start(g.pt())
		}
	case 3:
		what = "a shape that was cleared"
		randShape(r, w, h, allKinds, r.IntN(2) == 0).addTo(ras)
		if r.IntN(2) == 0 {
			ras.Rasterize(&spanRec{})
		}
		ras.Clear()
	case 4:
		what = "a shape dropped by SetBounds"
		randShape(r, w, h, allKinds, r.IntN(2) == 0).addTo(ras)
		ras.SetBounds(w, h)
	case 5:
		what = "there-and-back lines"
		g := newPtGen(r, w, h)
		a, b := g.pt(), g.pt()
		ras.Start(a)
		ras.Add1(a)
		ras.Start(b)
		ras.Add1(b)
		b.Y = a.Y
		ras.Start(a)
		ras.Add1(b)
	}
	c.Describe("canvas %dx%d, %s", w, h, what)
	p := &spanRec{}
	ras.Rasterize(p)
	if len(p.spans) != 0 {
		c.Fail("%d spans delivered for %s: %v", len(p.spans), what, p.spans[0])
	}
	if msg := checkSpans(p, w, h, ras.Dx, ras.Dy); msg != "" {
		c.Fail("%s: %s", what, msg)
	}
	c.Event("empty paths", 1)
	c.Nontrivial(mon.Hash(what, w, h))
}
