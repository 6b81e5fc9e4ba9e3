package checks

import (
	"fmt"
	"math"
	"strings"

	"github.com/golang/freetype/raster"
	"golang.org/x/image/math/fixed"

	"verif/harness/mon"
	"verif/harness/refras"
)

func init() {
	mon.Register(&mon.Check{
		ID:   "C15",
		Rule: "A case draws the same random contours in two ways (used against new rasteriser, recorded path against calls, permuted contours, reversed contours, displaced contours, recorded and re-recorded paths) and compares the spans or pixels. Non-trivial: something was painted; distinct by shape and canvas.",
		Assumptions: []string{
			"reversed contours may differ by the rounding of 26.6 arithmetic: 5/64 of coverage per edge near the pixel",
		},
		Streams: []mon.Stream{
			{Name: "reset", Quick: 20000, Thorough: 600000, Run: c15Reset},
			{Name: "record", Quick: 15000, Thorough: 400000, Run: c15Record},
			{Name: "order", Quick: 15000, Thorough: 400000, Run: c15Order},
			{Name: "reverse", Quick: 15000, Thorough: 400000, Run: c15Reverse},
			{Name: "move", Quick: 20000, Thorough: 600000, Run: c15Move},
			{Name: "long", Quick: 48, Thorough: 2000, Run: c15Long},
		},
		Required: []string{"reset compared", "paths compared", "orders compared", "directions compared", "displacements compared", "history: partial contour", "history: rasterised", "rasterisations by rasterisers used thousands of times"},
	})
}

func sameSpans(a, b []raster.Span) string {
	for i := range a {
		if i >= len(b) {
			return fmt.Sprintf("%d spans and %d spans", len(a), len(b))
		}
		if a[i] != b[i] {
			return fmt.Sprintf("span %d is %v and %v", i, a[i], b[i])
		}
	}
	if len(a) != len(b) {
		return fmt.Sprintf("%d spans and %d spans", len(a), len(b))
	}
	return ""
}

func c15Note(c *mon.Case, s shape, w, h int, p *spanRec) {
	if len(p.spans) > 0 {
		c.Nontrivial(mon.Hash(s.String(), w, h))
		c.Sample("canvas %dx%d: %v", w, h, s)
	}
}

// c15Reset: after any history, Clear and SetBounds give a new rasteriser.
func c15Reset(c *mon.Case) {
	r := c.R
	w, h := canvasSize(r)
	s := randShape(r, w, h, allKinds, r.IntN(4) != 0)
	ras := raster.NewRasterizer(w, h)
	hist := ""
	if r.IntN(3) == 0 {
		// Start from a zero Rasterizer, as some users do.
		ras = new(raster.Rasterizer)
		ras.SetBounds(w, h)
		hist = "zero value; "
	}
	cw, ch := w, h
	for i := 0; i < 1+r.IntN(4); i++ {
		switch r.IntN(5) {
		case 0:
			rasterise(ras, randShape(r, cw, ch, allKinds, true))
			hist += "draw; "
			c.Event("history: rasterised", 1)
		case 1:
			// An unfinished contour, not rasterised.
			randShape(r, cw, ch, allKinds, false).addTo(ras)
			hist += "partial; "
			c.Event("history: partial contour", 1)
		case 2:
			ras.Clear()
			hist += "clear; "
		case 3:
			cw, ch = canvasSize(r)
			ras.SetBounds(cw, ch)
			hist += fmt.Sprintf("bounds %dx%d; ", cw, ch)
		case 4:
			ras.SetBounds(cw, ch)
			hist += "same bounds; "
		}
	}
	if cw == w && ch == h && r.IntN(2) == 0 {
		ras.Clear()
		hist += "clear"
	} else {
		ras.SetBounds(w, h)
		hist += "bounds"
	}
	c.Describe("canvas %dx%d, history %s, then %v", w, h, hist, s)
	fresh := raster.NewRasterizer(w, h)
	ras.UseNonZeroWinding = r.IntN(2) == 0
	fresh.UseNonZeroWinding = ras.UseNonZeroWinding
	ras.Dx, ras.Dy = 0, 0
	// Starting is optional: a rasteriser's pen is at the origin to begin with.
	if r.IntN(4) == 0 && len(s) > 0 {
		c.Event("without start", 1)
		add := func(a raster.Adder) {
			for _, g := range s[0].segs {
				switch len(g) {
				case 1:
					a.Add1(g[0])
				case 2:
					a.Add2(g[0], g[1])
				case 3:
					a.Add3(g[0], g[1], g[2])
				}
			}
		}
		add(ras)
		add(fresh)
	}
	p, q := rasterise(ras, s), rasterise(fresh, s)
	if msg := sameSpans(p.spans, q.spans); msg != "" {
		c.Fail("used and new rasteriser differ: %s", msg)
	}
	if fmt.Sprint(p.batches) != fmt.Sprint(q.batches) {
		c.Fail("used and new rasteriser deliver batches %v and %v", p.batches, q.batches)
	}
	c.Event("reset compared", 1)
	c15Note(c, s, w, h, p)
}

// callRec records the calls made on an Adder.
type callRec []string

func (a *callRec) add(op int, ps ...fixed.Point26_6) { *a = append(*a, fmt.Sprint(op, ps)) }
func (a *callRec) Start(p fixed.Point26_6)           { a.add(0, p) }
func (a *callRec) Add1(b fixed.Point26_6)            { a.add(1, b) }
func (a *callRec) Add2(b, c fixed.Point26_6)         { a.add(2, b, c) }
func (a *callRec) Add3(b, c, d fixed.Point26_6)      { a.add(3, b, c, d) }

// c15Record: recording a path and adding it is making the calls.
func c15Record(c *mon.Case) {
	r := c.R
	w, h := canvasSize(r)
	s := randShape(r, w, h, allKinds, true)
	c.Describe("canvas %dx%d: %v", w, h, s)
	var p raster.Path
	if r.IntN(2) == 0 {
		randShape(r, w, h, allKinds, true).addTo(&p)
		p.Clear()
		if len(p) != 0 {
			c.Fail("a cleared path has length %d", len(p))
		}
	}
	k := r.IntN(len(s) + 1)
	s[:k].addTo(&p)
	var p2 raster.Path
	s[k:].addTo(&p2)
	keep := fmt.Sprint([]fixed.Int26_6(p2))
	p.AddPath(p2)
	// What is done to p2 afterwards does not matter.
	if fmt.Sprint([]fixed.Int26_6(p2)) != keep {
		c.Fail("AddPath changed the path added")
	}
	for i := range p2 {
		p2[i] = 77
	}
	direct := raster.NewRasterizer(w, h)
	a := rasterise(direct, s)
	viaPath := raster.NewRasterizer(w, h)
	viaPath.AddPath(p)
	b := &spanRec{}
	viaPath.Rasterize(b)
	if msg := sameSpans(a.spans, b.spans); msg != "" {
		c.Fail("calls and recorded path differ: %s", msg)
	}
	// A path's own account of itself.
	var want callRec
	s.addTo(&want)
	got := pathString(s)
	if p.String() != got {
		c.Fail("path describes itself as %q instead of %q", p.String(), got)
	}
	c.Event("paths compared", 1)
	c15Note(c, s, w, h, a)
}

func pathString(s shape) string {
	var out strings.Builder
	put := func(name string, ps ...fixed.Point26_6) {
		if out.Len() > 0 {
			out.WriteByte(' ')
		}
		var xs []fixed.Int26_6
		for _, p := range ps {
			xs = append(xs, p.X, p.Y)
		}
		out.WriteString(name)
		fmt.Fprint(&out, xs)
	}
	for _, k := range s {
		put("S0", k.start)
		for _, g := range k.segs {
			put(fmt.Sprintf("A%d", len(g)), g...)
		}
	}
	return out.String()
}

func c15Order(c *mon.Case) {
	r := c.R
	w, h := canvasSize(r)
	s := randShape(r, w, h, allKinds, true)
	for len(s) < 2 {
		s = append(s, randShape(r, w, h, allKinds, true)...)
	}
	t := append(shape{}, s...)
	r.Shuffle(len(t), func(i, j int) { t[i], t[j] = t[j], t[i] })
	nz := r.IntN(2) == 0
	c.Describe("canvas %dx%d nonzero=%v: %v and %v", w, h, nz, s, t)
	r1, r2 := raster.NewRasterizer(w, h), raster.NewRasterizer(w, h)
	r1.UseNonZeroWinding, r2.UseNonZeroWinding = nz, nz
	a, b := rasterise(r1, s), rasterise(r2, t)
	if msg := samePixels(pixels(a.spans, w, h, 0, 0), pixels(b.spans, w, h, 0, 0), w); msg != "" {
		c.Fail("the order of contours matters: %s", msg)
	}
	c.Event("orders compared", 1)
	c15Note(c, s, w, h, a)
}

func c15Reverse(c *mon.Case) {
	r := c.R
	w, h := canvasSize(r)
	k := kinds{line: true}
	curves := r.IntN(2) == 0
	if curves {
		k = allKinds
	}
	g := newPtGen(r, w, h)
	if g.mode == ptFar {
		g.mode = ptAround
	}
	var s, t shape
	for i := 0; i < 1+r.IntN(3); i++ {
		x := g.contour(k, 6, true)
		s = append(s, x)
		t = append(t, x.reversed())
	}
	nz := r.IntN(2) == 0
	c.Describe("canvas %dx%d nonzero=%v: %v and %v", w, h, nz, s, t)
	r1, r2 := raster.NewRasterizer(w, h), raster.NewRasterizer(w, h)
	r1.UseNonZeroWinding, r2.UseNonZeroWinding = nz, nz
	a, b := rasterise(r1, s), rasterise(r2, t)
	x1, x2 := pixels(a.spans, w, h, 0, 0), pixels(b.spans, w, h, 0, 0)
	cv := refras.NewCanvas(w, h)
	cv.CountEdges = true
	if curves {
		cv.Near = 0.25
	}
	s.reference(cv, curveTol)
	for i := range x1 {
		d := math.Abs(float64(x1[i])-float64(x2[i])) / 0xffff
		tol := 0.0
		if cv.Edges != nil && cv.Edges[i] > 0 {
			if curves {
				tol = tolBase + 0.12*(cv.Len[i]+0.25)
			} else {
				tol = tolBase + 5.0/64*float64(cv.Edges[i])
			}
		}
		if d > tol {
			c.Fail("pixel (%d,%d): alpha %#x, reversed %#x, tolerance %.4f", i%w, i/w, x1[i], x2[i], tol)
		}
	}
	c.Event("directions compared", 1)
	c15Note(c, s, w, h, a)
}

// c15Move: displacing contours inside the canvas displaces the spans.
func c15Move(c *mon.Case) {
	r := c.R
	w0, h0 := canvasSize(r)
	w0, h0 = w0+1, h0+1
	// All points inside w0 by h0.
	g := newPtGen(r, w0, h0)
	g.mode = ptInside
	grid := r.IntN(3) == 0
	var s shape
	for i := 0; i < 1+r.IntN(3); i++ {
		k := g.contour(allKinds, 6, true)
		if grid {
			for _, x := range k.segs {
				for j := range x {
					x[j].X &^= 31
					x[j].Y &^= 31
				}
			}
			k.start = k.end()
		}
		s = append(s, k)
	}
	dx, dy := r.IntN(150), r.IntN(150)
	if r.IntN(8) == 0 {
		dx, dy = r.IntN(20000), r.IntN(2000)
	}
	w, h := w0+dx+1, h0+dy+1
	t := s.moved(fixed.P(dx, dy))
	nz := r.IntN(2) == 0
	c.Describe("canvas %dx%d nonzero=%v by (%d,%d): %v", w, h, nz, dx, dy, s)
	r1, r2 := raster.NewRasterizer(w, h), raster.NewRasterizer(w, h)
	r1.UseNonZeroWinding, r2.UseNonZeroWinding = nz, nz
	a, b := rasterise(r1, s), rasterise(r2, t)
	for i := range a.spans {
		a.spans[i].X0 += dx
		a.spans[i].X1 += dx
		a.spans[i].Y += dy
	}
	if msg := sameSpans(a.spans, b.spans); msg != "" {
		// The spans may be divided differently.
		if msg := samePixelsSparse(a.spans, b.spans); msg != "" {
			c.Fail("displacing the path by (%d,%d) does not displace the spans: %s", dx, dy, msg)
		}
	}
	c.Event("displacements compared", 1)
	c15Note(c, s, w, h, a)
}

// samePixelsSparse compares what spans cover, whatever their division.
func samePixelsSparse(a, b []raster.Span) string {
	norm := func(ss []raster.Span) []raster.Span {
		var out []raster.Span
		for _, s := range ss {
			if n := len(out); n > 0 && out[n-1].Y == s.Y && out[n-1].X1 == s.X0 && out[n-1].Alpha == s.Alpha {
				out[n-1].X1 = s.X1
				continue
			}
			out = append(out, s)
		}
		return out
	}
	return sameSpans(norm(a), norm(b))
}
