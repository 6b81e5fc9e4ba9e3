package checks

import (
	"fmt"
	"math"
	"os"

	"github.com/golang/freetype/raster"
	"golang.org/x/image/math/fixed"

	"verif/harness/mon"
	"verif/harness/refras"
)

func init() {
	mon.Register(&mon.Check{
		ID:   "C13",
		Rule: "A case is a set of closed polygons (random, rectangles, slivers, whole-pixel and half-pixel aligned, with duplicate points, partly or far outside the canvas), rasterised under both winding rules; every pixel is compared with the exact average winding number computed in floating point. Non-trivial: the polygons put an edge or interior inside the canvas; distinct by the hash of the pixels.",
		Assumptions: []string{
			"a pixel that no edge comes within 2/64 of a pixel of must be exact; the tolerance for other pixels is proportional to the number of edges near them",
		},
		Streams: []mon.Stream{
			{Name: "polygons", Quick: 40000, Thorough: 2000000, Run: c13Polygons},
			{Name: "rects", Quick: 20000, Thorough: 500000, Run: c13Rects},
			{Name: "far", Quick: 20000, Thorough: 500000, Run: c13Far},
			{Name: "vast", Quick: 400, Thorough: 8000, Run: c13Vast},
			{Name: "long", Quick: 1500, Thorough: 40000, Run: c13Long},
		},
		Required: []string{"pixels exact", "pixels near an edge", "polygons crossing the canvas border", "pixels with winding above one", "canvases above 4096 pixels", "canvases above 32768 pixels", "edges of millions of pixels across the canvas"},
	})
}

// Tolerances, in units of full coverage.
const (
	tolEdge = 2.05 / 64 // per edge near the pixel
	tolBase = 1.5 / 4096
)

var debugStats = os.Getenv("VERIF_DEBUG") != ""

func c13Check(c *mon.Case, s shape, w, h int) {
	r := c.R
	ras := raster.NewRasterizer(w, h)
	c.Describe("canvas %dx%d: %v", w, h, s)
	s.addTo(ras)
	cv := refras.NewCanvas(w, h)
	cv.CountEdges = true
	s.reference(cv, 0.01)
	wind := cv.Winding()
	any := false
	first := r.IntN(2) == 0
	for k := 0; k < 2; k++ {
		nonzero := first != (k == 0)
		ras.UseNonZeroWinding = nonzero
		p := &spanRec{}
		ras.Rasterize(p)
		px := pixels(p.spans, w, h, 0, 0)
		for i, a := range px {
			want, near := refras.EvenOdd(wind[i]), 0
			if nonzero {
				want = refras.NonZero(wind[i])
			}
			if cv.Edges != nil {
				near = int(cv.Edges[i])
			}
			if near == 0 {
				c.Event("pixels exact", 1)
				// The winding number is constant here.
				wi := math.Round(wind[i])
				exact := uint32(0)
				if nonzero && wi != 0 || !nonzero && int(wi)%2 != 0 {
					exact = 0xffff
				}
				if a != exact {
					c.Fail("nonzero=%v pixel (%d,%d) has winding number %v throughout but alpha %#x", nonzero, i%w, i/w, wi, a)
				}
				if math.Abs(wi) > 1 {
					c.Event("pixels with winding above one", 1)
				}
				if wi != 0 {
					any = true
				}
				continue
			}
			any = true
			c.Event("pixels near an edge", 1)
			got := float64(a) / 0xffff
			err := math.Abs(got - want)
			tol := tolBase + tolEdge*float64(near)
			if debugStats {
				c.Event(fmt.Sprintf("err/edge near=%02d bin %02d", min(near, 20), int(err/float64(near)*640)), 1)
			}
			if err > tol {
				c.Fail("nonzero=%v pixel (%d,%d): average winding number %.4f, so coverage %.4f, but alpha %#x = %.4f (%d edges near)",
					nonzero, i%w, i/w, wind[i], want, a, got, near)
			}
		}
		c.Eval(1)
	}
	if any {
		c.Nontrivial(mon.Hash(s.String(), w, h))
		c.Sample("canvas %dx%d: %v", w, h, s)
	}
	for _, k := range s {
		in, out := false, false
		for _, g := range k.segs {
			p := g[0]
			if p.X >= 0 && p.Y >= 0 && int(p.X) <= 64*w && int(p.Y) <= 64*h {
				in = true
			} else {
				out = true
			}
		}
		if in && out {
			c.Event("polygons crossing the canvas border", 1)
			break
		}
	}
}

func c13Polygons(c *mon.Case) {
	w, h := canvasSize(c.R)
	c13Check(c, randShape(c.R, w, h, kinds{line: true}, true), w, h)
}

// c13Rects: rectangles whose coverage is exact at every pixel.
func c13Rects(c *mon.Case) {
	r := c.R
	w, h := canvasSize(r)
	var s shape
	for i := 0; i < 1+r.IntN(4); i++ {
		g := newPtGen(r, w, h)
		a, b := g.pt(), g.pt()
		s = append(s, rectContour(a.X, a.Y, b.X, b.Y, r.IntN(2) == 0))
	}
	ras := raster.NewRasterizer(w, h)
	c.Describe("canvas %dx%d: %v", w, h, s)
	s.addTo(ras)
	cv := refras.NewCanvas(w, h)
	s.reference(cv, 1)
	wind := cv.Winding()
	for k := 0; k < 2; k++ {
		ras.UseNonZeroWinding = k == 0
		p := &spanRec{}
		ras.Rasterize(p)
		for i, a := range pixels(p.spans, w, h, 0, 0) {
			want := refras.EvenOdd(wind[i])
			if k == 0 {
				want = refras.NonZero(wind[i])
			}
			// Horizontal and vertical edges need no rounding at all, but for
			// the 12 bits of alpha.
			if math.Abs(float64(a)/0xffff-want) > tolBase {
				c.Fail("nonzero=%v pixel (%d,%d): coverage %.4f but alpha %#x = %.4f", k == 0, i%w, i/w, want, a, float64(a)/0xffff)
			}
			c.Event("rectangle pixels", 1)
			if want == 1 && a != 0xffff || want == 0 && a != 0 {
				c.Fail("nonzero=%v pixel (%d,%d): coverage %.4f but alpha %#x", k == 0, i%w, i/w, want, a)
			}
		}
	}
	c.Nontrivial(mon.Hash(s.String(), w, h))
	c.Sample("canvas %dx%d: %v", w, h, s)
}

// c13Far: polygons that lie mostly beyond the canvas.
func c13Far(c *mon.Case) {
	r := c.R
	w, h := canvasSize(r)
	var s shape
	for i := 0; i < 1+r.IntN(3); i++ {
		n := 3 + r.IntN(4)
		k := contour{}
		big := 1 << (8 + r.IntN(14))
		off := fixed.Point26_6{}
		if r.IntN(2) == 0 {
			off = fixed.Point26_6{X: fixed.Int26_6(r.IntN(2*big) - big), Y: fixed.Int26_6(r.IntN(2*big) - big)}
		}
		for j := 0; j < n; j++ {
			p := fixed.Point26_6{X: fixed.Int26_6(r.IntN(2*big) - big), Y: fixed.Int26_6(r.IntN(2*big) - big)}.Add(off)
			if r.IntN(4) == 0 {
				p.X = fixed.Int26_6(r.IntN(64*w + 1))
			}
			if r.IntN(4) == 0 {
				p.Y = fixed.Int26_6(r.IntN(64*h + 1))
			}
			if j == 0 {
				k.start = p
			} else {
				k.segs = append(k.segs, seg{p})
			}
		}
		k.segs = append(k.segs, seg{k.start})
		s = append(s, k)
	}
	c13Check(c, s, w, h)
}

// longCanvas is a canvas that is long in one direction.
func longCanvas(c *mon.Case) (w, h int) {
	r := c.R
	w, h = pick(r, 300+r.IntN(1800), 300+r.IntN(1800), 300+r.IntN(5000), 300+r.IntN(17000), 300+r.IntN(40000)), 1+r.IntN(6)
	if w > 4096 {
		c.Event("canvases above 4096 pixels", 1)
	}
	if w > 32768 {
		c.Event("canvases above 32768 pixels", 1)
	}
	if r.IntN(2) == 0 {
		w, h = h, w
	}
	return w, h
}

// c13Long: long canvases, whose far end counts as much as their near one.
func c13Long(c *mon.Case) {
	w, h := longCanvas(c)
	c13Check(c, randShape(c.R, w, h, kinds{line: true}, true), w, h)
}

// c13Vast: polygons whose edges are as long as coordinates allow.
func c13Vast(c *mon.Case) {
	r := c.R
	w, h := canvasSize(r)
	var k contour
	n := 0
	add := func(x, y float64) {
		lim := func(v float64) fixed.Int26_6 {
			return fixed.Int26_6(math.Max(math.MinInt32, math.Min(math.MaxInt32, math.Round(v))))
		}
		p := fixed.Point26_6{X: lim(x), Y: lim(y)}
		if n++; n == 1 {
			k.start = p
		} else {
			k.segs = append(k.segs, seg{p})
		}
	}
	e := 20 + 8*r.Float64()
	if r.IntN(25) == 0 {
		e = 28 + 3.5*r.Float64()
	}
	for j := 1 + r.IntN(2); j > 0; j-- {
		// An edge through the canvas.
		x, y := float64(r.IntN(64*w+1)), float64(r.IntN(64*h+1))
		sin, cos := math.Sincos(r.Float64() * 2 * math.Pi)
		a, b := math.Exp2(e*(0.8+0.2*r.Float64())), math.Exp2(e)
		switch r.IntN(6) {
		case 0:
			a = float64(r.IntN(64 * 20))
		case 1:
			sin, cos = sin*1e-6, math.Copysign(1, cos)
		case 2:
			sin, cos = math.Copysign(1, sin), cos*1e-6
		}
		add(x-a*cos, y-a*sin)
		add(x+b*cos, y+b*sin)
		if r.IntN(2) == 0 {
			add(math.Exp2(e)*(2*r.Float64()-1), math.Exp2(e)*(2*r.Float64()-1))
		}
		if e > 20 {
			c.Event("edges of millions of pixels across the canvas", 1)
		}
	}
	k.segs = append(k.segs, seg{k.start})
	c13Check(c, shape{k}, w, h)
}
