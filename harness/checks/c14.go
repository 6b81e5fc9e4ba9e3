package checks

import (
	"fmt"
	"math"

	"github.com/golang/freetype/raster"
	"golang.org/x/image/math/fixed"

	"verif/harness/mon"
	"verif/harness/refras"
)

func init() {
	mon.Register(&mon.Check{
		ID:   "C14",
		Rule: "A case is a set of closed contours of quadratics and cubics (random, glyph-like, loops, cusps, coincident and collinear control points, at many sizes and positions), rasterised and compared pixel by pixel with the exact curves flattened to 1/500 pixel in floating point. Non-trivial: a curve passes through the canvas; distinct by shape.",
		Assumptions: []string{
			"a pixel that no curve comes within t of must be exact; for the others the coverage may be off by t times the length of curve near the pixel, where t is 0.1 pixel on canvases up to 24 pixels, 0.16 up to 120 and 0.25 beyond, and 0.25 more for curves of millions of pixels",
		},
		Streams: []mon.Stream{
			{Name: "quads", Quick: 20000, Thorough: 800000, Run: func(c *mon.Case) { c14Random(c, kinds{quad: true}) }},
			{Name: "cubics", Quick: 20000, Thorough: 800000, Run: func(c *mon.Case) { c14Random(c, kinds{cubic: true}) }},
			{Name: "mixed", Quick: 10000, Thorough: 400000, Run: func(c *mon.Case) { c14Random(c, allKinds) }},
			{Name: "huge", Quick: 8000, Thorough: 200000, Run: c14Huge},
			{Name: "vast", Quick: 300, Thorough: 6000, Run: c14Vast},
			{Name: "special", Quick: 20000, Thorough: 400000, Run: c14Special},
			{Name: "straight", Quick: 20000, Thorough: 400000, Run: c14Straight},
		},
		Required: []string{"pixels exact", "pixels near a curve", "straight curves", "curves larger than 1000 pixels", "curves of millions of pixels", "special: cusp", "special: loop"},
	})
}

// flattenTol is the permitted distance, in pixels, between a curve and its
// flattening; the rasteriser is coarser on larger canvases.
func flattenTol(w, h int) float64 {
	return [3]float64{0.10, 0.16, 0.25}[canvasClass(w, h)]
}

const curveTol = 0.002

func c14Check(c *mon.Case, s shape, w, h int) { c14CheckTol(c, s, w, h, flattenTol(w, h)) }

func c14CheckTol(c *mon.Case, s shape, w, h int, tolerance float64) {
	r := c.R
	ras := raster.NewRasterizer(w, h)
	nonzero := r.IntN(2) == 0
	ras.UseNonZeroWinding = nonzero
	c.Describe("canvas %dx%d nonzero=%v: %v", w, h, nonzero, s)
	s.addTo(ras)
	cv := refras.NewCanvas(w, h)
	cv.CountEdges = true
	cv.Near = tolerance
	s.reference(cv, curveTol)
	wind := cv.Winding()
	p := &spanRec{}
	ras.Rasterize(p)
	if msg := checkSpans(p, w, h, 0, 0); msg != "" {
		c.Fail("%s", msg)
	}
	px := pixels(p.spans, w, h, 0, 0)
	any := false
	for i, a := range px {
		want := refras.EvenOdd(wind[i])
		if nonzero {
			want = refras.NonZero(wind[i])
		}
		length := 0.0
		if cv.Edges != nil && cv.Edges[i] > 0 {
			length = cv.Len[i]
		} else {
			c.Event("pixels exact", 1)
			wi := int(math.Round(wind[i]))
			exact := uint32(0)
			if nonzero && wi != 0 || !nonzero && wi%2 != 0 {
				exact = 0xffff
			}
			if a != exact {
				c.Fail("pixel (%d,%d) has winding number %v throughout but alpha %#x", i%w, i/w, wi, a)
			}
			continue
		}
		any = true
		c.Event("pixels near a curve", 1)
		got := float64(a) / 0xffff
		err := math.Abs(got - want)
		if debugStats {
			c.Event(fmt.Sprintf("err/len %s %d len=%d bin %03d", c.Stream, canvasClass(w, h), int(math.Min(length, 6)), int(err/(length+0.25)*200)), 1)
		}
		if err > tolerance*(length+0.25) {
			c.Fail("pixel (%d,%d): average winding number %.4f, so coverage %.4f, but alpha %#x = %.4f (%.2f pixels of curve near)",
				i%w, i/w, wind[i], want, a, got, length)
		}
	}
	if any {
		c.Nontrivial(mon.Hash(s.String(), w, h))
		c.Sample("canvas %dx%d: %v", w, h, s)
	}
}

func canvasClass(w, h int) int {
	switch {
	case w > 120 || h > 120:
		return 2
	case w > 24 || h > 24:
		return 1
	}
	return 0
}

func c14Random(c *mon.Case, k kinds) {
	w, h := canvasSize(c.R)
	g := newPtGen(c.R, w, h)
	if g.mode == ptFar {
		g.mode = ptAround
	}
	var s shape
	for i := 0; i < 1+c.R.IntN(3); i++ {
		s = append(s, g.contour(k, 5, true))
	}
	c14Check(c, s, w, h)
}

// c14Huge: curves much larger than the canvas that pass through it.
func c14Huge(c *mon.Case) { c14Scaled(c, math.Exp2(8+12*c.R.Float64())) }

// c14Vast: curves of up to several million pixels.
func c14Vast(c *mon.Case) {
	e := 20 + 7*c.R.Float64()
	if c.R.IntN(12) == 0 {
		e = 27 + 1.5*c.R.Float64()
	}
	c.Event("curves of millions of pixels", 1)
	c14Scaled(c, math.Exp2(e))
}

func c14Scaled(c *mon.Case, e float64) {
	r := c.R
	w, h := canvasSize(r)
	var s shape
	for i := 1 + r.IntN(2); i > 0; i-- {
		p := make([][2]float64, 3+r.IntN(2))
		for k := range p {
			p[k] = [2]float64{e * (2*r.Float64() - 1), e * (2*r.Float64() - 1)}
			if k > 0 && r.IntN(12) == 0 {
				p[k] = p[k-1]
			}
		}
		// Move the point at t to a place in the canvas.
		t := r.Float64()
		q := append([][2]float64(nil), p...)
		for n := len(q) - 1; n > 0; n-- {
			for k := 0; k < n; k++ {
				for a := range 2 {
					q[k][a] = (1-t)*q[k][a] + t*q[k+1][a]
				}
			}
		}
		ox, oy := float64(64*w)*r.Float64()-q[0][0], float64(64*h)*r.Float64()-q[0][1]
		var ps seg
		for _, v := range p {
			ps = append(ps, fixed.Point26_6{X: fixed.Int26_6(ox + v[0]), Y: fixed.Int26_6(oy + v[1])})
		}
		k := contour{start: ps[0], segs: []seg{ps[1:]}}
		// Back by a line, or two.
		if r.IntN(2) == 0 {
			k.segs = append(k.segs, seg{{X: fixed.Int26_6(e * (2*r.Float64() - 1)), Y: fixed.Int26_6(e * (2*r.Float64() - 1))}})
		}
		k.segs = append(k.segs, seg{ps[0]})
		if r.IntN(2) == 0 {
			k = k.reversed()
		}
		s = append(s, k)
		if e > 64000 {
			c.Event("curves larger than 1000 pixels", 1)
		}
	}
	tolerance := flattenTol(w, h)
	if e > 1<<26 {
		// The rounding of many halvings.
		tolerance += 0.25
	}
	c14CheckTol(c, s, w, h, tolerance)
}

// c14Special: loops, cusps, circles, s-curves at various sizes, rotated.
func c14Special(c *mon.Case) {
	r := c.R
	w, h := canvasSize(r)
	g := newPtGen(r, w, h)
	if g.mode == ptFar {
		g.mode = ptAround
	}
	o := g.pt()
	size := math.Exp(r.Float64()*math.Log(float64(64*(w+h+2)))) + 1
	th := r.Float64() * 2 * math.Pi
	if r.IntN(3) == 0 {
		th = float64(r.IntN(4)) * math.Pi / 2
	}
	p := func(x, y float64) fixed.Point26_6 {
		cs, sn := math.Cos(th), math.Sin(th)
		return fixed.Point26_6{X: o.X + fixed.Int26_6(math.Round(size*(x*cs-y*sn))), Y: o.Y + fixed.Int26_6(math.Round(size*(x*sn+y*cs)))}
	}
	var k contour
	name := ""
	switch r.IntN(9) {
	case 0:
		name = "circle4"
		const q = 0.5522847
		k = contour{start: p(1, 0), segs: []seg{{p(1, q), p(q, 1), p(0, 1)}, {p(-q, 1), p(-1, q), p(-1, 0)}, {p(-1, -q), p(-q, -1), p(0, -1)}, {p(q, -1), p(1, -q), p(1, 0)}}}
	case 1:
		name = "blob2"
		k = contour{start: p(1, 0), segs: []seg{{p(1, 1), p(0, 1)}, {p(-1, 1), p(-1, 0)}, {p(-1, -1), p(0, -1)}, {p(1, -1), p(1, 0)}}}
	case 2:
		name = "cusp"
		k = contour{start: p(0, 0), segs: []seg{{p(1, 1), p(0, 1), p(1, 0)}, {p(0.5, -0.5)}, {p(0, 0)}}}
	case 3:
		name = "loop"
		k = contour{start: p(0, 0), segs: []seg{{p(2, 1), p(-1, 1), p(1, 0)}, {p(0, 0)}}}
	case 4:
		name = "s-curve"
		k = contour{start: p(0, 0), segs: []seg{{p(0, 1), p(1, -1), p(1, 0)}, {p(1, 1)}, {p(0, 0)}}}
	case 5:
		name = "coincident"
		k = contour{start: p(0, 0), segs: []seg{{p(0, 0), p(1, 1), p(1, 0)}, {p(1, 0), p(0, 0)}, {p(0.5, -0.5), p(0.5, -0.5), p(0, 0)}}}
	case 6:
		name = "hairpin"
		k = contour{start: p(0, 0), segs: []seg{{p(1, 0.01), p(0, 0.02)}, {p(0, 0)}}}
	case 7:
		name = "one-sided"
		// The second control point dominates.
		k = contour{start: p(-1, 0), segs: []seg{{p(0, 0), p(r.Float64()*3-1.5, r.Float64()*3-1.5), p(1, 0)}, {p(0, -1)}, {p(-1, 0)}}}
	default:
		name = "teardrop"
		k = contour{start: p(0, 0), segs: []seg{{p(1, 1), p(-1, 1), p(0, 0)}}}
	}
	if r.IntN(2) == 0 {
		k = k.reversed()
	}
	c.Event("special: "+name, 1)
	c14Check(c, shape{k}, w, h)
}

// c14Straight: curves whose control points lie on the chord, in order, must
// cover what the line covers.
func c14Straight(c *mon.Case) {
	r := c.R
	w, h := canvasSize(r)
	var curved, straight shape
	n := 2 + r.IntN(4)
	g := newPtGen(r, w, h)
	if g.mode == ptFar {
		g.mode = ptAround
	}
	a := g.pt()
	kc, ks := contour{start: a}, contour{start: a}
	// Points at whole fractions of the chord are exactly on it.
	on := func(a, b fixed.Point26_6, i, n fixed.Int26_6) fixed.Point26_6 {
		return fixed.Point26_6{X: a.X + (b.X-a.X)/n*i, Y: a.Y + (b.Y-a.Y)/n*i}
	}
	for i := 0; i <= n; i++ {
		b := g.pt()
		if i == n {
			b = kc.start
		}
		// Make the chord divisible.
		const m = 12
		if i < n {
			b.X -= (b.X - a.X) % m
			b.Y -= (b.Y - a.Y) % m
		}
		if (b.X-a.X)%m != 0 || (b.Y-a.Y)%m != 0 || r.IntN(4) == 0 {
			kc.segs = append(kc.segs, seg{b})
		} else if r.IntN(2) == 0 {
			kc.segs = append(kc.segs, seg{on(a, b, fixed.Int26_6(r.IntN(m+1)), m), b})
			c.Event("straight curves", 1)
		} else {
			x, y := r.IntN(m+1), r.IntN(m+1)
			kc.segs = append(kc.segs, seg{on(a, b, fixed.Int26_6(min(x, y)), m), on(a, b, fixed.Int26_6(max(x, y)), m), b})
			c.Event("straight curves", 1)
		}
		ks.segs = append(ks.segs, seg{b})
		a = b
	}
	curved, straight = shape{kc}, shape{ks}
	c.Describe("canvas %dx%d: %v as %v", w, h, straight, curved)
	ras := raster.NewRasterizer(w, h)
	ras.UseNonZeroWinding = r.IntN(2) == 0
	p1 := rasterise(ras, curved)
	ras.Clear()
	p2 := rasterise(ras, straight)
	x1, x2 := pixels(p1.spans, w, h, 0, 0), pixels(p2.spans, w, h, 0, 0)
	cv := refras.NewCanvas(w, h)
	cv.CountEdges = true
	cv.Near = 5.0 / 64
	straight.reference(cv, 1)
	for i := range x1 {
		n := 0
		if cv.Edges != nil {
			n = int(cv.Edges[i])
		}
		d := math.Abs(float64(x1[i])-float64(x2[i])) / 0xffff
		if debugStats && n > 0 {
			c.Event(fmt.Sprintf("straight near=%d bin %03d", min(n, 6), int(d/float64(n)*200)), 1)
		}
		if d > tolBase+float64(n)*7/64 {
			c.Fail("pixel (%d,%d): alpha %#x with curves, %#x with lines", i%w, i/w, x1[i], x2[i])
		}
	}
	c.Nontrivial(mon.Hash(curved.String(), w, h))
	c.Sample("canvas %dx%d: %v", w, h, curved)
}
