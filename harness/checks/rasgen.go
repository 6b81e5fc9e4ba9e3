package checks

import (
	"fmt"
	"math/rand/v2"
	"strings"

	"github.com/golang/freetype/raster"
	"golang.org/x/image/math/fixed"

	"verif/harness/refras"
)

// A seg is a path segment: 1, 2 or 3 points.
type seg []fixed.Point26_6

// A contour is a start point and segments.
type contour struct {
	start fixed.Point26_6
	segs  []seg
}

type shape []contour

func (c contour) end() fixed.Point26_6 {
	if len(c.segs) == 0 {
		return c.start
	}
	s := c.segs[len(c.segs)-1]
	return s[len(s)-1]
}

func (c contour) addTo(a raster.Adder) {
	a.Start(c.start)
	for _, s := range c.segs {
		switch len(s) {
		case 1:
			a.Add1(s[0])
		case 2:
			a.Add2(s[0], s[1])
		case 3:
			a.Add3(s[0], s[1], s[2])
		}
	}
}

func (s shape) addTo(a raster.Adder) {
	for _, c := range s {
		c.addTo(a)
	}
}

// reversed returns the contour traversed the other way.
func (c contour) reversed() contour {
	r := contour{start: c.end()}
	for i := len(c.segs) - 1; i >= 0; i-- {
		from := c.start
		if i > 0 {
			p := c.segs[i-1]
			from = p[len(p)-1]
		}
		s := c.segs[i]
		var t seg
		for k := len(s) - 2; k >= 0; k-- {
			t = append(t, s[k])
		}
		r.segs = append(r.segs, append(t, from))
	}
	return r
}

func (c contour) moved(d fixed.Point26_6) contour {
	r := contour{start: c.start.Add(d)}
	for _, s := range c.segs {
		var t seg
		for _, p := range s {
			t = append(t, p.Add(d))
		}
		r.segs = append(r.segs, t)
	}
	return r
}

func (s shape) moved(d fixed.Point26_6) shape {
	var r shape
	for _, c := range s {
		r = append(r, c.moved(d))
	}
	return r
}

func (s shape) String() string {
	var b strings.Builder
	for _, c := range s {
		fmt.Fprintf(&b, "S(%d,%d)", c.start.X, c.start.Y)
		for _, g := range c.segs {
			fmt.Fprintf(&b, " L%d", len(g))
			for _, p := range g {
				fmt.Fprintf(&b, "(%d,%d)", p.X, p.Y)
			}
		}
		b.WriteString("; ")
	}
	return b.String()
}

func (s shape) nsegs() int {
	n := 0
	for _, c := range s {
		n += len(c.segs)
	}
	return n
}

// reference draws the shape on a reference canvas; curves are flattened to
// within tol pixels.
func (s shape) reference(cv *refras.Canvas, tol float64) {
	for _, c := range s {
		a := refras.FromFixed(c.start)
		for _, g := range c.segs {
			switch len(g) {
			case 1:
				q := refras.FromFixed(g[0])
				cv.Line(a, q)
				a = q
			case 2:
				b, q := refras.FromFixed(g[0]), refras.FromFixed(g[1])
				cv.Quad(a, b, q, refras.QuadN(a, b, q, tol))
				a = q
			case 3:
				b, d, q := refras.FromFixed(g[0]), refras.FromFixed(g[1]), refras.FromFixed(g[2])
				cv.Cubic(a, b, d, q, refras.CubicN(a, b, d, q, tol))
				a = q
			}
		}
	}
}

// pick returns one of its arguments.
func pick[T any](r *rand.Rand, xs ...T) T { return xs[r.IntN(len(xs))] }

// canvasSize picks a canvas size: all the sizes at which something changes
// inside a rasteriser, and others.
func canvasSize(r *rand.Rand) (w, h int) {
	d := func() int {
		switch r.IntN(12) {
		case 0:
			return r.IntN(3)
		case 1:
			return pick(r, 23, 24, 25, 26)
		case 2:
			return pick(r, 63, 64, 65, 66)
		case 3:
			return pick(r, 119, 120, 121, 122)
		case 4:
			return 100 + r.IntN(200)
		default:
			return 1 + r.IntN(60)
		}
	}
	return d(), d()
}

// A ptGen picks points relative to a canvas.
type ptGen struct {
	r    *rand.Rand
	w, h int
	mode int
	cx   fixed.Int26_6 // for the clustered mode
	cy   fixed.Int26_6
	rad  int
}

const (
	ptInside = iota
	ptAround
	ptFar
	ptGrid
	ptHalf
	ptCluster
	ptModes
)

func newPtGen(r *rand.Rand, w, h int) *ptGen {
	g := &ptGen{r: r, w: w, h: h, mode: r.IntN(ptModes)}
	g.cx = fixed.Int26_6(r.IntN(64*(w+2)) - 64)
	g.cy = fixed.Int26_6(r.IntN(64*(h+2)) - 64)
	g.rad = 1 << (2 + r.IntN(9))
	return g
}

func (g *ptGen) coord(n int, c fixed.Int26_6) fixed.Int26_6 {
	r := g.r
	switch g.mode {
	case ptInside:
		return fixed.Int26_6(r.IntN(64*n + 1))
	case ptAround:
		return fixed.Int26_6(r.IntN(64*n*2+128) - 32*n - 64)
	case ptFar:
		if r.IntN(3) == 0 {
			return fixed.Int26_6(r.IntN(1<<21) - 1<<20)
		}
		return fixed.Int26_6(r.IntN(64*n*2+128) - 32*n - 64)
	case ptGrid:
		return fixed.Int26_6(64 * (r.IntN(n+5) - 2))
	case ptHalf:
		return fixed.Int26_6(64*(r.IntN(n+5)-2) + pick(r, 0, 1, 31, 32, 33, 63))
	default:
		return c + fixed.Int26_6(r.IntN(2*g.rad+1)-g.rad)
	}
}

func (g *ptGen) pt() fixed.Point26_6 {
	return fixed.Point26_6{X: g.coord(g.w, g.cx), Y: g.coord(g.h, g.cy)}
}

// kinds selects which segments a shape may have.
type kinds struct{ line, quad, cubic bool }

func (g *ptGen) contour(k kinds, maxSegs int, closed bool) contour {
	r := g.r
	c := contour{start: g.pt()}
	n := 1 + r.IntN(maxSegs)
	var opts []int
	if k.line {
		opts = append(opts, 1)
	}
	if k.quad {
		opts = append(opts, 2)
	}
	if k.cubic {
		opts = append(opts, 3)
	}
	last := c.start
	for i := 0; i < n; i++ {
		op := opts[r.IntN(len(opts))]
		s := make(seg, op)
		for j := range s {
			s[j] = g.pt()
			switch r.IntN(16) {
			case 0:
				s[j] = last // coincident points
			case 1:
				s[j].X = last.X // vertical
			case 2:
				s[j].Y = last.Y // horizontal
			}
			if j > 0 && r.IntN(16) == 0 {
				s[j] = s[j-1]
			}
		}
		if closed && i == n-1 {
			s[len(s)-1] = c.start
		}
		last = s[len(s)-1]
		c.segs = append(c.segs, s)
	}
	if closed && last != c.start {
		c.segs = append(c.segs, seg{c.start})
	}
	return c
}

// rectContour is an axis-aligned rectangle.
func rectContour(x0, y0, x1, y1 fixed.Int26_6, cw bool) contour {
	p := func(x, y fixed.Int26_6) fixed.Point26_6 { return fixed.Point26_6{X: x, Y: y} }
	c := contour{start: p(x0, y0), segs: []seg{{p(x1, y0)}, {p(x1, y1)}, {p(x0, y1)}, {p(x0, y0)}}}
	if !cw {
		c = c.reversed()
	}
	return c
}

// randShape is a set of closed (or open) contours.
func randShape(r *rand.Rand, w, h int, k kinds, closed bool) shape {
	g := newPtGen(r, w, h)
	var s shape
	n := 1 + r.IntN(3)
	if r.IntN(12) == 0 {
		n = 4 + r.IntN(12)
	}
	maxSegs := 8
	if r.IntN(10) == 0 {
		maxSegs = 60
	}
	for i := 0; i < n; i++ {
		if k.line && r.IntN(6) == 0 {
			a, b := g.pt(), g.pt()
			s = append(s, rectContour(a.X, a.Y, b.X, b.Y, r.IntN(2) == 0))
			continue
		}
		s = append(s, g.contour(k, maxSegs, closed))
		if r.IntN(4) == 0 {
			g = newPtGen(r, w, h)
		}
	}
	return s
}

// A spanRec records what a painter was given.
type spanRec struct {
	spans   []raster.Span
	batches []int // number of spans per batch
	dones   []bool
	scratch bool // scribble over the spans, as painters may
}

func (p *spanRec) Paint(ss []raster.Span, done bool) {
	p.spans = append(p.spans, ss...)
	p.batches = append(p.batches, len(ss))
	p.dones = append(p.dones, done)
	if p.scratch {
		for i := range ss {
			ss[i] = raster.Span{Y: -12345, X0: 999999, X1: -999999, Alpha: 0xdeadbeef}
		}
	}
}

// checkSpans checks the invariants of a rasterisation's spans; it returns ""
// or what is wrong.
func checkSpans(p *spanRec, w, h, dx, dy int) string {
	if len(p.dones) == 0 {
		return "no batch was delivered"
	}
	for i, d := range p.dones {
		if d != (i == len(p.dones)-1) {
			return fmt.Sprintf("batch %d of %d has done=%v", i, len(p.dones), d)
		}
	}
	for i, s := range p.spans {
		if s.X0 >= s.X1 {
			return fmt.Sprintf("empty span %v", s)
		}
		if s.Alpha == 0 || s.Alpha > 0xffff {
			return fmt.Sprintf("span %v has a bad alpha", s)
		}
		if s.Y < dy || s.Y >= dy+h || s.X0 < dx || s.X1 > dx+w {
			return fmt.Sprintf("span %v outside of %dx%d displaced by (%d,%d)", s, w, h, dx, dy)
		}
		if i > 0 {
			q := p.spans[i-1]
			if q.Y > s.Y || q.Y == s.Y && q.X1 > s.X0 {
				return fmt.Sprintf("span %v follows %v", s, q)
			}
		}
	}
	return ""
}

// pixels expands spans to a w by h alpha map.
func pixels(ss []raster.Span, w, h, dx, dy int) []uint32 {
	a := make([]uint32, w*h)
	for _, s := range ss {
		for x := s.X0; x < s.X1; x++ {
			px, py := x-dx, s.Y-dy
			if px >= 0 && px < w && py >= 0 && py < h {
				a[py*w+px] = s.Alpha
			}
		}
	}
	return a
}

func samePixels(a, b []uint32, w int) string {
	for i := range a {
		if a[i] != b[i] {
			return fmt.Sprintf("pixel (%d,%d): %#x and %#x", i%w, i/w, a[i], b[i])
		}
	}
	return ""
}

// rasterise draws a shape on a rasteriser and returns what was painted.
func rasterise(r *raster.Rasterizer, s shape) *spanRec {
	s.addTo(r)
	p := &spanRec{}
	r.Rasterize(p)
	return p
}
