package checks

import (
	"fmt"
	"image"
	"image/color"
	"math"
	"math/rand/v2"

	"github.com/golang/freetype/raster"
	"golang.org/x/image/math/fixed"

	"verif/harness/mon"
)

func init() {
	mon.Register(&mon.Check{
		ID:   "C26",
		Rule: "A case makes a path of lines and curves whose co-ordinates are anything that 32 bits hold, from coincident to billions of units apart, and records, copies, rasterises, strokes (at any width) and paints it with every painter onto images anywhere; a panic, a crash, more than 4 GB or 60 CPU seconds, a malformed outline or batch of spans, or a stroke's outline of unbounded length or leaving the path's surroundings is a violation. Non-trivial: a path with a segment; distinct by path.",
		Assumptions: []string{
			"drawing takes time in proportion to the pixels that the path crosses, on the canvas or not, so that few of the paths are billions of pixels long in total",
			"strokes keep near the path if its co-ordinates and its width are less than 2^28 units",
		},
		Streams: []mon.Stream{
			{Name: "paths", Quick: 60000, Thorough: 1500000, Run: c26Paths},
			{Name: "strokes", Quick: 200000, Thorough: 6000000, Run: c26Strokes},
			{Name: "drawn", Quick: 30000, Thorough: 1000000, Run: c26Drawn},
		},
		MemGB: 4,
		Required: []string{"paths rasterised", "paths that leave ink", "segments of billions of units", "extreme co-ordinates", "paths painted", "images far away", "strokes", "strokes of negative or no width", "strokes wider than the path",
			"strokes of enormous width", "strokes that keep near the path", "strokes drawn", "degenerate segments", "rasterisers used again"},
	})
}

// A c26Gen generates points.
type c26Gen struct {
	r     *rand.Rand
	bits  float64
	prev  []fixed.Point26_6
	total float64 // length so far
}

func (g *c26Gen) coord() fixed.Int26_6 {
	r := g.r
	switch r.IntN(12) {
	case 0:
		if g.bits >= 31 {
			return fixed.Int26_6(pick(r, math.MaxInt32, math.MinInt32, math.MaxInt32-1, math.MinInt32+1, math.MaxInt32/2, math.MinInt32/2, 1<<30))
		}
		return 0
	case 1:
		return fixed.Int26_6(pick(r, 0, 1, -1, 64, -64, 63))
	case 2, 3:
		return fixed.Int26_6(r.IntN(64 * 60))
	}
	v := math.Exp2(r.Float64() * g.bits)
	if r.IntN(2) == 0 {
		v = -v
	}
	return fixed.Int26_6(math.Max(math.MinInt32, math.Min(math.MaxInt32, v)))
}

func (g *c26Gen) pt() fixed.Point26_6 {
	p := fixed.Point26_6{X: g.coord(), Y: g.coord()}
	if n := len(g.prev); n > 0 {
		q := g.prev[g.r.IntN(n)]
		switch g.r.IntN(8) {
		case 0:
			p = q
		case 1:
			p = fixed.Point26_6{X: q.X + fixed.Int26_6(g.r.IntN(9)-4), Y: q.Y + fixed.Int26_6(g.r.IntN(9)-4)}
		case 2:
			p.X = q.X
		case 3:
			p.Y = q.Y
		}
		q = g.prev[n-1]
		g.total += math.Abs(float64(p.X)-float64(q.X)) + math.Abs(float64(p.Y)-float64(q.Y))
	}
	g.prev = append(g.prev, p)
	return p
}

func (g *c26Gen) shape(c *mon.Case, k kinds, n int) (s shape) {
	r := g.r
	for j := 1 + r.IntN(2); j > 0; j-- {
		x := contour{start: g.pt()}
		for i := r.IntN(n); i > 0; i-- {
			m := 1
			if k.quad && r.IntN(2) == 0 {
				m = 2
			}
			if k.cubic && r.IntN(3) == 0 {
				m = 3
			}
			from := x.end()
			var q seg
			for ; m > 0; m-- {
				q = append(q, g.pt())
			}
			x.segs = append(x.segs, q)
			same := true
			for _, p := range q {
				if same = same && p == from; max(math.Abs(float64(p.X)-float64(from.X)), math.Abs(float64(p.Y)-float64(from.Y))) > 2e9 {
					c.Event("segments of billions of units", 1)
				}
				if p.X == math.MinInt32 || p.X == math.MaxInt32 || p.Y == math.MinInt32 || p.Y == math.MaxInt32 {
					c.Event("extreme co-ordinates", 1)
				}
			}
			if same {
				c.Event("degenerate segments", 1)
			}
		}
		if r.IntN(2) == 0 {
			x.segs = append(x.segs, seg{x.start})
		}
		s = append(s, x)
	}
	return s
}

// c26Bits is the size of the coordinates; large ones are rare if they are dear.
func c26Bits(r *rand.Rand, dear bool) float64 {
	if dear && r.IntN(60) != 0 {
		return pick(r, 8.0, 12, 16, 20, 22)
	}
	return pick(r, 24.0, 27, 28, 29, 30, 31, 31.1)
}

func c26Paths(c *mon.Case) {
	r := c.R
	g := &c26Gen{r: r, bits: c26Bits(r, true)}
	n := 8
	if g.bits > 23 {
		n = 2
	}
	s := g.shape(c, allKinds, n)
	c26Raster(c, s, fmt.Sprint(s))
	c.Nontrivial(mon.Hash(s.String()))
	c.Seen("sizes", mon.Hash(int(math.Log2(g.total+1)), s.nsegs()))
}

// c26Raster rasterises a shape and paints it.
func c26Raster(c *mon.Case, s shape, what string) {
	r := c.R
	w, h := canvasSize(r)
	ras := raster.NewRasterizer(w, h)
	if r.IntN(3) == 0 {
		ras.SetBounds(r.IntN(50)-5, r.IntN(50)-5)
		ras.Start(fixed.P(3, 3))
		ras.Add1(fixed.P(1000, 20))
		ras.Rasterize(&spanRec{})
		ras.SetBounds(w, h)
		c.Event("rasterisers used again", 1)
	}
	ras.UseNonZeroWinding = r.IntN(2) == 0
	if r.IntN(3) == 0 {
		ras.Dx, ras.Dy = pick(r, 0, 5, -5, 1<<20, math.MaxInt32, math.MinInt32), pick(r, 0, 5, -5, -1<<20, math.MaxInt32, math.MinInt32)
	}
	c.Describe("rasterise on %d×%d at %d,%d: %s", w, h, ras.Dx, ras.Dy, what)
	if r.IntN(2) == 0 {
		s.addTo(ras)
	} else {
		var p raster.Path
		s.addTo(&p)
		_ = p.String()
		ras.AddPath(p)
	}
	rec := &spanRec{}
	ras.Rasterize(rec)
	if msg := checkSpans(rec, w, h, ras.Dx, ras.Dy); msg != "" {
		c.Fail("%s", msg)
		return
	}
	c.Event("paths rasterised", 1)
	if len(rec.spans) > 0 {
		c.Event("paths that leave ink", 1)
	}
	at := image.Pt(ras.Dx+r.IntN(11)-5, ras.Dy+r.IntN(11)-5)
	if r.IntN(4) == 0 {
		at = image.Pt(pick(r, 0, math.MaxInt32, math.MinInt32), pick(r, 0, -1<<40, 1<<40))
	}
	if at.X > 1<<21 || at.Y > 1<<21 || at.X < -1<<21 || at.Y < -1<<21 {
		c.Event("images far away", 1)
	}
	rect := image.Rectangle{Min: at, Max: at.Add(image.Pt(r.IntN(70), r.IntN(70)))}
	var p raster.Painter
	switch r.IntN(4) {
	case 0:
		p = raster.NewAlphaOverPainter(image.NewAlpha(rect))
	case 1:
		p = raster.NewAlphaSrcPainter(image.NewAlpha(rect))
	default:
		q := raster.NewRGBAPainter(image.NewRGBA(rect))
		if r.IntN(3) == 0 {
			q.Op = 1
		}
		q.SetColor(color.NRGBA{uint8(r.UintN(256)), 7, 99, uint8(r.UintN(256))})
		p = q
	}
	switch r.IntN(4) {
	case 0:
		p = raster.NewMonochromePainter(p)
	case 1:
		p = raster.NewGammaCorrectionPainter(p, pick(r, 1, 2.2, 0.01, 100))
	}
	ras.Rasterize(p)
	c.Event("paths painted", 1)
	c.Eval(1)
}

// A c26Outline is an Adder that checks what it is given.
type c26Outline struct {
	started bool
	n       int
	lo, hi  [2]int64
	bad     string
}

func (o *c26Outline) see(ps ...fixed.Point26_6) {
	o.n++
	if !o.started {
		o.bad = "a segment before any start"
	}
	for _, p := range ps {
		o.lo[0], o.hi[0] = min(o.lo[0], int64(p.X)), max(o.hi[0], int64(p.X))
		o.lo[1], o.hi[1] = min(o.lo[1], int64(p.Y)), max(o.hi[1], int64(p.Y))
	}
}

func (o *c26Outline) Start(a fixed.Point26_6)      { o.started = true; o.see(a) }
func (o *c26Outline) Add1(b fixed.Point26_6)       { o.see(b) }
func (o *c26Outline) Add2(b, c fixed.Point26_6)    { o.see(b, c) }
func (o *c26Outline) Add3(b, c, d fixed.Point26_6) { o.see(b, c, d) }

func newOutline() *c26Outline {
	return &c26Outline{lo: [2]int64{math.MaxInt64, math.MaxInt64}, hi: [2]int64{math.MinInt64, math.MinInt64}}
}

func c26Strokes(c *mon.Case) {
	r := c.R
	g := &c26Gen{r: r, bits: c26Bits(r, false)}
	if r.IntN(2) == 0 {
		g.bits = pick(r, 6.0, 10, 14, 18, 22, 27)
	}
	s := g.shape(c, kinds{line: true, quad: true}, 8)
	c26Stroke(c, g, s)
}

func c26Stroke(c *mon.Case, g *c26Gen, s shape) raster.Path {
	r := c.R
	st := strokeStyle{cap: r.IntN(3), bevel: r.IntN(2) == 0, nilCap: r.IntN(6) == 0, nilJr: r.IntN(6) == 0}
	st.width = g.coord()
	if r.IntN(3) != 0 && st.width < 0 {
		st.width = -(st.width + 1)
	}
	if st.width <= 0 {
		c.Event("strokes of negative or no width", 1)
	} else if st.width > 1<<26 {
		c.Event("strokes of enormous width", 1)
	}
	c.Describe("stroke of width %d, cap %d, bevel %v of %v", st.width, st.cap, st.bevel, s)
	var p raster.Path
	s.addTo(&p)
	in, out := newOutline(), newOutline()
	s.addTo(in)
	raster.Stroke(out, p, st.width, st.capper(), st.joiner())
	c.Eval(1)
	c.Event("strokes", 1)
	if out.bad != "" {
		c.Fail("the outline has %s", out.bad)
		return nil
	}
	if lim := 100 + 2000*s.nsegs(); out.n > lim {
		c.Fail("an outline of %d segments", out.n)
		return nil
	}
	small := true
	for k := range in.lo {
		small = small && in.lo[k] > -1<<28 && in.hi[k] < 1<<28
	}
	if u := int64(st.width); out.started && small && u >= 0 && u < 1<<28 {
		// Corners of square caps reach farthest.
		e := u*71/100 + u/100 + 64
		for k := range in.lo {
			if out.lo[k] < in.lo[k]-e || out.hi[k] > in.hi[k]+e {
				c.Fail("the outline spans %v to %v; the path does %v to %v", out.lo, out.hi, in.lo, in.hi)
				return nil
			}
		}
		c.Event("strokes that keep near the path", 1)
		if u > in.hi[0]-in.lo[0] && u > in.hi[1]-in.lo[1] {
			c.Event("strokes wider than the path", 1)
		}
	}
	c.Nontrivial(mon.Hash(s.String(), st.width))
	var q raster.Path
	q.AddStroke(p, st.width, st.capper(), st.joiner())
	return q
}

// c26Drawn: strokes that are also drawn.
func c26Drawn(c *mon.Case) {
	r := c.R
	g := &c26Gen{r: r, bits: pick(r, 6.0, 10, 14, 18, 20)}
	s := g.shape(c, kinds{line: true, quad: true}, 6)
	q := c26Stroke(c, g, s)
	if q == nil {
		return
	}
	o := shapeOf(q)
	c26Raster(c, o, fmt.Sprintf("the stroke of %v", s))
	c.Event("strokes drawn", 1)
}

// shapeOf is the shape that a path draws.
func shapeOf(p raster.Path) shape {
	var a shapeAdder
	for i := 0; i < len(p); {
		pt := func(k int) fixed.Point26_6 { return fixed.Point26_6{X: p[i+k], Y: p[i+k+1]} }
		switch p[i] {
		case 0:
			a.Start(pt(1))
			i += 4
		case 1:
			a.Add1(pt(1))
			i += 4
		case 2:
			a.Add2(pt(1), pt(3))
			i += 6
		default:
			a.Add3(pt(1), pt(3), pt(5))
			i += 8
		}
	}
	return shape(a)
}

type shapeAdder shape

func (a *shapeAdder) seg(s seg) {
	k := &(*a)[len(*a)-1]
	k.segs = append(k.segs, s)
}
func (a *shapeAdder) Start(p fixed.Point26_6)      { *a = append(*a, contour{start: p}) }
func (a *shapeAdder) Add1(b fixed.Point26_6)       { a.seg(seg{b}) }
func (a *shapeAdder) Add2(b, c fixed.Point26_6)    { a.seg(seg{b, c}) }
func (a *shapeAdder) Add3(b, c, d fixed.Point26_6) { a.seg(seg{b, c, d}) }
