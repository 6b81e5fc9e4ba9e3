package checks

import (
	"fmt"
	"math"
	"math/rand/v2"
	"slices"

	"github.com/golang/freetype/raster"
	"golang.org/x/image/math/fixed"

	"verif/harness/mon"
	"verif/harness/refras"
)

func init() {
	mon.Register(&mon.Check{
		ID:   "C24",
		Rule: "A case strokes random curves (lines, quadratics with long arms, repeated points, several curves) with caps and joins of its own, which record what they are asked for, wrap the built-in ones, or add shapes of their own to either side. Non-trivial: a stroke with a join or a cap; distinct by inputs.",
		Assumptions: []string{
			"normals are compared to within two units, for quadratics to within the error of the stroker's subdivision",
			"a stroke with shapes of its own is compared with the butt and bevel stroke with the same shapes added, to within 1/16 of full coverage",
		},
		Streams: []mon.Stream{
			{Name: "asked", Quick: 160000, Thorough: 600000, Run: c24Asked},
			{Name: "wrapped", Quick: 80000, Thorough: 300000, Run: c24Wrapped},
			{Name: "long", Quick: 1600, Thorough: 8000, Run: func(c *mon.Case) {
				if c.R.IntN(2) == 0 {
					c24AskedOf(c, c24Long(c))
				} else {
					c24WrappedOf(c, c24Long(c))
				}
			}},
			{Name: "own", Quick: 48000, Thorough: 200000, Run: c24Own},
		},
		Required: []string{"joins asked for", "caps asked for", "joins of curves", "curves of a path", "repeated points", "curves without extent", "wrapped strokes", "shapes on the left", "shapes on the right", "shapes as caps", "pixels of shapes", "paths of many segments"},
	})
}

// c24Path is a path with what its joins and caps must be told.
type c24Path struct {
	ks []contour
	// nodes of each curve with some extent: where, the directions before and
	// after, and the angle to which these are exact.
	curves [][]c24Node
}

type c24Node struct {
	at        fixed.Point26_6
	in, out   fp // zero at the ends
	ein, out2 float64
}

func c24Rand(c *mon.Case, lines bool, turn float64) c24Path {
	return c24Segs(c, lines, turn, 1+c.R.IntN(4)*c.R.IntN(2), 6)
}

// c24Long is a path of curves of thousands of segments.
func c24Long(c *mon.Case) c24Path {
	c.Event("paths of many segments", 1)
	return c24Segs(c, false, math.Pi, 1+c.R.IntN(3), pick(c.R, 400, 1500, 6000))
}

func c24Segs(c *mon.Case, lines bool, turn float64, n, max int) c24Path {
	r := c.R
	var p c24Path
	for ; n > 0; n-- {
		a := fixed.Point26_6{X: fixed.Int26_6(r.IntN(12000) - 6000), Y: fixed.Int26_6(r.IntN(12000) - 6000)}
		k := contour{start: a}
		th := r.Float64() * 2 * math.Pi
		ns := []c24Node{{at: a}}
		add := func(at fixed.Point26_6, in, out fp, ein, eout float64) {
			l := &ns[len(ns)-1]
			l.out, l.out2 = in, ein
			ns = append(ns, c24Node{at: at, in: out, ein: eout})
			a = at
		}
		for m := r.IntN(max); m > 0; m-- {
			if r.IntN(8) == 0 {
				k.segs = append(k.segs, seg{a})
				c.Event("repeated points", 1)
				continue
			}
			th += (r.Float64()*2 - 1) * turn
			b := polar(r, a, 2+r.Float64()*40, th)
			if lines || r.IntN(3) != 0 {
				d := unit(sub(refras.FromFixed(b), refras.FromFixed(a)))
				k.segs = append(k.segs, seg{b})
				add(b, d, d, 0, 0)
				continue
			}
			l1, l2 := 20+r.Float64()*40, 20+r.Float64()*40
			b = polar(r, a, l1, th)
			th += (r.Float64()*2 - 1) * 2
			e := polar(r, b, l2, th)
			d0, d1 := unit(sub(refras.FromFixed(b), refras.FromFixed(a))), unit(sub(refras.FromFixed(e), refras.FromFixed(b)))
			k.segs = append(k.segs, seg{b, e})
			// The stroker parts the curve where it bends most, and halves the
			// parts; a short part's direction suffers from the rounding.
			pa, pb, pe := refras.FromFixed(a), refras.FromFixed(b), refras.FromFixed(e)
			va, vb := sub(pb, pa), sub(pe, pb)
			ve := sub(vb, va)
			leg := l2
			if t := -(va.X*ve.X + va.Y*ve.Y) / (ve.X*ve.X + ve.Y*ve.Y); t > 0 && t < 1 {
				leg = (1 - t) * l2
			}
			add(e, d0, d1, 0.001, 0.02+2/l2+0.125/leg)
			c.Event("quadratics", 1)
		}
		p.ks = append(p.ks, k)
		if len(ns) > 1 {
			p.curves = append(p.curves, ns)
		} else {
			c.Event("curves without extent", 1)
		}
	}
	c.Event("curves of a path", len(p.ks)-1)
	return p
}

func (p c24Path) path() raster.Path {
	var q raster.Path
	for _, k := range p.ks {
		k.addTo(&q)
	}
	return q
}

// normalOf tells whether n is the normal of a direction.
func normalOf(n fixed.Point26_6, d fp, u fixed.Int26_6, ang float64) bool {
	dx := float64(n.X) - float64(u)*d.Y
	dy := float64(n.Y) + float64(u)*d.X
	return math.Hypot(dx, dy) <= 2+ang*float64(u)
}

func c24Asked(c *mon.Case) { c24AskedOf(c, c24Rand(c, false, math.Pi)) }

func c24AskedOf(c *mon.Case, p c24Path) {
	r := c.R
	width := fixed.Int26_6(2 + r.IntN(pick(r, 64, 640, 6400)))
	u := width / 2
	type ask struct {
		pivot, n0, n1 fixed.Point26_6
	}
	var joins, caps []ask
	bad := ""
	jr := raster.JoinerFunc(func(lhs, rhs raster.Adder, hw fixed.Int26_6, pivot, n0, n1 fixed.Point26_6) {
		if hw != u {
			bad = fmt.Sprintf("a join is told the half-width is %d", hw)
		}
		joins = append(joins, ask{pivot, n0, n1})
		raster.BevelJoiner.Join(lhs, rhs, hw, pivot, n0, n1)
	})
	cr := raster.CapperFunc(func(a raster.Adder, hw fixed.Int26_6, pivot, n1 fixed.Point26_6) {
		if hw != u {
			bad = fmt.Sprintf("a cap is told the half-width is %d", hw)
		}
		caps = append(caps, ask{pivot: pivot, n1: n1})
		raster.ButtCapper.Cap(a, hw, pivot, n1)
	})
	c.Describe("width %d: %v", width, shape(p.ks))
	var out raster.Path
	raster.Stroke(&out, p.path(), width, cr, jr)
	if bad != "" {
		c.Fail("%s, not %d", bad, u)
	}
	j := 0
	var ends []c24Node
	for _, ns := range p.curves {
		for i, n := range ns {
			if i == 0 || i == len(ns)-1 {
				ends = append(ends, n)
				continue
			}
			if j >= len(joins) {
				c.Fail("no join is asked for at %v", n.at)
			}
			a := joins[j]
			if a.pivot != n.at {
				c.Fail("join %d is at %v, want %v", j, a.pivot, n.at)
			}
			if !normalOf(a.n0, n.in, u, n.ein) || !normalOf(a.n1, n.out, u, n.out2) {
				c.Fail("the normals of join %d at %v are %v and %v, for directions %.3f and %.3f and half-width %d", j, n.at, a.n0, a.n1, n.in, n.out, u)
			}
			if n.ein != 0 || n.out2 != 0 {
				c.Event("joins of curves", 1)
			}
			j++
		}
	}
	if j != len(joins) {
		c.Fail("%d joins are asked for, want %d", len(joins), j)
	}
	if len(caps) != len(ends) {
		c.Fail("%d caps are asked for, want %d", len(caps), len(ends))
	}
	// Every end has its cap, whatever the order.
	used := make([]bool, len(caps))
ends:
	for _, e := range ends {
		for i, a := range caps {
			if used[i] || a.pivot != e.at {
				continue
			}
			// The cap turns from one side of the last segment to the other.
			if e.in != (fp{}) && normalOf(a.n1, mul(e.in, -1), u, e.ein) || e.out != (fp{}) && normalOf(a.n1, e.out, u, e.out2) {
				used[i] = true
				continue ends
			}
		}
		c.Fail("no cap fits the end %v (directions %.3f %.3f, half-width %d): asked for %v", e.at, e.in, e.out, u, caps)
	}
	c.Event("joins asked for", len(joins))
	c.Event("caps asked for", len(caps))
	c.Eval(1)
	if len(caps) > 0 {
		c.Nontrivial(mon.Hash(int(width), shape(p.ks).String()))
		c.Sample("width %d: %v: %d joins, %d caps", width, shape(p.ks), len(joins), len(caps))
	}
}

// An adderRec is a destination of strokes other than those of the package.
type adderRec struct{ p raster.Path }

func (a *adderRec) Start(p fixed.Point26_6)   { a.p = append(a.p, 0, p.X, p.Y, 0) }
func (a *adderRec) Add1(p fixed.Point26_6)    { a.p = append(a.p, 1, p.X, p.Y, 1) }
func (a *adderRec) Add2(p, q fixed.Point26_6) { a.p = append(a.p, 2, p.X, p.Y, q.X, q.Y, 2) }
func (a *adderRec) Add3(p, q, s fixed.Point26_6) {
	a.p = append(a.p, 3, p.X, p.Y, q.X, q.Y, s.X, s.Y, 3)
}

func c24Wrapped(c *mon.Case) { c24WrappedOf(c, c24Rand(c, false, math.Pi)) }

func c24WrappedOf(c *mon.Case, p c24Path) {
	r := c.R
	st := randStyle(r, 40)
	c.Describe("stroke width %d/64 cap %d bevel %v (nil %v %v): %v", st.width, st.cap, st.bevel, st.nilCap, st.nilJr, shape(p.ks))
	var want, got raster.Path
	raster.Stroke(&want, p.path(), st.width, st.capper(), st.joiner())
	cr, jr := st.capper(), st.joiner()
	if cr == nil {
		cr = raster.RoundCapper
	}
	if jr == nil {
		jr = raster.RoundJoiner
	}
	joins, caps := 0, 0
	wcr := raster.CapperFunc(func(a raster.Adder, hw fixed.Int26_6, pivot, n1 fixed.Point26_6) {
		caps++
		cr.Cap(a, hw, pivot, n1)
	})
	wjr := raster.JoinerFunc(func(lhs, rhs raster.Adder, hw fixed.Int26_6, pivot, n0, n1 fixed.Point26_6) {
		joins++
		jr.Join(lhs, rhs, hw, pivot, n0, n1)
	})
	rec := &adderRec{}
	switch r.IntN(3) {
	case 0:
		raster.Stroke(&got, p.path(), st.width, wcr, wjr)
	case 1:
		got.AddStroke(p.path(), st.width, wcr, wjr)
	case 2:
		raster.Stroke(rec, p.path(), st.width, wcr, wjr)
		got = rec.p
	}
	if !slices.Equal(got, want) {
		c.Fail("with functions around the built-in cap and join, the stroke is %v instead of %v", got, want)
	}
	c.Event("wrapped strokes", 1)
	c.Eval(1)
	if joins+caps > 0 {
		c.Nontrivial(mon.Hash(fmt.Sprint(st), shape(p.ks).String()))
	}
}

// c24Bump is a shape from a to b with points of the given angles (to the
// normal n, backwards to forwards) around a.
func c24Bump(r *rand.Rand, a, b, n fixed.Point26_6) contour {
	k := contour{start: a}
	l := math.Hypot(float64(n.X), float64(n.Y))
	at := func(from fixed.Point26_6, lo, hi float64) fixed.Point26_6 {
		// The angle from the normal; positive is forwards.
		th := lo + (hi-lo)*r.Float64()
		d := 64 * (3 + 12*r.Float64()) / l
		nx, ny := float64(n.X)*d, float64(n.Y)*d
		s, c := math.Sin(th), math.Cos(th)
		// The normal turned clockwise by 90 degrees is forwards.
		return from.Add(fixed.Point26_6{X: fixed.Int26_6(nx*c - ny*s), Y: fixed.Int26_6(nx*s + ny*c)})
	}
	if r.IntN(2) == 0 {
		k.segs = append(k.segs, seg{at(a, -1.4, -0.8)})
	}
	switch r.IntN(3) {
	case 0:
		k.segs = append(k.segs, seg{at(a, -0.7, 0), at(a, 0.1, 0.7)})
	default:
		k.segs = append(k.segs, seg{at(a, -0.7, -0.3), at(a, -0.2, 0.2), at(a, 0.3, 0.7)})
	}
	if r.IntN(2) == 0 {
		k.segs = append(k.segs, seg{at(b, 0.8, 1), b})
	} else {
		k.segs = append(k.segs, seg{b})
	}
	return k
}

func c24Own(c *mon.Case) {
	r := c.R
	p := c24Rand(c, true, 0.3)
	for i, k := range p.ks {
		p.ks[i] = k.moved(fixed.Point26_6{X: fixed.I(60), Y: fixed.I(60)}.Sub(k.start))
	}
	width := fixed.Int26_6(64 + r.IntN(1000))
	q := p.path()
	var bumps []contour
	jr := raster.JoinerFunc(func(lhs, rhs raster.Adder, hw fixed.Int26_6, pivot, n0, n1 fixed.Point26_6) {
		if r.IntN(3) == 0 {
			lhs.Add1(pivot.Add(n1))
		} else {
			k := c24Bump(r, pivot.Add(n0), pivot.Add(n1), n0)
			for _, s := range k.segs {
				addSeg(lhs, s)
			}
			bumps = append(bumps, k)
			c.Event("shapes on the left", 1)
		}
		if r.IntN(3) == 0 {
			rhs.Add1(pivot.Sub(n1))
		} else {
			n := fixed.Point26_6{X: -n0.X, Y: -n0.Y}
			k := c24Bump(r, pivot.Sub(n0), pivot.Sub(n1), n)
			for _, s := range k.segs {
				addSeg(rhs, s)
			}
			bumps = append(bumps, k.reversed())
			c.Event("shapes on the right", 1)
		}
	})
	cr := raster.CapperFunc(func(a raster.Adder, hw fixed.Int26_6, pivot, n1 fixed.Point26_6) {
		if r.IntN(3) == 0 {
			a.Add1(pivot.Add(n1))
			return
		}
		k := c24Bump(r, pivot.Sub(n1), pivot.Add(n1), fixed.Point26_6{X: n1.Y, Y: -n1.X})
		for _, s := range k.segs {
			addSeg(a, s)
		}
		bumps = append(bumps, k)
		c.Event("shapes as caps", 1)
	})
	c.Describe("width %d: %v", width, shape(p.ks))
	draw := func(f func(ras *raster.Rasterizer)) ([]uint32, int) {
		ras := raster.NewRasterizer(250, 250)
		ras.UseNonZeroWinding = true
		f(ras)
		s := &spanRec{}
		ras.Rasterize(s)
		return pixels(s.spans, 250, 250, 0, 0), len(s.spans)
	}
	direct := r.IntN(2) == 0
	own, n := draw(func(ras *raster.Rasterizer) {
		if direct {
			ras.AddStroke(q, width, cr, jr)
			return
		}
		var out raster.Path
		raster.Stroke(&out, q, width, cr, jr)
		ras.AddPath(out)
	})
	want, _ := draw(func(ras *raster.Rasterizer) {
		ras.AddStroke(q, width, raster.ButtCapper, raster.BevelJoiner)
		for _, k := range bumps {
			// Closed by the line that the shape replaces.
			k.segs = append(append([]seg{}, k.segs...), seg{k.start})
			k.addTo(ras)
		}
	})
	plain, _ := draw(func(ras *raster.Rasterizer) {
		ras.AddStroke(q, width, raster.ButtCapper, raster.BevelJoiner)
	})
	c.Describe("width %d: %v with shapes %v", width, shape(p.ks), shape(bumps))
	for i := range own {
		d := int(own[i]) - int(want[i])
		if d < -0x1000 || d > 0x1000 {
			c.Fail("pixel (%d,%d) has alpha %#x, want %#x", i%250, i/250, own[i], want[i])
		}
		if want[i] == 0xffff && plain[i] == 0 {
			c.Event("pixels of shapes", 1)
		}
	}
	c.Eval(1)
	if n > 0 {
		c.Nontrivial(mon.Hash(int(width), shape(p.ks).String(), shape(bumps).String()))
		c.Sample("width %d: %v with shapes %v", width, shape(p.ks), shape(bumps))
	}
}

func addSeg(a raster.Adder, s seg) {
	switch len(s) {
	case 1:
		a.Add1(s[0])
	case 2:
		a.Add2(s[0], s[1])
	case 3:
		a.Add3(s[0], s[1], s[2])
	}
}
