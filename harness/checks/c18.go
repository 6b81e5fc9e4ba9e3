package checks

import (
	"fmt"
	"math"
	"math/rand/v2"

	"github.com/golang/freetype/raster"
	"golang.org/x/image/math/fixed"

	"verif/harness/mon"
	"verif/harness/refras"
)

func init() {
	mon.Register(&mon.Check{
		ID:   "C18",
		Rule: "A case strokes a random path (polylines with any corner including reversals and repeated points, gently curved quadratics, hairpins, several curves) with a random width, cap and join, rasterises the result with the non-zero rule, and classifies every pixel with a distance-field model of the band, its caps and its joins. Non-trivial: some pixels must be covered; distinct by inputs.",
		Assumptions: []string{
			"segments are at least as long as the half-width, curves have a radius of curvature above the half-width or long arms",
			"a pixel must be fully covered when it lies inside the band by more than the tolerance, and untouched when it lies outside by more; the tolerance is 0.5 pixel + 1% of the half-width for lines and 1 pixel + 5% for curves, plus 0.71 pixel for the pixel's extent",
		},
		Streams: []mon.Stream{
			{Name: "polyline", Quick: 10000, Thorough: 400000, Run: c18Polyline},
			{Name: "curves", Quick: 5000, Thorough: 200000, Run: c18Curves},
			{Name: "hairpin", Quick: 4000, Thorough: 100000, Run: c18Hairpin},
			{Name: "multi", Quick: 4000, Thorough: 100000, Run: c18Multi},
			{Name: "long", Quick: 16, Thorough: 800, Run: c18Long},
			{Name: "vast", Quick: 10000, Thorough: 400000, Run: c18Vast},
			{Name: "tiny", Quick: 4000, Thorough: 100000, Run: c18Tiny},
		},
		Required: []string{"pixels inside", "pixels outside", "cap round", "cap butt", "cap square", "join round", "join bevel", "reversals", "repeated points", "long polylines", "points of vast outlines", "curves of vast strokes", "vast hairpins"},
	})
}

// A pathPt is a point in pixels.
type fp = refras.Pt

// A strokeModel is the set that a stroke must cover: convex shapes.
type strokeModel struct {
	u      float64
	boxes  []boxShape
	discs  []fp
	tris   [][3]fp
	curves [][]fp // finely flattened curves, for which the foot point decides
}

// A boxShape is a rectangle from a to b with half-width u, extended by e0
// before a and e1 after b.
type boxShape struct {
	a, b   fp
	e0, e1 float64
}

func sub(a, b fp) fp         { return fp{X: a.X - b.X, Y: a.Y - b.Y} }
func add(a, b fp) fp         { return fp{X: a.X + b.X, Y: a.Y + b.Y} }
func mul(a fp, k float64) fp { return fp{X: a.X * k, Y: a.Y * k} }
func dot(a, b fp) float64    { return a.X*b.X + a.Y*b.Y }
func cross(a, b fp) float64  { return a.X*b.Y - a.Y*b.X }
func norm(a fp) float64      { return math.Hypot(a.X, a.Y) }
func unit(a fp) fp           { return mul(a, 1/norm(a)) }
func perp(a fp) fp           { return fp{X: a.Y, Y: -a.X} }
func distSeg(p, a, b fp) float64 {
	d := sub(b, a)
	t := 0.0
	if l := dot(d, d); l > 0 {
		t = math.Max(0, math.Min(1, dot(sub(p, a), d)/l))
	}
	return norm(sub(p, add(a, mul(d, t))))
}

// clear tells whether p is more than clearance, which is above every tolerance,
// from all that is within d of the line from a to b.
func clear(p, a, b fp, d float64) bool {
	d += clearance
	return p.X < math.Min(a.X, b.X)-d || p.X > math.Max(a.X, b.X)+d || p.Y < math.Min(a.Y, b.Y)-d || p.Y > math.Max(a.Y, b.Y)+d
}

const clearance = 8

// outside is a lower bound of the distance from p to the model, which must be
// exact up to rounding; inside is a lower bound of the depth of p in it.
func (m *strokeModel) classify(p fp) (outside, inside float64) {
	outside, inside = math.Inf(1), math.Inf(-1)
	for _, b := range m.boxes {
		if clear(p, b.a, b.b, m.u+b.e0+b.e1) {
			outside = math.Min(outside, clearance)
			continue
		}
		d := unit(sub(b.b, b.a))
		l := norm(sub(b.b, b.a))
		x, y := dot(sub(p, b.a), d), math.Abs(cross(d, sub(p, b.a)))
		// How far outside of the interval [-e0, l+e1], and of [-u, u].
		ox := math.Max(-b.e0-x, x-l-b.e1)
		oy := y - m.u
		inside = math.Max(inside, math.Min(-ox, -oy))
		outside = math.Min(outside, math.Hypot(math.Max(0, ox), math.Max(0, oy)))
	}
	for _, q := range m.discs {
		if clear(p, q, q, m.u) {
			outside = math.Min(outside, clearance)
			continue
		}
		d := norm(sub(p, q)) - m.u
		inside = math.Max(inside, -d)
		outside = math.Min(outside, math.Max(0, d))
	}
	for _, t := range m.tris {
		if clear(p, t[0], t[0], m.u) {
			outside = math.Min(outside, clearance)
			continue
		}
		if s := cross(sub(t[1], t[0]), sub(t[2], t[0])); s != 0 {
			in := math.Inf(1)
			for i := 0; i < 3; i++ {
				a, b := t[i], t[(i+1)%3]
				if l := norm(sub(b, a)); l > 0 {
					in = math.Min(in, math.Copysign(1, s)*cross(sub(b, a), sub(p, a))/l)
				}
			}
			inside = math.Max(inside, in)
			if in >= 0 {
				outside = 0
			}
		}
		for i := 0; i < 3; i++ {
			outside = math.Min(outside, distSeg(p, t[i], t[(i+1)%3]))
		}
	}
	for _, c := range m.curves {
		best, foot := math.Inf(1), 0.0
		for i := 0; i+1 < len(c); i++ {
			d := sub(c[i+1], c[i])
			t := 0.0
			if l := dot(d, d); l > 0 {
				t = math.Max(0, math.Min(1, dot(sub(p, c[i]), d)/l))
			}
			v := sub(p, add(c[i], mul(d, t)))
			if l := dot(v, v); l < best {
				best, foot = l, float64(i)+t
			}
		}
		best = math.Sqrt(best)
		outside = math.Min(outside, math.Max(0, best-m.u))
		// The foot point must be clear of both ends.
		along := -1.0
		if foot > 0 && foot < float64(len(c)-1) {
			i := int(foot)
			q := add(c[i], mul(sub(c[i+1], c[i]), foot-float64(i)))
			along = math.Min(norm(sub(q, c[0])), norm(sub(c[len(c)-1], q)))
		}
		inside = math.Max(inside, math.Min(m.u-best, along))
	}
	return
}

// A strokeSeg is a line or quadratic of the path to be stroked, in fixed
// point and in pixels.
type strokePath []contour

const (
	capRound = iota
	capButt
	capSquare
)

type strokeStyle struct {
	width  fixed.Int26_6
	cap    int
	bevel  bool
	nilCap bool
	nilJr  bool
}

func randStyle(r *rand.Rand, maxW int) strokeStyle {
	st := strokeStyle{width: fixed.Int26_6(64 + r.IntN(64*maxW)), cap: r.IntN(3), bevel: r.IntN(2) == 0}
	if r.IntN(4) == 0 {
		st.width = fixed.I(1 + r.IntN(maxW))
	}
	st.nilCap = st.cap == capRound && r.IntN(2) == 0
	st.nilJr = !st.bevel && r.IntN(2) == 0
	return st
}

func (st strokeStyle) capper() raster.Capper {
	switch {
	case st.nilCap:
		return nil
	case st.cap == capButt:
		return raster.ButtCapper
	case st.cap == capSquare:
		return raster.SquareCapper
	}
	return raster.RoundCapper
}

func (st strokeStyle) joiner() raster.Joiner {
	switch {
	case st.nilJr:
		return nil
	case st.bevel:
		return raster.BevelJoiner
	}
	return raster.RoundJoiner
}

// model builds the stroke model of one contour.
func (st strokeStyle) model(k contour, m *strokeModel) {
	u := m.u
	type piece struct {
		a, b   fp
		d0, d1 fp // unit directions at the ends
		curve  []fp
	}
	var ps []piece
	a := refras.FromFixed(k.start)
	for _, g := range k.segs {
		if len(g) == 1 {
			b := refras.FromFixed(g[0])
			if b == a {
				continue // adds nothing to the path
			}
			d := unit(sub(b, a))
			ps = append(ps, piece{a: a, b: b, d0: d, d1: d})
			a = b
			continue
		}
		b, e := refras.FromFixed(g[0]), refras.FromFixed(g[1])
		pc := piece{a: a, b: e}
		n := int(math.Max(24, (norm(sub(b, a))+norm(sub(e, b)))*0.7))
		for i := 0; i <= n; i++ {
			t := float64(i) / float64(n)
			s := 1 - t
			pc.curve = append(pc.curve, fp{X: s*s*a.X + 2*s*t*b.X + t*t*e.X, Y: s*s*a.Y + 2*s*t*b.Y + t*t*e.Y})
		}
		dir := func(v, w fp) fp {
			if norm(v) < 0.6 {
				v = w
			}
			return unit(v)
		}
		pc.d0, pc.d1 = dir(sub(b, a), sub(e, a)), dir(sub(e, b), sub(e, a))
		ps = append(ps, pc)
		a = e
	}
	for i, p := range ps {
		if p.curve != nil {
			m.curves = append(m.curves, p.curve)
			// Short boxes at the ends stand for the band there, exactly butt.
			m.boxes = append(m.boxes, boxShape{a: p.a, b: add(p.a, mul(p.d0, 1e-3))}, boxShape{a: add(p.b, mul(p.d1, -1e-3)), b: p.b})
		} else {
			m.boxes = append(m.boxes, boxShape{a: p.a, b: p.b})
		}
		if i == 0 {
			continue
		}
		// The join at p.a.
		if !st.bevel {
			m.discs = append(m.discs, p.a)
			continue
		}
		n0, n1 := mul(perp(ps[i-1].d1), u), mul(perp(p.d0), u)
		m.tris = append(m.tris, [3]fp{p.a, add(p.a, n0), add(p.a, n1)}, [3]fp{p.a, sub(p.a, n0), sub(p.a, n1)})
	}
	if len(ps) == 0 {
		return
	}
	first, last := ps[0], ps[len(ps)-1]
	switch st.cap {
	case capRound:
		m.discs = append(m.discs, first.a, last.b)
	case capSquare:
		m.boxes = append(m.boxes,
			boxShape{a: first.a, b: add(first.a, mul(first.d0, 1e-3)), e0: u},
			boxShape{a: add(last.b, mul(last.d1, -1e-3)), b: last.b, e1: u})
	}
}

// c18Check strokes the contours and compares with the model. The curves of
// the model are clipped at butt ends by the classification of their feet, so
// a butt end of a curve is not tested on its outside (nearCurveEnds).
func c18Check(c *mon.Case, ks []contour, st strokeStyle, tolAbs, tolRel float64, minAlpha uint32) {
	r := c.R
	u := float64(st.width/2) / 64
	m := &strokeModel{u: u}
	var q raster.Path
	lo, hi := fixed.Point26_6{X: 1 << 30, Y: 1 << 30}, fixed.Point26_6{X: -1 << 30, Y: -1 << 30}
	desc := ""
	for _, k := range ks {
		k.addTo(&q)
		st.model(k, m)
		desc += shape{k}.String()
		for _, g := range append([]seg{{k.start}}, k.segs...) {
			for _, p := range g {
				lo.X, lo.Y = min(lo.X, p.X), min(lo.Y, p.Y)
				hi.X, hi.Y = max(hi.X, p.X), max(hi.Y, p.Y)
			}
		}
	}
	c.Describe("stroke width %d/64 cap %d bevel %v (nil %v %v): %v", st.width, st.cap, st.bevel, st.nilCap, st.nilJr, desc)
	// Place the canvas around the path.
	mrg := st.width + fixed.I(4)
	x0, y0 := (lo.X-mrg)>>6, (lo.Y-mrg)>>6
	w, h := int((hi.X+mrg)>>6-x0)+1, int((hi.Y+mrg)>>6-y0)+1
	if w > 400 || h > 400 {
		return
	}
	org := fixed.Point26_6{X: x0 << 6, Y: y0 << 6}
	keep := append(raster.Path{}, q...)
	ras := raster.NewRasterizer(w, h)
	ras.UseNonZeroWinding = true
	how := r.IntN(3)
	moved := func(p raster.Path) raster.Path {
		// Move the stroked path into the canvas.
		out := append(raster.Path{}, p...)
		for i := 0; i < len(out); {
			n := [4]int{4, 4, 6, 8}[out[i]]
			for j := i + 1; j < i+n-1; j += 2 {
				out[j] -= org.X
				out[j+1] -= org.Y
			}
			i += n
		}
		return out
	}
	switch how {
	case 0:
		var out raster.Path
		raster.Stroke(&out, q, st.width, st.capper(), st.joiner())
		ras.AddPath(moved(out))
	case 1:
		var out raster.Path
		out.AddStroke(q, st.width, st.capper(), st.joiner())
		ras.AddPath(moved(out))
	case 2:
		ras.AddStroke(moved(q), st.width, st.capper(), st.joiner())
	}
	for i := range keep {
		if keep[i] != q[i] {
			c.Fail("stroking changed the path")
		}
	}
	p := &spanRec{}
	ras.Rasterize(p)
	px := pixels(p.spans, w, h, 0, 0)
	tol := tolAbs + tolRel*u + 0.71
	if tol >= clearance {
		panic("tolerance")
	}
	nin := 0
	for i, a := range px {
		pt := fp{X: float64(i%w) + 0.5 + float64(x0), Y: float64(i/w) + 0.5 + float64(y0)}
		out, in := m.classify(pt)
		if debugStats {
			if out > 0 && a != 0 {
				c.Event(fmt.Sprintf("%s out w=%d bin %03d", c.Stream, int(u)/10, int(out*20)), 1)
			}
			if in > 0 && a != 0xffff {
				c.Event(fmt.Sprintf("%s in w=%d bin %03d", c.Stream, int(u)/10, int(in*20)), 1)
			}
		}
		if out > tol {
			c.Event("pixels outside", 1)
			if a != 0 {
				c.Fail("pixel (%d,%d) is %.2f outside of the band of half-width %.2f but has alpha %#x (tolerance %.2f)", i%w+int(x0), i/w+int(y0), out, u, a, tol)
			}
		}
		if in > tol {
			nin++
			if a < minAlpha {
				c.Fail("pixel (%d,%d) is %.2f inside of the band of half-width %.2f but has alpha %#x (tolerance %.2f)", i%w+int(x0), i/w+int(y0), in, u, a, tol)
			}
		}
	}
	c.Event("pixels inside", nin)
	c.Event([]string{"cap round", "cap butt", "cap square"}[st.cap], 1)
	if st.bevel {
		c.Event("join bevel", 1)
	} else {
		c.Event("join round", 1)
	}
	if nin > 0 {
		c.Nontrivial(mon.Hash(desc, fmt.Sprint(st)))
		c.Sample("width %d/64 cap %d bevel %v: %v", st.width, st.cap, st.bevel, desc)
	}
}

func polar(r *rand.Rand, from fixed.Point26_6, length float64, th float64) fixed.Point26_6 {
	return fixed.Point26_6{X: from.X + fixed.Int26_6(math.Round(64*length*math.Cos(th))), Y: from.Y + fixed.Int26_6(math.Round(64*length*math.Sin(th)))}
}

func randPolyline(c *mon.Case, st strokeStyle, n int) contour {
	r := c.R
	u := float64(st.width) / 128
	k := contour{start: fixed.Point26_6{X: fixed.Int26_6(r.IntN(12000) - 6000), Y: fixed.Int26_6(r.IntN(12000) - 6000)}}
	th := r.Float64() * 2 * math.Pi
	if r.IntN(3) == 0 {
		th = float64(r.IntN(8)) * math.Pi / 4
	}
	a := k.start
	for i := 0; i < n; i++ {
		if i > 0 {
			switch r.IntN(8) {
			case 0:
				th += math.Pi // a reversal
				c.Event("reversals", 1)
			case 1: // straight on
			case 2:
				th += float64(r.IntN(8)) * math.Pi / 4
			case 3:
				th += math.Pi + (r.Float64()-0.5)*0.2
			default:
				th += (r.Float64()*2 - 1) * math.Pi
			}
		}
		if r.IntN(10) == 0 {
			k.segs = append(k.segs, seg{a})
			c.Event("repeated points", 1)
		}
		l := 1.05*u + 1.5 + r.Float64()*40
		b := polar(r, a, l, th)
		k.segs = append(k.segs, seg{b})
		a = b
	}
	switch r.IntN(6) {
	case 0: // close it
		if d := k.start.Sub(a); math.Hypot(float64(d.X), float64(d.Y)) > 64*(1.05*u+1.5) {
			k.segs = append(k.segs, seg{k.start})
			if r.IntN(2) == 0 {
				k.segs = append(k.segs, seg{k.start})
				c.Event("repeated points", 1)
			}
		}
	case 1:
		k.segs = append(k.segs, seg{a})
		c.Event("repeated points", 1)
	}
	return k
}

func c18Polyline(c *mon.Case) {
	st := randStyle(c.R, 40)
	c18Check(c, []contour{randPolyline(c, st, 1+c.R.IntN(5))}, st, 0.5, 0.01, 0xffff)
}

// c18Tiny: lines made of many tiny segments must be as wide as others.
func c18Tiny(c *mon.Case) {
	r := c.R
	st := randStyle(r, 20)
	st.bevel = false
	st.nilJr = r.IntN(2) == 0
	// A straight-on walk with tiny steps in a long line's middle.
	u := float64(st.width) / 128
	th := float64(r.IntN(8)) * math.Pi / 4
	a := fixed.Point26_6{X: fixed.Int26_6(r.IntN(2000)), Y: fixed.Int26_6(r.IntN(2000))}
	k := contour{start: a}
	a = polar(r, a, 1.1*u+3, th)
	k.segs = append(k.segs, seg{a})
	dx, dy := fixed.Int26_6(math.Round(math.Cos(th))), fixed.Int26_6(math.Round(math.Sin(th)))
	for i := 0; i < 1+r.IntN(3); i++ {
		s := fixed.Int26_6(1 + r.IntN(5))
		a = a.Add(fixed.Point26_6{X: s * dx, Y: s * dy})
		k.segs = append(k.segs, seg{a})
	}
	a = polar(r, a, 1.1*u+3, th)
	k.segs = append(k.segs, seg{a})
	c18Check(c, []contour{k}, st, 0.5, 0.02, 0xffff)
}

// c18Long: polylines of hundreds of segments.
func c18Long(c *mon.Case) {
	r := c.R
	st := randStyle(r, 4)
	st.width += fixed.I(4)
	u := float64(st.width) / 128
	k := contour{start: fixed.P(r.IntN(300), r.IntN(300))}
	a, th := k.start, r.Float64()*2*math.Pi
	for n := 200 + r.IntN(1400); n > 0; n-- {
		if r.IntN(40) == 0 {
			k.segs = append(k.segs, seg{a})
		}
		th += (r.Float64()*2 - 1) * pick(r, 0.1, 0.8, math.Pi)
		l := 1.05*u + 1.5 + r.Float64()*10
		b := polar(r, a, l, th)
		for b.X < 0 || b.Y < 0 || b.X > fixed.I(330) || b.Y > fixed.I(330) {
			th += 1
			b = polar(r, a, l, th)
		}
		k.segs = append(k.segs, seg{b})
		a = b
	}
	c.Event("long polylines", 1)
	c18Check(c, []contour{k}, st, 0.5, 0.01, 0xffff)
}

func c18Multi(c *mon.Case) {
	st := randStyle(c.R, 20)
	var ks []contour
	for i := 0; i < 2+c.R.IntN(2); i++ {
		k := randPolyline(c, st, 1+c.R.IntN(3))
		k = k.moved(fixed.Point26_6{X: -k.start.X + fixed.Int26_6(c.R.IntN(6000)), Y: -k.start.Y + fixed.Int26_6(c.R.IntN(6000))})
		ks = append(ks, k)
		if c.R.IntN(6) == 0 {
			// A curve without segments covers nothing.
			ks = append(ks, contour{start: fixed.Point26_6{X: 100, Y: 200}})
		}
	}
	c18Check(c, ks, st, 0.5, 0.01, 0xffff)
}

// minRadius is the smallest radius of curvature of a quadratic.
func minRadius(a, b, e fp) float64 {
	best := math.Inf(1)
	for i := 0; i <= 64; i++ {
		t := float64(i) / 64
		d := add(mul(sub(b, a), 2*(1-t)), mul(sub(e, b), 2*t))
		dd := mul(add(sub(a, mul(b, 2)), e), 2)
		x := math.Abs(cross(d, dd))
		if x == 0 {
			continue
		}
		best = math.Min(best, math.Pow(norm(d), 3)/x)
	}
	return best
}

func c18Curves(c *mon.Case) {
	r := c.R
	st := randStyle(r, 24)
	u := float64(st.width) / 128
	k := contour{start: fixed.Point26_6{X: fixed.Int26_6(r.IntN(8000) - 4000), Y: fixed.Int26_6(r.IntN(8000) - 4000)}}
	a := k.start
	th := r.Float64() * 2 * math.Pi
	for i := 0; i < 1+r.IntN(3); i++ {
		if r.IntN(4) == 0 {
			b := polar(r, a, 1.05*u+2+r.Float64()*30, th)
			k.segs = append(k.segs, seg{b})
			a = b
		} else {
			for try := 0; ; try++ {
				if try == 50 {
					return
				}
				l1, l2 := u+2+r.Float64()*60, u+2+r.Float64()*60
				turn := (r.Float64()*2 - 1) * 1.9
				b := polar(r, a, l1, th)
				e := polar(r, b, l2, th+turn)
				switch r.IntN(12) {
				case 0: // control point at or near an end
					b = a.Add(fixed.Point26_6{X: fixed.Int26_6(r.IntN(31) - 15), Y: fixed.Int26_6(r.IntN(31) - 15)})
					e = polar(r, a, l1+l2, th)
					c.Event("curves with control point near an end", 1)
				case 1:
					e = polar(r, a, l1+l2, th)
					b = e.Add(fixed.Point26_6{X: fixed.Int26_6(r.IntN(31) - 15), Y: fixed.Int26_6(r.IntN(31) - 15)})
					c.Event("curves with control point near an end", 1)
				case 2:
					b, e = polar(r, a, l1, th), polar(r, a, l1+l2, th)
					turn = 0
				default:
					if minRadius(refras.FromFixed(a), refras.FromFixed(b), refras.FromFixed(e)) < 1.3*u+1 {
						continue
					}
					th += turn
				}
				k.segs = append(k.segs, seg{b, e})
				a = e
				break
			}
		}
		if r.IntN(2) == 0 {
			th += (r.Float64()*2 - 1) * 2.5
		}
	}
	c18Check(c, []contour{k}, st, 1, 0.05, 0xc000)
}

// c18Hairpin: quadratics that turn sharply, with arms long enough.
func c18Hairpin(c *mon.Case) {
	r := c.R
	st := randStyle(r, 12)
	u := float64(st.width) / 128
	a := fixed.Point26_6{X: fixed.Int26_6(r.IntN(2000)), Y: fixed.Int26_6(r.IntN(2000))}
	th := r.Float64() * 2 * math.Pi
	if r.IntN(3) == 0 {
		th = float64(r.IntN(8)) * math.Pi / 4
	}
	l := 5*u + 6 + r.Float64()*40
	b := polar(r, a, l, th)
	turn := math.Pi + (r.Float64()-0.5)*2*math.Pow(10, -float64(r.IntN(5)))
	e := polar(r, b, l*(0.6+0.8*r.Float64()), th+turn)
	if r.IntN(6) == 0 {
		e = a // exactly there and back
	}
	k := contour{start: a, segs: []seg{{b, e}}}
	c.Event("hairpins", 1)
	c18Check(c, []contour{k}, st, 1, 0.05, 0xc000)
}

// leastRadius is the least radius of curvature of a quadratic.
func leastRadius(a, b, e fp) float64 {
	d0, dd := sub(b, a), add(sub(a, mul(b, 2)), e)
	if dot(dd, dd) == 0 {
		return math.Inf(1)
	}
	t := math.Max(0, math.Min(1, -dot(d0, dd)/dot(dd, dd)))
	return 2 * math.Pow(norm(add(d0, mul(dd, t))), 3) / math.Abs(cross(d0, dd))
}

// c18Vast: strokes of polylines and gentle curves of up to millions of pixels, whose outlines are
// compared with the band itself.
func c18Vast(c *mon.Case) {
	r := c.R
	st := randStyle(r, 10)
	bits := 17 + 11*r.Float64()
	st.width = fixed.Int26_6(math.Exp2(bits - 8*r.Float64()))
	u := float64(st.width / 2)
	var k contour
	at := fp{X: math.Exp2(bits) * (2*r.Float64() - 1), Y: math.Exp2(bits) * (2*r.Float64() - 1)}
	fx := func(a fp) fixed.Point26_6 {
		lim := func(v float64) fixed.Int26_6 {
			return fixed.Int26_6(math.Max(-1<<28, math.Min(1<<28, math.Round(v))))
		}
		return fixed.Point26_6{X: lim(a.X), Y: lim(a.Y)}
	}
	f := func(a fixed.Point26_6) fp { return fp{X: float64(a.X), Y: float64(a.Y)} }
	k.start = fx(at)
	curved, hairpin := false, r.IntN(6) == 0
	if hairpin {
		// A curve that turns back sharply.
		u = min(u, math.Exp2(23)*(1+r.Float64()))
		st.width = fixed.Int26_6(2 * u)
		u = float64(st.width / 2)
		curved = true
		th := r.Float64() * 2 * math.Pi
		l := u * (5 + 3*r.Float64())
		k.start = fx(mul(at, 0.5))
		b := fx(add(f(k.start), fp{X: l * math.Cos(th), Y: l * math.Sin(th)}))
		th += math.Pi + (r.Float64()-0.5)*2*math.Pow(10, -float64(1+r.IntN(5)))
		l *= 0.6 + 0.8*r.Float64()
		k.segs = append(k.segs, seg{b, fx(add(f(b), fp{X: l * math.Cos(th), Y: l * math.Sin(th)}))})
		c.Event("vast hairpins", 1)
	}
	for n := 1 + r.IntN(4); n > 0 && !hairpin; n-- {
		// Segments are no shorter than the width.
		from := k.end()
		for {
			p := fx(fp{X: math.Exp2(bits) * (2*r.Float64() - 1), Y: math.Exp2(bits) * (2*r.Float64() - 1)})
			switch r.IntN(8) {
			case 0:
				p.X = from.X
			case 1:
				p.Y = from.Y
			}
			if r.IntN(3) == 0 {
				// A gentle curve.
				b := fx(fp{X: math.Exp2(bits) * (2*r.Float64() - 1), Y: math.Exp2(bits) * (2*r.Float64() - 1)})
				l1, l2 := norm(sub(f(from), f(b))), norm(sub(f(b), f(p)))
				if leastRadius(f(from), f(b), f(p)) > 1.3*u+64 && l1 > u+64 && l2 > u+64 && max(l1, l2) < 4*min(l1, l2) {
					k.segs = append(k.segs, seg{b, p})
					curved = true
					c.Event("curves of vast strokes", 1)
					break
				}
				continue
			}
			if norm(sub(f(from), f(p))) > 2*u+64 {
				k.segs = append(k.segs, seg{p})
				break
			}
		}
	}
	c.Describe("width %d cap %d bevel %v: %v", st.width, st.cap, st.bevel, shape{k})
	var p raster.Path
	k.addTo(&p)
	var q raster.Path
	q.AddStroke(p, st.width, st.capper(), st.joiner())
	// In units. The outline, flattened, with points that are on it:
	flat := func(a fixed.Point26_6, q seg, n int) (ps []fp) {
		for i := 1; i <= n; i++ {
			t := float64(i) / float64(n)
			v := []fp{f(a)}
			for _, p := range q {
				v = append(v, f(p))
			}
			for ; len(v) > 1; v = v[:len(v)-1] {
				for i := range v[1:] {
					v[i] = add(mul(v[i], 1-t), mul(v[i+1], t))
				}
			}
			ps = append(ps, v[0])
		}
		return ps
	}
	var out [][2]fp
	var on []fp
	for _, o := range shapeOf(q) {
		a := o.start
		for _, s := range o.segs {
			n := 1
			if len(s) > 1 {
				n = 64
			}
			b := f(a)
			for i, p := range flat(a, s, n) {
				out = append(out, [2]fp{b, p})
				if b = p; n == 1 || i%8 == 7 {
					on = append(on, p)
				}
			}
			a = s[len(s)-1]
		}
	}
	nodes := []fp{f(k.start)}
	from := k.start
	for _, s := range k.segs {
		n := 1
		if len(s) > 1 {
			n = 256
		}
		nodes = append(nodes, flat(from, s, n)...)
		from = s[len(s)-1]
	}
	tol, side := 64+u*0.01, 64.0 // arcs are approximated
	if curved {
		tol, side = 64+u*0.1, 64+u*0.1
	}
	// The outline is nowhere outside of the band,
	for _, e := range on {
		best := math.Inf(1)
		for i := 1; i < len(nodes); i++ {
			best = math.Min(best, distSeg(e, nodes[i-1], nodes[i]))
		}
		reach := u
		if first, last := nodes[0], nodes[len(nodes)-1]; st.cap == capSquare && math.Min(norm(sub(e, first)), norm(sub(e, last))) < u*1.5 {
			reach = u * math.Sqrt2
		}
		if best > reach+tol {
			c.Fail("the outline's point %.0f is %.0f units from the path, of a half-width of %.0f", e, best, u)
		}
		c.Event("points of vast outlines", 1)
	}
	// and has both sides of every segment.
	from = k.start
	for i, s := range k.segs {
		for j := 0; j <= 4; j++ {
			t := float64(j) / 4
			if hairpin && j == 2 {
				continue
			}
			a, b, e := f(from), f(s[0]), f(s[len(s)-1])
			m := add(mul(a, 1-t), mul(e, t))
			d := sub(e, a)
			if len(s) > 1 {
				m = add(mul(add(mul(a, 1-t), mul(b, t)), 1-t), mul(add(mul(b, 1-t), mul(e, t)), t))
				d = add(mul(sub(b, a), 1-t), mul(sub(e, b), t))
			}
			d = mul(perp(unit(d)), u)
			for _, w := range []fp{add(m, d), sub(m, d)} {
				best := math.Inf(1)
				for _, e := range out {
					best = math.Min(best, distSeg(w, e[0], e[1]))
				}
				if best > side {
					c.Fail("the outline misses the side of segment %d by %.0f units at %.0f, of a half-width of %.0f", i, best, w, u)
				}
			}
		}
		from = s[len(s)-1]
	}
	c.Eval(1)
	c.Nontrivial(mon.Hash(shape{k}.String(), st.width))
}
