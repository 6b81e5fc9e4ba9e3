// Package refras is the reference model of rasterisation: exact average
// winding numbers per pixel, in floating point, of closed contours made of
// lines and Bezier curves.
package refras

import (
	"math"

	"golang.org/x/image/math/fixed"
)

// A Pt is a point, in pixels.
type Pt struct{ X, Y float64 }

// FromFixed converts a 26.6 point.
func FromFixed(p fixed.Point26_6) Pt { return Pt{float64(p.X) / 64, float64(p.Y) / 64} }

// A Canvas accumulates contours.
type Canvas struct {
	W, H int
	// acc[y*(W+1)+x] is the partial contribution to the pixel alone; carry is
	// the contribution to the pixel and all to its right.
	acc, carry []float64
	// Edges counts, per pixel, the edges that pass through it or within Near
	// of it, when CountEdges is set.
	Edges []uint16
	// Len is the length of the contours within Near of the pixel.
	Len        []float64
	CountEdges bool
	Near       float64
}

// NewCanvas returns an empty canvas.
func NewCanvas(w, h int) *Canvas {
	return &Canvas{W: w, H: h, acc: make([]float64, (w+1)*h), carry: make([]float64, (w+1)*h), Near: 2.0 / 64}
}

// avgPos is the average of max(0, u) for u going linearly from a to b.
func avgPos(a, b float64) float64 {
	if a >= 0 && b >= 0 {
		return (a + b) / 2
	}
	if a <= 0 && b <= 0 {
		return 0
	}
	if a > b {
		a, b = b, a
	}
	return b * b / (2 * (b - a))
}

// Line adds an edge.
func (c *Canvas) Line(p, q Pt) {
	if c.CountEdges {
		c.countEdge(p, q)
	}
	if p.Y == q.Y {
		return
	}
	sign := 1.0
	if p.Y > q.Y {
		p, q = q, p
		sign = -1
	}
	if q.Y <= 0 || p.Y >= float64(c.H) {
		return
	}
	dxdy := (q.X - p.X) / (q.Y - p.Y)
	at := func(y float64) float64 {
		if y == p.Y {
			return p.X
		}
		if y == q.Y {
			return q.X
		}
		return p.X + (y-p.Y)*dxdy
	}
	y0 := int(math.Max(0, math.Floor(p.Y)))
	y1 := int(math.Min(float64(c.H), math.Ceil(q.Y)))
	for y := y0; y < y1; y++ {
		ya, yb := math.Max(p.Y, float64(y)), math.Min(q.Y, float64(y+1))
		if ya >= yb {
			continue
		}
		xa, xb := at(ya), at(yb)
		dy := sign * (yb - ya)
		lo, hi := math.Min(xa, xb), math.Max(xa, xb)
		row := y * (c.W + 1)
		if hi <= 0 {
			c.carry[row] += dy
			continue
		}
		if lo >= float64(c.W) {
			continue
		}
		c0 := int(math.Max(0, math.Floor(lo)))
		c1 := int(math.Min(float64(c.W), math.Ceil(hi)))
		for x := c0; x < c1; x++ {
			ua, ub := float64(x+1)-xa, float64(x+1)-xb
			c.acc[row+x] += dy * (avgPos(ua, ub) - avgPos(ua-1, ub-1))
		}
		if c1 <= c.W {
			c.carry[row+c1] += dy
		}
	}
}

func (c *Canvas) countEdge(p, q Pt) {
	if c.Edges == nil {
		c.Edges = make([]uint16, c.W*c.H)
		c.Len = make([]float64, c.W*c.H)
	}
	n := c.Near
	if p.Y > q.Y {
		p, q = q, p
	}
	y0 := int(math.Max(0, math.Floor(p.Y-n)))
	y1 := int(math.Min(float64(c.H-1), math.Floor(q.Y+n)))
	for y := y0; y <= y1; y++ {
		// The x-range within the dilated row.
		lo, hi := math.Min(p.X, q.X), math.Max(p.X, q.X)
		if q.Y > p.Y {
			ya, yb := math.Max(p.Y, float64(y)-n), math.Min(q.Y, float64(y+1)+n)
			if ya > yb {
				continue
			}
			xa := p.X + (ya-p.Y)*(q.X-p.X)/(q.Y-p.Y)
			xb := p.X + (yb-p.Y)*(q.X-p.X)/(q.Y-p.Y)
			lo, hi = math.Min(xa, xb), math.Max(xa, xb)
		}
		c0 := int(math.Max(0, math.Floor(lo-n)))
		c1 := int(math.Min(float64(c.W-1), math.Floor(hi+n)))
		for x := c0; x <= c1; x++ {
			c.Edges[y*c.W+x]++
			c.Len[y*c.W+x] += clippedLen(p, q, float64(x)-n, float64(y)-n, float64(x+1)+n, float64(y+1)+n)
		}
	}
}

// Winding returns the average winding number of every pixel.
func (c *Canvas) Winding() []float64 {
	out := make([]float64, c.W*c.H)
	for y := 0; y < c.H; y++ {
		s := 0.0
		for x := 0; x < c.W; x++ {
			s += c.carry[y*(c.W+1)+x]
			out[y*c.W+x] = s + c.acc[y*(c.W+1)+x]
		}
	}
	return out
}

// NonZero maps an average winding number to coverage.
func NonZero(w float64) float64 { return math.Min(1, math.Abs(w)) }

// EvenOdd maps an average winding number to coverage.
func EvenOdd(w float64) float64 {
	w = math.Mod(math.Abs(w), 2)
	if w > 1 {
		w = 2 - w
	}
	return w
}

// Quad adds a quadratic from p, flattened into n lines.
func (c *Canvas) Quad(p, b, q Pt, n int) {
	last := p
	for i := 1; i <= n; i++ {
		t := float64(i) / float64(n)
		s := 1 - t
		r := Pt{s*s*p.X + 2*s*t*b.X + t*t*q.X, s*s*p.Y + 2*s*t*b.Y + t*t*q.Y}
		if i == n {
			r = q
		}
		c.Line(last, r)
		last = r
	}
}

// Cubic adds a cubic from p, flattened into n lines.
func (c *Canvas) Cubic(p, b, d, q Pt, n int) {
	last := p
	for i := 1; i <= n; i++ {
		t := float64(i) / float64(n)
		s := 1 - t
		r := Pt{s*s*s*p.X + 3*s*s*t*b.X + 3*s*t*t*d.X + t*t*t*q.X,
			s*s*s*p.Y + 3*s*s*t*b.Y + 3*s*t*t*d.Y + t*t*t*q.Y}
		if i == n {
			r = q
		}
		c.Line(last, r)
		last = r
	}
}

// QuadN is a segment count that flattens the quadratic to within tol pixels.
func QuadN(p, b, q Pt, tol float64) int {
	d := math.Hypot(p.X-2*b.X+q.X, p.Y-2*b.Y+q.Y) / 4
	return clampN(math.Sqrt(d / tol))
}

// CubicN is a segment count that flattens the cubic to within tol pixels.
func CubicN(p, b, d, q Pt, tol float64) int {
	e := 0.75 * math.Max(math.Hypot(p.X-2*b.X+d.X, p.Y-2*b.Y+d.Y), math.Hypot(b.X-2*d.X+q.X, b.Y-2*d.Y+q.Y))
	return clampN(math.Sqrt(e / tol))
}

func clampN(x float64) int {
	n := int(math.Ceil(x))
	if n < 1 {
		n = 1
	}
	if n > 4096 {
		n = 4096
	}
	return n
}

// clippedLen is the length of the part of pq inside a box.
func clippedLen(p, q Pt, x0, y0, x1, y1 float64) float64 {
	t0, t1 := 0.0, 1.0
	clip := func(a, d, lo, hi float64) bool {
		if d == 0 {
			return a >= lo && a <= hi
		}
		u, v := (lo-a)/d, (hi-a)/d
		if u > v {
			u, v = v, u
		}
		t0, t1 = math.Max(t0, u), math.Min(t1, v)
		return t0 <= t1
	}
	if !clip(p.X, q.X-p.X, x0, x1) || !clip(p.Y, q.Y-p.Y, y0, y1) {
		return 0
	}
	return (t1 - t0) * math.Hypot(q.X-p.X, q.Y-p.Y)
}
