package checks

import (
	"image"

	"github.com/golang/freetype/raster"
	"github.com/golang/freetype/truetype"
	"golang.org/x/image/math/fixed"
)

// A rounding says how the point half way between two 26.6 points is rounded:
// the outline does not say, and neither choice moves it by more than 1/128
// pixels.
type rounding int

const (
	roundZero rounding = iota
	roundDown
	roundUp
	roundings
)

func (h rounding) mid(a, b fixed.Int26_6) fixed.Int26_6 {
	s := int(a) + int(b)
	switch h {
	case roundDown:
		return fixed.Int26_6(s >> 1)
	case roundUp:
		return fixed.Int26_6((s + 1) >> 1)
	}
	return fixed.Int26_6(s / 2)
}

// outlineShape makes lines and curves of a loaded glyph's points, with the
// vertical axis flipped and the origin at (dx, dy).
func outlineShape(ps []truetype.Point, ends []int, dx, dy fixed.Int26_6, h rounding) shape {
	type node struct {
		p  fixed.Point26_6
		on bool
	}
	var out shape
	e0 := 0
	for _, e1 := range ends {
		// Make the implied points explicit.
		var ns []node
		n := e1 - e0
		for k := 0; k < n; k++ {
			p, q := ps[e0+k], ps[e0+(k+1)%n]
			a := node{fixed.Point26_6{X: dx + p.X, Y: dy - p.Y}, p.Flags&1 != 0}
			ns = append(ns, a)
			if !a.on && q.Flags&1 == 0 {
				b := fixed.Point26_6{X: dx + q.X, Y: dy - q.Y}
				ns = append(ns, node{fixed.Point26_6{X: h.mid(a.p.X, b.X), Y: h.mid(a.p.Y, b.Y)}, true})
			}
		}
		e0 = e1
		if n < 2 {
			continue
		}
		// Begin at a point of the curve. There is one, for of two
		// neighbours off the curve the middle is on it.
		s := 0
		for !ns[s].on {
			s++
		}
		c := contour{start: ns[s].p}
		for k := 1; k <= len(ns); k++ {
			a := ns[(s+k)%len(ns)]
			if a.on {
				c.segs = append(c.segs, seg{a.p})
			} else {
				k++
				c.segs = append(c.segs, seg{a.p, ns[(s+k)%len(ns)].p})
			}
		}
		out = append(out, c)
	}
	return out
}

// pixelBox is the smallest rectangle of whole pixels around the flipped box,
// moved by d.
func pixelBox(b fixed.Rectangle26_6, d fixed.Point26_6) image.Rectangle {
	// In 64 bits: d may be close to the end of the range.
	floor := func(x int) int { return x >> 6 }
	ceil := func(x int) int { return -(-x >> 6) }
	dx, dy := int(d.X), int(d.Y)
	return image.Rect(floor(dx+int(b.Min.X)), floor(dy-int(b.Max.Y)), ceil(dx+int(b.Max.X)), ceil(dy-int(b.Min.Y)))
}

// A rendering is one of the ways to render an outline that are as good as
// each other: how implied points are rounded, and how finely curves are
// flattened, which depends on the size of the canvas.
type rendering struct {
	mid    rounding
	canvas int // index into canvases
}

// canvases are sizes of canvas that differ in how curves are flattened.
var canvases = []int{0, 25, 121}

var renderings = func() (rs []rendering) {
	for h := rounding(0); h < roundings; h++ {
		for k := range canvases {
			rs = append(rs, rendering{h, k})
		}
	}
	return
}()

// drawShape rasterises a shape onto a w by h mask.
func drawShape(s shape, w, h int, canvas int) *image.Alpha {
	m := image.NewAlpha(image.Rect(0, 0, w, h))
	r := raster.NewRasterizer(max(w, canvases[canvas]), max(h, canvases[canvas]))
	r.UseNonZeroWinding = true
	s.addTo(r)
	r.Rasterize(raster.NewAlphaSrcPainter(m))
	return m
}
