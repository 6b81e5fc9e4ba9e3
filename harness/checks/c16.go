package checks

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"image/draw"
	"math"
	"math/rand/v2"

	"github.com/golang/freetype/raster"

	"verif/harness/mon"
)

func init() {
	mon.Register(&mon.Check{
		ID:   "C16",
		Rule: "A case paints random ordered spans, in random batches, on a random image (origin, stride, sub-image, contents) with a random colour and operator, and compares every byte of the image's buffer with the Porter-Duff formula evaluated in floating point. Non-trivial: at least one pixel was covered; distinct by inputs.",
		Assumptions: []string{
			"rounding of the 8-bit result: less than 1.02 steps for RGBA images and AlphaSrc, less than 2 steps for AlphaOver (which first truncates the alpha to 8 bits)",
		},
		Streams: []mon.Stream{
			{Name: "alpha-over", Quick: 240000, Thorough: 1500000, Run: func(c *mon.Case) { c16Alpha(c, true) }},
			{Name: "alpha-src", Quick: 160000, Thorough: 1000000, Run: func(c *mon.Case) { c16Alpha(c, false) }},
			{Name: "rgba", Quick: 400000, Thorough: 3000000, Run: c16RGBA},
		},
		Required: []string{"pixels covered", "spans cut by the bounds", "sub-images", "opaque spans", "rgba over", "rgba src", "images longer than 32767 pixels"},
	})
}

// randRect picks image bounds, with negative and positive origins.
func randRect(r *rand.Rand, maxW, maxH int) image.Rectangle {
	x, y := r.IntN(200)-100, r.IntN(200)-100
	if r.IntN(3) == 0 {
		x, y = 0, 0
	}
	if r.IntN(20) == 0 {
		x, y = r.IntN(1<<20)-1<<19, r.IntN(1<<20)-1<<19
	}
	w, h := r.IntN(maxW+1), r.IntN(maxH+1)
	if r.IntN(1500) == 0 {
		// Beyond 15 and 16 bits.
		w, h = pick(r, 33000, 66000)+r.IntN(1000), 1+r.IntN(2)
		if r.IntN(2) == 0 {
			w, h = h, w
		}
	}
	return image.Rect(x, y, x+w, y+h)
}

// subRect picks a rectangle inside (or equal to, or partly outside) b.
func subRect(r *rand.Rand, b image.Rectangle) image.Rectangle {
	if b.Empty() {
		return b
	}
	x0, x1 := b.Min.X+r.IntN(b.Dx()+1), b.Min.X+r.IntN(b.Dx()+1)
	y0, y1 := b.Min.Y+r.IntN(b.Dy()+1), b.Min.Y+r.IntN(b.Dy()+1)
	return image.Rect(x0, y0, x1, y1)
}

// randSpans makes spans in rasteriser order over and around b.
func randSpans(r *rand.Rand, b image.Rectangle) []raster.Span {
	var ss []raster.Span
	lo, hi := b.Min.X-6, b.Max.X+6
	for y := b.Min.Y - 3; y < b.Max.Y+3; y++ {
		if r.IntN(3) == 0 {
			continue
		}
		if r.IntN(8) == 0 {
			// One span across everything.
			ss = append(ss, raster.Span{Y: y, X0: lo - r.IntN(5), X1: hi + r.IntN(5), Alpha: randAlpha(r)})
			continue
		}
		x := lo
		for x < hi {
			x += r.IntN(5)
			x1 := x + 1 + r.IntN(7)
			if r.IntN(6) == 0 {
				x1 = x + 1 + r.IntN(40)
			}
			ss = append(ss, raster.Span{Y: y, X0: x, X1: x1, Alpha: randAlpha(r)})
			x = x1
		}
	}
	return ss
}

func randAlpha(r *rand.Rand) uint32 {
	switch r.IntN(8) {
	case 0, 1:
		return 0xffff
	case 2:
		return 1 + r.Uint32N(16)
	case 3:
		return 0xffff - r.Uint32N(0x300)
	case 4:
		return pick(r, uint32(0x7fff), 0x8000, 0x7f00, 0x80ff, 0x100, 0xff, 0xff00, 0xfeff)
	}
	return 1 + r.Uint32N(0xffff)
}

// paintBatches delivers spans in random batches.
func paintBatches(r *rand.Rand, p raster.Painter, ss []raster.Span) {
	ss = append([]raster.Span(nil), ss...)
	for len(ss) > 0 && r.IntN(8) != 0 {
		n := min(len(ss), r.IntN(20))
		p.Paint(ss[:n:n], false)
		ss = ss[n:]
	}
	p.Paint(ss, true)
}

// coverage expands spans to a map from pixel to alpha, within b.
func coverage(ss []raster.Span, b image.Rectangle) map[image.Point]uint32 {
	m := map[image.Point]uint32{}
	for _, s := range ss {
		if s.Y < b.Min.Y || s.Y >= b.Max.Y {
			continue
		}
		for x := max(s.X0, b.Min.X); x < min(s.X1, b.Max.X); x++ {
			m[image.Pt(x, s.Y)] = s.Alpha
		}
	}
	return m
}

func countCuts(c *mon.Case, ss []raster.Span, b image.Rectangle) {
	for _, s := range ss {
		if s.Y >= b.Min.Y && s.Y < b.Max.Y && (s.X0 < b.Min.X && s.X1 > b.Min.X || s.X1 > b.Max.X && s.X0 < b.Max.X) {
			c.Event("spans cut by the bounds", 1)
		}
		if s.Alpha == 0xffff {
			c.Event("opaque spans", 1)
		}
	}
}

func c16Alpha(c *mon.Case, over bool) {
	r := c.R
	full := image.NewAlpha(randRect(r, 30, 12))
	for i := range full.Pix {
		full.Pix[i] = pick(r, 0, 255, uint8(r.Uint32()), uint8(r.Uint32()))
	}
	m := full
	if r.IntN(2) == 0 {
		m = full.SubImage(subRect(r, full.Rect)).(*image.Alpha)
		c.Event("sub-images", 1)
	}
	before := append([]byte(nil), full.Pix...)
	ss := randSpans(r, m.Rect)
	c.Describe("image %v of %v over=%v spans %v", m.Rect, full.Rect, over, ss)
	if over {
		paintBatches(r, raster.NewAlphaOverPainter(m), ss)
	} else {
		paintBatches(r, raster.NewAlphaSrcPainter(m), ss)
	}
	cov := coverage(ss, m.Rect)
	countCuts(c, ss, m.Rect)
	for y := full.Rect.Min.Y; y < full.Rect.Max.Y; y++ {
		for x := full.Rect.Min.X; x < full.Rect.Max.X; x++ {
			i := full.PixOffset(x, y)
			old, got := before[i], full.Pix[i]
			a, ok := cov[image.Pt(x, y)]
			if !ok {
				if old != got {
					c.Fail("pixel (%d,%d) is not covered but changed from %d to %d", x, y, old, got)
				}
				continue
			}
			c.Event("pixels covered", 1)
			af := float64(a) / 0xffff
			want, tol := 255*af, 1.02
			if over {
				want, tol = float64(old)+(255-float64(old))*af, 1.99
			}
			if math.Abs(float64(got)-want) > tol {
				c.Fail("pixel (%d,%d) was %d, alpha %#x: got %d, want about %.2f", x, y, old, a, got, want)
			}
			if a == 0xffff && got != 255 {
				c.Fail("pixel (%d,%d) was %d, painted fully opaque: got %d", x, y, old, got)
			}
			if over && got < old {
				c.Fail("pixel (%d,%d) was %d, painting over made it %d", x, y, old, got)
			}
		}
	}
	if len(cov) > 0 {
		c.Nontrivial(mon.Hash(before, fmt.Sprint(ss)))
		c.Sample("image %v of %v, over=%v, %d spans", m.Rect, full.Rect, over, len(ss))
	}
}

func c16RGBA(c *mon.Case) {
	r := c.R
	full := image.NewRGBA(randRect(r, 20, 8))
	for i := 0; i+4 <= len(full.Pix); i += 4 {
		a := pick(r, 0, 255, r.IntN(256), r.IntN(256))
		for k := 0; k < 3; k++ {
			full.Pix[i+k] = uint8(r.IntN(a + 1))
			if r.IntN(4) == 0 {
				full.Pix[i+k] = uint8(a)
			}
		}
		full.Pix[i+3] = uint8(a)
	}
	m := full
	if r.IntN(2) == 0 {
		m = full.SubImage(subRect(r, full.Rect)).(*image.RGBA)
		c.Event("sub-images", 1)
	}
	if max(m.Rect.Dx(), m.Rect.Dy()) > 1<<15 {
		c.Event("images longer than 32767 pixels", 1)
	}
	// A premultiplied colour.
	ca := pick(r, 0xffff, 0xffff, r.IntN(0x10000), 0)
	col := color.RGBA64{A: uint16(ca)}
	col.R, col.G, col.B = uint16(r.IntN(ca+1)), uint16(r.IntN(ca+1)), uint16(pick(r, r.IntN(ca+1), ca))
	p := raster.NewRGBAPainter(m)
	p.Op = draw.Op(r.IntN(2)) // Over or Src
	switch r.IntN(6) {
	case 0:
		p.SetColor(color.White) // replaced below
	case 1:
		// As the one below but for one channel.
		near := col
		*pick(r, &near.R, &near.G, &near.B) = uint16(r.IntN(ca + 1))
		p.SetColor(near)
	}
	p.SetColor(col)
	before := append([]byte(nil), full.Pix...)
	ss := randSpans(r, m.Rect)
	c.Describe("image %v of %v op=%v colour %v spans %v", m.Rect, full.Rect, p.Op, col, ss)
	paintBatches(r, p, ss)
	cov := coverage(ss, m.Rect)
	countCuts(c, ss, m.Rect)
	if p.Op == draw.Over {
		c.Event("rgba over", 1)
	} else {
		c.Event("rgba src", 1)
	}
	for y := full.Rect.Min.Y; y < full.Rect.Max.Y; y++ {
		for x := full.Rect.Min.X; x < full.Rect.Max.X; x++ {
			i := full.PixOffset(x, y)
			old, got := before[i:i+4], full.Pix[i:i+4]
			a, ok := cov[image.Pt(x, y)]
			if !ok {
				if !bytes.Equal(old, got) {
					c.Fail("pixel (%d,%d) is not covered but changed from %d to %d", x, y, old, got)
				}
				continue
			}
			c.Event("pixels covered", 1)
			af := float64(a) / 0xffff
			cc := [4]float64{float64(col.R), float64(col.G), float64(col.B), float64(col.A)}
			for k := range cc {
				want := cc[k] / 0xffff * af * 255
				if p.Op == draw.Over {
					want += float64(old[k]) * (1 - cc[3]/0xffff*af)
				}
				if math.Abs(float64(got[k])-want) > 1.02 {
					c.Fail("pixel (%d,%d) was %d, colour %v, alpha %#x: channel %d got %d, want about %.2f", x, y, old, col, a, k, got[k], want)
				}
				if a == 0xffff && (col.A == 0xffff || p.Op == draw.Src) {
					if full := uint8(uint16(cc[k]) >> 8); got[k] != full {
						c.Fail("pixel (%d,%d) was %d, painted fully opaque with %v: channel %d got %d, want %d", x, y, old, col, k, got[k], full)
					}
				}
			}
			for k := 0; k < 3; k++ {
				if got[k] > got[3] {
					c.Fail("pixel (%d,%d) was %d, colour %v, alpha %#x: got %d, which is not premultiplied", x, y, old, col, a, got)
				}
			}
		}
	}
	if len(cov) > 0 {
		c.Nontrivial(mon.Hash(before, fmt.Sprint(ss), fmt.Sprint(col)))
		c.Sample("image %v of %v, op %v, colour %v, %d spans", m.Rect, full.Rect, p.Op, col, len(ss))
	}
}
