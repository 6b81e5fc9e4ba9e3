package checks

import (
	"fmt"
	"image"
	"math"
	"math/rand/v2"

	"github.com/golang/freetype/raster"

	"verif/harness/mon"
)

func init() {
	mon.Register(&mon.Check{
		ID:   "C17",
		Rule: "A case sends random ordered spans, in random batches (empty ones, slices with and without spare capacity), through a monochrome or gamma painter that is used for several rasterisations, and checks the downstream trace. Non-trivial: at least one span came out; distinct by inputs.",
		Assumptions: []string{
			"gamma: exact power curve (to 2 units in 65535) at the 256 alpha values that are multiples of 0x101, between the neighbouring ones' values elsewhere",
		},
		Streams: []mon.Stream{
			{Name: "mono", Quick: 360000, Thorough: 3000000, Run: c17Mono},
			{Name: "mono-raster", Quick: 24000, Thorough: 200000, Run: c17MonoRaster},
			{Name: "gamma", Quick: 180000, Thorough: 1500000, Run: c17Gamma},
			{Name: "long", Quick: 32, Thorough: 1000, Run: c17Long},
		},
		Required: []string{"mono: spans out", "mono: spans merged", "mono: flush with a full batch", "mono: empty final batch", "mono: re-used", "gamma: spans", "gamma: changed", "rasterisations by painters used thousands of times"},
	})
}

// orderedSpans makes spans in rasteriser order, many of them adjacent.
func orderedSpans(r *rand.Rand) []raster.Span {
	var ss []raster.Span
	y, x := r.IntN(7)-3, r.IntN(9)-4
	if r.IntN(3) == 0 {
		y, x = 0, 0
	}
	n := r.IntN(12)
	if r.IntN(8) == 0 {
		n = r.IntN(150)
	}
	for i := 0; i < n; i++ {
		switch r.IntN(6) {
		case 0:
			y += 1 + r.IntN(2)
			// Often starting where the last row ended.
			if r.IntN(2) == 0 {
				x = r.IntN(9) - 4
			}
		case 1:
			x += 1 + r.IntN(3)
		}
		w := 1 + r.IntN(4)
		ss = append(ss, raster.Span{Y: y, X0: x, X1: x + w, Alpha: randAlpha(r)})
		x += w
	}
	return ss
}

// batchesOf divides spans into batches.
func batchesOf(r *rand.Rand, ss []raster.Span) [][]raster.Span {
	var out [][]raster.Span
	mode := r.IntN(4)
	for len(ss) > 0 {
		n := len(ss)
		switch mode {
		case 0:
			n = 1
		case 1:
			n = min(len(ss), r.IntN(4))
		case 2:
			n = min(len(ss), 62)
		}
		b := make([]raster.Span, n, n+pick(r, 0, 0, 1, 5))
		copy(b, ss)
		out = append(out, b)
		ss = ss[n:]
	}
	if r.IntN(3) == 0 || len(out) == 0 {
		out = append(out, pick(r, nil, []raster.Span{}, make([]raster.Span, 0, 3)))
	}
	return out
}

func c17Mono(c *mon.Case) {
	r := c.R
	rec := &spanRec{}
	m := raster.NewMonochromePainter(rec)
	log := ""
	for round := 0; round < 1+r.IntN(3); round++ {
		ss := orderedSpans(r)
		bs := batchesOf(r, ss)
		log += fmt.Sprintf("rasterisation %d: %v in batches of ", round, ss)
		for _, b := range bs {
			log += fmt.Sprintf("%d/%d ", len(b), cap(b))
		}
		c.Describe("%s", log)
		*rec = spanRec{scratch: r.IntN(2) == 0}
		for i, b := range bs {
			done := i == len(bs)-1
			if done && len(b) == 0 {
				c.Event("mono: empty final batch", 1)
			}
			all := len(b) > 0
			for _, s := range b {
				all = all && s.Alpha >= 0x8000
			}
			nb := len(rec.batches)
			m.Paint(b, done)
			if done && all && len(rec.batches) > nb+1 {
				c.Event("mono: flush with a full batch", 1)
			}
		}
		if round > 0 {
			c.Event("mono: re-used", 1)
		}
		c17MonoOracle(c, ss, rec)
		c.Eval(1)
	}
	c.Nontrivial(mon.Hash(log))
	c.Sample("%s", log)
}

func c17MonoOracle(c *mon.Case, in []raster.Span, rec *spanRec) {
	for i, d := range rec.dones {
		if d != (i == len(rec.dones)-1) {
			c.Fail("batch %d of %d has done=%v", i, len(rec.dones), d)
		}
	}
	if len(rec.dones) == 0 {
		c.Fail("no final batch")
	}
	for i, s := range rec.spans {
		if s.X0 >= s.X1 {
			c.Fail("empty span %v delivered", s)
		}
		if s.Alpha != 0xffff {
			c.Fail("span %v is not fully opaque", s)
		}
		if i > 0 {
			q := rec.spans[i-1]
			if q.Y > s.Y || q.Y == s.Y && q.X1 > s.X0 {
				c.Fail("span %v follows %v", s, q)
			}
			if q.Y == s.Y && q.X1 == s.X0 {
				c.Fail("adjacent spans %v and %v not merged", q, s)
			}
		}
	}
	var want []raster.Span
	for _, s := range in {
		if s.Alpha < 0x8000 {
			continue
		}
		if n := len(want); n > 0 && want[n-1].Y == s.Y && want[n-1].X1 == s.X0 {
			want[n-1].X1 = s.X1
			c.Event("mono: spans merged", 1)
			continue
		}
		want = append(want, raster.Span{Y: s.Y, X0: s.X0, X1: s.X1, Alpha: 0xffff})
	}
	if msg := sameSpans(want, rec.spans); msg != "" {
		c.Fail("want (then got): %s", msg)
	}
	c.Event("mono: spans out", len(rec.spans))
}

// c17MonoRaster: a rasteriser driving the painter onto an image.
func c17MonoRaster(c *mon.Case) {
	r := c.R
	w, h := canvasSize(r)
	s := randShape(r, w, h, allKinds, true)
	ras := raster.NewRasterizer(w, h)
	ras.UseNonZeroWinding = r.IntN(2) == 0
	c.Describe("canvas %dx%d: %v", w, h, s)
	plain := rasterise(ras, s)
	img := image.NewAlpha(image.Rect(0, 0, w, h))
	m := raster.NewMonochromePainter(raster.NewAlphaOverPainter(img))
	for k := 0; k < 2; k++ {
		for i := range img.Pix {
			img.Pix[i] = 0
		}
		ras.Rasterize(m)
		px := pixels(plain.spans, w, h, 0, 0)
		for i, a := range px {
			want := uint8(0)
			if a >= 0x8000 {
				want = 0xff
			}
			if img.Pix[i] != want {
				c.Fail("rasterisation %d pixel (%d,%d): alpha %#x became %d", k, i%w, i/w, a, img.Pix[i])
			}
		}
	}
	c.Event("mono: rasterised images", 2)
	c.Nontrivial(mon.Hash(s.String()))
	c.Sample("canvas %dx%d: %v", w, h, s)
}

func c17Gamma(c *mon.Case) {
	r := c.R
	gamma := func() float64 {
		switch r.IntN(5) {
		case 0:
			return 1
		case 1:
			return pick(r, 0.5, 2, 2.2, 1/2.2, 1.8, 3)
		}
		return math.Exp(r.Float64()*5 - 2.5)
	}
	rec := &spanRec{}
	g0 := gamma()
	p := raster.NewGammaCorrectionPainter(rec, g0)
	for round := 0; round < 1+r.IntN(3); round++ {
		if round > 0 && r.IntN(2) == 0 {
			g0 = gamma()
			p.SetGamma(g0)
			c.Event("gamma: changed", 1)
		}
		ss := orderedSpans(r)
		// Alphas at the knots of the curve, too.
		for i := range ss {
			if r.IntN(2) == 0 {
				ss[i].Alpha = 0x101 * uint32(r.IntN(256))
			}
		}
		c.Describe("gamma %v: %v", g0, ss)
		*rec = spanRec{}
		for i, bs := 0, batchesOf(r, ss); i < len(bs); i++ {
			p.Paint(bs[i], i == len(bs)-1)
		}
		for i, d := range rec.dones {
			if d != (i == len(rec.dones)-1) {
				c.Fail("batch %d of %d has done=%v", i, len(rec.dones), d)
			}
		}
		if len(rec.dones) == 0 {
			c.Fail("no final batch")
		}
		if len(rec.spans) != len(ss) {
			c.Fail("%d spans went in, %d came out", len(ss), len(rec.spans))
		}
		pow := func(k uint32) float64 { return 0xffff * math.Pow(float64(k)/0xff, g0) }
		type pair struct{ in, out uint32 }
		var ps []pair
		for i, s := range ss {
			t := rec.spans[i]
			if t.Y != s.Y || t.X0 != s.X0 || t.X1 != s.X1 {
				c.Fail("span %v became %v", s, t)
			}
			k, rem := s.Alpha/0x101, s.Alpha%0x101
			switch {
			case g0 == 1 || s.Alpha == 0 || s.Alpha == 0xffff:
				if t.Alpha != s.Alpha {
					c.Fail("gamma %v: alpha %#x became %#x", g0, s.Alpha, t.Alpha)
				}
			case rem == 0:
				if math.Abs(float64(t.Alpha)-pow(k)) > 2 {
					c.Fail("gamma %v: alpha %#x became %#x, want about %.1f", g0, s.Alpha, t.Alpha, pow(k))
				}
			default:
				if float64(t.Alpha) < pow(k)-2 || float64(t.Alpha) > pow(k+1)+2 {
					c.Fail("gamma %v: alpha %#x became %#x, want between %.1f and %.1f", g0, s.Alpha, t.Alpha, pow(k), pow(k+1))
				}
				// Not worse than interpolating between the knots.
				lin := pow(k) + (pow(k+1)-pow(k))*float64(rem)/0x101
				true_ := 0xffff * math.Pow(float64(s.Alpha)/0xffff, g0)
				if d := math.Abs(float64(t.Alpha) - true_); d > math.Abs(lin-true_)+3 {
					c.Fail("gamma %v: alpha %#x became %#x, the power curve gives %.1f", g0, s.Alpha, t.Alpha, true_)
				}
			}
			ps = append(ps, pair{s.Alpha, t.Alpha})
		}
		for _, a := range ps {
			for _, b := range ps {
				if a.in < b.in && a.out > b.out {
					c.Fail("gamma %v is not monotonic: %#x to %#x but %#x to %#x", g0, a.in, a.out, b.in, b.out)
				}
			}
			if len(ps) > 40 {
				break
			}
		}
		c.Event("gamma: spans", len(ss))
		c.Eval(1)
		if len(ss) > 0 {
			c.Nontrivial(mon.Hash(fmt.Sprint(g0, ss)))
			c.Sample("gamma %v: %v", g0, ss)
		}
	}
}
