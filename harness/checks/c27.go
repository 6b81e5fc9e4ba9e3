package checks

import (
	"fmt"
	"math"
	"sync"

	"github.com/golang/freetype/raster"
	"golang.org/x/image/math/fixed"

	"verif/harness/mon"
)

func init() {
	mon.Register(&mon.Check{
		ID:   "C27",
		Rule: "A case runs a history of calls on several paths (segments, adding paths and strokes to each other and to themselves, clearing) beside a model of what each must record, or strokes a path in several ways that must make the same calls. Non-trivial: a history that records, or a stroke with segments; distinct by history.",
		Assumptions: []string{
			"a path is read back by its String, which C15 checks, and by the spans it draws",
		},
		Streams: []mon.Stream{
			{Name: "histories", Quick: 12000, Thorough: 600000, Run: c27Histories},
			{Name: "strokes", Quick: 12000, Thorough: 600000, Run: c27Strokes},
			{Name: "long", Quick: 60, Thorough: 3000, Run: c27Long},
			{Name: "concurrent", Quick: 300, Thorough: 10000, Run: c27Concurrent},
		},
		Required: []string{"paths added to themselves", "strokes of a path added to itself", "paths cleared and used again", "paths added", "strokes added", "paths compared", "strokes of several curves", "strokes drawn", "strokes moved", "concurrent strokes", "strokes by other caps and joins", "long paths", "long strokes"},
	})
}

// c27Recorder is an Adder of the caller's own.
type c27Recorder struct {
	s shape
}

func (a *c27Recorder) Start(p fixed.Point26_6)      { a.s = append(a.s, contour{start: p}) }
func (a *c27Recorder) seg(s seg)                    { k := &a.s[len(a.s)-1]; k.segs = append(k.segs, s) }
func (a *c27Recorder) Add1(b fixed.Point26_6)       { a.seg(seg{b}) }
func (a *c27Recorder) Add2(b, c fixed.Point26_6)    { a.seg(seg{b, c}) }
func (a *c27Recorder) Add3(b, c, d fixed.Point26_6) { a.seg(seg{b, c, d}) }

func (s shape) clone() shape {
	t := make(shape, len(s))
	for i, k := range s {
		t[i] = contour{start: k.start, segs: append([]seg(nil), k.segs...)}
	}
	return t
}

// c27Shape is a shape for stroking: lines, quadratics and repeated points.
func c27Shape(c *mon.Case, n int) (s shape) {
	r := c.R
	pt := func() fixed.Point26_6 {
		return fixed.Point26_6{X: fixed.Int26_6(r.IntN(6000) - 1000), Y: fixed.Int26_6(r.IntN(6000) - 1000)}
	}
	for ; n > 0; n-- {
		k := contour{start: pt()}
		for m := r.IntN(6); m > 0; m-- {
			switch r.IntN(8) {
			case 0:
				k.segs = append(k.segs, seg{k.end()})
			case 1, 2:
				k.segs = append(k.segs, seg{pt(), pt()})
			default:
				k.segs = append(k.segs, seg{pt()})
			}
		}
		s = append(s, k)
	}
	return s
}

func c27Style(c *mon.Case) strokeStyle {
	st := randStyle(c.R, 20)
	if c.R.IntN(20) == 0 {
		st.width = fixed.Int26_6(c.R.IntN(3))
	}
	return st
}

func hasCubic(s shape) bool {
	for _, k := range s {
		for _, g := range k.segs {
			if len(g) == 3 {
				return true
			}
		}
	}
	return false
}

func c27Histories(c *mon.Case) {
	r := c.R
	n := 2 + r.IntN(3)
	ps := make([]raster.Path, n)
	ms := make([]shape, n)
	log := ""
	say := func(f string, a ...any) {
		log += fmt.Sprintf(f, a...) + "; "
		c.Describe("%s", log)
	}
	cleared := make([]bool, n)
	for steps := 4 + r.IntN(20); steps > 0; steps-- {
		i, j := r.IntN(n), r.IntN(n)
		m := &ms[i]
		switch x := r.IntN(12); {
		case x < 5 || len(*m) == 0 && x == 7:
			s := c27Shape(c, 1)
			if len(*m) > 0 && r.IntN(2) == 0 {
				// Go on with the last curve.
				k := &(*m)[len(*m)-1]
				for _, g := range s[0].segs {
					if r.IntN(5) == 0 {
						g = seg{s[0].start, g[0], k.start}
						ps[i].Add3(g[0], g[1], g[2])
					} else if len(g) == 1 {
						ps[i].Add1(g[0])
					} else {
						ps[i].Add2(g[0], g[1])
					}
					k.segs = append(k.segs, g)
				}
				say("path %d goes on with %v", i, s[0].segs)
				break
			}
			s.addTo(&ps[i])
			*m = append(*m, s...)
			say("path %d: %v", i, s)
			if cleared[i] {
				c.Event("paths cleared and used again", 1)
			}
		case x < 8:
			if m.nsegs()+ms[j].nsegs() > 300 {
				break
			}
			if i == j {
				c.Event("paths added to themselves", 1)
			}
			ps[i].AddPath(ps[j])
			*m = append(*m, ms[j].clone()...)
			say("path %d adds path %d", i, j)
			c.Event("paths added", 1)
		case x < 10:
			if hasCubic(ms[j]) || m.nsegs() > 300 || ms[j].nsegs() > 60 {
				break
			}
			st := c27Style(c)
			// What the stroke of such a path is, by the path's model.
			var q raster.Path
			ms[j].addTo(&q)
			var rec c27Recorder
			raster.Stroke(&rec, q, st.width, st.capper(), st.joiner())
			ps[i].AddStroke(ps[j], st.width, st.capper(), st.joiner())
			*m = append(*m, rec.s...)
			say("path %d adds the stroke %+v of path %d", i, st, j)
			c.Event("strokes added", 1)
			if i == j {
				c.Event("strokes of a path added to itself", 1)
			}
		default:
			ps[i].Clear()
			*m = nil
			cleared[i] = true
			say("path %d is cleared", i)
		}
		for k := range ps {
			if got, want := ps[k].String(), pathString(ms[k]); got != want {
				c.Fail("path %d records %q instead of %q", k, got, want)
			}
			c.Event("paths compared", 1)
		}
		c.Eval(1)
	}
	w, h := 20+r.IntN(80), 20+r.IntN(80)
	k := r.IntN(n)
	a, b := raster.NewRasterizer(w, h), raster.NewRasterizer(w, h)
	a.AddPath(ps[k])
	ra := &spanRec{}
	a.Rasterize(ra)
	if msg := sameSpans(rasterise(b, ms[k]).spans, ra.spans); msg != "" {
		c.Fail("path %d draws other than its calls: %s", k, msg)
	}
	c.Nontrivial(mon.Hash(log))
}

func c27Strokes(c *mon.Case) {
	r := c.R
	n := 1 + r.IntN(4)
	s := c27Shape(c, n)
	st := c27Style(c)
	if n > 1 {
		c.Event("strokes of several curves", 1)
	}
	c.Describe("stroke %+v of %v", st, s)
	var p raster.Path
	s.addTo(&p)
	keep := p.String()
	var own c27Recorder
	raster.Stroke(&own, p, st.width, st.capper(), st.joiner())
	want := pathString(own.s)
	cmp := func(what, got string) {
		if got != want {
			c.Fail("%s gives %q instead of %q", what, got, want)
		}
		c.Eval(1)
	}

	var q raster.Path
	raster.Stroke(&q, p, st.width, st.capper(), st.joiner())
	cmp("stroking onto a path", q.String())

	// After whatever came before, which stays.
	pre := c27Shape(c, r.IntN(3))
	var t raster.Path
	pre.addTo(&t)
	t.AddStroke(p, st.width, st.capper(), st.joiner())
	if got, w := t.String(), pathString(append(pre.clone(), own.s...)); got != w {
		c.Fail("adding the stroke to a path gives %q instead of %q", got, w)
	}

	// Curve by curve.
	var each c27Recorder
	for _, k := range s {
		var one raster.Path
		k.addTo(&one)
		raster.Stroke(&each, one, st.width, st.capper(), st.joiner())
	}
	cmp("stroking curve by curve", pathString(each.s))

	// Nil means round, and a wrapped cap or join is the same one.
	cp, jr := st.capper(), st.joiner()
	if cp == nil {
		cp = raster.RoundCapper
	} else if st.cap == capRound {
		cp = nil
	}
	if jr == nil {
		jr = raster.RoundJoiner
	} else if !st.bevel {
		jr = nil
	}
	if cp != nil && r.IntN(2) == 0 {
		cp = raster.CapperFunc(cp.Cap)
	}
	if jr != nil && r.IntN(2) == 0 {
		jr = raster.JoinerFunc(jr.Join)
	}
	var other c27Recorder
	raster.Stroke(&other, p, st.width, cp, jr)
	cmp("the same caps and joins by other names", pathString(other.s))
	c.Event("strokes by other caps and joins", 1)

	// Drawn.
	w, h := 20+r.IntN(80), 20+r.IntN(80)
	var ras [3]*raster.Rasterizer
	var rec [3]spanRec
	for i := range ras {
		ras[i] = raster.NewRasterizer(w, h)
		ras[i].UseNonZeroWinding = true
	}
	raster.Stroke(ras[0], p, st.width, st.capper(), st.joiner())
	ras[1].AddStroke(p, st.width, st.capper(), st.joiner())
	own.s.addTo(ras[2])
	for i := range ras {
		ras[i].Rasterize(&rec[i])
	}
	for i := 0; i < 2; i++ {
		if msg := sameSpans(rec[2].spans, rec[i].spans); msg != "" {
			c.Fail("stroking onto a rasteriser (%d) draws other than the stroke: %s", i, msg)
		}
	}
	c.Event("strokes drawn", 1)

	// Moved, if made of lines.
	lines := true
	for _, k := range s {
		for _, g := range k.segs {
			lines = lines && len(g) == 1
		}
	}
	if lines {
		d := fixed.Point26_6{X: fixed.Int26_6(r.IntN(20000) - 10000), Y: fixed.Int26_6(math.Exp2(r.Float64() * 26))}
		var m raster.Path
		s.moved(d).addTo(&m)
		var got c27Recorder
		raster.Stroke(&got, m, st.width, st.capper(), st.joiner())
		if g, w := pathString(got.s), pathString(own.s.moved(d)); g != w {
			c.Fail("moved by %v the stroke is %q instead of %q", d, g, w)
		}
		c.Event("strokes moved", 1)
	}
	if p.String() != keep {
		c.Fail("stroking changed the path from %q to %q", keep, p.String())
	}
	if s.nsegs() > 0 {
		c.Nontrivial(mon.Hash(keep, st.width, st.cap, st.bevel))
	}
}

// c27Concurrent: the same path, caps and joins are used by many at a time.
func c27Concurrent(c *mon.Case) {
	s := c27Shape(c, 6)
	st := c27Style(c)
	c.Describe("concurrent strokes %+v of %v", st, s)
	var p raster.Path
	s.addTo(&p)
	var own c27Recorder
	raster.Stroke(&own, p, st.width, st.capper(), st.joiner())
	const n = 8
	var got [n]string
	var wg sync.WaitGroup
	for i := range got {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if x, _ := mon.Catch(func() {
				for k := 0; k < 5; k++ {
					var q raster.Path
					raster.Stroke(&q, p, st.width, st.capper(), st.joiner())
					got[i] = q.String()
				}
			}); x != nil {
				got[i] = fmt.Sprint(x)
			}
		}()
	}
	wg.Wait()
	for i, g := range got {
		if g != pathString(own.s) {
			c.Fail("goroutine %d gets %q instead of %q", i, g, pathString(own.s))
		}
	}
	c.Event("concurrent strokes", n)
	c.Nontrivial(mon.Hash(p.String()))
}

// c27Long: paths of thousands of curves of all kinds.
func c27Long(c *mon.Case) {
	r := c.R
	w, h := 20+r.IntN(200), 20+r.IntN(200)
	var s shape
	n := pick(r, 300, 1000, 3000, 9000)
	for s.nsegs() < n {
		s = append(s, randShape(r, w, h, allKinds, true)...)
	}
	c.Describe("a path of %d curves with %d segments on %d×%d", len(s), s.nsegs(), w, h)
	var p, q raster.Path
	k := r.IntN(len(s))
	s[:k].addTo(&p)
	s[k:].addTo(&q)
	p.AddPath(q)
	if n <= 1000 && p.String() != pathString(s) {
		c.Fail("the path does not record what it was given")
	}
	a, b := raster.NewRasterizer(w, h), raster.NewRasterizer(w, h)
	a.UseNonZeroWinding = r.IntN(2) == 0
	b.UseNonZeroWinding = a.UseNonZeroWinding
	a.AddPath(p)
	ra := &spanRec{}
	a.Rasterize(ra)
	if msg := sameSpans(rasterise(b, s).spans, ra.spans); msg != "" {
		c.Fail("the path draws other than its calls: %s", msg)
	}
	c.Event("long paths", 1)
	// The stroke is that of each curve in turn.
	var t shape
	for t.nsegs() < n {
		t = append(t, c27Shape(c, 3)...)
	}
	st := c27Style(c)
	var u raster.Path
	t.addTo(&u)
	var all, each c27Recorder
	raster.Stroke(&all, u, st.width, st.capper(), st.joiner())
	for _, k := range t {
		var one raster.Path
		k.addTo(&one)
		raster.Stroke(&each, one, st.width, st.capper(), st.joiner())
	}
	if pathString(all.s) != pathString(each.s) {
		c.Fail("the stroke %+v of %d curves is not that of each in turn", st, len(t))
	}
	c.Event("long strokes", 1)
	c.Eval(2)
	c.Nontrivial(mon.Hash(fmt.Sprint(w, h, n, s.nsegs(), len(u))))
}
