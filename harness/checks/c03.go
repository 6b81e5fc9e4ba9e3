package checks

import (
	"fmt"
	"image"
	"image/color"
	"math/rand/v2"
	"runtime"
	"slices"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/golang/freetype"
	"github.com/golang/freetype/truetype"
	"golang.org/x/image/font"
	"golang.org/x/image/math/fixed"

	"verif/harness/fontgen"
	"verif/harness/mon"
	"verif/harness/ttgen"
)

func init() {
	mon.Register(&mon.Check{
		ID:   "C03",
		Rule: "A case parses a fresh font (modelled with programs, also hostile ones and damaged glyphs, or real) and has 2 to 8 goroutines, started together, each run a random list of queries, glyph loads, face calls, drawing and parsing of the same bytes, each with its own buffer, face and context, under Go's race detector; results are compared with those the same lists give one after another on a font of their own. Non-trivial: an interleaving of operations, told from others by the merged order of their times.",
		Assumptions: []string{
			"the race detector sees races between accesses that happen in an execution without synchronisation between them, whatever their timing, but only in code that ran",
		},
		Streams: []mon.Stream{
			{Name: "modelled", Quick: 1500, Thorough: 60000, Run: func(c *mon.Case) { c03Run(c, false) }},
			{Name: "hostile", Quick: 500, Thorough: 20000, Run: func(c *mon.Case) { c03Run(c, true) }},
			{Name: "real", Quick: 150, Thorough: 5000, Run: c03Real},
		},
		Serial:   true,
		MemGB:    -1,
		Required: []string{"concurrent operations", "loads", "hinted loads", "face glyphs", "strings drawn", "parses", "failing loads", "operations that overlapped another goroutine's"},
	})
}

// A c03Op is an operation of a goroutine. It has no state of its own.
type c03Op struct {
	kind, a, b int
	s          int64
	h          font.Hinting
}

// c03User is what a goroutine has of its own.
type c03User struct {
	buf   *truetype.GlyphBuf
	faces [2]font.Face
	ctx   *freetype.Context
	dst   *image.RGBA
}

// c03Do does an operation and gives its result.
func c03Do(u *c03User, ft *truetype.Font, data []byte, op c03Op) uint64 {
	sc := fixed.Int26_6(op.s)
	i := truetype.Index(op.a)
	switch op.kind {
	case 0:
		return mon.Hash(int(ft.Index(rune(op.a))), int(ft.Index(rune(op.b))))
	case 1:
		return mon.Hash(ft.Name(truetype.NameID(op.a & 15)))
	case 2:
		return mon.Hash(fmt.Sprint(ft.HMetric(sc, i), ft.VMetric(sc, i), ft.Kern(sc, i, truetype.Index(op.b)), ft.Bounds(sc), ft.FUnitsPerEm()))
	case 3, 4, 5, 6:
		if err := u.buf.Load(ft, sc, i, op.h); err != nil {
			return mon.Hash(err.Error())
		}
		return mon.Hash(fmt.Sprint(u.buf.AdvanceWidth, u.buf.Bounds, u.buf.Ends, u.buf.Points))
	case 7, 8:
		k := op.b & 1
		if u.faces[k] == nil {
			h := font.HintingNone
			if k == 1 {
				h = font.HintingFull
			}
			u.faces[k] = truetype.NewFace(ft, &truetype.Options{Size: 10, Hinting: h, GlyphCacheEntries: 16})
		}
		f := u.faces[k]
		if op.b&6 == 0 {
			b, a, ok := f.GlyphBounds(rune(op.a))
			a2, ok2 := f.GlyphAdvance(rune(op.a))
			return mon.Hash(fmt.Sprint(b, a, ok, a2, ok2, f.Kern(rune(op.a), rune(op.b)), f.Metrics()))
		}
		dr, mask, mp, adv, ok := f.Glyph(fixed.Point26_6{X: sc, Y: sc / 2}, rune(op.a))
		x := mon.Hash(fmt.Sprint(dr, mp, adv, ok))
		if m, isAlpha := mask.(*image.Alpha); ok && isAlpha {
			for y := 0; y < min(dr.Dy(), 200); y++ {
				o := m.PixOffset(mp.X, mp.Y+y)
				x = mon.Hash(int(x), m.Pix[o:o+dr.Dx()])
			}
		}
		return x
	case 9:
		if u.ctx == nil {
			u.ctx = freetype.NewContext()
			u.ctx.SetFont(ft)
			u.ctx.SetFontSize(9)
			u.ctx.SetSrc(image.NewUniform(color.RGBA{200, 100, 50, 255}))
			u.dst = image.NewRGBA(image.Rect(0, 0, 40, 20))
			u.ctx.SetDst(u.dst)
			u.ctx.SetClip(u.dst.Bounds())
		}
		u.ctx.SetHinting(op.h)
		p, err := u.ctx.DrawString(string([]rune{rune(op.a), rune(op.b)}), freetype.Pt(3, 14))
		if err != nil {
			return mon.Hash(err.Error())
		}
		return mon.Hash(fmt.Sprint(p), u.dst.Pix)
	case 10:
		f, err := parseFont(data)
		if err != nil {
			return mon.Hash(err.Error())
		}
		return mon.Hash(fmt.Sprint(f.Bounds(sc), f.Index(rune(op.a)), f.HMetric(sc, i)))
	}
	return 0
}

func c03Run(c *mon.Case, hostile bool) {
	r := c.R
	var f *fontgen.Font
	if hostile {
		f = stateFont(r, true)
	} else {
		f = fontgen.Rand(r, fontgen.Opts{MaxGlyphs: 8, MaxPoints: 8, Composites: true, Matrices: true, UseMetrics: true, Kern: true, Drawable: true, Runes: true})
		if r.IntN(2) == 0 {
			scale := int64(640)
			ttgen.Programs(r, f, scale, 6)
		}
		// The faces' and contexts' size.
	}
	// Faces allocate masks as large as the bounds say.
	f.XMin, f.YMin, f.XMax, f.YMax = int16(-f.UPEM/2), int16(-f.UPEM/2), int16(min(f.UPEM, 16000)), int16(min(f.UPEM, 16000))
	b := f.Encode(r)
	if hostile && r.IntN(3) == 0 {
		b = damaged(r, f)
	}
	c03Concurrently(c, b, len(f.Glyphs), func() rune { return fontgen.Base + rune(r.IntN(len(f.Glyphs)+1)) }, fmt.Sprintf("fpgm %x prep %x", f.FPGM, f.Prep))
}

func c03Real(c *mon.Case) {
	r := c.R
	fs := realFonts()
	f := fs[c.Index%len(fs)]
	if f.model == nil {
		c.Fail("font %s: %v", f.name, f.modelErr)
	}
	c03Concurrently(c, slices.Clone(f.data), len(f.model.Glyphs), func() rune { return 0x20 + rune(r.IntN(96)) }, f.name)
}

func c03Concurrently(c *mon.Case, b []byte, n int, runes func() rune, name string) {
	r := c.R
	orig := slices.Clone(b)
	shared, err := parseFont(b)
	alone, err2 := truetype.Parse(orig)
	if (err == nil) != (err2 == nil) {
		c.Fail("parses with %v and %v", err, err2)
	}
	if err != nil {
		c.Event("fonts refused", 1)
		return
	}
	ng := 2 + r.IntN(7)
	scales := []int64{int64(8+r.IntN(20)) * 64, int64(r.IntN(2000))}
	ops := make([][]c03Op, ng)
	// Several goroutines often do the same, at the same time.
	common := r.IntN(2) == 0
	for g := range ops {
		if common && g > 0 && r.IntN(3) != 0 {
			ops[g] = slices.Clone(ops[g-1])
			continue
		}
		for k := 3 + r.IntN(15); k > 0; k-- {
			op := c03Op{kind: r.IntN(11), s: pick(r, scales...), h: font.Hinting(r.IntN(3)), a: r.IntN(n + 1), b: r.IntN(n + 1)}
			if op.kind == 0 || op.kind >= 7 && op.kind <= 9 {
				op.a = int(runes())
			}
			if op.kind == 9 {
				op.b = int(runes())
			}
			ops[g] = append(ops[g], op)
		}
	}
	c.Describe("%s: %d goroutines, operations %v", name, ng, ops)
	// Alone, first or last.
	want := make([][]uint64, ng)
	doAlone := func() {
		for g := range ops {
			u := &c03User{buf: &truetype.GlyphBuf{}}
			for _, op := range ops[g] {
				want[g] = append(want[g], c03Do(u, alone, orig, op))
			}
		}
	}
	first := r.IntN(2) == 0
	if first {
		doAlone()
	}
	got := make([][]uint64, ng)
	type span struct{ t0, t1 time.Time }
	times := make([][]span, ng)
	panics := make([]string, ng)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for g := range ops {
		wg.Add(1)
		seed := r.Uint64()
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					buf := make([]byte, 4096)
					panics[g] = fmt.Sprintf("panic: %v\n%s", e, buf[:runtime.Stack(buf, false)])
				}
			}()
			yield := rand.New(rand.NewPCG(seed, 1))
			u := &c03User{buf: &truetype.GlyphBuf{}}
			<-start
			for _, op := range ops[g] {
				for k := yield.IntN(4); k > 0; k-- {
					runtime.Gosched()
				}
				t0 := time.Now()
				got[g] = append(got[g], c03Do(u, shared, b, op))
				times[g] = append(times[g], span{t0, time.Now()})
			}
		}()
	}
	close(start)
	wg.Wait()
	if !first {
		doAlone()
	}
	for g := range ops {
		if panics[g] != "" {
			c.Fail("goroutine %d: %s", g, panics[g])
		}
		for k, op := range ops[g] {
			if got[g][k] != want[g][k] {
				c.Fail("operation %d of goroutine %d, %+v, gives another result than alone", k, g, op)
			}
		}
	}
	if !slices.Equal(b, orig) {
		c.Fail("the font data was written to")
	}
	// What was observed.
	type ev struct {
		t time.Time
		g int
	}
	var evs []ev
	total, overlapped := 0, 0
	for g := range ops {
		total += len(ops[g])
		for k, op := range ops[g] {
			x := times[g][k]
			evs = append(evs, ev{x.t0, g}, ev{x.t1, g})
			for h := range ops {
				if h != g && slices.ContainsFunc(times[h], func(y span) bool { return y.t0.Before(x.t1) && x.t0.Before(y.t1) }) {
					overlapped++
					break
				}
			}
			switch op.kind {
			case 3, 4, 5, 6:
				c.Event("loads", 1)
				if op.h != 0 {
					c.Event("hinted loads", 1)
				}
				if op.a >= n {
					c.Event("failing loads", 1)
				}
			case 7, 8:
				c.Event("face glyphs", 1)
			case 9:
				c.Event("strings drawn", 1)
			case 10:
				c.Event("parses", 1)
			}
		}
	}
	sort.SliceStable(evs, func(i, j int) bool { return evs[i].t.Before(evs[j].t) })
	var sb strings.Builder
	for _, e := range evs {
		sb.WriteByte(byte('0' + e.g))
	}
	c.Nontrivial(mon.Hash(sb.String()))
	c.Seen("interleavings", mon.Hash(sb.String()))
	c.Event("concurrent operations", total)
	c.Event("operations that overlapped another goroutine's", overlapped)
	c.Eval(total)
	c.Sample("%s: %d goroutines, %d operations, merged order %s", name, ng, total, clipString(sb.String(), 120))
}

func clipString(s string, n int) string { return s[:min(len(s), n)] }
