package checks

import (
	"fmt"
	"image"
	"image/color"
	"image/draw"
	"math"
	"math/rand/v2"
	"sync/atomic"
	"time"

	"github.com/golang/freetype"
	"github.com/golang/freetype/truetype"
	"golang.org/x/image/font"
	"golang.org/x/image/math/fixed"

	"verif/harness/mon"
)

// A ctxModel is a drawing context with what its user knows of it.
type ctxModel struct {
	ctx       *freetype.Context
	t         *textFont // nil: no font
	size, dpi float64
	h         font.Hinting
	src       color.Color
	srcImage  image.Image
	dst       draw.Image
	clip      image.Rectangle
	// hist has, per glyph, the fractions of the pen positions it was drawn at
	// since the settings changed: the glyph may appear as drawn at one of
	// those that is near enough.
	hist map[truetype.Index][]fixed.Point26_6
	// slots guesses which of those a cache has.
	slots map[[2]int]slot
	l     *glyphLoader
	// The time spent on drawings that do not match exactly.
	spent time.Duration
}

var allSpent atomic.Int64

type slot struct {
	i truetype.Index
	f fixed.Point26_6
}

func newCtxModel() *ctxModel {
	m := &ctxModel{ctx: freetype.NewContext(), size: 12, dpi: 72}
	m.changed()
	return m
}

// changed forgets what was drawn.
func (m *ctxModel) changed() {
	m.hist = map[truetype.Index][]fixed.Point26_6{}
	m.slots = map[[2]int]slot{}
	m.l = nil
}

func (m *ctxModel) String() string {
	name := "no"
	if m.t != nil {
		name = fmt.Sprintf("%s (upem %d)", m.t.name, m.t.model.UPEM)
	}
	return fmt.Sprintf("%s font, size %v, dpi %v, hinting %v, src %v, dst %T %v, clip %v", name, m.size, m.dpi, m.h, m.src, m.dst, bounds(m.dst), m.clip)
}

func bounds(m image.Image) image.Rectangle {
	if m == nil {
		return image.Rectangle{}
	}
	return m.Bounds()
}

func (m *ctxModel) setFont(t *textFont) {
	same := t == m.t
	m.t = t
	if t == nil {
		m.ctx.SetFont(nil)
	} else {
		m.ctx.SetFont(t.ft)
	}
	if !same {
		m.changed()
	}
}

func (m *ctxModel) setSize(v float64) {
	if v != m.size {
		m.changed()
	}
	m.size = v
	m.ctx.SetFontSize(v)
}
func (m *ctxModel) setDPI(v float64) {
	if v != m.dpi {
		m.changed()
	}
	m.dpi = v
	m.ctx.SetDPI(v)
}
func (m *ctxModel) setHinting(h font.Hinting) {
	if h != m.h {
		m.changed()
	}
	m.slots = map[[2]int]slot{}
	m.h = h
	m.ctx.SetHinting(h)
}
func (m *ctxModel) setSrc(s image.Image) {
	m.srcImage = s
	m.src = nil
	if u, ok := s.(*image.Uniform); ok {
		m.src = u.C
	}
	m.ctx.SetSrc(s)
}
func (m *ctxModel) setDst(d draw.Image)          { m.dst = d; m.ctx.SetDst(d) }
func (m *ctxModel) setClip(clip image.Rectangle) { m.clip = clip; m.ctx.SetClip(clip) }

// loader is the loader of glyphs for the current settings.
func (m *ctxModel) loader(c *mon.Case) *glyphLoader {
	if m.l == nil {
		s := int64(m.ctx.PointToFixed(m.size))
		if v := m.size * m.dpi * 64 / 72; math.Abs(float64(s)-v) > 1 {
			c.Fail("%v: PointToFixed of the font size is %d, want %v", m, s, v)
		}
		m.l = newLoader(m.t.ft, s, m.h)
	}
	return m.l
}

// A placedGlyph is a glyph of a string with its pen position.
type placedGlyph struct {
	g   *truetype.GlyphBuf
	i   truetype.Index
	pen fixed.Point26_6
	// The fractions that the glyph may be drawn at: its own first.
	near []fixed.Point26_6
	// The likely one, and the likely canvas.
	likely fixed.Point26_6
	canvas int
}

// layout lays a string out; ok is false if a glyph does not load, and gs has
// those before it.
func (m *ctxModel) layout(c *mon.Case, s string, p fixed.Point26_6) (gs []placedGlyph, end fixed.Point26_6, ok bool) {
	l := m.loader(c)
	prev := truetype.Index(0)
	first := true
	for _, r := range s {
		i := m.t.ft.Index(r)
		if !first {
			k := m.t.ft.Kern(fixed.Int26_6(l.scale), prev, i)
			if m.h != font.HintingNone {
				if k%64 != 0 {
					c.Event("kernings rounded to pixels", 1)
				}
				k = (k + 32) >> 6 << 6
			}
			if k != 0 {
				c.Event("kernings", 1)
			}
			p.X += k
		}
		first, prev = false, i
		g := l.load(i)
		if g == nil {
			return gs, p, false
		}
		gs = append(gs, placedGlyph{g: g, i: i, pen: p})
		p.X += g.AdvanceWidth
	}
	return gs, p, true
}

// shifts are how far a glyph may be from its pen position.
const (
	shiftX = 15
	shiftY = 63
)

// remember records where glyphs were drawn and what they may look like.
func (m *ctxModel) remember(gs []placedGlyph) {
	for k := range gs {
		q := &gs[k]
		f := fixed.Point26_6{X: q.pen.X & 63, Y: q.pen.Y & 63}
		q.near = []fixed.Point26_6{f}
		known := false
		for _, o := range m.hist[q.i] {
			if o == f {
				known = true
				continue
			}
			if d := o.X - f.X; d >= -shiftX && d <= shiftX {
				q.near = append(q.near, o)
			}
		}
		at := [2]int{int(q.i) % 256, int(f.X >> 4)}
		if e, ok := m.slots[at]; !ok || e.i != q.i {
			m.slots[at] = slot{q.i, f}
		}
		q.likely = m.slots[at].f
		q.canvas = likelyCanvas(m.l, q.g, q.likely)
		if !known {
			m.hist[q.i] = append(m.hist[q.i], f)
		}
	}
}

// likelyCanvas is the index into canvases for a canvas as large as the font's
// bounds, or as the glyph if that is larger.
func likelyCanvas(l *glyphLoader, g *truetype.GlyphBuf, f fixed.Point26_6) int {
	b := pixelBox(l.ft.Bounds(fixed.Int26_6(l.scale)), fixed.Point26_6{})
	if k := pixelBox(g.Bounds, f); k.Dx() > b.Dx() || k.Dy() > b.Dy() {
		b = k
	}
	n := 0
	for n+1 < len(canvases) && max(b.Dx(), b.Dy()) >= canvases[n+1] {
		n++
	}
	return n
}

// at is the pen position with its fraction replaced.
func (q *placedGlyph) at(f fixed.Point26_6) fixed.Point26_6 {
	return fixed.Point26_6{X: q.pen.X&^63 + f.X, Y: q.pen.Y&^63 + f.Y}
}

// paint composites a glyph image over a target within a clip.
func paint(dst draw.Image, clip image.Rectangle, src image.Image, m *image.Alpha) {
	if r := clip.Intersect(m.Rect); !r.Empty() {
		sp := r.Min.Sub(m.Rect.Min)
		draw.DrawMask(dst, r, src, sp, m, r.Min, draw.Over)
	}
}

// cloneImage copies an image.
func cloneImage(m draw.Image) draw.Image {
	cp := func(p []uint8) []uint8 { return append([]uint8(nil), p...) }
	switch m := m.(type) {
	case *image.RGBA:
		n := *m
		n.Pix = cp(m.Pix)
		return &n
	case *image.NRGBA:
		n := *m
		n.Pix = cp(m.Pix)
		return &n
	case *image.Alpha:
		n := *m
		n.Pix = cp(m.Pix)
		return &n
	case *image.Gray:
		n := *m
		n.Pix = cp(m.Pix)
		return &n
	case *image.RGBA64:
		n := *m
		n.Pix = cp(m.Pix)
		return &n
	case *image.Paletted:
		n := *m
		n.Pix = cp(m.Pix)
		return &n
	}
	panic("cloneImage")
}

// rawPix is the memory of an image, of which its rectangle may be a part.
func rawPix(m draw.Image) []uint8 {
	switch m := m.(type) {
	case *image.RGBA:
		return m.Pix
	case *image.NRGBA:
		return m.Pix
	case *image.Alpha:
		return m.Pix
	case *image.Gray:
		return m.Pix
	case *image.RGBA64:
		return m.Pix
	case *image.Paletted:
		return m.Pix
	}
	panic("rawPix")
}

// randDst is an image with content; it may be a part of a larger one.
func randDst(r *rand.Rand, w, h int, simple bool) draw.Image {
	b := image.Rect(0, 0, w, h)
	if r.IntN(3) == 0 {
		b = b.Add(image.Pt(r.IntN(200)-100, r.IntN(200)-100))
	}
	k := r.IntN(10)
	if simple {
		k = 9
	}
	part := image.Rect(b.Min.X+r.IntN(4), b.Min.Y+r.IntN(4), b.Max.X-r.IntN(4), b.Max.Y-r.IntN(4))
	if r.IntN(3) != 0 {
		part = b
	}
	var m draw.Image
	switch k {
	case 0:
		m = image.NewNRGBA(b).SubImage(part).(draw.Image)
	case 1:
		m = image.NewAlpha(b).SubImage(part).(draw.Image)
	case 2:
		m = image.NewGray(b).SubImage(part).(draw.Image)
	case 3:
		m = image.NewRGBA64(b).SubImage(part).(draw.Image)
	default:
		m = image.NewRGBA(b).SubImage(part).(draw.Image)
	}
	if r.IntN(4) != 0 {
		fill(r, m)
	}
	return m
}

// fill fills an image with blocks of colour.
func fill(r *rand.Rand, m draw.Image) {
	b := m.Bounds()
	for y := b.Min.Y; y < b.Max.Y; y += 4 {
		for x := b.Min.X; x < b.Max.X; x += 4 {
			draw.Draw(m, image.Rect(x, y, x+4, y+4), image.NewUniform(randColor(r)), image.Point{}, draw.Src)
		}
	}
}

func randColor(r *rand.Rand) color.Color {
	v := func() uint8 { return pick(r, uint8(0), 255, uint8(r.UintN(256))) }
	a := pick(r, uint8(255), 255, 255, uint8(r.UintN(256)), 0)
	if r.IntN(4) == 0 {
		// Partly transparent, with all the bits.
		return color.NRGBA64{R: uint16(r.UintN(65536)), G: uint16(r.UintN(65536)), B: uint16(r.UintN(65536)), A: uint16(r.UintN(65536))}
	}
	return color.NRGBA{R: v(), G: v(), B: v(), A: a}
}

// predict draws the glyphs on a copy of before, each with the fraction and
// the rendering chosen.
func (m *ctxModel) predict(before draw.Image, gs []placedGlyph, choose func(k int) fixed.Point26_6, h rendering) draw.Image {
	out := cloneImage(before)
	for k := range gs {
		h := h
		if h.canvas < 0 {
			h.canvas = gs[k].canvas
		}
		paint(out, m.clip, m.srcImage, glyphAt(gs[k].g, gs[k].at(choose(k)), h))
	}
	return out
}

func sameBytes(a, b []uint8) bool { return string(a) == string(b) }

// firstDiff says where images differ.
func firstDiff(got, want draw.Image) string {
	b := got.Bounds()
	for y := b.Min.Y; y < b.Max.Y; y++ {
		for x := b.Min.X; x < b.Max.X; x++ {
			if p, q := got.At(x, y), want.At(x, y); p != q {
				return fmt.Sprintf("pixel (%d,%d) is %v, want %v", x, y, p, q)
			}
		}
	}
	return "memory beyond the image's bounds changed"
}

// judge compares the target after drawing glyphs with what it may be; ""
// means it is right.
//
// First it tries the exact predictions: every glyph at its own position, or as
// it was first drawn nearby, or any mix. If none fits, it compares with all
// that the quantisation of positions allows.
func (m *ctxModel) judge(c *mon.Case, before draw.Image, gs []placedGlyph) string {
	got := rawPix(m.dst)
	own := func(k int) fixed.Point26_6 { return gs[k].near[0] }
	oldest := func(k int) fixed.Point26_6 {
		n := gs[k].near
		f := gs[k].near[0]
		for _, o := range n[1:] {
			// As a cache of quarters of a pixel does.
			if o.X>>4 == f.X>>4 {
				return o
			}
		}
		return f
	}
	var first string
	if p := m.predict(before, gs, func(k int) fixed.Point26_6 { return gs[k].likely }, rendering{0, -1}); sameBytes(rawPix(p), got) {
		c.Event("drawings as predicted", 1)
		if debugStats && m.src != nil {
			return m.tolerant(before, gs)
		}
		return ""
	}
	for _, h := range renderings {
		for k, choose := range []func(int) fixed.Point26_6{oldest, own} {
			p := m.predict(before, gs, choose, h)
			if sameBytes(rawPix(p), got) {
				c.Event([]string{"drawings as first drawn nearby", "drawings at their own positions"}[k], 1)
				return ""
			}
			if first == "" {
				first = firstDiff(m.dst, p)
			}
		}
	}
	if m.src == nil {
		return first
	}
	if m.spent > 12*time.Second || allSpent.Load() > int64(400*time.Second) {
		// Nothing is wrong that is known.
		c.Event("drawings not decided for lack of time", 1)
		return ""
	}
	c.Event("drawings compared with all positions allowed", 1)
	start := time.Now()
	defer func() {
		d := time.Since(start)
		m.spent += d
		allSpent.Add(int64(d))
	}()
	if msg := m.tolerant(before, gs); msg != "" {
		return msg + " (the exact prediction differs: " + first + ")"
	}
	return ""
}

// tolerant checks every channel of every pixel against the least and greatest
// value that glyphs within the quantisation of their positions can give it.
func (m *ctxModel) tolerant(before draw.Image, gs []placedGlyph) string {
	b := m.dst.Bounds()
	w := b.Dx()
	// Premultiplied, 16 bits.
	lo, hi := make([][4]float64, w*b.Dy()), make([][4]float64, w*b.Dy())
	for y := b.Min.Y; y < b.Max.Y; y++ {
		for x := b.Min.X; x < b.Max.X; x++ {
			r, g, bl, a := before.At(x, y).RGBA()
			v := [4]float64{float64(r), float64(g), float64(bl), float64(a)}
			lo[(y-b.Min.Y)*w+x-b.Min.X], hi[(y-b.Min.Y)*w+x-b.Min.X] = v, v
		}
	}
	sr, sg, sb, sa := m.src.RGBA()
	src := [4]float64{float64(sr), float64(sg), float64(sb), float64(sa)}
	slack := 0x180 + 0.0
	touched := make([]int, w*b.Dy())
	memo := map[placedKey][2]*image.Alpha{}
	for k := range gs {
		q := &gs[k]
		mk := placedKey{q.i, q.pen.X & 63, q.pen.Y & 63}
		mm, ok := memo[mk]
		if !ok {
			mm = extremes(q.g, q.canvas, fixed.Point26_6{X: q.pen.X & 63, Y: q.pen.Y & 63})
			memo[mk] = mm
		}
		off := image.Pt(int(q.pen.X>>6), int(q.pen.Y>>6))
		r := mm[1].Rect.Add(off).Intersect(m.clip).Intersect(b)
		for y := r.Min.Y; y < r.Max.Y; y++ {
			for x := r.Min.X; x < r.Max.X; x++ {
				a0, a1 := float64(alphaAt(mm[0], x-off.X, y-off.Y))-1, float64(alphaAt(mm[1], x-off.X, y-off.Y))+1
				if a1 <= 1 {
					continue
				}
				a0, a1 = max(0, a0)/255, min(255, a1)/255
				at := (y-b.Min.Y)*w + x - b.Min.X
				touched[at]++
				for ch := 0; ch < 4; ch++ {
					f := func(d, a float64) float64 { return d*(1-src[3]/65535*a) + src[ch]*a }
					l, h := lo[at][ch], hi[at][ch]
					lo[at][ch] = min(f(l, a0), f(l, a1))
					hi[at][ch] = max(f(h, a0), f(h, a1))
				}
			}
		}
	}
	for y := b.Min.Y; y < b.Max.Y; y++ {
		for x := b.Min.X; x < b.Max.X; x++ {
			at := (y-b.Min.Y)*w + x - b.Min.X
			p := m.dst.At(x, y)
			if touched[at] == 0 {
				if p != before.At(x, y) {
					return fmt.Sprintf("pixel (%d,%d) changed from %v to %v, where no glyph is", x, y, before.At(x, y), p)
				}
				continue
			}
			if !within16(m.dst, p, lo[at], hi[at], slack*float64(1+touched[at])) {
				return fmt.Sprintf("pixel (%d,%d) is %v, allowed %.0f to %.0f (of 65535)", x, y, p, lo[at], hi[at])
			}
		}
	}
	// Each glyph alone, as drawn at one position.
	type pixel struct {
		at image.Point
		v  [4]float64
		p  color.Color
	}
	for k := range gs {
		q := &gs[k]
		var px []pixel
		off := image.Pt(int(q.pen.X>>6), int(q.pen.Y>>6))
		mm := memo[placedKey{q.i, q.pen.X & 63, q.pen.Y & 63}]
		r := mm[1].Rect.Add(off).Intersect(m.clip).Intersect(b)
		for y := r.Min.Y; y < r.Max.Y; y++ {
			for x := r.Min.X; x < r.Max.X; x++ {
				if touched[(y-b.Min.Y)*w+x-b.Min.X] != 1 || alphaAt(mm[1], x-off.X, y-off.Y) == 0 {
					continue
				}
				cr, cg, cb, ca := before.At(x, y).RGBA()
				px = append(px, pixel{image.Pt(x-off.X, y-off.Y), [4]float64{float64(cr), float64(cg), float64(cb), float64(ca)}, m.dst.At(x, y)})
			}
		}
		if len(px) == 0 {
			continue
		}
		fits := func(a *image.Alpha) bool {
			for _, x := range px {
				v := float64(alphaAt(a, x.at.X, x.at.Y)) / 255
				var want [4]float64
				for ch := range want {
					want[ch] = x.v[ch]*(1-src[3]/65535*v) + src[ch]*v
				}
				if !within16(m.dst, x.p, want, want, slack+6*257) {
					return false
				}
			}
			return true
		}
		if !q.search(fits) {
			return fmt.Sprintf("glyph %d (%d of the string) does not look as drawn at any position near its pen position %d,%d", q.i, k, q.pen.X, q.pen.Y)
		}
	}
	return ""
}

// search looks for an image of a glyph near its pen position.
func (q *placedGlyph) search(fits func(*image.Alpha) bool) bool {
	start := time.Now()
	f := fixed.Point26_6{X: q.pen.X & 63, Y: q.pen.Y & 63}
	for _, canvas := range []int{q.canvas, (q.canvas + 1) % 3, (q.canvas + 2) % 3} {
		for dx := 0; dx <= 2*shiftX; dx++ {
			if time.Since(start) > 6*time.Second {
				// Not decided.
				return true
			}
			for dy := 0; dy <= 2*shiftY; dy++ {
				// 0, -1, 1, -2, 2...
				d := fixed.Point26_6{X: fixed.Int26_6((dx + 1) / 2), Y: fixed.Int26_6((dy + 1) / 2)}
				if dx&1 != 0 {
					d.X = -d.X
				}
				if dy&1 != 0 {
					d.Y = -d.Y
				}
				if fits(glyphAt(q.g, f.Add(d), rendering{0, canvas})) {
					return true
				}
			}
		}
	}
	return false
}

// within16 tells whether a colour of an image is between two, in 16 bits, give
// or take e.
func within16(m image.Image, p color.Color, lo, hi [4]float64, e float64) bool {
	r, g, b, a := p.RGBA()
	v := [4]float64{float64(r), float64(g), float64(b), float64(a)}
	switch m.(type) {
	case *image.Gray:
		// A weighted mean of red, green and blue.
		l := 0.299*lo[0] + 0.587*lo[1] + 0.114*lo[2]
		h := 0.299*hi[0] + 0.587*hi[1] + 0.114*hi[2]
		return v[0] >= l-2*e && v[0] <= h+2*e
	case *image.Alpha:
		return v[3] >= lo[3]-e && v[3] <= hi[3]+e
	}
	for ch := range v {
		if v[ch] < lo[ch]-e || v[ch] > hi[ch]+e {
			return false
		}
	}
	return true
}

type placedKey struct {
	i      truetype.Index
	fx, fy fixed.Int26_6
}

// extremes are the least and greatest coverages of a glyph near a position.
func extremes(g *truetype.GlyphBuf, canvas int, f fixed.Point26_6) [2]*image.Alpha {
	far := fixed.Point26_6{X: shiftX, Y: shiftY}
	box := pixelBox(g.Bounds, f.Sub(far)).Union(pixelBox(g.Bounds, f.Add(far)))
	lo, hi := image.NewAlpha(box), image.NewAlpha(box)
	for i := range lo.Pix {
		lo.Pix[i] = 255
	}
	big := box.Dx()*box.Dy() > 3000
	for dy := -shiftY; dy <= shiftY; dy++ {
		for dx := -shiftX; dx <= shiftX; dx++ {
			// For large glyphs, the rim and every other position.
			if big && (dx&3 != 0 || dy&3 != 0) && dx != shiftX && dx != -shiftX && dy != shiftY && dy != -shiftY {
				continue
			}
			m := glyphAt(g, f.Add(fixed.Point26_6{X: fixed.Int26_6(dx), Y: fixed.Int26_6(dy)}), rendering{0, canvas})
			for y := box.Min.Y; y < box.Max.Y; y++ {
				for x := box.Min.X; x < box.Max.X; x++ {
					a := alphaAt(m, x, y)
					o := lo.PixOffset(x, y)
					lo.Pix[o], hi.Pix[o] = min(lo.Pix[o], a), max(hi.Pix[o], a)
				}
			}
		}
	}
	// Skipping positions and the choice of rendering move coverage by a
	// little.
	d := 16
	if big {
		d = 24
	}
	for i := range lo.Pix {
		lo.Pix[i] = uint8(max(0, int(lo.Pix[i])-d))
		if hi.Pix[i] > 0 {
			hi.Pix[i] = uint8(min(255, int(hi.Pix[i])+d))
		}
	}
	return [2]*image.Alpha{lo, hi}
}

// drawAndJudge draws a string and checks the result; it reports whether the
// glyphs all loaded.
func (m *ctxModel) drawAndJudge(c *mon.Case, s string, p fixed.Point26_6) bool {
	if m.t == nil {
		before := cloneImage(m.dst)
		if _, err := m.ctx.DrawString(s, p); err == nil {
			c.Fail("%v: drawing without a font succeeds", m)
		}
		if !sameBytes(rawPix(before), rawPix(m.dst)) {
			c.Fail("%v: drawing without a font changes the target", m)
		}
		c.Event("drawings without a font", 1)
		return false
	}
	gs, end, ok := m.layout(c, s, p)
	for k := range gs {
		if b := pixelBox(gs[k].g.Bounds, fixed.Point26_6{}); b.Dx() > c25Max || b.Dy() > c25Max {
			// It may be refused; C25 judges that.
			c.Event("strings left out for an enormous glyph", 1)
			return false
		}
	}
	before := cloneImage(m.dst)
	got, err := m.ctx.DrawString(s, p)
	c.Eval(1)
	if !ok {
		if err == nil {
			c.Fail("%v: a string with a glyph that does not load is drawn", m)
		}
		c.Event("strings with a glyph that does not load", 1)
		// The glyphs before it may have been drawn.
		m.remember(gs)
		return false
	}
	if err != nil {
		c.Fail("%v: DrawString(%q, %d,%d): %v", m, s, p.X, p.Y, err)
	}
	if got != end {
		c.Fail("%v: DrawString(%q, %d,%d) returns %d,%d, want %d,%d", m, s, p.X, p.Y, got.X, got.Y, end.X, end.Y)
	}
	m.remember(gs)
	if msg := m.judge(c, before, gs); msg != "" {
		c.Fail("%v: DrawString(%q, %d,%d): %s", m, s, p.X, p.Y, msg)
	}
	c.Event("strings drawn", 1)
	if !sameBytes(rawPix(before), rawPix(m.dst)) {
		c.Event("strings that changed the target", 1)
		for k := range gs {
			c.Event("glyphs drawn", 1)
			if len(gs[k].near) > 1 {
				c.Event("glyphs drawn nearby before", 1)
			}
		}
		c.Nontrivial(mon.Hash(rawPix(m.dst)))
	}
	return true
}

// randString is a string whose glyphs can be drawn.
func (m *ctxModel) randString(c *mon.Case, n int) string {
	r := c.R
	if m.t == nil {
		return "x"
	}
	l := m.loader(c)
	var b []byte
	for ; n > 0; n-- {
		switch k := r.IntN(40); {
		case k == 0:
			// Not UTF-8.
			if !m.t.drawable(l, 0xfffd) {
				continue
			}
			b = append(b, pick(r, "\xff", "\xc0\x80", "\xe2\x82", "\xed\xa0\x80", "\xf8\x88\x80\x80\x80", "\x80")...)
			c.Event("invalid UTF-8", 1)
			continue
		case k == 1 && len(b) > 0:
			// Kerned pairs.
			if ks := m.t.model.Kern; len(ks) > 0 {
				p := ks[r.IntN(len(ks))]
				for _, g := range []uint16{p.L, p.R} {
					for _, x := range m.t.runes {
						if m.t.ft.Index(x) == truetype.Index(g) && m.t.drawable(l, x) {
							b = append(b, string(x)...)
							break
						}
					}
				}
			}
			continue
		}
		if x := m.t.rune(r); m.t.drawable(l, x) && m.t.drawable(l, 0xfffd) {
			if l.load(m.t.ft.Index(x)) == nil && r.IntN(3) != 0 {
				continue
			}
			b = append(b, string(x)...)
			if m.t.ft.Index(x) == 0 {
				c.Event("unmapped runes", 1)
			}
		}
	}
	return string(b)
}

// randSettings gives a context random settings for a font.
func (m *ctxModel) randSettings(c *mon.Case, t *textFont) bool {
	r := c.R
	for k := 0; ; k++ {
		if k == 50 {
			return false
		}
		size, dpi := float64(1+r.IntN(30))*pick(r, 1, 1, 0.7, 0.5), pick(r, 72.0, 72, 96, 150, 30, 71.3)
		s := int64(size * dpi * 64 / 72)
		if s > t.model.MaxScale() || t.extent(s) > 1<<20 {
			continue
		}
		set := r.Perm(4)
		for _, q := range set {
			switch q {
			case 0:
				m.setFont(t)
			case 1:
				m.setSize(size)
			case 2:
				m.setDPI(dpi)
			case 3:
				m.setHinting(pick(r, font.HintingNone, font.HintingNone, font.HintingFull, font.HintingVertical))
			}
		}
		return true
	}
}
