package checks

import (
	"fmt"
	"image"
	"image/draw"
	"math/rand/v2"

	"github.com/golang/freetype"
	"golang.org/x/image/math/fixed"

	"verif/harness/mon"
)

func init() {
	mon.Register(&mon.Check{
		ID:   "C22",
		Rule: "A case draws a string twice on equal images, which may be parts of larger ones, with fresh contexts: clipped, and not; and checks every byte of the clipped one's memory: inside the clip rectangle and the image's bounds equal to the other, and outside as it was. Clips cut glyphs at each edge, are empty, or extend beyond the image; sources are of one colour or images. Or the string is drawn once for each tile that makes up the image. Non-trivial: the clip hides some of the ink and shows some; distinct by the pixels.",
		Assumptions: []string{
			"drawing without the clip means with a clip that contains the image's bounds",
		},
		Streams: []mon.Stream{
			{Name: "clips", Quick: 36000, Thorough: 400000, Run: c22Clips},
			{Name: "tiles", Quick: 18000, Thorough: 200000, Run: c22Tiles},
			{Name: "history", Quick: 9000, Thorough: 100000, Run: c22History},
		},
		Required: []string{"clips that cut a glyph on the left", "clips that cut a glyph at the top", "clips that cut a glyph on the right", "clips that cut a glyph at the bottom", "clips that cut nothing off", "empty clips", "clips beyond the image", "targets that are parts of images", "sources that are images", "tilings", "pixels hidden", "pixels shown", "clips changed between drawings"},
	})
}

// pixelBytes is the memory of a pixel.
func pixelBytes(m draw.Image, x, y int) []uint8 {
	switch m := m.(type) {
	case *image.RGBA:
		o := m.PixOffset(x, y)
		return m.Pix[o : o+4]
	case *image.NRGBA:
		o := m.PixOffset(x, y)
		return m.Pix[o : o+4]
	case *image.Alpha:
		o := m.PixOffset(x, y)
		return m.Pix[o : o+1]
	case *image.Gray:
		o := m.PixOffset(x, y)
		return m.Pix[o : o+1]
	case *image.RGBA64:
		o := m.PixOffset(x, y)
		return m.Pix[o : o+8]
	case *image.Paletted:
		o := m.PixOffset(x, y)
		return m.Pix[o : o+1]
	}
	panic("pixelBytes")
}

// wholeOf is the image that a target is part of: one whose memory the target
// shares.
func randTarget(c *mon.Case, w, h int) (whole, part draw.Image) {
	r := c.R
	b := image.Rect(0, 0, w, h).Add(image.Pt(r.IntN(300)-150, r.IntN(300)-150))
	if r.IntN(3) == 0 {
		b = image.Rect(0, 0, w, h)
	}
	p := b
	if r.IntN(2) == 0 {
		p = image.Rect(b.Min.X+r.IntN(6), b.Min.Y+r.IntN(6), b.Max.X-r.IntN(6), b.Max.Y-r.IntN(6))
		c.Event("targets that are parts of images", 1)
	}
	switch r.IntN(8) {
	case 0:
		m := image.NewNRGBA(b)
		fill(r, m)
		return m, m.SubImage(p).(draw.Image)
	case 1:
		m := image.NewAlpha(b)
		fill(r, m)
		return m, m.SubImage(p).(draw.Image)
	case 2:
		m := image.NewRGBA64(b)
		fill(r, m)
		return m, m.SubImage(p).(draw.Image)
	case 3:
		m := image.NewGray(b)
		fill(r, m)
		return m, m.SubImage(p).(draw.Image)
	}
	m := image.NewRGBA(b)
	fill(r, m)
	return m, m.SubImage(p).(draw.Image)
}

// randSource is a source: of one colour, or an image.
func randSource(c *mon.Case) image.Image {
	r := c.R
	if r.IntN(3) == 0 {
		return image.NewUniform(randColor(r))
	}
	c.Event("sources that are images", 1)
	b := image.Rect(-r.IntN(10), -r.IntN(10), 1+r.IntN(60), 1+r.IntN(60))
	if r.IntN(2) == 0 {
		b = image.Rect(-50, -50, 150, 150)
	}
	var m draw.Image = image.NewRGBA(b)
	if r.IntN(4) == 0 {
		m = image.NewNRGBA(b)
	}
	for y := b.Min.Y; y < b.Max.Y; y++ {
		for x := b.Min.X; x < b.Max.X; x++ {
			p := pixelBytes(m, x, y)
			p[3] = uint8(255 - r.UintN(2)*r.UintN(256))
			for k := 0; k < 3; k++ {
				p[k] = uint8(r.UintN(uint(p[3]) + 1))
			}
		}
	}
	return m
}

// A c22Setup is what the contexts of a case have in common.
type c22Setup struct {
	m      *ctxModel // for the settings
	whole  draw.Image
	part   image.Rectangle
	src    image.Image
	s      string
	p      fixed.Point26_6
	inkBox image.Rectangle
}

func newC22(c *mon.Case) *c22Setup {
	r := c.R
	var t *textFont
	if r.IntN(4) == 0 {
		t = realTextFont(c)
	} else {
		t = newTextFont(c)
	}
	x := &c22Setup{m: newCtxModel()}
	if !x.m.randSettings(c, t) {
		return nil
	}
	whole, part := randTarget(c, 10+r.IntN(50), 10+r.IntN(40))
	x.whole, x.part = whole, part.Bounds()
	x.src = randSource(c)
	x.next(c)
	return x
}

// next picks a string and where to draw it.
func (x *c22Setup) next(c *mon.Case) bool {
	r := c.R
	x.s = x.m.randString(c, 1+r.IntN(5))
	b := x.part
	v := func(lo, hi int) fixed.Int26_6 { return fixed.Int26_6(64*lo + r.IntN(64*max(1, hi-lo)+1)) }
	x.p = fixed.Point26_6{X: v(b.Min.X-4, b.Max.X), Y: v(b.Min.Y, b.Max.Y+4)}
	gs, _, ok := x.m.layout(c, x.s, x.p)
	if !ok {
		return false
	}
	x.inkBox = image.Rectangle{}
	for _, q := range gs {
		if b := pixelBox(q.g.Bounds, fixed.Point26_6{}); b.Dx() > c25Max || b.Dy() > c25Max {
			// It may be refused; C25 judges that.
			c.Event("strings left out for an enormous glyph", 1)
			return false
		}
	}
	for _, q := range gs {
		x.inkBox = x.inkBox.Union(pixelBox(q.g.Bounds, q.pen))
	}
	return len(gs) > 0
}

// context makes a context with the common settings.
func (x *c22Setup) context() *freetype.Context {
	k := freetype.NewContext()
	k.SetFont(x.m.t.ft)
	k.SetFontSize(x.m.size)
	k.SetDPI(x.m.dpi)
	k.SetHinting(x.m.h)
	k.SetSrc(x.src)
	return k
}

// target makes a copy of an image and the part of it to draw on.
func (x *c22Setup) target(whole draw.Image) (w, part draw.Image) {
	w = cloneImage(whole)
	type subImager interface {
		SubImage(image.Rectangle) image.Image
	}
	return w, w.(subImager).SubImage(x.part).(draw.Image)
}

func (x *c22Setup) String() string {
	return fmt.Sprintf("%v; source %T %v; target %T %v of %v; %q at %d,%d (pixels %v)", x.m, x.src, bounds(x.src), x.whole, x.part, x.whole.Bounds(), x.s, x.p.X, x.p.Y, x.inkBox)
}

// beyond is a clip that hides nothing.
func (x *c22Setup) beyond(r *rand.Rand) image.Rectangle {
	return image.Rect(x.part.Min.X-r.IntN(50), x.part.Min.Y-r.IntN(50), x.part.Max.X+r.IntN(50), x.part.Max.Y+r.IntN(50))
}

// randClip is a clip that probably cuts glyphs.
func (x *c22Setup) randClip(c *mon.Case) image.Rectangle {
	r := c.R
	b := x.inkBox
	if r.IntN(4) == 0 {
		b = x.part
	}
	// An edge within, beyond, or at the edge.
	lo := func(a, z int) int { return pick(r, a-r.IntN(9), a, a+1, a+r.IntN(max(1, z-a))) }
	hi := func(a, z int) int { return pick(r, z+r.IntN(9), z, z-1, z-r.IntN(max(1, z-a))) }
	k := image.Rectangle{
		Min: image.Pt(lo(b.Min.X, b.Max.X), lo(b.Min.Y, b.Max.Y)),
		Max: image.Pt(hi(b.Min.X, b.Max.X), hi(b.Min.Y, b.Max.Y)),
	}
	switch r.IntN(20) {
	case 0:
		k = image.Rectangle{}
	case 1:
		k.Max.X = k.Min.X
	case 2:
		k = image.Rect(-1<<30, -1<<30, 1<<30, 1<<30)
	case 3:
		k = image.Rect(k.Min.X, k.Min.Y, k.Min.X+1, k.Min.Y+1)
	}
	return k
}

func (x *c22Setup) note(c *mon.Case, k image.Rectangle) {
	b := x.inkBox.Intersect(x.part)
	if k.Empty() {
		c.Event("empty clips", 1)
		return
	}
	if b.Empty() {
		return
	}
	if b.In(k) {
		c.Event("clips that cut nothing off", 1)
	}
	if !k.In(x.part) {
		c.Event("clips beyond the image", 1)
	}
	if k.Intersect(b).Empty() {
		return
	}
	if k.Min.X > b.Min.X {
		c.Event("clips that cut a glyph on the left", 1)
	}
	if k.Min.Y > b.Min.Y {
		c.Event("clips that cut a glyph at the top", 1)
	}
	if k.Max.X < b.Max.X {
		c.Event("clips that cut a glyph on the right", 1)
	}
	if k.Max.Y < b.Max.Y {
		c.Event("clips that cut a glyph at the bottom", 1)
	}
}

// compare checks the clipped drawing against the other.
func (x *c22Setup) compare(c *mon.Case, clipped, full, before draw.Image, k image.Rectangle) {
	in := k.Intersect(x.part)
	b := before.Bounds()
	hidden, shown := 0, 0
	for py := b.Min.Y; py < b.Max.Y; py++ {
		for px := b.Min.X; px < b.Max.X; px++ {
			g, f, o := pixelBytes(clipped, px, py), pixelBytes(full, px, py), pixelBytes(before, px, py)
			if (image.Point{X: px, Y: py}).In(in) {
				if !sameBytes(g, f) {
					c.Fail("clip %v; %v: pixel (%d,%d) in the clip is %v, without the clip %v (before %v)", k, x, px, py, g, f, o)
				}
				if !sameBytes(f, o) {
					shown++
				}
				continue
			}
			if !sameBytes(g, o) {
				c.Fail("clip %v; %v: pixel (%d,%d) outside the clip or the target changed from %v to %v", k, x, px, py, o, g)
			}
			if !sameBytes(f, o) {
				hidden++
				if !(image.Point{X: px, Y: py}).In(x.part) {
					c.Fail("%v: without clip, pixel (%d,%d) outside the target changed", x, px, py)
				}
			}
		}
	}
	c.Event("pixels hidden", hidden)
	c.Event("pixels shown", shown)
	c.Eval(1)
	if hidden > 0 && shown > 0 {
		c.Nontrivial(mon.Hash(rawPix(clipped), rawPix(full)))
		c.Sample("clip %v; %v", k, x)
	}
}

func c22Clips(c *mon.Case) {
	r := c.R
	x := newC22(c)
	if x == nil || x.inkBox.Empty() {
		return
	}
	for n := 0; n < 3; n++ {
		c.Describe("%v", x)
		fw, fp := x.target(x.whole)
		full := x.context()
		full.SetDst(fp)
		full.SetClip(x.beyond(r))
		e0, err := full.DrawString(x.s, x.p)
		if err != nil {
			c.Fail("%v: %v", x, err)
		}
		for k := 0; k < 4; k++ {
			clip := x.randClip(c)
			w, p := x.target(x.whole)
			ctx := x.context()
			ctx.SetDst(p)
			ctx.SetClip(clip)
			e1, err := ctx.DrawString(x.s, x.p)
			if err != nil || e1 != e0 {
				c.Fail("clip %v; %v: the string ends at %v (%v), without the clip at %v", clip, x, e1, err, e0)
			}
			x.note(c, clip)
			x.compare(c, w, fw, x.whole, clip)
		}
		if !x.next(c) {
			return
		}
	}
}

// c22History: the clip changes between drawings; the caches are the same.
func c22History(c *mon.Case) {
	r := c.R
	x := newC22(c)
	if x == nil {
		return
	}
	full, ctx := x.context(), x.context()
	for n := 2 + r.IntN(10); n > 0; n-- {
		c.Describe("%v", x)
		fw, fp := x.target(x.whole)
		full.SetDst(fp)
		full.SetClip(x.beyond(r))
		w, p := x.target(x.whole)
		ctx.SetDst(p)
		clip := x.randClip(c)
		ctx.SetClip(clip)
		e0, err0 := full.DrawString(x.s, x.p)
		e1, err1 := ctx.DrawString(x.s, x.p)
		if (err0 == nil) != (err1 == nil) || err0 == nil && e0 != e1 {
			c.Fail("clip %v; %v: the string ends at %v (%v), without the clip at %v (%v)", clip, x, e1, err1, e0, err0)
		}
		x.compare(c, w, fw, x.whole, clip)
		c.Event("clips changed between drawings", 1)
		x.next(c)
	}
}

// c22Tiles: clips that tile the target give the whole drawing.
func c22Tiles(c *mon.Case) {
	r := c.R
	x := newC22(c)
	if x == nil || x.inkBox.Empty() {
		return
	}
	c.Describe("%v", x)
	fw, fp := x.target(x.whole)
	full := x.context()
	full.SetDst(fp)
	full.SetClip(x.beyond(r))
	full.DrawString(x.s, x.p)
	// Cuts, some through glyphs.
	cuts := func(a, z, ia, iz int) []int {
		k := []int{a}
		at := a
		for at < z {
			at += 1 + r.IntN(12)
			if at < ia && r.IntN(2) == 0 {
				at = ia + r.IntN(max(1, iz-ia))
			}
			k = append(k, min(at, z))
		}
		return k
	}
	xs := cuts(x.part.Min.X, x.part.Max.X, x.inkBox.Min.X, x.inkBox.Max.X)
	ys := cuts(x.part.Min.Y, x.part.Max.Y, x.inkBox.Min.Y, x.inkBox.Max.Y)
	w, p := x.target(x.whole)
	for i := 1; i < len(xs); i++ {
		for j := 1; j < len(ys); j++ {
			ctx := x.context()
			ctx.SetDst(p)
			ctx.SetClip(image.Rect(xs[i-1], ys[j-1], xs[i], ys[j]))
			if _, err := ctx.DrawString(x.s, x.p); err != nil {
				c.Fail("%v: %v", x, err)
			}
		}
	}
	if !sameBytes(rawPix(w), rawPix(fw)) {
		c.Fail("%v: drawn in tiles at %v and %v, %s", x, xs, ys, firstDiff(w, fw))
	}
	c.Event("tilings", 1)
	if len(xs)*len(ys) > 4 && !sameBytes(rawPix(w), rawPix(x.whole)) {
		c.Nontrivial(mon.Hash(rawPix(w), len(xs), len(ys)))
	}
}
