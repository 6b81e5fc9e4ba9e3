package fontgen

import (
	"math/rand/v2"
	"sort"
)

// Opts restrict random fonts.
type Opts struct {
	MaxGlyphs  int  // at least 1
	MaxPoints  int  // per simple glyph, 0 for the default
	Coord      int  // coordinates are in [-Coord, Coord]; 0 means relative to the em
	Composites bool // have composite glyphs
	Matrices   bool // with transforms
	UseMetrics bool // with components that supply the metrics
	Honest     bool // headers state the true bounds of glyphs and font
	Plain      bool // no odd tables: for checks that look elsewhere
	Drawable   bool // outlines that look like glyphs: sized to the em
	Runes      bool // a character map that reaches all glyphs
	Kern       bool
}

func pick[T any](r *rand.Rand, xs ...T) T { return xs[r.IntN(len(xs))] }

// i16 is a random 16-bit value with the extremes and small values favoured.
func i16(r *rand.Rand) int16 {
	switch r.IntN(5) {
	case 0:
		return pick(r, int16(-32768), 32767, -1, 0, 1, -32767)
	case 1:
		return int16(r.IntN(200) - 100)
	}
	return int16(r.IntN(65536) - 32768)
}

func within(r *rand.Rand, c int) int16 {
	if r.IntN(8) == 0 {
		return pick(r, int16(-c), int16(c), 0)
	}
	return int16(r.IntN(2*c+1) - c)
}

// RandContour is a random contour.
func RandContour(r *rand.Rand, n, c int) []Pt {
	var k []Pt
	on := r.IntN(3) // 0: mostly on, 1: mixed, 2: mostly off
	x, y := within(r, c), within(r, c)
	walk := r.IntN(2) == 0
	if r.IntN(60) == 0 {
		// All points in one place, which may take no coordinate bytes at all.
		if r.IntN(2) == 0 {
			x, y = 0, 0
		}
		for i := 0; i < n; i++ {
			k = append(k, Pt{x, y, on == 0 || r.IntN(2) == 0})
		}
		return k
	}
	for i := 0; i < n; i++ {
		if walk {
			// A walk with small steps, which encodes as short deltas.
			step := func(v int16) int16 {
				d := r.IntN(401) - 200
				if r.IntN(4) == 0 {
					d = pick(r, 0, 0, 255, -255, 256, -256)
				}
				if w := int(v) + d; w >= -c && w <= c {
					return int16(w)
				}
				return v
			}
			x, y = step(x), step(y)
		} else {
			x, y = within(r, c), within(r, c)
			if i > 0 && r.IntN(4) == 0 {
				x = k[i-1].X
			}
			if i > 0 && r.IntN(4) == 0 {
				y = k[i-1].Y
			}
		}
		k = append(k, Pt{x, y, r.IntN(4) > on || on == 1 && r.IntN(2) == 0})
	}
	return k
}

func drawableContour(r *rand.Rand, em int) []Pt {
	// A polygon with points around a centre, with some off-curve points.
	n := 3 + r.IntN(8)
	cx, cy := em/8+r.IntN(em/2+1), r.IntN(em/2+1)
	rad := em/10 + r.IntN(em/3+1)
	dirs := [][2]int{{100, 0}, {71, 71}, {0, 100}, {-71, 71}, {-100, 0}, {-71, -71}, {0, -100}, {71, -71}}
	var k []Pt
	rev := r.IntN(2) == 0
	for i := 0; i < n; i++ {
		d := dirs[i*8/n]
		if rev {
			d = dirs[7-i*8/n]
		}
		q := rad/2 + r.IntN(rad/2+1)
		k = append(k, Pt{clamp16(cx + d[0]*q/100), clamp16(cy + d[1]*q/100), r.IntN(3) != 0})
	}
	return k
}

func clamp16(x int) int16 { return int16(max(-16383, min(16383, x))) }

// SetBounds sets the header's bounds of a simple glyph to the true ones.
func (g *Glyph) SetBounds() {
	first := true
	for _, c := range g.Contours {
		for _, p := range c {
			if first {
				g.XMin, g.XMax, g.YMin, g.YMax = p.X, p.X, p.Y, p.Y
				first = false
			}
			g.XMin, g.XMax = min(g.XMin, p.X), max(g.XMax, p.X)
			g.YMin, g.YMax = min(g.YMin, p.Y), max(g.YMax, p.Y)
		}
	}
}

// Rand makes a random font.
func Rand(r *rand.Rand, o Opts) *Font {
	f := &Font{}
	f.UPEM = pick(r, 64, 100, 256, 500, 1000, 1000, 1024, 2048, 2048, 4096, 16384, 16+r.IntN(5000))
	if o.Drawable {
		f.UPEM = pick(r, 256, 500, 1000, 1024, 2048, 997)
	}
	c := o.Coord
	if c == 0 {
		c = min(16383, f.UPEM*pick(r, 1, 1, 2))
		if !o.Drawable && r.IntN(6) == 0 {
			c = 16383
		}
	}
	n := 1 + r.IntN(max(1, o.MaxGlyphs))
	mp := o.MaxPoints
	if mp == 0 {
		mp = 40
	}
	for i := 0; i < n; i++ {
		g := &Glyph{}
		switch k := r.IntN(12); {
		case k == 0:
			g.Empty = true
		case k == 1 && !o.Plain:
			// A glyph without contours.
			g.XMin, g.YMax = within(r, c), within(r, c)
		case k < 5 && o.Composites && i > 0:
			for j := 1 + r.IntN(4); j > 0; j-- {
				g.Components = append(g.Components, Component{Glyph: uint16(r.IntN(i))})
			}
			ums := -1
			if o.UseMetrics && r.IntN(3) == 0 {
				ums = r.IntN(len(g.Components))
			}
			for j := range g.Components {
				p := &g.Components[j]
				if r.IntN(2) == 0 {
					p.DX, p.DY = int16(int8(r.UintN(256))), int16(int8(r.UintN(256)))
				} else {
					p.DX, p.DY = within(r, c), within(r, c)
				}
				p.RoundXY = r.IntN(3) == 0
				p.UseMetrics = j == ums
				if o.Matrices && r.IntN(2) == 0 {
					p.Kind = 1 + r.IntN(3)
					for q := range p.M {
						p.M[q] = i16(r)
						if r.IntN(3) != 0 {
							p.M[q] = pick(r, int16(0x4000), -0x4000, 0x2000, 0x1000, 0x5000, 1, 0)
						}
					}
					if p.Kind == 1 {
						p.M[3] = p.M[0]
					}
					if p.Kind < 3 {
						p.M[1], p.M[2] = 0, 0
					}
				}
			}
			g.XMin, g.YMin, g.XMax, g.YMax = within(r, c), within(r, c), within(r, c), within(r, c)
		default:
			for j := 1 + r.IntN(3); j > 0; j-- {
				if o.Drawable {
					g.Contours = append(g.Contours, drawableContour(r, min(f.UPEM, c)))
				} else {
					m := 1 + r.IntN(mp)
					if r.IntN(3) == 0 {
						m = 1 + r.IntN(3)
					}
					g.Contours = append(g.Contours, RandContour(r, m, c))
				}
			}
			if !o.Drawable && r.IntN(40) == 0 {
				// Long runs of equal flags.
				k := RandContour(r, 200+r.IntN(400), min(c, 60))
				for q := range k {
					k[q].On = true
				}
				if r.IntN(2) == 0 {
					// All of them equal.
					dx, dy := int16(r.IntN(3)-1), int16(r.IntN(3)-1)
					for q := range k {
						k[q].X, k[q].Y = dx*int16(q), dy*int16(q)
					}
				}
				g.Contours = append(g.Contours, k)
			}
			if !o.Drawable && r.IntN(40) == 0 {
				// Contours of one point: more contours than bytes of points.
				x, y := within(r, min(c, 100)), within(r, min(c, 100))
				for k := r.IntN(80); k > 0; k-- {
					g.Contours = append(g.Contours, []Pt{{X: x, Y: y, On: true}})
				}
			}
			g.SetBounds()
			if !o.Honest && r.IntN(3) == 0 {
				g.XMin, g.YMax = within(r, c), within(r, c)
			}
		}
		f.Glyphs = append(f.Glyphs, g)
	}
	// Metrics
	for i, g := range f.Glyphs {
		adv := uint16(r.IntN(2*f.UPEM + 1))
		lsb := within(r, c)
		if o.Drawable {
			adv = uint16(f.UPEM/3 + r.IntN(f.UPEM))
		}
		if !o.Drawable && r.IntN(10) == 0 {
			adv = pick(r, uint16(0), uint16(min(65535, 4*c)), 1)
		}
		if r.IntN(2) == 0 || o.Honest && r.IntN(4) != 0 {
			lsb = g.XMin
		} else if o.Drawable {
			lsb = g.XMin + int16(r.IntN(41)-20)
		}
		f.Adv, f.LSB = append(f.Adv, adv), append(f.LSB, lsb)
		_ = i
	}
	f.NHM = pick(r, n, n, 1+r.IntN(n), 1)
	if !o.Plain {
		switch r.IntN(4) {
		case 0, 1:
			for range f.Glyphs {
				f.VAdv = append(f.VAdv, uint16(r.IntN(2*f.UPEM+1)))
				f.TSB = append(f.TSB, within(r, c))
			}
			f.NVM, f.Vhea = n, r.IntN(3) != 0
			if f.Vhea {
				f.NVM = pick(r, n, 1+r.IntN(n), 1)
			}
		}
		f.OS2 = pick(r, 0, 68, 70, 72, 78, 86, 96)
		if f.OS2 >= 72 {
			f.TypoAsc, f.TypoDesc = within(r, c), within(r, c)
		}
	}
	f.Ascent, f.Descent = int16(f.UPEM*3/4), int16(-f.UPEM/4)
	if !o.Drawable {
		f.Ascent, f.Descent = within(r, c), within(r, c)
	}
	// The font's bounds.
	f.XMin, f.YMin, f.XMax, f.YMax = within(r, c), within(r, c), within(r, c), within(r, c)
	if o.Honest {
		f.XMin, f.YMin, f.XMax, f.YMax = 0, 0, 0, 0
		for _, g := range f.Glyphs {
			f.XMin, f.YMin = min(f.XMin, g.XMin), min(f.YMin, g.YMin)
			f.XMax, f.YMax = max(f.XMax, g.XMax), max(f.YMax, g.YMax)
		}
	}
	f.LocaLong = r.IntN(2) == 0
	f.randCmap(r, o)
	f.randNames(r)
	if o.Kern && r.IntN(4) != 0 {
		f.HasKern = true
		m := pick(r, 1, 2, 3, r.IntN(60))
		if r.IntN(10) == 0 {
			m = 500
		}
		seen := map[[2]uint16]bool{}
		for i := 0; i < m; i++ {
			k := KernPair{uint16(r.IntN(n)), uint16(r.IntN(n)), within(r, min(c, f.UPEM/2))}
			if !o.Drawable && r.IntN(4) == 0 {
				k.L, k.R = uint16(r.UintN(65536)), uint16(r.UintN(65536))
			}
			if !seen[[2]uint16{k.L, k.R}] {
				seen[[2]uint16{k.L, k.R}] = true
				f.Kern = append(f.Kern, k)
			}
		}
		sort.Slice(f.Kern, func(i, j int) bool {
			a, b := f.Kern[i], f.Kern[j]
			return a.L < b.L || a.L == b.L && a.R < b.R
		})
	}
	if !o.Plain && r.IntN(3) == 0 {
		f.DeviceSize = n + 2
		if r.IntN(3) != 0 {
			f.DeviceSize = (n + 2 + 3) &^ 3
		}
		used := map[uint8]bool{}
		for k := 1 + r.IntN(6); k > 0; k-- {
			p := uint8(1 + r.IntN(60))
			if used[p] {
				continue
			}
			used[p] = true
			d := DeviceRec{PPEM: p}
			for i := 0; i < n; i++ {
				d.Widths = append(d.Widths, uint8(r.UintN(256)))
			}
			f.Device = append(f.Device, d)
		}
		sort.Slice(f.Device, func(i, j int) bool { return f.Device[i].PPEM < f.Device[j].PPEM })
	}
	f.MaxTwilight = uint16(r.IntN(20))
	f.MaxStorage = uint16(r.IntN(64))
	f.MaxFunctions = uint16(r.IntN(64))
	f.MaxStack = uint16(r.IntN(400))
	if !o.Plain && r.IntN(3) == 0 {
		f.Extra = map[string][]byte{}
		for k := 1 + r.IntN(4); k > 0; k-- {
			b := make([]byte, r.IntN(40))
			for i := range b {
				b[i] = byte(r.UintN(256))
			}
			f.Extra[pick(r, "GDEF", "GPOS", "GSUB", "post", "gasp", "DSIG", "xyz ", "CVT ", "Prep", "CFF ")] = b
		}
	}
	return f
}

// Base is the first character of a font made with Opts.Runes: character
// Base+i shows glyph i.
const Base = 0x20

func (f *Font) randCmap(r *rand.Rand, o Opts) {
	n := len(f.Glyphs)
	if o.Runes {
		f.CmapSubs = []CmapSub{{Format: 4, Segs: []Seg4{{Start: Base, End: uint16(Base + n - 1), Delta: uint16(65536 - Base)}}}}
		f.CmapRecs = []CmapRec{{3, 1, 0}}
		return
	}
	for k := 1 + r.IntN(3); k > 0; k-- {
		f.CmapSubs = append(f.CmapSubs, RandCmapSub(r, n))
	}
	m := len(f.CmapSubs)
	good := false
	for k := 1 + r.IntN(5); k > 0 || !good; k-- {
		rec := CmapRec{Sub: r.IntN(m)}
		switch r.IntN(9) {
		case 0:
			rec.PID, rec.PSID = 0, 3
		case 1:
			rec.PID, rec.PSID = 0, 4
		case 2, 3:
			rec.PID, rec.PSID = 3, 1
		case 4:
			rec.PID, rec.PSID = 3, 10
		case 5:
			rec.PID, rec.PSID = 3, 0
		case 6:
			rec.PID, rec.PSID = 1, 0
		case 7:
			rec.PID, rec.PSID = pick(r, uint16(0), 1, 2, 4), pick(r, uint16(0), 1, 2, 5)
		case 8:
			rec.PID, rec.PSID = 3, pick(r, uint16(2), 3, 4, 5, 6)
		}
		f.CmapRecs = append(f.CmapRecs, rec)
		good = f.Cmap() != nil
	}
	// Subtables of other formats, which only the other records use.
	for i := range f.CmapRecs {
		rec := f.CmapRecs[i]
		chosen := f.Cmap() == &f.CmapSubs[rec.Sub]
		if !chosen && !(rec.PID == 0 && (rec.PSID == 3 || rec.PSID == 4)) && r.IntN(2) == 0 {
			f.CmapSubs = append(f.CmapSubs, CmapSub{Format: pick(r, 0, 2, 6, 14)})
			f.CmapRecs[i].Sub = len(f.CmapSubs) - 1
		}
	}
}

// RandCmapSub is a random character map of one of the supported formats.
func RandCmapSub(r *rand.Rand, nGlyphs int) CmapSub {
	s := CmapSub{Format: pick(r, 4, 4, 12)}
	k := pick(r, 0, 1, 2, 3, r.IntN(20), r.IntN(20), r.IntN(120))
	if s.Format == 4 {
		at := r.IntN(300)
		if r.IntN(4) == 0 {
			at = 0
		}
		arr := 0
		for i := 0; i < k && at <= 0xffff; i++ {
			g := Seg4{Start: uint16(at)}
			ln := pick(r, 1, 1, 2, 3, 1+r.IntN(30), 1+r.IntN(600))
			end := min(at+ln-1, 0xfffe)
			if r.IntN(200) == 0 {
				end = 0xffff // the last segment may really be one
			}
			if end < at {
				break
			}
			g.End = uint16(end)
			g.Delta = pick(r, uint16(0), uint16(r.UintN(65536)), uint16(r.UintN(65536)), uint16(-at+r.IntN(nGlyphs+1)))
			if n := end - at + 1; r.IntN(2) == 0 && arr+n < 20000 && n <= 2000 {
				arr += n + 3
				g.Glyphs = []uint16{}
				for j := 0; j < n; j++ {
					g.Glyphs = append(g.Glyphs, pick(r, uint16(0), 1, uint16(r.IntN(nGlyphs+1)), uint16(r.UintN(65536))))
				}
				g.Delta = pick(r, uint16(0), 0, uint16(r.UintN(65536)), 1, 0xffff)
			}
			s.Segs = append(s.Segs, g)
			at = end + 1 + pick(r, 0, 0, 1, r.IntN(50), r.IntN(3000))
		}
		return s
	}
	at := uint32(r.IntN(300))
	for i := 0; i < k; i++ {
		ln := uint32(pick(r, 1, 1, 2, 3, 1+r.IntN(30), 1+r.IntN(3000)))
		s.Groups = append(s.Groups, Group{at, at + ln - 1, uint32(r.UintN(65536))})
		if r.IntN(2) == 0 {
			s.Groups[i].Glyph = uint32(r.IntN(nGlyphs + 1))
		}
		at += ln + uint32(pick(r, 0, 0, 1, r.IntN(50), r.IntN(3000), r.IntN(70000)))
		if at > 0x10f000 && r.IntN(2) == 0 {
			break
		}
	}
	return s
}

func (f *Font) randNames(r *rand.Rand) {
	if r.IntN(8) == 0 {
		f.NoName = r.IntN(2) == 0
		return
	}
	for k := r.IntN(12); k > 0; k-- {
		n := NameRec{ID: uint16(r.IntN(8)), Lang: pick(r, uint16(0), 0x409, 0x407)}
		if r.IntN(10) == 0 {
			n.ID = uint16(r.UintN(65536))
		}
		switch r.IntN(7) {
		case 0:
			n.PID, n.PSID = 0, 3
		case 1:
			n.PID, n.PSID = 0, 4
		case 2:
			n.PID, n.PSID = 3, 0
		case 3:
			n.PID, n.PSID = 3, 1
		case 4:
			n.PID, n.PSID = 3, 10
		case 5:
			n.PID, n.PSID = 1, 0
		case 6:
			n.PID, n.PSID = pick(r, uint16(0), 1, 2), pick(r, uint16(0), 1, 2)
		}
		for j := r.IntN(20); j > 0; j-- {
			u := pick(r, uint16(0x20+r.IntN(96)), uint16(0x20+r.IntN(96)), uint16(r.UintN(65536)), uint16(r.IntN(0x30)), 0x7e, 0x7f, 0x1f, 0x20)
			if n.PID == 1 {
				n.Data = append(n.Data, byte(u))
			} else {
				n.Data = be16(n.Data, u)
			}
		}
		f.Names = append(f.Names, n)
	}
}

// Spread turns a font into one of up to 65535 glyphs, most of them empty, and
// tells which are not. Glyphs keep their order.
func Spread(r *rand.Rand, f *Font) []int {
	n := 32700 + r.IntN(65535-32700+1)
	if r.IntN(4) == 0 {
		n = 65535
	}
	m := len(f.Glyphs)
	at := map[int]bool{n - 1: true}
	for _, i := range []int{0, 0x7fff, 0x8000} {
		if i < n && len(at) < m {
			at[i] = true
		}
	}
	for len(at) < m {
		i := r.IntN(n)
		if r.IntN(3) == 0 {
			i = n - 1 - r.IntN(n/3)
		}
		at[i] = true
	}
	var pos []int
	for i := range at {
		pos = append(pos, i)
	}
	sort.Ints(pos)
	pos = pos[len(pos)-m:]
	gs := make([]*Glyph, n)
	for i := range gs {
		gs[i] = &Glyph{Empty: true}
	}
	adv, lsb := make([]uint16, n), make([]int16, n)
	var vadv []uint16
	var tsb []int16
	if f.VAdv != nil {
		vadv, tsb = make([]uint16, n), make([]int16, n)
	}
	for i := range adv {
		adv[i], lsb[i] = uint16(r.IntN(2000)), int16(r.IntN(400)-200)
		if vadv != nil {
			vadv[i], tsb[i] = uint16(r.IntN(2000)), int16(r.IntN(400)-200)
		}
	}
	for i, g := range f.Glyphs {
		for k := range g.Components {
			g.Components[k].Glyph = uint16(pos[g.Components[k].Glyph])
		}
		gs[pos[i]], adv[pos[i]], lsb[pos[i]] = g, f.Adv[i], f.LSB[i]
	}
	f.Glyphs, f.Adv, f.LSB, f.VAdv, f.TSB = gs, adv, lsb, vadv, tsb
	f.NHM = n - r.IntN(3)*r.IntN(n/2)
	f.NVM = n
	if f.Vhea {
		f.NVM = n - r.IntN(3)*r.IntN(n/2)
	}
	for k := range f.Device {
		d := &f.Device[k]
		d.Widths = make([]uint8, n)
		for i := range d.Widths {
			d.Widths[i] = uint8(r.UintN(256))
		}
	}
	if len(f.Device) > 0 {
		f.DeviceSize = (n + 2 + 3) &^ 3
	}
	f.LocaLong = f.LocaLong || r.IntN(2) == 0
	return pos
}
