// Package fontgen models TrueType fonts: a Font is the meaning of a font
// file, which can be encoded in many ways, generated at random, and decoded
// from real fonts. It shares no code with the package under test.
package fontgen

import (
	"encoding/binary"
	"fmt"
	"math/rand/v2"
	"sort"
)

// A Pt is a point of a contour.
type Pt struct {
	X, Y int16
	On   bool
}

// A Component is a component of a composite glyph.
type Component struct {
	Glyph      uint16
	DX, DY     int16
	RoundXY    bool
	UseMetrics bool
	// Match places the component by matching points: its point DY goes to
	// where point DX of the composite so far is.
	Match bool
	// Kind is the kind of transform: 0 none, 1 scale, 2 x and y scale, 3 matrix.
	Kind int
	M    [4]int16 // 2.14: x' = M0 x + M2 y, y' = M1 x + M3 y
}

// A Glyph is a glyph: empty, simple or composite.
type Glyph struct {
	Empty      bool
	Contours   [][]Pt
	Components []Component
	XMin, YMin int16
	XMax, YMax int16
	Program    []byte
}

// Composite tells whether the glyph is one.
func (g *Glyph) Composite() bool { return len(g.Components) > 0 }

// NPoints is the number of points of a simple glyph.
func (g *Glyph) NPoints() (n int) {
	for _, c := range g.Contours {
		n += len(c)
	}
	return
}

// A Seg4 is a segment of a format 4 character map.
type Seg4 struct {
	Start, End uint16
	Delta      uint16
	Glyphs     []uint16 // nil for a segment that uses the delta alone
}

// A Group is a group of a format 12 character map.
type Group struct{ Start, End, Glyph uint32 }

// A CmapSub is a character map subtable.
type CmapSub struct {
	Format int // 4, 12, or another one that the package does not support
	Segs   []Seg4
	Groups []Group
}

// Lookup is the glyph that the subtable maps a character to.
func (s *CmapSub) Lookup(r int32) uint16 {
	switch s.Format {
	case 4:
		for _, g := range s.Segs {
			if r >= int32(g.Start) && r <= int32(g.End) {
				if g.Glyphs == nil {
					return uint16(r) + g.Delta
				}
				if x := g.Glyphs[r-int32(g.Start)]; x != 0 {
					return x + g.Delta
				}
				return 0
			}
		}
	case 12:
		for _, g := range s.Groups {
			if r >= 0 && uint32(r) >= g.Start && uint32(r) <= g.End {
				return uint16(g.Glyph + uint32(r) - g.Start)
			}
		}
	}
	return 0
}

// A CmapRec is an encoding record.
type CmapRec struct {
	PID, PSID uint16
	Sub       int
}

// A NameRec is a name record.
type NameRec struct {
	PID, PSID, Lang, ID uint16
	Data                []byte
}

// A KernPair is a kerning pair.
type KernPair struct {
	L, R  uint16
	Value int16
}

// A DeviceRec is a device metrics record.
type DeviceRec struct {
	PPEM   uint8
	Widths []uint8
}

// A Font is the meaning of a font file.
type Font struct {
	UPEM                   int
	XMin, YMin, XMax, YMax int16
	Ascent, Descent        int16
	LocaLong               bool
	Glyphs                 []*Glyph
	// Horizontal metrics; the first NHM have their own advance.
	Adv []uint16
	LSB []int16
	NHM int
	// Vertical metrics, if VAdv is not nil.
	VAdv []uint16
	TSB  []int16
	NVM  int
	Vhea bool
	// OS2 is the length of the OS/2 table, or 0.
	OS2                 int
	TypoAsc, TypoDesc   int16
	CmapSubs            []CmapSub
	CmapRecs            []CmapRec
	Names               []NameRec
	Kern                []KernPair
	HasKern             bool
	Device              []DeviceRec
	DeviceSize          int
	CVT                 []int16
	FPGM, Prep          []byte
	MaxTwilight         uint16
	MaxStorage          uint16
	MaxFunctions        uint16
	MaxStack            uint16
	Extra               map[string][]byte
	NoName, NoCVT, NoOS bool
}

// Advance is the advance width of a glyph, in font units.
func (f *Font) Advance(i int) uint16 {
	if i >= f.NHM {
		i = f.NHM - 1
	}
	return f.Adv[i]
}

// VMetrics are the vertical metrics of a glyph whose outline's top is yMax.
func (f *Font) VMetrics(i int, yMax int) (advance, bearing int) {
	if f.VAdv != nil {
		j := i
		if f.Vhea && j >= f.NVM {
			j = f.NVM - 1
		}
		return int(f.VAdv[j]), int(f.TSB[i])
	}
	if f.OS2 >= 72 {
		return int(f.TypoAsc) - int(f.TypoDesc), int(f.TypoAsc) - yMax
	}
	return f.UPEM, 0
}

// Cmap is the preferred character map: the first Unicode one, or else the
// last Microsoft one; nil if there is none.
func (f *Font) Cmap() *CmapSub {
	best := -1
	for _, r := range f.CmapRecs {
		if r.PID == 0 && (r.PSID == 3 || r.PSID == 4) {
			best = r.Sub
			break
		}
		if r.PID == 3 && (r.PSID == 0 || r.PSID == 1 || r.PSID == 10) {
			best = r.Sub
		}
	}
	if best < 0 {
		return nil
	}
	return &f.CmapSubs[best]
}

// Name is what a name query must give.
func (f *Font) Name(id uint16) string {
	best := -1
	for i, r := range f.Names {
		if r.ID != id {
			continue
		}
		if r.PID == 0 && (r.PSID == 3 || r.PSID == 4) {
			best = i
			break
		}
		if r.PID == 3 && (r.PSID == 0 || r.PSID == 1 || r.PSID == 10) {
			best = i
		}
	}
	if best < 0 || len(f.Names[best].Data)%2 != 0 {
		return ""
	}
	out := ""
	for d := f.Names[best].Data; len(d) > 0; d = d[2:] {
		if d[0] == 0 && d[1] >= ' ' && d[1] <= '~' {
			out += string(rune(d[1]))
		} else {
			out += "?"
		}
	}
	return out
}

// KernValue is the kerning of a pair, in font units.
func (f *Font) KernValue(l, r uint16) int16 {
	i := sort.Search(len(f.Kern), func(i int) bool {
		k := f.Kern[i]
		return k.L > l || k.L == l && k.R >= r
	})
	if i < len(f.Kern) && f.Kern[i].L == l && f.Kern[i].R == r {
		return f.Kern[i].Value
	}
	return 0
}

// MaxAbs bounds the absolute values that get multiplied by the scale.
func (f *Font) MaxAbs() int64 {
	m := int64(f.UPEM)
	upd := func(xs ...int) {
		for _, x := range xs {
			if x < 0 {
				x = -x
			}
			m = max(m, int64(x))
		}
	}
	upd(int(f.XMin), int(f.YMin), int(f.XMax), int(f.YMax), int(f.Ascent), int(f.Descent), int(f.TypoAsc)-int(f.TypoDesc))
	for i, g := range f.Glyphs {
		pp1 := int(g.XMin) - int(f.LSB[i])
		va, tsb := f.VMetrics(i, int(g.YMax))
		upd(pp1, int(f.Advance(i)), pp1+int(f.Advance(i)), int(g.YMax)+tsb, int(g.YMax)+tsb-va, int(f.LSB[i]), va, tsb, tsb+int(g.YMax))
		va, tsb = f.VMetrics(i, 0)
		upd(va, tsb)
		for _, c := range g.Contours {
			for _, p := range c {
				upd(int(p.X), int(p.Y))
			}
		}
		for _, c := range g.Components {
			upd(int(c.DX), int(c.DY))
		}
	}
	for _, k := range f.Kern {
		upd(int(k.Value))
	}
	for _, v := range f.CVT {
		upd(int(v))
	}
	return m
}

// MaxScale is the largest scale that cannot overflow.
func (f *Font) MaxScale() int64 {
	return (1<<31 - 1 - 1<<14) / f.MaxAbs()
}

func be16(b []byte, v uint16) []byte { return binary.BigEndian.AppendUint16(b, v) }
func be32(b []byte, v uint32) []byte { return binary.BigEndian.AppendUint32(b, v) }

// EncodeGlyph encodes a glyph's data in one of its valid encodings.
func EncodeGlyph(r *rand.Rand, g *Glyph) []byte {
	if g.Empty {
		return nil
	}
	var b []byte
	n := uint16(len(g.Contours))
	if g.Composite() {
		n = 0xffff
	}
	for _, v := range []uint16{n, uint16(g.XMin), uint16(g.YMin), uint16(g.XMax), uint16(g.YMax)} {
		b = be16(b, v)
	}
	if g.Composite() {
		return encodeComposite(r, g, b)
	}
	np := 0
	for _, c := range g.Contours {
		np += len(c)
		b = be16(b, uint16(np-1))
	}
	b = be16(b, uint16(len(g.Program)))
	b = append(b, g.Program...)
	var flags, xs, ys []byte
	var fl []byte
	px, py := int16(0), int16(0)
	long := r.IntN(4) // how often short values are encoded as long ones
	overlap := byte(0)
	if r.IntN(4) == 0 {
		overlap = 0x40
	}
	for _, c := range g.Contours {
		for _, p := range c {
			f := overlap
			if r.IntN(2) == 0 {
				overlap = 0 // the flag matters on the first point only
			}
			if p.On {
				f |= 1
			}
			f |= encodeDelta(r, &xs, int(p.X)-int(px), 0x02, 0x10, long)
			f |= encodeDelta(r, &ys, int(p.Y)-int(py), 0x04, 0x20, long)
			px, py = p.X, p.Y
			fl = append(fl, f)
		}
	}
	rep := r.IntN(3)
	for i := 0; i < len(fl); {
		j := i + 1
		for j < len(fl) && fl[j] == fl[i] && j-i < 256 {
			j++
		}
		if n := j - i; rep != 0 && (n > 1 || r.IntN(8) == 0) && r.IntN(4) != 0 {
			if r.IntN(4) == 0 {
				n = 1 + r.IntN(n) // split a run, even into nothing repeated
			}
			flags = append(flags, fl[i]|8, byte(n-1))
			i += n
			continue
		}
		flags = append(flags, fl[i])
		i++
	}
	b = append(b, flags...)
	b = append(b, xs...)
	b = append(b, ys...)
	// Trailing bytes are not part of the glyph.
	for k := r.IntN(4); k > 0 && r.IntN(3) == 0; k-- {
		b = append(b, byte(r.UintN(256)))
	}
	return b
}

func encodeDelta(r *rand.Rand, out *[]byte, d int, short, same byte, long int) byte {
	if d < -32768 || d > 32767 {
		panic("fontgen: delta out of range")
	}
	if d == 0 && r.IntN(8) != 0 && long != 3 {
		return same
	}
	if d >= -255 && d <= 255 && (long == 0 || r.IntN(4) >= long) {
		if d > 0 || d == 0 && r.IntN(2) == 0 {
			*out = append(*out, byte(d))
			return short | same
		}
		*out = append(*out, byte(-d))
		return short
	}
	*out = be16(*out, uint16(int16(d)))
	return 0
}

func encodeComposite(r *rand.Rand, g *Glyph, b []byte) []byte {
	for i, c := range g.Components {
		f := uint16(2) // arguments are offsets
		words := c.DX != int16(int8(c.DX)) || c.DY != int16(int8(c.DY)) || r.IntN(3) == 0
		if words {
			f |= 1
		}
		if c.Match {
			f &^= 2
		}
		if c.RoundXY {
			f |= 4
		}
		switch c.Kind {
		case 1:
			f |= 8
		case 2:
			f |= 0x40
		case 3:
			f |= 0x80
		}
		if i+1 < len(g.Components) {
			f |= 0x20
		}
		if len(g.Program) > 0 {
			f |= 0x100
		}
		if c.UseMetrics {
			f |= 0x200
		}
		if r.IntN(6) == 0 {
			f |= 0x400 // components overlap
		}
		b = be16(be16(b, f), c.Glyph)
		if words {
			b = be16(be16(b, uint16(c.DX)), uint16(c.DY))
		} else {
			b = append(b, byte(c.DX), byte(c.DY))
		}
		switch c.Kind {
		case 1:
			b = be16(b, uint16(c.M[0]))
		case 2:
			b = be16(be16(b, uint16(c.M[0])), uint16(c.M[3]))
		case 3:
			for _, v := range c.M {
				b = be16(b, uint16(v))
			}
		}
	}
	if len(g.Program) > 0 {
		b = be16(b, uint16(len(g.Program)))
		b = append(b, g.Program...)
	} else {
		// Trailing bytes are not part of the glyph, nor instructions.
		for k := r.IntN(6); k > 0 && r.IntN(3) == 0; k-- {
			b = append(b, byte(r.UintN(256)))
		}
	}
	return b
}

// encodeCmapSub encodes a subtable.
func encodeCmapSub(r *rand.Rand, s *CmapSub) []byte {
	switch s.Format {
	case 4:
		segs := s.Segs
		if len(segs) == 0 || segs[len(segs)-1].End != 0xffff {
			segs = append(append([]Seg4{}, segs...), Seg4{Start: 0xffff, End: 0xffff, Delta: 1})
		}
		n := len(segs)
		var arr []uint16
		offs := make([]uint16, n)
		order := r.Perm(n)
		for _, i := range order {
			g := segs[i].Glyphs
			if g == nil {
				continue
			}
			// Share an equal run of the array, or append.
			at := -1
			if r.IntN(2) == 0 {
				for k := 0; k+len(g) <= len(arr) && k < 200; k++ {
					eq := true
					for j := range g {
						if arr[k+j] != g[j] {
							eq = false
							break
						}
					}
					if eq {
						at = k
						break
					}
				}
			}
			if at < 0 {
				for k := r.IntN(3); k > 0; k-- {
					arr = append(arr, uint16(r.UintN(65536)))
				}
				at = len(arr)
				arr = append(arr, g...)
			}
			o := 2 * (n - i + at)
			if o > 65535 {
				panic("fontgen: glyph array too far")
			}
			offs[i] = uint16(o)
		}
		sr := 2
		for sr*2 <= 2*n {
			sr *= 2
		}
		b := be16(nil, 4)
		b = be16(b, uint16(16+8*n+2*len(arr)))
		b = be16(b, 0)
		b = be16(b, uint16(2*n))
		b = be16(b, uint16(sr))
		b = be16(b, uint16(r.UintN(16)))
		b = be16(b, uint16(2*n-sr))
		for _, g := range segs {
			b = be16(b, g.End)
		}
		b = be16(b, 0)
		for _, g := range segs {
			b = be16(b, g.Start)
		}
		for _, g := range segs {
			b = be16(b, g.Delta)
		}
		for _, o := range offs {
			b = be16(b, o)
		}
		for _, a := range arr {
			b = be16(b, a)
		}
		return b
	case 12:
		b := be16(be16(nil, 12), 0)
		b = be32(b, uint32(16+12*len(s.Groups)))
		b = be32(b, 0)
		b = be32(b, uint32(len(s.Groups)))
		for _, g := range s.Groups {
			b = be32(be32(be32(b, g.Start), g.End), g.Glyph)
		}
		return b
	}
	// Some other format, in which the package must not look.
	b := be16(be16(nil, uint16(s.Format)), 262)
	b = be16(b, 0)
	for i := 0; i < 256; i++ {
		b = append(b, byte(r.UintN(256)))
	}
	return b
}

func (f *Font) encodeCmap(r *rand.Rand) []byte {
	b := be16(be16(nil, 0), uint16(len(f.CmapRecs)))
	base := 4 + 8*len(f.CmapRecs)
	var subs []byte
	offs := make([]int, len(f.CmapSubs))
	for _, i := range r.Perm(len(f.CmapSubs)) {
		// Offsets are counted in bytes, and may be odd or need over 16 bits.
		gap := 2 * r.IntN(3)
		switch r.IntN(16) {
		case 0, 1, 2:
			gap = 1 + 2*r.IntN(3)
		case 3:
			if r.IntN(8) == 0 {
				gap = 0xff00 + r.IntN(0x300)
			}
		}
		for k := gap; k > 0; k-- {
			subs = append(subs, byte(r.UintN(256)))
		}
		offs[i] = base + len(subs)
		subs = append(subs, encodeCmapSub(r, &f.CmapSubs[i])...)
	}
	for _, rec := range f.CmapRecs {
		b = be32(be16(be16(b, rec.PID), rec.PSID), uint32(offs[rec.Sub]))
	}
	return append(b, subs...)
}

func (f *Font) encodeName(r *rand.Rand) []byte {
	var data []byte
	b := be16(be16(nil, 0), uint16(len(f.Names)))
	base := 6 + 12*len(f.Names) + 2*r.IntN(3)
	b = be16(b, uint16(base))
	for _, n := range f.Names {
		for k := r.IntN(3); k > 0; k-- {
			data = append(data, byte(r.UintN(256)))
		}
		b = be16(be16(be16(be16(b, n.PID), n.PSID), n.Lang), n.ID)
		b = be16(be16(b, uint16(len(n.Data))), uint16(len(data)))
		data = append(data, n.Data...)
	}
	for len(b) < base {
		b = append(b, byte(r.UintN(256)))
	}
	return append(b, data...)
}

// Tables encodes the font's tables, in one of the valid ways.
func (f *Font) Tables(r *rand.Rand) map[string][]byte {
	t := map[string][]byte{}
	for k, v := range f.Extra {
		t[k] = v
	}
	// glyf and loca
	var glyf []byte
	offs := []uint32{}
	align := []int{2, 4, 4, 16}[r.IntN(4)]
	if f.LocaLong && r.IntN(2) == 0 {
		align = 1
	}
	var data [][]byte
	total := 0
	for _, g := range f.Glyphs {
		d := EncodeGlyph(r, g)
		for len(d)%align != 0 {
			d = append(d, 0)
		}
		data = append(data, d)
		total += len(d)
	}
	// Now and then with unused bytes before the first or after some glyph, such
	// that later ones lie beyond 32 or 64 KB (short offsets reach 128 KB).
	padAt, pad := -1, 0
	if r.IntN(40) == 0 {
		padAt = r.IntN(len(f.Glyphs)+1) - 1
		pad = ([]int{0x7f00, 0xff00, 0x10000, 0x17f00}[r.IntN(4)] + r.IntN(0x200)) &^ 15
		if !f.LocaLong && total+pad > 2*65535 {
			pad = 0
		}
	}
	if padAt < 0 {
		glyf = append(glyf, make([]byte, pad)...)
	}
	for i, d := range data {
		offs = append(offs, uint32(len(glyf)))
		glyf = append(glyf, d...)
		if i == padAt && len(d) > 0 {
			glyf = append(glyf, make([]byte, pad)...)
		}
	}
	offs = append(offs, uint32(len(glyf)))
	var loca []byte
	for _, o := range offs {
		if f.LocaLong {
			loca = be32(loca, o)
		} else {
			if o > 2*65535 {
				panic("fontgen: glyf too large for short offsets")
			}
			loca = be16(loca, uint16(o/2))
		}
	}
	t["glyf"], t["loca"] = glyf, loca
	// head
	b := be32(be32(be32(nil, 0x10000), 0x10000), r.Uint32())
	b = be32(b, 0x5f0f3cf5)
	b = be16(be16(b, uint16(r.UintN(32))), uint16(f.UPEM))
	b = be32(be32(be32(be32(b, 0), r.Uint32()), 0), r.Uint32())
	for _, v := range []int16{f.XMin, f.YMin, f.XMax, f.YMax} {
		b = be16(b, uint16(v))
	}
	b = be16(be16(be16(b, 0), 8), 2)
	if f.LocaLong {
		b = be16(b, 1)
	} else {
		b = be16(b, 0)
	}
	t["head"] = be16(b, 0)
	// hhea, hmtx
	b = be16(be16(be16(be32(nil, 0x10000), uint16(f.Ascent)), uint16(f.Descent)), uint16(r.UintN(300)))
	for len(b) < 34 {
		b = append(b, 0)
	}
	t["hhea"] = be16(b, uint16(f.NHM))
	b = nil
	for i := range f.Glyphs {
		if i < f.NHM {
			b = be16(b, f.Adv[i])
		}
		b = be16(b, uint16(f.LSB[i]))
	}
	t["hmtx"] = b
	if f.VAdv != nil {
		b = nil
		for i := range f.Glyphs {
			if i < f.NVM {
				b = be16(b, f.VAdv[i])
			}
			b = be16(b, uint16(f.TSB[i]))
		}
		t["vmtx"] = b
		if f.Vhea {
			b = be32(nil, 0x10000)
			for len(b) < 34 {
				b = append(b, 0)
			}
			t["vhea"] = be16(b, uint16(f.NVM))
		}
	}
	if f.OS2 > 0 {
		b = make([]byte, f.OS2)
		for i := range b {
			b[i] = byte(r.UintN(256))
		}
		if f.OS2 >= 72 {
			binary.BigEndian.PutUint16(b[68:], uint16(f.TypoAsc))
			binary.BigEndian.PutUint16(b[70:], uint16(f.TypoDesc))
		}
		t["OS/2"] = b
	}
	// maxp
	b = be16(be32(nil, 0x10000), uint16(len(f.Glyphs)))
	for len(b) < 16 {
		b = be16(b, uint16(r.UintN(100)))
	}
	b = be16(be16(be16(b, f.MaxTwilight), f.MaxStorage), f.MaxFunctions)
	b = be16(be16(b, 0), f.MaxStack)
	for len(b) < 32 {
		b = be16(b, uint16(r.UintN(100)))
	}
	t["maxp"] = b
	t["cmap"] = f.encodeCmap(r)
	if !f.NoName {
		t["name"] = f.encodeName(r)
	}
	if f.HasKern {
		b = be16(be16(nil, 0), 1)
		n := len(f.Kern)
		b = be16(be16(be16(b, 0), uint16(14+6*n)), 1)
		b = be16(be16(be16(be16(b, uint16(n)), uint16(r.UintN(100))), uint16(r.UintN(10))), uint16(r.UintN(100)))
		for _, k := range f.Kern {
			b = be16(be16(be16(b, k.L), k.R), uint16(k.Value))
		}
		t["kern"] = b
	}
	if len(f.Device) > 0 {
		b = be32(be16(be16(nil, 0), uint16(len(f.Device))), uint32(f.DeviceSize))
		for _, d := range f.Device {
			rec := append([]byte{d.PPEM, 0}, d.Widths...)
			for len(rec) < f.DeviceSize {
				rec = append(rec, 0)
			}
			b = append(b, rec...)
		}
		t["hdmx"] = b
	}
	if len(f.CVT) > 0 {
		b = nil
		for _, v := range f.CVT {
			b = be16(b, uint16(v))
		}
		t["cvt "] = b
	}
	if len(f.FPGM) > 0 {
		t["fpgm"] = f.FPGM
	}
	if len(f.Prep) > 0 {
		t["prep"] = f.Prep
	}
	return t
}

// A Layout says how tables are laid out in a file.
type Layout struct {
	SortedDir, SortedData bool
	Pad                   int // alignment
	Gaps                  bool
	Trailing              int
	TTC                   int  // number of members, 0 for a plain file
	DirLast               bool // in a collection, the data comes before the directory
	BadSums               bool
}

// RandLayout is any layout.
func RandLayout(r *rand.Rand) Layout {
	l := Layout{
		SortedDir:  r.IntN(2) == 0,
		SortedData: r.IntN(2) == 0,
		Pad:        []int{1, 2, 4, 16}[r.IntN(4)],
		Gaps:       r.IntN(2) == 0,
		BadSums:    r.IntN(2) == 0,
	}
	if r.IntN(2) == 0 {
		l.Trailing = r.IntN(50)
	}
	if r.IntN(3) == 0 {
		l.TTC = 1 + r.IntN(4)
		l.DirLast = r.IntN(3) == 0
	}
	return l
}

// Plain is the usual layout.
var Plain = Layout{SortedDir: true, SortedData: true, Pad: 4}

// File lays the tables out as a font file.
func File(r *rand.Rand, tables map[string][]byte, l Layout) []byte {
	var names []string
	for k := range tables {
		names = append(names, k)
	}
	sort.Strings(names)
	dir := append([]string{}, names...)
	if !l.SortedDir {
		r.Shuffle(len(dir), func(i, j int) { dir[i], dir[j] = dir[j], dir[i] })
	}
	data := append([]string{}, names...)
	if !l.SortedData {
		r.Shuffle(len(data), func(i, j int) { data[i], data[j] = data[j], data[i] })
	}
	n := len(dir)
	dirLen := 12 + 16*n
	// What comes first: the header of a collection.
	var b []byte
	if l.TTC > 0 {
		v := uint32(0x10000)
		if r.IntN(2) == 0 {
			v = 0x20000
		}
		b = be32(be32(be32(b, 0x74746366), v), uint32(l.TTC))
		head := 12 + 4*l.TTC
		if v == 0x20000 {
			head += 12
		}
		if l.Gaps {
			head += 4 * r.IntN(4)
		}
		for len(b) < head {
			b = append(b, byte(r.UintN(256)))
		}
	}
	// The tables' data, which starts at bodyAt.
	bodyAt := len(b)
	if !l.DirLast || l.TTC == 0 {
		bodyAt += dirLen
	}
	off := map[string]int{}
	var body []byte
	junk := func(k int) {
		for ; k > 0; k-- {
			if l.Gaps {
				body = append(body, byte(r.UintN(256)))
			} else {
				body = append(body, 0)
			}
		}
	}
	for _, k := range data {
		if l.Gaps {
			junk(r.IntN(9))
		}
		for (bodyAt+len(body))%l.Pad != 0 {
			junk(1)
		}
		off[k] = bodyAt + len(body)
		body = append(body, tables[k]...)
	}
	// The directory.
	sr := 16
	sel := 0
	for sr*2 <= 16*n {
		sr *= 2
		sel++
	}
	hints := []uint16{uint16(sr), uint16(sel), uint16(16*n - sr)}
	if l.BadSums {
		hints = []uint16{uint16(r.UintN(65536)), uint16(r.UintN(65536)), uint16(r.UintN(65536))}
	}
	d := be16(be32(nil, 0x10000), uint16(n))
	for _, h := range hints {
		d = be16(d, h)
	}
	for _, k := range dir {
		if len(k) != 4 {
			panic(fmt.Sprintf("fontgen: table %q", k))
		}
		d = append(d, k...)
		sum := uint32(0)
		if l.BadSums {
			sum = r.Uint32()
		} else {
			for i, c := range tables[k] {
				sum += uint32(c) << (24 - 8*(i%4))
			}
		}
		d = be32(be32(be32(d, sum), uint32(off[k])), uint32(len(tables[k])))
	}
	at := len(b)
	if l.TTC > 0 && l.DirLast {
		b = append(b, body...)
		for len(b)%4 != 0 {
			b = append(b, 0)
		}
		at = len(b)
		b = append(b, d...)
	} else {
		b = append(append(b, d...), body...)
	}
	if l.TTC > 0 {
		binary.BigEndian.PutUint32(b[12:], uint32(at))
	}
	for i := 0; i < l.Trailing; i++ {
		b = append(b, byte(r.UintN(256)))
	}
	return b
}

// Encode encodes the font in one of its valid encodings, laid out plainly.
func (f *Font) Encode(r *rand.Rand) []byte {
	return File(r, f.Tables(r), Plain)
}
