package fontgen

import (
	"encoding/binary"
	"fmt"
)

// Decode reads a well-formed font file (such as one that was not made here).
// It panics on malformed ones.
func Decode(b []byte) *Font {
	u16 := func(b []byte, i int) int { return int(binary.BigEndian.Uint16(b[i:])) }
	s16 := func(b []byte, i int) int16 { return int16(binary.BigEndian.Uint16(b[i:])) }
	u32 := func(b []byte, i int) int { return int(binary.BigEndian.Uint32(b[i:])) }
	t := map[string][]byte{}
	for i := 0; i < u16(b, 4); i++ {
		e := b[12+16*i:]
		t[string(e[:4])] = b[u32(e, 8) : u32(e, 8)+u32(e, 12)]
	}
	f := &Font{}
	head, maxp, hhea := t["head"], t["maxp"], t["hhea"]
	f.UPEM = u16(head, 18)
	f.XMin, f.YMin, f.XMax, f.YMax = s16(head, 36), s16(head, 38), s16(head, 40), s16(head, 42)
	f.LocaLong = u16(head, 50) == 1
	f.Ascent, f.Descent = s16(hhea, 4), s16(hhea, 6)
	f.NHM = u16(hhea, 34)
	n := u16(maxp, 4)
	f.MaxTwilight, f.MaxStorage = uint16(u16(maxp, 16)), uint16(u16(maxp, 18))
	f.MaxFunctions, f.MaxStack = uint16(u16(maxp, 20)), uint16(u16(maxp, 24))
	hmtx := t["hmtx"]
	for i := 0; i < n; i++ {
		if i < f.NHM {
			f.Adv, f.LSB = append(f.Adv, uint16(u16(hmtx, 4*i))), append(f.LSB, s16(hmtx, 4*i+2))
		} else {
			f.Adv, f.LSB = append(f.Adv, 0), append(f.LSB, s16(hmtx, 4*f.NHM+2*(i-f.NHM)))
		}
	}
	if vmtx := t["vmtx"]; vmtx != nil {
		f.NVM = n
		if vhea := t["vhea"]; vhea != nil {
			f.Vhea, f.NVM = true, u16(vhea, 34)
		}
		for i := 0; i < n; i++ {
			if i < f.NVM {
				f.VAdv, f.TSB = append(f.VAdv, uint16(u16(vmtx, 4*i))), append(f.TSB, s16(vmtx, 4*i+2))
			} else {
				f.VAdv, f.TSB = append(f.VAdv, 0), append(f.TSB, s16(vmtx, 4*f.NVM+2*(i-f.NVM)))
			}
		}
	}
	if o := t["OS/2"]; o != nil {
		f.OS2 = len(o)
		if len(o) >= 72 {
			f.TypoAsc, f.TypoDesc = s16(o, 68), s16(o, 70)
		}
	}
	for i := 0; i < n; i++ {
		var g0, g1 int
		if f.LocaLong {
			g0, g1 = u32(t["loca"], 4*i), u32(t["loca"], 4*i+4)
		} else {
			g0, g1 = 2*u16(t["loca"], 2*i), 2*u16(t["loca"], 2*i+2)
		}
		f.Glyphs = append(f.Glyphs, decodeGlyph(t["glyf"][g0:g1]))
	}
	// cmap
	cmap := t["cmap"]
	subs := map[int]int{}
	for i := 0; i < u16(cmap, 2); i++ {
		o := u32(cmap, 4+8*i+4)
		if _, ok := subs[o]; !ok {
			subs[o] = len(f.CmapSubs)
			f.CmapSubs = append(f.CmapSubs, decodeCmap(cmap[o:]))
		}
		f.CmapRecs = append(f.CmapRecs, CmapRec{uint16(u16(cmap, 4+8*i)), uint16(u16(cmap, 6+8*i)), subs[o]})
	}
	if k := t["kern"]; k != nil {
		f.HasKern = true
		for i := 0; i < u16(k, 10); i++ {
			f.Kern = append(f.Kern, KernPair{uint16(u16(k, 18+6*i)), uint16(u16(k, 20+6*i)), s16(k, 22+6*i)})
		}
	}
	if nm := t["name"]; nm != nil {
		for i := 0; i < u16(nm, 2); i++ {
			e := nm[6+12*i:]
			o := u16(nm, 4) + u16(e, 10)
			f.Names = append(f.Names, NameRec{uint16(u16(e, 0)), uint16(u16(e, 2)), uint16(u16(e, 4)), uint16(u16(e, 6)), nm[o : o+u16(e, 8)]})
		}
	}
	if h := t["hdmx"]; h != nil {
		f.DeviceSize = u32(h, 4)
		for i := 0; i < u16(h, 2); i++ {
			e := h[8+i*f.DeviceSize:]
			f.Device = append(f.Device, DeviceRec{e[0], e[2 : 2+n]})
		}
	}
	for c := t["cvt "]; len(c) >= 2; c = c[2:] {
		f.CVT = append(f.CVT, s16(c, 0))
	}
	f.FPGM, f.Prep = t["fpgm"], t["prep"]
	return f
}

func decodeGlyph(b []byte) *Glyph {
	u16 := func(i int) int { return int(binary.BigEndian.Uint16(b[i:])) }
	s16 := func(i int) int16 { return int16(binary.BigEndian.Uint16(b[i:])) }
	g := &Glyph{}
	if len(b) == 0 {
		g.Empty = true
		return g
	}
	g.XMin, g.YMin, g.XMax, g.YMax = s16(2), s16(4), s16(6), s16(8)
	p := 10
	if n := int(s16(0)); n >= 0 {
		ends := []int{}
		for i := 0; i < n; i++ {
			ends = append(ends, u16(p)+1)
			p += 2
		}
		il := u16(p)
		g.Program = b[p+2 : p+2+il]
		p += 2 + il
		if n == 0 {
			return g
		}
		np := ends[n-1]
		var fl []byte
		for len(fl) < np {
			f := b[p]
			p++
			fl = append(fl, f)
			if f&8 != 0 {
				for k := b[p]; k > 0; k-- {
					fl = append(fl, f)
				}
				p++
			}
		}
		pts := make([]Pt, np)
		v := int16(0)
		for i := range pts {
			switch {
			case fl[i]&0x12 == 0x12:
				v += int16(b[p])
				p++
			case fl[i]&0x12 == 0x02:
				v -= int16(b[p])
				p++
			case fl[i]&0x12 == 0:
				v += s16(p)
				p += 2
			}
			pts[i].X, pts[i].On = v, fl[i]&1 != 0
		}
		v = 0
		for i := range pts {
			switch {
			case fl[i]&0x24 == 0x24:
				v += int16(b[p])
				p++
			case fl[i]&0x24 == 0x04:
				v -= int16(b[p])
				p++
			case fl[i]&0x24 == 0:
				v += s16(p)
				p += 2
			}
			pts[i].Y = v
		}
		at := 0
		for _, e := range ends {
			g.Contours = append(g.Contours, pts[at:e])
			at = e
		}
		return g
	}
	for more := true; more; {
		f := u16(p)
		c := Component{Glyph: uint16(u16(p + 2)), RoundXY: f&4 != 0, UseMetrics: f&0x200 != 0}
		if f&2 == 0 {
			panic("fontgen: point matching not decoded")
		}
		p += 4
		if f&1 != 0 {
			c.DX, c.DY = s16(p), s16(p+2)
			p += 4
		} else {
			c.DX, c.DY = int16(int8(b[p])), int16(int8(b[p+1]))
			p += 2
		}
		switch {
		case f&8 != 0:
			c.Kind, c.M = 1, [4]int16{s16(p), 0, 0, s16(p)}
			p += 2
		case f&0x40 != 0:
			c.Kind, c.M = 2, [4]int16{s16(p), 0, 0, s16(p + 2)}
			p += 4
		case f&0x80 != 0:
			c.Kind, c.M = 3, [4]int16{s16(p), s16(p + 2), s16(p + 4), s16(p + 6)}
			p += 8
		}
		g.Components = append(g.Components, c)
		more = f&0x20 != 0
		if !more && f&0x100 != 0 {
			il := u16(p)
			g.Program = b[p+2 : p+2+il]
		}
	}
	return g
}

func decodeCmap(b []byte) CmapSub {
	u16 := func(i int) int { return int(binary.BigEndian.Uint16(b[i:])) }
	u32 := func(i int) uint32 { return binary.BigEndian.Uint32(b[i:]) }
	s := CmapSub{Format: u16(0)}
	switch s.Format {
	case 4:
		n := u16(6) / 2
		for i := 0; i < n; i++ {
			g := Seg4{End: uint16(u16(14 + 2*i)), Start: uint16(u16(16 + 2*n + 2*i)), Delta: uint16(u16(16 + 4*n + 2*i))}
			at := 16 + 6*n + 2*i
			if o := u16(at); o != 0 {
				g.Glyphs = []uint16{}
				for c := int(g.Start); c <= int(g.End); c++ {
					q := at + o + 2*(c-int(g.Start))
					if q+2 > len(b) {
						g.Glyphs = append(g.Glyphs, 0)
						continue
					}
					g.Glyphs = append(g.Glyphs, uint16(u16(q)))
				}
			}
			s.Segs = append(s.Segs, g)
		}
	case 12:
		for i := 0; i < int(u32(12)); i++ {
			s.Groups = append(s.Groups, Group{u32(16 + 12*i), u32(20 + 12*i), u32(24 + 12*i)})
		}
	case 0, 2, 6, 14:
	default:
		panic(fmt.Sprint("fontgen: cmap format ", s.Format))
	}
	return s
}
