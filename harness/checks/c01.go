package checks

import (
	"encoding/binary"
	"fmt"
	"math"
	"math/rand/v2"
	"slices"
	"sort"
	"strings"

	"github.com/golang/freetype/truetype"
	"golang.org/x/image/font"
	"golang.org/x/image/math/fixed"

	"verif/harness/fontgen"
	"verif/harness/mon"
	"verif/harness/ttgen"
)

func init() {
	mon.Register(&mon.Check{
		ID:   "C01",
		Rule: "A case damages a font (modelled, or of the real ones: table contents, table lengths, counts that tables share, the table directory, file bytes) or makes one hostile by construction (component bombs and cycles, extreme counts), parses it and, if it parses, asks every query with ordinary and extreme arguments and loads glyphs at ordinary and extreme scales with every hinting policy. Monitors: recovered panics, process death, a budget of 60 s of CPU time per case, of address space, and of memory per parse. Non-trivial: a damaged font; distinct by file content.",
		Assumptions: []string{
			"a case that uses 60 s of CPU time (typically it takes below 10 ms) or exhausts 4 GB of address space is taken to run without bound",
		},
		Streams: []mon.Stream{
			{Name: "bombs", Quick: 300, Thorough: 10000, Run: c01Bombs},
			{Name: "truncations", Quick: 30000, Thorough: 400000, Run: c01Truncate},
			{Name: "tables", Quick: 120000, Thorough: 4000000, Run: c01Tables},
			{Name: "directory", Quick: 30000, Thorough: 1000000, Run: c01Directory},
			{Name: "bytes", Quick: 30000, Thorough: 1000000, Run: c01Bytes},
			{Name: "counts", Quick: 40000, Thorough: 1000000, Run: c01Counts},
			{Name: "real", Quick: 3000, Thorough: 100000, Run: c01Real},
		},
		MemGB:    4,
		Required: []string{"fonts refused", "fonts parsed", "queries", "loads", "loads refused", "bombs loaded or refused", "nests of collections"},
	})
}

// exercise asks a font everything.
func exercise(c *mon.Case, ft *truetype.Font, n, loads int) {
	r := c.R
	index := func() truetype.Index {
		switch r.IntN(4) {
		case 0:
			return truetype.Index(pick(r, 0, 1, n-1, n, n+1, 0x7fff, 0x8000, 0xfffe, 0xffff) & 0xffff)
		case 1:
			return truetype.Index(r.UintN(65536))
		}
		return truetype.Index(r.IntN(max(1, n+1)))
	}
	scale := func() fixed.Int26_6 {
		switch r.IntN(8) {
		case 0:
			return pick(r, fixed.Int26_6(0), 1, -1, 63, 64, math.MaxInt32, math.MinInt32, -64, 1<<30, 0x4000)
		case 1:
			return fixed.Int26_6(int32(r.Uint32()))
		}
		return fixed.Int26_6(r.IntN(100 * 64))
	}
	for k := 0; k < 4; k++ {
		for _, x := range []rune{rune(r.IntN(300)), rune(r.IntN(65536)), rune(r.IntN(0x110000)), pick(r, rune(-1), 0, 0xffff, 0x10000, 0x10ffff, math.MaxInt32, math.MinInt32, 0xd800, 0xfffe), rune(r.Uint32())} {
			ft.Index(x)
		}
		ft.Name(truetype.NameID(r.IntN(30)))
		ft.Name(truetype.NameID(r.UintN(65536)))
		ft.Bounds(scale())
		ft.FUnitsPerEm()
		ft.HMetric(scale(), index())
		ft.VMetric(scale(), index())
		ft.Kern(scale(), index(), index())
	}
	c.Event("queries", 4*11)
	buf := &truetype.GlyphBuf{}
	for k := 0; k < loads; k++ {
		i, s, h := index(), scale(), font.Hinting(r.IntN(3))
		if h == font.HintingNone && r.IntN(3) != 0 {
			h = font.HintingFull
		}
		if k < n && k < loads/2 {
			i = truetype.Index(k)
		}
		if buf.Load(ft, s, i, h) != nil {
			c.Event("loads refused", 1)
		}
	}
	c.Event("loads", loads)
}

// c01Try parses a font and exercises it.
func c01Try(c *mon.Case, b []byte, n, loads int) {
	c.Nontrivial(mon.Hash(b))
	orig := slices.Clone(b)
	ft, err := parseFont(b)
	if err == nil && ft == nil {
		c.Fail("no font and no error")
	}
	if err != nil {
		c.Event("fonts refused", 1)
		if ft != nil {
			c.Fail("a font and an error: %v", err)
		}
		if k := strings.IndexByte(err.Error(), ':'); k > 0 {
			c.Seen("parse errors", mon.Hash(err.Error()))
		}
	} else {
		c.Event("fonts parsed", 1)
		exercise(c, ft, n, loads)
	}
	if !slices.Equal(orig, b) {
		c.Fail("the font data was written to")
	}
}

// c01Font is a modelled font with most tables, for damaging.
func c01Font(r *rand.Rand) *fontgen.Font {
	f := fontgen.Rand(r, fontgen.Opts{MaxGlyphs: 6, MaxPoints: 6, Composites: true, Matrices: true, UseMetrics: true, Kern: true, Honest: r.IntN(2) == 0})
	h := &ttgen.H{R: r, N: 8, F: 3, S: 4, C: len(f.CVT)}
	if r.IntN(2) == 0 {
		f.FPGM = h.Functions()
		f.Prep = h.Program(r.IntN(3))
		for _, g := range f.Glyphs {
			if !g.Empty {
				g.Program = h.Program(r.IntN(5))
			}
		}
	}
	if f.VAdv == nil && r.IntN(2) == 0 {
		for range f.Glyphs {
			f.VAdv = append(f.VAdv, uint16(r.IntN(2000)))
			f.TSB = append(f.TSB, int16(r.IntN(2000)-1000))
		}
		f.NVM = 1 + r.IntN(len(f.Glyphs))
		f.Vhea = r.IntN(2) == 0
		if !f.Vhea {
			f.NVM = len(f.Glyphs)
		}
	}
	return f
}

func tableNames(t map[string][]byte) []string {
	var ns []string
	for k := range t {
		ns = append(ns, k)
	}
	sort.Strings(ns)
	return ns
}

// edge is a value likely to be an edge of something.
func edge(r *rand.Rand, bits int, near uint32) uint32 {
	m := uint32(1<<bits - 1)
	switch r.IntN(5) {
	case 0:
		return pick(r, 0, 1, 2, m, m-1, m>>1, m>>1+1)
	case 1:
		return (near + uint32(r.IntN(9)) - 4) & m
	case 2:
		return uint32(r.IntN(40))
	case 3:
		return uint32(1) << r.IntN(bits)
	}
	return r.Uint32() & m
}

// damageTable damages the contents of a table.
func damageTable(r *rand.Rand, b []byte) []byte {
	b = slices.Clone(b)
	for k := 1 + r.IntN(3); k > 0 && len(b) > 0; k-- {
		// Mostly in its first bytes.
		lim := len(b)
		if r.IntN(2) == 0 {
			lim = min(lim, pick(r, 8, 16, 40, 100))
		}
		i := r.IntN(lim)
		switch r.IntN(8) {
		case 0:
			b[i] = byte(r.UintN(256))
		case 1:
			b[i] ^= 1 << r.IntN(8)
		case 2, 3, 4:
			if i &^= 1; i+2 <= len(b) {
				binary.BigEndian.PutUint16(b[i:], uint16(edge(r, 16, uint32(binary.BigEndian.Uint16(b[i:])))))
			}
		case 5:
			if i &^= 1; i+4 <= len(b) {
				binary.BigEndian.PutUint32(b[i:], edge(r, 31, binary.BigEndian.Uint32(b[i:])))
			}
		case 6:
			b = b[:i]
		case 7:
			if r.IntN(2) == 0 {
				b = append(b[:i], b[min(len(b), i+1+r.IntN(4)):]...)
			} else {
				b = slices.Insert(b, i, ttgen.RandBytes(r, 1+r.IntN(4))...)
			}
		}
	}
	return b
}

func c01Tables(c *mon.Case) {
	r := c.R
	f := c01Font(r)
	t := f.Tables(r)
	ns := tableNames(t)
	var what []string
	for k := 1 + r.IntN(2); k > 0; k-- {
		n := ns[r.IntN(len(ns))]
		if r.IntN(3) == 0 {
			n = pick(r, "glyf", "loca", "cmap", "kern", "name", "hmtx", "hdmx", "maxp", "head", "hhea", "vhea", "vmtx", "OS/2")
		}
		if r.IntN(30) == 0 {
			delete(t, n)
			continue
		}
		t[n] = damageTable(r, t[n])
		what = append(what, n)
	}
	b := fontgen.File(r, t, fontgen.Plain)
	c.Describe("damaged %v, file %x", what, b)
	c.Sample("damaged %v, file of %d bytes", what, len(b))
	c01Try(c, b, len(f.Glyphs), 10)
}

// c01Truncate cuts one table to a length. The lengths sweep from 0.
func c01Truncate(c *mon.Case) {
	r := c.R
	f := c01Font(r)
	t := f.Tables(r)
	ns := tableNames(t)
	n := ns[c.Index%len(ns)]
	k := c.Index / len(ns) % 150
	if len(t[n]) == 0 {
		return
	}
	switch r.IntN(3) {
	case 0:
		k = max(0, len(t[n])-1-k%len(t[n]))
	case 1:
		k %= len(t[n])
	}
	k = min(k, len(t[n]))
	t[n] = t[n][:k:k]
	// Cut tables at the end of the file show reads beyond.
	l := fontgen.Plain
	b := fontgen.File(r, t, l)
	c.Describe("%s cut to %d bytes, file %x", n, k, b)
	c01Try(c, b, len(f.Glyphs), 8)
}

// c01Counts changes the counts that several tables have to agree upon (of
// glyphs, long metrics, components, kerning pairs, device records), together
// with the lengths of these tables, or all but one of them.
func c01Counts(c *mon.Case) {
	r := c.R
	f := c01Font(r)
	t := f.Tables(r)
	n := len(f.Glyphs)
	ng := max(0, pick(r, 0, 0, 1, 1, 2, n-1, n, n+1, r.IntN(40)))
	nhm := max(0, pick(r, 0, 0, 1, ng, ng-1, ng+1, r.IntN(40)))
	nvm := max(0, pick(r, 0, 0, 1, ng, ng-1, ng+1, r.IntN(40)))
	resize := func(name string, k int) {
		if r.IntN(12) == 0 {
			k += r.IntN(9) - 4
		}
		b := t[name]
		k = max(0, k)
		for len(b) < k {
			b = append(b, byte(r.UintN(256)&r.UintN(256)))
		}
		t[name] = slices.Clip(b[:k])
	}
	put := func(name string, at, v int) {
		if b := t[name]; r.IntN(12) != 0 && len(b) >= at+2 {
			binary.BigEndian.PutUint16(b[at:], uint16(v))
		}
	}
	put("maxp", 4, ng)
	put("hhea", 34, nhm)
	resize("hmtx", 4*nhm+2*(ng-nhm))
	if t["vhea"] != nil {
		put("vhea", 34, nvm)
	}
	if t["vmtx"] != nil {
		resize("vmtx", pick(r, 4*nvm+2*(ng-nvm), 4*ng, 0))
	}
	w := 2
	if f.LocaLong {
		w = 4
	}
	if ng != n {
		resize("loca", w*(ng+1))
		if ng < n {
			copy(t["loca"][max(0, len(t["loca"])-w):], ttgen.RandBytes(r, w))
		}
	}
	if r.IntN(3) == 0 {
		k := pick(r, 0, 0, 1, r.IntN(10))
		b := []byte{0, 0, 0, byte(pick(r, 0, 1, 1, 1, 2)), 0, 0, 0, byte(14 + 6*k), 0, 1, 0, byte(k), 0, 0, 0, 0, 0, 0}
		t["kern"] = append(b, ttgen.RandBytes(r, 6*k)...)
		resize("kern", len(t["kern"]))
		if r.IntN(8) == 0 {
			t["kern"] = slices.Clip(t["kern"][:r.IntN(len(t["kern"])+1)])
		}
	}
	if r.IntN(3) == 0 {
		k, sz := pick(r, 0, 0, 1, r.IntN(6)), pick(r, ng+2, (ng+2+3)&^3, 0, 1, 2, r.IntN(60))
		b := []byte{0, 0, 0, byte(k), 0, 0, 0, byte(sz)}
		t["hdmx"] = append(b, ttgen.RandBytes(r, k*sz)...)
		resize("hdmx", len(t["hdmx"]))
	}
	for _, name := range tableNames(t) {
		if len(t[name]) == 0 && r.IntN(2) == 0 {
			delete(t, name)
		}
	}
	b := fontgen.File(r, t, fontgen.Plain)
	c.Describe("%d glyphs, %d and %d long metrics, file %x", ng, nhm, nvm, b)
	c01Try(c, b, ng, 8)
}

// c01Directory damages the header and the table directory.
func c01Directory(c *mon.Case) {
	r := c.R
	f := c01Font(r)
	if r.IntN(8) == 0 {
		b := c01Collections(r, fontgen.File(r, f.Tables(r), fontgen.Plain))
		c.Describe("file %x", b)
		c.Event("nests of collections", 1)
		c01Try(c, b, len(f.Glyphs), 6)
		return
	}
	b := fontgen.File(r, f.Tables(r), fontgen.RandLayout(r))
	head := 12 + 16*20
	for k := 1 + r.IntN(3); k > 0; k-- {
		i := r.IntN(min(head, len(b)-4)) &^ 3
		switch r.IntN(4) {
		case 0:
			binary.BigEndian.PutUint16(b[i:], uint16(edge(r, 16, uint32(binary.BigEndian.Uint16(b[i:])))))
		case 1:
			binary.BigEndian.PutUint32(b[i:], edge(r, 32, uint32(len(b))))
		case 2:
			binary.BigEndian.PutUint32(b[i:], edge(r, 32, binary.BigEndian.Uint32(b[i:])))
		case 3:
			if r.IntN(3) == 0 {
				b = b[:max(4, r.IntN(len(b)))]
			} else {
				copy(b[i:], pick(r, "ttcf", "true", "OTTO", "typ1", "\x00\x01\x00\x00", "glyf", "kern", "cmap"))
			}
		}
		if len(b) < 8 {
			break
		}
	}
	b = slices.Clip(b)
	c.Describe("file %x", b)
	c01Try(c, b, len(f.Glyphs), 6)
}

// c01Collections puts collection headers around a font, whose members are the
// font, other collections, themselves, or nothing at all.
func c01Collections(r *rand.Rand, file []byte) []byte {
	n := 1 + r.IntN(4)
	var at []int
	b := []byte{}
	for k := 0; k < n; k++ {
		at = append(at, len(b))
		b = append(b, make([]byte, 12+4*(1+r.IntN(3)))...)
		if k == 0 || r.IntN(3) == 0 {
			b = append(b, make([]byte, 4*r.IntN(3))...)
		}
	}
	font := len(b)
	if r.IntN(4) != 0 { // the font's tables where it says they are
		nt := int(binary.BigEndian.Uint16(file[4:]))
		file = slices.Clone(file)
		for i := 0; i < nt; i++ {
			p := file[12+16*i+8:]
			binary.BigEndian.PutUint32(p, binary.BigEndian.Uint32(p)+uint32(font))
		}
	}
	b = append(b, file...)
	for k, p := range at {
		end := font
		if k+1 < n {
			end = at[k+1]
		}
		copy(b[p:], "ttcf")
		binary.BigEndian.PutUint32(b[p+4:], pick(r, uint32(0x10000), 0x10000, 0x20000, 0x20000, 0, 0x30000))
		nm := (end - p - 12) / 4
		binary.BigEndian.PutUint32(b[p+8:], uint32(nm))
		for m := 0; m < nm; m++ {
			to := at[r.IntN(n)]
			switch r.IntN(6) {
			case 0:
				to = font
			case 1:
				to = pick(r, r.IntN(len(b)+4), len(b)-1, len(b), len(b)-12, p+8, p+12)
			case 2:
				to = p
			}
			binary.BigEndian.PutUint32(b[p+12+4*m:], uint32(to))
		}
		if r.IntN(6) == 0 {
			binary.BigEndian.PutUint32(b[p+8:], edge(r, 32, uint32(nm)))
		}
	}
	if r.IntN(8) == 0 {
		b = b[:font+r.IntN(len(file))]
	}
	return slices.Clip(b)
}

// c01Bytes damages bytes anywhere, and parses noise.
func c01Bytes(c *mon.Case) {
	r := c.R
	if r.IntN(10) == 0 {
		b := ttgen.RandBytes(r, r.IntN(400))
		if len(b) >= 12 && r.IntN(4) != 0 {
			copy(b, pick(r, "\x00\x01\x00\x00", "ttcf\x00\x01\x00\x00\x00\x00\x00\x01\x00\x00\x00\x0c", "true"))
			b[4], b[5] = 0, byte(r.IntN(12))
			for i := 12; i+16 <= len(b) && r.IntN(12) != 0; i += 16 {
				copy(b[i:], pick(r, "cmap", "head", "hhea", "hmtx", "kern", "loca", "maxp", "name", "glyf", "vmtx", "hdmx"))
				binary.BigEndian.PutUint32(b[i+8:], uint32(r.IntN(len(b)+2)))
				binary.BigEndian.PutUint32(b[i+12:], uint32(r.IntN(60)))
			}
		}
		c.Describe("noise %x", b)
		c01Try(c, b, 2, 3)
		return
	}
	f := c01Font(r)
	b := fontgen.File(r, f.Tables(r), fontgen.RandLayout(r))
	for k := 1 + r.IntN(pick(r, 2, 10, 60)); k > 0; k-- {
		b[r.IntN(len(b))] = byte(r.UintN(256))
	}
	if r.IntN(6) == 0 {
		b = b[:r.IntN(len(b))]
	}
	b = slices.Clip(b)
	c.Describe("file %x", b)
	c01Try(c, b, len(f.Glyphs), 8)
}

func c01Real(c *mon.Case) {
	r := c.R
	fs := realFonts()
	f := fs[c.Index%len(fs)]
	if f.model == nil {
		c.Fail("font %s: %v", f.name, f.modelErr)
	}
	b := slices.Clone(f.data)
	dir := map[string][2]int{}
	var names []string
	nt := int(binary.BigEndian.Uint16(b[4:]))
	for i := 0; i < nt; i++ {
		e := b[12+16*i:]
		dir[string(e[:4])] = [2]int{int(binary.BigEndian.Uint32(e[8:])), int(binary.BigEndian.Uint32(e[12:]))}
		names = append(names, string(e[:4]))
	}
	var what []string
	for k := 1 + r.IntN(8); k > 0; k-- {
		i := r.IntN(nt)
		n := names[i]
		p := dir[n]
		if p[1] == 0 || p[0]+p[1] > len(b) {
			continue
		}
		what = append(what, n)
		if r.IntN(8) == 0 { // a shorter table
			binary.BigEndian.PutUint32(b[12+16*i+12:], uint32(r.IntN(p[1])))
			continue
		}
		lim := p[1]
		if r.IntN(2) == 0 {
			lim = min(lim, 64)
		}
		at := p[0] + r.IntN(lim)
		if at &^= 1; at+2 <= len(b) && r.IntN(2) == 0 {
			binary.BigEndian.PutUint16(b[at:], uint16(edge(r, 16, uint32(binary.BigEndian.Uint16(b[at:])))))
		} else {
			b[at] = byte(r.UintN(256))
		}
	}
	c.Describe("%s damaged in %v", f.name, what)
	c01Try(c, b, len(f.model.Glyphs), 12)
}

// c01Bombs: small fonts with exponentially large glyphs, cycles of
// components, and extreme counts.
func c01Bombs(c *mon.Case) {
	r := c.R
	f := fontgen.Rand(r, fontgen.Opts{MaxGlyphs: 1, MaxPoints: 4, Plain: true, Coord: 500})
	f.Device = nil
	what := ""
	switch r.IntN(5) {
	case 0: // exponential
		w, d := 1+r.IntN(40), 2+r.IntN(pick(r, 8, 40))
		if r.IntN(2) == 0 {
			// Without a point, so that only the components are many.
			f.Glyphs[0] = &fontgen.Glyph{Empty: true}
			w += 10
		}
		what = fmt.Sprintf("%d components, %d deep", w, d)
		for k := 0; k < d; k++ {
			g := &fontgen.Glyph{}
			for j := 0; j < w; j++ {
				g.Components = append(g.Components, fontgen.Component{Glyph: uint16(len(f.Glyphs) - 1), DX: int16(j)})
			}
			f.Glyphs = append(f.Glyphs, g)
		}
	case 1: // a glyph of itself, or a cycle
		n := 1 + r.IntN(4)
		what = fmt.Sprintf("a cycle of %d", n)
		for k := 0; k < n; k++ {
			g := &fontgen.Glyph{}
			for j := 1 + r.IntN(3); j > 0; j-- {
				g.Components = append(g.Components, fontgen.Component{Glyph: uint16(1 + (k+1)%n)})
			}
			f.Glyphs = append(f.Glyphs, g)
		}
	case 2: // many points in components
		n := 5000 + r.IntN(30000)
		same := r.IntN(3) == 0
		if same {
			n = 60000 + r.IntN(5500)
		}
		what = fmt.Sprintf("components of %d points", n)
		g := &fontgen.Glyph{Contours: [][]fontgen.Pt{fontgen.RandContour(r, n, 300)}}
		if same {
			// All in one place, which takes few bytes.
			for i := range g.Contours[0] {
				g.Contours[0][i] = fontgen.Pt{X: 7, Y: 9, On: true}
			}
		}
		g.SetBounds()
		f.Glyphs[0] = g
		f.LocaLong = true
		for k := 0; k < 5; k++ {
			g := &fontgen.Glyph{}
			for j := pick(r, 8, 1+r.IntN(8)); j > 0; j-- {
				g.Components = append(g.Components, fontgen.Component{Glyph: uint16(k), Kind: r.IntN(4), M: [4]int16{0x4000, 0, 0, 0x4000}})
			}
			f.Glyphs = append(f.Glyphs, g)
		}
	case 3: // wide
		n := 1000 + r.IntN(9000)
		what = fmt.Sprintf("%d components", n)
		g := &fontgen.Glyph{}
		for j := 0; j < n; j++ {
			g.Components = append(g.Components, fontgen.Component{Glyph: 0})
		}
		f.LocaLong = true
		f.Glyphs = append(f.Glyphs, g)
	case 4: // components with long programs
		h := &ttgen.H{R: r, N: 4, F: 1, S: 4, C: len(f.CVT)}
		f.FPGM = h.Functions()
		loop := []byte{0xb8, 0xff, 0xfd, 0x1c} // jumps to itself
		what = "components with endless programs"
		if r.IntN(2) == 0 {
			loop = nil
			what = "components with long programs"
			for k := 0; k < 200; k++ {
				loop = append(loop, 0xb8, 0x7f, 0xff, 0xb0, 0, 0x2a)
			}
			f.FPGM = []byte{0xb0, 0, 0x2c, 0x2d}
		}
		if !f.Glyphs[0].Empty {
			f.Glyphs[0].Program = loop
		}
		for k := 0; k < 3; k++ {
			g := &fontgen.Glyph{Program: loop}
			for j := 0; j < 14; j++ {
				g.Components = append(g.Components, fontgen.Component{Glyph: uint16(k)})
			}
			f.Glyphs = append(f.Glyphs, g)
		}
	}
	for len(f.Adv) < len(f.Glyphs) {
		f.Adv, f.LSB = append(f.Adv, 500), append(f.LSB, 0)
	}
	if f.VAdv != nil {
		f.VAdv, f.TSB = nil, nil
	}
	f.NHM = len(f.Glyphs)
	b := f.Encode(r)
	c.Describe("%s", what)
	c.Sample("%s", what)
	c.Nontrivial(mon.Hash(b))
	ft, err := parseFont(b)
	if err != nil {
		c.Fail("does not parse: %v", err)
	}
	g := &truetype.GlyphBuf{}
	for _, i := range []int{len(f.Glyphs) - 1, 1 + r.IntN(len(f.Glyphs)-1)} {
		for _, h := range []font.Hinting{font.HintingNone, font.HintingFull} {
			if h != font.HintingNone && what == "components with long programs" && r.IntN(4) != 0 {
				continue
			}
			load(g, ft, 640, i, h)
			c.Event("bombs loaded or refused", 1)
		}
	}
}
