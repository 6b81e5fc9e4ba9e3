package checks

import (
	"fmt"
	"math"
	"math/rand/v2"
	"slices"
	"strings"
	"sync"

	"github.com/golang/freetype/truetype"
	"golang.org/x/image/font"

	"verif/harness/fontgen"
	"verif/harness/mon"
	"verif/harness/ttgen"
)

func init() {
	mon.Register(&mon.Check{
		ID:   "C02",
		Rule: "A case gives a font hostile programs (random bytes; instructions with ordinary to extreme operands; endless loops, recursion and calls; damaged programs of real fonts; programs valid but for one change) and extreme limits, loads its glyphs hinted at ordinary and extreme scales with one buffer, and after each load now and then loads a witness glyph of another font with that buffer, to compare with a fresh buffer's result obtained before. Monitors: recovered panics, process death, a budget of 20 s of CPU time per case and 4 GB of address space, and the comparison. Non-trivial: a load with a hostile program; distinct by programs, glyph and scale.",
		Assumptions: []string{
			"a case that uses 20 s of CPU time (typically it takes below 10 ms) is taken to run without bound",
		},
		Streams: []mon.Stream{
			{Name: "instructions", Quick: 60000, Thorough: 2000000, Run: func(c *mon.Case) { c02Run(c, c02Hostile) }},
			{Name: "bytes", Quick: 40000, Thorough: 1000000, Run: func(c *mon.Case) { c02Run(c, c02Bytes) }},
			{Name: "almost valid", Quick: 20000, Thorough: 600000, Run: func(c *mon.Case) { c02Run(c, c02Almost) }},
			{Name: "single", Quick: 120000, Thorough: 3000000, Run: func(c *mon.Case) { c02Run(c, c02Single) }},
			{Name: "loops", Quick: 4000, Thorough: 100000, Run: func(c *mon.Case) { c02Run(c, c02Loops) }},
			{Name: "real", Quick: 1500, Thorough: 40000, Run: c02Real},
		},
		MemGB:    4,
		CPUSec:   20,
		Required: []string{"hostile loads", "hostile loads that succeed", "hostile loads that fail", "witness loads after success", "witness loads after failure", "real: hostile loads", "step limit reached"},
	})
}

// A witness is a load whose result is known.
type witness struct {
	ft    *truetype.Font
	i     int
	scale int64
	h     font.Hinting
	err   error
	want  *truetype.GlyphBuf
}

var witnesses = sync.OnceValue(func() (ws []witness) {
	r := rand.New(rand.NewPCG(77, 1))
	add := func(ft *truetype.Font, i int, s int64, h font.Hinting) {
		w := witness{ft, i, s, h, nil, &truetype.GlyphBuf{}}
		if w.err = load(w.want, ft, s, i, h); w.err == nil {
			ws = append(ws, w)
		}
	}
	for k := 0; k < 40; k++ {
		f := stateFont(r, false)
		ft, err := parseFont(f.Encode(r))
		if err != nil {
			panic(err)
		}
		for i := range f.Glyphs {
			add(ft, i, randScale(r, f.MaxScale()), font.Hinting(r.IntN(3)))
		}
	}
	for _, f := range realFonts() {
		for k := 0; k < 4 && f.ft != nil; k++ {
			add(f.ft, 20+r.IntN(80), int64(8+r.IntN(30))*64, font.HintingFull)
		}
	}
	return ws
})

// c02Font makes a font to put programs into.
func c02Font(r *rand.Rand) *fontgen.Font {
	f := fontgen.Rand(r, fontgen.Opts{MaxGlyphs: 4, MaxPoints: 6, Composites: true, Matrices: true, UseMetrics: true})
	f.MaxStorage = pick(r, uint16(0), 1, 4, 16, uint16(r.UintN(65536)))
	f.MaxTwilight = pick(r, uint16(0), 1, 4, 16, uint16(r.UintN(65536)))
	f.MaxStack = pick(r, uint16(0), 1, 20, 256, uint16(r.UintN(65536)))
	f.MaxFunctions = pick(r, uint16(0), 1, 4, uint16(r.UintN(65536)))
	if r.IntN(3) == 0 {
		f.CVT = nil
	}
	return f
}

func c02Hostile(c *mon.Case, r *rand.Rand) (*fontgen.Font, int64) {
	f := c02Font(r)
	h := &ttgen.H{R: r, N: 8, F: 4, S: int(f.MaxStorage), C: len(f.CVT)}
	if f.FPGM = nil; r.IntN(2) != 0 {
		f.FPGM = h.Functions()
	}
	if r.IntN(4) == 0 {
		f.Prep = h.Program(1 + r.IntN(6))
	}
	for _, g := range f.Glyphs {
		if !g.Empty {
			h.N = g.NPoints() + 4
			g.Program = h.Program(1 + r.IntN(pick(r, 3, 10, 40)))
		}
	}
	return f, randScale(r, f.MaxScale())
}

// c02Single: one instruction with extreme operands, after some state was set.
func c02Single(c *mon.Case, r *rand.Rand) (*fontgen.Font, int64) {
	f := c02Font(r)
	f.FPGM = []byte{0xb0, 0, 0x2c, 0x20, 0x21, 0x2d}
	f.Prep = nil
	h := &ttgen.H{R: r, N: 8, F: 1, S: int(f.MaxStorage), C: len(f.CVT)}
	op := byte(c.Index)
	for _, g := range f.Glyphs {
		if g.Empty {
			continue
		}
		h.N = g.NPoints() + 4
		var p []byte
		for k := r.IntN(3); k > 0; k-- { // zones, vectors, reference points, loop
			switch r.IntN(4) {
			case 0:
				p = append(p, 0xb0, 0, pick(r, byte(0x13), 0x14, 0x15, 0x16))
			case 1:
				p = append(p, byte(r.IntN(6)))
			case 2:
				p = append(h.Val(p), pick(r, byte(0x10), 0x11, 0x12))
			case 3:
				p = append(p, 0xb1, byte(r.IntN(h.N)), byte(r.IntN(h.N)), byte(6+r.IntN(4)))
			}
		}
		// Usually enough operands.
		for k := r.IntN(7); k > 0; k-- {
			p = h.Val(p)
		}
		p = append(p, op)
		if r.IntN(2) == 0 {
			p = h.Op(p)
		}
		g.Program = p
	}
	return f, randScale(r, f.MaxScale())
}

func c02Bytes(c *mon.Case, r *rand.Rand) (*fontgen.Font, int64) {
	f := c02Font(r)
	if r.IntN(3) == 0 {
		f.FPGM = ttgen.RandBytes(r, r.IntN(30))
	}
	if r.IntN(4) == 0 {
		f.Prep = ttgen.RandBytes(r, r.IntN(20))
	}
	for _, g := range f.Glyphs {
		if !g.Empty {
			// Some operands, or all instructions underflow the stack.
			var p []byte
			if n := r.IntN(32); n > 0 {
				p = append([]byte{0x40, byte(n)}, ttgen.RandBytes(r, n)...)
				for i := 2; i < len(p); i++ {
					if r.IntN(3) != 0 {
						p[i] &= 7
					}
				}
			}
			g.Program = append(p, ttgen.RandBytes(r, 1+r.IntN(20))...)
		}
	}
	return f, randScale(r, f.MaxScale())
}

// c02Almost: valid programs, but for one damage.
func c02Almost(c *mon.Case, r *rand.Rand) (*fontgen.Font, int64) {
	f := fontgen.Rand(r, fontgen.Opts{MaxGlyphs: 3, MaxPoints: 8, Composites: true, Matrices: true, UseMetrics: true})
	scale := max(1, randScale(r, min(f.MaxScale(), 20000)))
	for scale*f.MaxAbs()/int64(f.UPEM) > 128000 {
		scale = max(1, scale/2)
	}
	ttgen.Programs(r, f, scale, 8)
	h := &ttgen.H{R: r}
	switch r.IntN(5) {
	case 0:
		f.FPGM = h.Damage(f.FPGM, 1)
	case 1:
		f.Prep = h.Damage(f.Prep, 1)
	case 2:
		scale = randScale(r, f.MaxScale())
	default:
		for _, g := range f.Glyphs {
			g.Program = h.Damage(g.Program, 1)
		}
	}
	return f, scale
}

// c02Loops: programs that would run long, or for ever.
func c02Loops(c *mon.Case, r *rand.Rand) (*fontgen.Font, int64) {
	f := c02Font(r)
	f.FPGM, f.Prep = nil, nil
	h := &ttgen.H{R: r, N: 4, F: 1, S: 0, C: len(f.CVT)}
	pad := func() (b []byte) {
		for k := r.IntN(3); k > 0; k-- {
			b = append(b, pick(r, byte(0x18), 0x4d, 0x00, 0x01, 0x7a))
		}
		return b
	}
	var p []byte
	switch r.IntN(8) {
	case 0: // a jump back
		p = pad()
		p = append(p, 0xb8, 0xff, byte(-3-len(p)), 0x1c)
		p = append(pad(), p...)
	case 1: // a conditional jump back
		p = append(pad(), 0xb8, 0xff, 0xfb, 0xb0, 1, 0x78)
	case 2: // recursion
		f.FPGM = append(append([]byte{0xb0, 0, 0x2c}, pad()...), 0xb0, 0, 0x2b, 0x2d)
		p = []byte{0xb0, 0, 0x2b}
	case 3: // mutual recursion, with repetition
		f.FPGM = []byte{0xb0, 0, 0x2c, 0xb8, 0x7f, 0xff, 0xb0, 1, 0x2a, 0x2d, 0xb0, 1, 0x2c, 0xb8, 0x7f, 0xff, 0xb0, byte(r.IntN(2)), 0x2a, 0x2d}
		p = []byte{0xb0, 0, 0x2b}
	case 4: // nested repetition of depth up to 10
		n := 2 + r.IntN(9)
		f.FPGM = []byte{0xb0, 0, 0x2c}
		f.FPGM = append(append(f.FPGM, pad()...), 0x2d)
		for i := 1; i < n; i++ {
			f.FPGM = append(f.FPGM, 0xb0, byte(i), 0x2c, 0xb8, byte(r.IntN(128)), 0xff, 0xb0, byte(i-1), 0x2a, 0x2d)
		}
		p = []byte{0xb8, 0x7f, 0xff, 0xb0, byte(n - 1), 0x2a}
	case 5: // a stack that grows for ever
		p = []byte{pick(r, byte(0x20), 0x24, 0x4b, 0x4c, 0x0c), 0xb8, 0xff, 0xfc, 0x1c}
		if p[0] == 0x20 {
			p = append([]byte{0xb0, 1}, p...)
		}
	case 7: // a full, or almost full, stack
		f.MaxStack = uint16(r.IntN(1100))
		size := (int(f.MaxStack) + 255) &^ 255
		for n := max(0, size-r.IntN(4)); n > 0; {
			k := min(n, 255)
			p = append(p, 0x40, byte(k))
			for j := 0; j < k; j++ {
				p = append(p, byte(r.IntN(4)))
			}
			n -= k
		}
		for k := 1 + r.IntN(4); k > 0; k-- {
			p = append(p, pick(r, byte(0x20), 0x24, 0x4b, 0x4c, 0x0c, 0x0d, 0x25, 0x43, 0x45, 0x88, 0xb0, 0xb1, 0xb8, 0x40, 0x41, 0x23, 0x8a, 0x17, 0x26))
		}
	case 6: // a jump to itself through a function
		f.FPGM = []byte{0xb0, 0, 0x2c, 0x1c, 0x2d}
		p = []byte{0xb8, 0xff, byte(-r.IntN(8)), 0xb0, 0, 0x2b}
	}
	switch r.IntN(4) {
	case 0:
		f.Prep = p
	case 1:
		f.FPGM = append(f.FPGM, p...)
	default:
		for _, g := range f.Glyphs {
			if !g.Empty {
				g.Program = h.Damage(p, 10)
			}
		}
	}
	return f, randScale(r, f.MaxScale())
}

func c02Run(c *mon.Case, gen func(*mon.Case, *rand.Rand) (*fontgen.Font, int64)) {
	r := c.R
	f, scale := gen(c, r)
	b := f.Encode(r)
	orig := slices.Clone(b)
	ft, err := parseFont(b)
	if err != nil {
		c.Fail("does not parse: %v", err)
	}
	if r.IntN(10) == 0 {
		scale = pick(r, int64(0), 1, -1, math.MaxInt32, math.MinInt32, int64(int32(r.Uint32())))
	}
	var is []int
	for i := range f.Glyphs {
		is = append(is, i)
	}
	desc := func(i int) string {
		return fmt.Sprintf("maxp storage %d twilight %d stack %d functions %d cvt %v fpgm %x prep %x scale %d %s", f.MaxStorage, f.MaxTwilight, f.MaxStack, f.MaxFunctions, f.CVT, f.FPGM, f.Prep, scale, glyphString(f, i))
	}
	c02Loads(c, ft, scale, is, desc, "")
	if !slices.Equal(b, orig) {
		c.Fail("the font data was written to")
	}
	c.Sample("%s", desc(0))
}

func c02Loads(c *mon.Case, ft *truetype.Font, scale int64, is []int, desc func(int) string, name string) {
	r := c.R
	buf := &truetype.GlyphBuf{}
	// The unhinted outlines, before and after.
	plain := make([]*truetype.GlyphBuf, len(is))
	for k, i := range is {
		plain[k] = &truetype.GlyphBuf{}
		c.Describe("%s", desc(i))
		if load(plain[k], ft, scale, i, font.HintingNone) != nil {
			plain[k] = nil
		}
	}
	ws := witnesses()
	for k, i := range is {
		h := font.HintingFull
		if r.IntN(4) == 0 {
			h = font.HintingVertical
		}
		c.Describe("%s", desc(i))
		err := load(buf, ft, scale, i, h)
		c.Eval(1)
		c.Event(name+"hostile loads", 1)
		c.Nontrivial(mon.Hash(desc(i)))
		if err != nil {
			c.Event("hostile loads that fail", 1)
			c.Seen("errors", mon.Hash(err.Error()))
			if strings.Contains(err.Error(), "too many steps") {
				c.Event("step limit reached", 1)
			}
		} else {
			c.Event("hostile loads that succeed", 1)
			c.Event("points", len(buf.Points))
		}
		if r.IntN(2) == 0 {
			w := ws[r.IntN(len(ws))]
			e := load(buf, w.ft, w.scale, w.i, w.h)
			if msg := diffLoads(e, w.err, buf, w.want); msg != "" {
				c.Describe("%s, then glyph %d of a witness font at scale %d hinting %d", desc(i), w.i, w.scale, w.h)
				c.Fail("%s", msg)
			}
			if err != nil {
				c.Event("witness loads after failure", 1)
			} else {
				c.Event("witness loads after success", 1)
			}
		}
		if plain[k] != nil {
			e := load(buf, ft, scale, i, font.HintingNone)
			if msg := diffLoads(e, nil, buf, plain[k]); msg != "" {
				c.Fail("unhinted load: %s", msg)
			}
		}
	}
}

// c02Real damages the programs of real fonts.
func c02Real(c *mon.Case) {
	r := c.R
	fs := realFonts()
	f := fs[c.Index%len(fs)]
	if f.model == nil {
		c.Fail("font %s: %v", f.name, f.modelErr)
	}
	// A small font of some of its glyphs.
	m := *f.model
	m.Glyphs, m.Adv, m.LSB = nil, nil, nil
	m.VAdv, m.TSB, m.Device = nil, nil, nil
	m.CmapSubs, m.CmapRecs = nil, nil
	src := fontgen.Rand(r, fontgen.Opts{MaxGlyphs: 1})
	m.CmapSubs, m.CmapRecs = src.CmapSubs, src.CmapRecs
	m.Names, m.Kern, m.HasKern = nil, nil, false
	h := &ttgen.H{R: r}
	for len(m.Glyphs) < 12 {
		i := r.IntN(len(f.model.Glyphs))
		g := *f.model.Glyphs[i]
		if g.Empty || g.Composite() {
			if r.IntN(20) != 0 {
				continue
			}
			g = fontgen.Glyph{Empty: true}
		}
		if r.IntN(4) != 0 {
			g.Program = h.Damage(g.Program, 1)
		}
		m.Glyphs = append(m.Glyphs, &g)
		m.Adv = append(m.Adv, f.model.Advance(i))
		m.LSB = append(m.LSB, f.model.LSB[i])
	}
	m.NHM = len(m.Glyphs)
	m.LocaLong = true
	switch r.IntN(4) {
	case 0:
		m.FPGM = h.Damage(m.FPGM, 1)
	case 1:
		m.Prep = h.Damage(m.Prep, 1)
	case 2:
		m.MaxStorage, m.MaxStack = uint16(r.IntN(20)), uint16(r.IntN(20))
	}
	ft, err := parseFont(m.Encode(r))
	if err != nil {
		c.Fail("does not parse: %v", err)
	}
	is := r.Perm(len(m.Glyphs))
	s := randScale(r, 20000)
	c02Loads(c, ft, s, is, func(i int) string {
		return fmt.Sprintf("%s scale %d %s", f.name, s, glyphString(&m, i))
	}, "real: ")
}
