// Package reftt is a reference for loading TrueType glyphs: it says what the
// outline, metrics and grid-fitted points of a modelled font's glyph are,
// written from the TrueType specification (and, where that is silent, from
// the behaviour that FreeType's engine version 35 and the package under test
// agree on), in plain 64-bit arithmetic. It shares no code with the package
// under test.
package reftt

import (
	"fmt"

	"verif/harness/fontgen"
)

// XY is a position.
type XY struct{ X, Y int64 }

// A Point is a point of a zone.
type Point struct {
	XY
	On     bool
	TX, TY bool // touched
}

// An Outcome says why there is no result.
type Outcome struct {
	// Ambiguous tells a case that the specification leaves open from one that
	// is invalid.
	Ambiguous bool
	Msg       string
}

func (o *Outcome) Error() string {
	if o.Ambiguous {
		return "ambiguous: " + o.Msg
	}
	return "invalid: " + o.Msg
}

func invalid(f string, a ...any)   { panic(&Outcome{false, fmt.Sprintf(f, a...)}) }
func ambiguous(f string, a ...any) { panic(&Outcome{true, fmt.Sprintf(f, a...)}) }

func catch(out **Outcome) {
	if e := recover(); e != nil {
		o, ok := e.(*Outcome)
		if !ok {
			panic(e)
		}
		*out = o
	}
}

// rng checks that a value fits 26.6 arithmetic with room to spare.
func rng(x int64) int64 {
	if x > 1<<27 || x < -1<<27 {
		ambiguous("%d is out of 26.6 range", x)
	}
	return x
}

// MulDiv is x*y/z rounded to nearest, halves away from zero.
func MulDiv(x, y, z int64) int64 {
	n := x * y
	if z < 0 {
		n, z = -n, -z
	}
	if n < 0 {
		return -((-n + z/2) / z)
	}
	return (n + z/2) / z
}

func round64(x int64) int64 { return (x + 32) &^ 63 }

// A Glyph is a loaded glyph.
type Glyph struct {
	Points      []Point
	Ends        []int
	Advance     int64
	Unhinted    []XY // of hinted simple glyphs
	InFontUnits []XY
	Simple      bool
	// Hinted by how many programs.
	Programs int
	Ops      *OpCount
}

// OpCount counts executed instructions.
type OpCount [256]int

// An Env is a font at a scale, ready to load glyphs.
type Env struct {
	F     *fontgen.Font
	Scale int64
	// Hinting tells whether the font's programs ran.
	Hinting bool
	base    *state
	baseGS  gstate
	Ops     OpCount
}

// S scales font units to 26.6 pixels.
func (e *Env) S(x int64) int64 {
	if n := e.Scale * x; n > 1<<31-1-1<<14 || n < -(1<<31-1-1<<14) {
		ambiguous("scaling %d overflows 26.6 arithmetic", x)
	}
	return MulDiv(e.Scale, x, int64(e.F.UPEM))
}

// NewEnv prepares loading. With hinting it runs the font's programs.
func NewEnv(f *fontgen.Font, scale int64, hinting bool) (e *Env, out *Outcome) {
	defer catch(&out)
	e = &Env{F: f, Scale: scale, Hinting: hinting}
	if hinting {
		e.initState()
	}
	return e, nil
}

// loader is the state of one load.
type loader struct {
	e        *Env
	st       *state
	pts      []Point
	ends     []int
	unh, ifu []XY
	programs int
	depth    int
}

// Load loads a glyph.
func (e *Env) Load(i int) (g *Glyph, out *Outcome) {
	defer catch(&out)
	l := &loader{e: e}
	if e.Hinting {
		l.st = e.base.clone()
	}
	pp := l.load(i, nil)
	// The outline is placed such that its origin is at zero.
	for i := range l.pts {
		l.pts[i].X -= pp[0].X
	}
	g = &Glyph{Points: l.pts, Ends: l.ends, Unhinted: l.unh, InFontUnits: l.ifu, Programs: l.programs}
	g.Simple = !e.F.Glyphs[i].Composite()
	g.Advance = pp[1].X - pp[0].X
	if e.Hinting {
		for _, d := range e.F.Device {
			if int64(d.PPEM) == e.Scale>>6 {
				g.Advance = int64(d.Widths[i]) << 6
				break
			}
		}
		g.Advance = round64(g.Advance)
	}
	return g, nil
}

// Hook lets a caller see the machine just before a glyph's program would run,
// to generate the program.
type Hook func(m *Mach)

// phantoms are the four phantom points of a glyph, scaled.
func (l *loader) phantoms(i int) (pp, raw [4]XY) {
	f := l.e.F
	g := f.Glyphs[i]
	xMin, yMax := int64(g.XMin), int64(g.YMax)
	if g.Empty {
		xMin, yMax = 0, 0
	}
	va, tsb := f.VMetrics(i, int(yMax))
	aw := int64(f.Advance(i))
	x := xMin - int64(f.LSB[i])
	y := yMax + int64(tsb)
	raw = [4]XY{{x, 0}, {x + aw, 0}, {aw / 2, y}, {aw / 2, y - int64(va)}}
	for k := range raw {
		pp[k] = XY{l.e.S(raw[k].X), l.e.S(raw[k].Y)}
	}
	return pp, raw
}

// load appends the glyph's points and gives its phantom points.
func (l *loader) load(i int, hook Hook) [4]XY {
	if l.depth++; l.depth > 30 {
		ambiguous("components nest too deeply")
	}
	defer func() { l.depth-- }()
	f := l.e.F
	g := f.Glyphs[i]
	pp, raw := l.phantoms(i)
	if g.Composite() {
		return l.loadComposite(g, pp, hook)
	}
	n0 := len(l.pts)
	var zone []Point
	var ends []int
	var ifu []XY
	for _, c := range g.Contours {
		for _, p := range c {
			ifu = append(ifu, XY{int64(p.X), int64(p.Y)})
			zone = append(zone, Point{XY: XY{l.e.S(int64(p.X)), l.e.S(int64(p.Y))}, On: p.On})
		}
		ends = append(ends, len(zone))
	}
	n := len(zone)
	if l.e.Hinting {
		ifu = append(ifu, raw[:]...)
		for _, p := range pp {
			zone = append(zone, Point{XY: p})
		}
		dx := round64(zone[n].X) - zone[n].X
		unh := make([]XY, len(zone))
		for k := range zone {
			zone[k].X += dx
			unh[k] = zone[k].XY
		}
		zone[n+1].X = round64(zone[n+1].X)
		zone[n+3].Y = round64(zone[n+3].Y)
		if hook != nil || len(g.Program) > 0 && !g.Empty {
			m := l.e.machine(l.st)
			m.cur, m.org, m.orus, m.ends = zone, unh, ifu, ends
			if hook != nil {
				hook(m)
			} else {
				l.programs++
				m.Run(g.Program)
			}
			zone = m.cur
		}
		for k := range pp {
			pp[k] = zone[n+k].XY
		}
		l.unh = append(l.unh, unh[:n]...)
		l.ifu = append(l.ifu, ifu[:n]...)
	}
	l.pts = append(l.pts, zone[:n]...)
	for _, e := range ends {
		l.ends = append(l.ends, e+n0)
	}
	return pp
}

func fix14(x int64, m int16) int64 { return (x*int64(m) + 1<<13) >> 14 }

func (l *loader) loadComposite(g *fontgen.Glyph, pp [4]XY, hook Hook) [4]XY {
	n0, e0 := len(l.pts), len(l.ends)
	for _, c := range g.Components {
		k0 := len(l.pts)
		cpp := l.load(int(c.Glyph), nil)
		if c.UseMetrics {
			pp = cpp
		}
		for k := k0; k < len(l.pts) && c.Kind != 0; k++ {
			p := &l.pts[k]
			p.X, p.Y = fix14(p.X, c.M[0])+fix14(p.Y, c.M[2]), fix14(p.X, c.M[1])+fix14(p.Y, c.M[3])
		}
		dx, dy := l.e.S(int64(c.DX)), l.e.S(int64(c.DY))
		if c.RoundXY {
			dx, dy = round64(dx), round64(dy)
		}
		if c.Match {
			a, b := n0+int(uint16(c.DX)), k0+int(uint16(c.DY))
			if a >= k0 || b >= len(l.pts) {
				invalid("no such point to match")
			}
			dx, dy = l.pts[a].X-l.pts[b].X, l.pts[a].Y-l.pts[b].Y
		}
		for k := k0; k < len(l.pts); k++ {
			p := &l.pts[k]
			p.X, p.Y = rng(p.X+dx), rng(p.Y+dy)
		}
	}
	if !l.e.Hinting {
		return pp
	}
	program := len(g.Program) > 0 || hook != nil
	n := len(l.pts) - n0
	zone := append([]Point{}, l.pts[n0:]...)
	for _, p := range pp {
		zone = append(zone, Point{XY: p})
	}
	if program {
		if dx := round64(zone[n].X) - zone[n].X; dx != 0 {
			for k := range zone {
				zone[k].X += dx
			}
		}
	}
	zone[n+1].X = round64(zone[n+1].X)
	zone[n+3].Y = round64(zone[n+3].Y)
	var org []XY
	for k := range zone {
		zone[k].TX, zone[k].TY = false, false
		org = append(org, zone[k].XY)
	}
	if program {
		m := l.e.machine(l.st)
		m.compound = true
		m.cur, m.org, m.orus = zone, org, append([]XY{}, org...)
		for _, e := range l.ends[e0:] {
			m.ends = append(m.ends, e-n0)
		}
		if hook != nil {
			hook(m)
		} else {
			l.programs++
			m.Run(g.Program)
		}
		zone = m.cur
	}
	copy(l.pts[n0:], zone[:n])
	for k := range pp {
		pp[k] = zone[n+k].XY
	}
	return pp
}

// Generate runs the hook on the machine as it is when glyph i's own program
// would start, in a load of that glyph.
func (e *Env) Generate(i int, hook Hook) (out *Outcome) {
	defer catch(&out)
	l := &loader{e: e, st: e.base.clone()}
	l.load(i, hook)
	return nil
}
