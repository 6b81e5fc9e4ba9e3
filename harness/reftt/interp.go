package reftt

import (
	"math"
	"math/big"
)

// gstate is the graphics state.
type gstate struct {
	pv, fv, dv         [2]int64
	rp                 [3]int64
	zp                 [3]int
	cutIn, swCutIn, sw int64
	deltaBase          int64
	deltaShift         int64
	minDist            int64
	loop               int64
	period             int64 // 0: rounding off
	phase, threshold   int64
	super45            bool
	autoFlip           bool
}

var defaultGS = gstate{
	pv: [2]int64{0x4000, 0}, fv: [2]int64{0x4000, 0}, dv: [2]int64{0x4000, 0},
	zp: [3]int{1, 1, 1}, cutIn: 68, deltaBase: 9, deltaShift: 3, minDist: 64, loop: 1,
	period: 64, threshold: 32, autoFlip: true,
}

// state is what survives from one program to the next within a load.
type state struct {
	store  []int64
	cvt    []int64
	tw     []Point
	twOrg  []XY
	fns    map[int64][]byte
	inFpgm bool
	prep   bool
}

func (s *state) clone() *state {
	t := *s
	t.store = append([]int64{}, s.store...)
	t.cvt = append([]int64{}, s.cvt...)
	t.tw = append([]Point{}, s.tw...)
	t.twOrg = append([]XY{}, s.twOrg...)
	t.fns = make(map[int64][]byte, len(s.fns))
	for k, v := range s.fns {
		t.fns[k] = v
	}
	return &t
}

func (e *Env) initState() {
	f := e.F
	s := &state{
		store: make([]int64, f.MaxStorage),
		tw:    make([]Point, f.MaxTwilight),
		twOrg: make([]XY, f.MaxTwilight),
		fns:   map[int64][]byte{},
	}
	for _, v := range f.CVT {
		s.cvt = append(s.cvt, e.S(int64(v)))
	}
	e.base, e.baseGS = s, defaultGS
	if len(f.FPGM) > 0 {
		s.inFpgm = true
		m := e.machine(s)
		m.Run(f.FPGM)
		s.inFpgm = false
	}
	if len(f.Prep) > 0 {
		s.prep = true
		m := e.machine(s)
		m.Run(f.Prep)
		s.prep = false
		e.baseGS = m.afterPrep()
	}
}

func (m *Mach) afterPrep() gstate {
	g := m.gs
	g.pv, g.fv, g.dv = defaultGS.pv, defaultGS.fv, defaultGS.dv
	g.rp, g.zp, g.loop = defaultGS.rp, defaultGS.zp, 1
	return g
}

// PrepMach is a machine on which to generate the control value program.
func (e *Env) PrepMach() *Mach {
	s := e.base.clone()
	s.prep = true
	return e.machine(s)
}

// A Mach executes programs.
type Mach struct {
	e        *Env
	st       *state
	gs       gstate
	cur      []Point
	org      []XY
	orus     []XY
	ends     []int
	compound bool
	stack    []int64
	steps    int
	ops      OpCount
}

func (e *Env) machine(s *state) *Mach {
	return &Mach{e: e, st: s, gs: e.baseGS}
}

// Clone copies the machine with all it can change.
func (m *Mach) Clone() *Mach {
	c := *m
	c.st = m.st.clone()
	c.cur = append([]Point{}, m.cur...)
	c.stack = append([]int64{}, m.stack...)
	return &c
}

// Try runs a piece of program on a copy of the machine, which is returned if
// all of it is valid and unambiguous.
func (m *Mach) Try(code []byte) (c *Mach, out *Outcome) {
	defer catch(&out)
	c = m.Clone()
	c.Run(code)
	return c, nil
}

// Adopt makes m the machine c, keeping the zones' sharing.
func (m *Mach) Adopt(c *Mach) {
	st := m.st
	*st = *c.st
	ops := c.ops
	*m = *c
	m.st = st
	m.ops = ops
}

// Accessors for generators.
func (m *Mach) NPoints() int        { return len(m.cur) }
func (m *Mach) Ends() []int         { return m.ends }
func (m *Mach) Stack() []int64      { return m.stack }
func (m *Mach) Zone(k int) int      { return m.gs.zp[k] }
func (m *Mach) NTwilight() int      { return len(m.st.tw) }
func (m *Mach) NStore() int         { return len(m.st.store) }
func (m *Mach) NCVT() int           { return len(m.st.cvt) }
func (m *Mach) CVT(i int) int64     { return m.st.cvt[i] }
func (m *Mach) Loop() int64         { return m.gs.loop }
func (m *Mach) PPEM() int64         { return (m.e.Scale + 32) >> 6 }
func (m *Mach) DeltaBase() int64    { return m.gs.deltaBase }
func (m *Mach) At(i int) XY         { return m.cur[i].XY }
func (m *Mach) Steps() int          { return m.steps }
func (m *Mach) Functions() int      { return len(m.st.fns) }
func (m *Mach) RP(k int) int64      { return m.gs.rp[k] }
func (m *Mach) TwilightAt(i int) XY { return m.st.tw[i].XY }

func (m *Mach) pop() int64 {
	if len(m.stack) == 0 {
		invalid("stack underflow")
	}
	v := m.stack[len(m.stack)-1]
	m.stack = m.stack[:len(m.stack)-1]
	return v
}

func (m *Mach) push(v int64) {
	if v != int64(int32(v)) {
		ambiguous("stack value %d", v)
	}
	m.stack = append(m.stack, v)
	if len(m.stack) > int(m.e.F.MaxStack) {
		ambiguous("stack overflow")
	}
}

func (m *Mach) need(n int) {
	if len(m.stack) < n {
		invalid("stack underflow")
	}
}

// dot projects (x, y) on a 2.14 vector, rounding halves away from zero.
func dot(x, y int64, v [2]int64) int64 {
	d := x*v[0] + y*v[1]
	if d < 0 {
		return rng(-((-d + 0x2000) >> 14))
	}
	return rng((d + 0x2000) >> 14)
}

// unit is the vector of length one in the direction of (x, y).
func unit(x, y int64) [2]int64 {
	if x == 0 && y == 0 {
		ambiguous("vector without direction")
	}
	s := new(big.Int).Add(new(big.Int).Mul(big.NewInt(x), big.NewInt(x)), new(big.Int).Mul(big.NewInt(y), big.NewInt(y)))
	one := func(c int64) int64 {
		neg := c < 0
		if neg {
			c = -c
		}
		// The nearest integer to 0x4000*c/sqrt(s), from below.
		n := int64(0x4000 * float64(c) / math.Hypot(float64(x), float64(y)))
		n = max(0, n-2)
		// n+1 is nearer if (n+1/2)^2 * s <= (0x4000*c)^2.
		rhs := new(big.Int).Mul(big.NewInt(0x8000*c), big.NewInt(0x8000*c))
		for {
			k := big.NewInt((2*n + 1) * (2*n + 1))
			if k.Mul(k, s).Cmp(rhs) > 0 {
				break
			}
			n++
		}
		if neg {
			return -n
		}
		return n
	}
	return [2]int64{one(x), one(y)}
}

// round rounds per the round state.
func (m *Mach) round(x int64) int64 {
	g := &m.gs
	if g.period == 0 {
		return x
	}
	a := x
	if a < 0 {
		a = -a
	}
	v := a - g.phase + g.threshold
	if g.super45 {
		v = v / g.period * g.period
	} else {
		v &= -g.period
	}
	if v < 0 {
		if x == 0 {
			ambiguous("rounding zero below zero")
		}
		v = 0
	}
	v += g.phase
	if x < 0 {
		v = -v
	}
	return rng(v)
}

// zone access

func (m *Mach) zoneLen(z int) int {
	if z == 0 {
		return len(m.st.tw)
	}
	return len(m.cur)
}

func (m *Mach) check(zp int, i int64) int {
	if i < 0 || i >= int64(m.zoneLen(m.gs.zp[zp])) {
		invalid("point %d", i)
	}
	return int(i)
}

// pt is the current point i of the zone that zone pointer zp names.
func (m *Mach) pt(zp int, i int64) *Point {
	k := m.check(zp, i)
	if m.gs.zp[zp] == 0 {
		return &m.st.tw[k]
	}
	return &m.cur[k]
}

// og is the original position of a point.
func (m *Mach) og(zp int, i int64) *XY {
	k := m.check(zp, i)
	if m.gs.zp[zp] == 0 {
		return &m.st.twOrg[k]
	}
	return &m.org[k]
}

// ou is the unscaled original position of a point of the glyph zone.
func (m *Mach) ou(zp int, i int64) XY {
	k := m.check(zp, i)
	if m.gs.zp[zp] == 0 {
		panic("reftt: unscaled twilight point")
	}
	return m.orus[k]
}

func (m *Mach) proj(x, y int64) int64 { return dot(x, y, m.gs.pv) }
func (m *Mach) dual(x, y int64) int64 { return dot(x, y, m.gs.dv) }

// along is how far a point moves along the freedom vector for it to be
// displaced by d along the projection vector.
func (m *Mach) along(d int64) XY {
	if fv := m.gs.fv; fv[0] != 0 && fv[1] != 0 && (abs(fv[0]) == 0x4000 || abs(fv[1]) == 0x4000) {
		// The vector is along an axis but for a component that rounding left.
		ambiguous("freedom vector %v", fv)
	}
	fp := (m.gs.fv[0]*m.gs.pv[0] + m.gs.fv[1]*m.gs.pv[1]) >> 14
	if fp > -0x400 && fp < 0x400 {
		fp = 0x4000
	}
	return XY{rng(MulDiv(m.gs.fv[0], d, fp)), rng(MulDiv(m.gs.fv[1], d, fp))}
}

func (m *Mach) shift(p *Point, by XY, touch bool) {
	if m.gs.fv[0] != 0 {
		p.X = rng(p.X + by.X)
		p.TX = p.TX || touch
	}
	if m.gs.fv[1] != 0 {
		p.Y = rng(p.Y + by.Y)
		p.TY = p.TY || touch
	}
}

func (m *Mach) move(p *Point, d int64) { m.shift(p, m.along(d), true) }

func (m *Mach) cvtIndex(i int64) int {
	if i < 0 || i >= int64(len(m.st.cvt)) {
		ambiguous("control value %d", i)
	}
	return int(i)
}

func abs(x int64) int64 {
	if x < 0 {
		return -x
	}
	return x
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

func (m *Mach) eachLoop(f func(i int64)) {
	n := m.gs.loop
	if n < 1 {
		ambiguous("loop of %d", n)
	}
	m.need(int(n))
	for ; n > 0; n-- {
		f(m.pop())
	}
	m.gs.loop = 1
}

// scaleDist scales a distance between unscaled points.
func (m *Mach) scaleDist(d int64) int64 {
	if m.compound {
		return d
	}
	return m.e.S(d)
}

// next is the address after the instruction at pc.
func next(code []byte, pc int) int {
	op := code[pc]
	n := 1
	switch {
	case op == 0x40 || op == 0x41:
		if pc+1 >= len(code) {
			invalid("push count missing")
		}
		n = 2 + int(code[pc+1])
		if op == 0x41 {
			n += int(code[pc+1])
		}
	case op >= 0xb0 && op <= 0xb7:
		n += int(op-0xb0) + 1
	case op >= 0xb8 && op <= 0xbf:
		n += 2 * (int(op-0xb8) + 1)
	}
	if pc+n > len(code) {
		invalid("push data missing")
	}
	return pc + n
}

// Run executes a program.
func (m *Mach) Run(code []byte) {
	if len(code) > 40000 {
		ambiguous("program too long")
	}
	m.exec(code, 0)
	for i := range m.ops {
		m.e.Ops[i] += m.ops[i]
		m.ops[i] = 0
	}
}

// exec executes a program or function.
func (m *Mach) exec(code []byte, depth int) {
	if depth > 30 {
		ambiguous("calls nest too deeply")
	}
	pc := 0
	for {
		if pc < 0 || pc > len(code) || pc == len(code) && depth > 0 {
			invalid("jump out of the program")
		}
		if pc == len(code) {
			return
		}
		if m.steps++; m.steps > 60000 {
			ambiguous("too many steps")
		}
		op := code[pc]
		m.ops[op]++
		nx := next(code, pc)
		switch {
		case op == 0x1b: // ELSE, reached from the end of the first branch
			nx = m.skip(code, nx, false)
		case op == 0x58: // IF
			if m.pop() == 0 {
				nx = m.skip(code, nx, true)
			}
		case op == 0x59: // EIF
		case op == 0x1c: // JMPR
			nx = pc + m.offset(m.pop())
		case op == 0x78 || op == 0x79: // JROT, JROF
			c := m.pop()
			o := m.pop()
			if (c != 0) == (op == 0x78) {
				nx = pc + m.offset(o)
			}
		case op == 0x2c: // FDEF
			if depth > 0 || !m.st.inFpgm && !m.st.prep {
				ambiguous("FDEF in a function or glyph program")
			}
			n := m.pop()
			if n < 0 || n >= int64(m.e.F.MaxFunctions) {
				ambiguous("function number")
			}
			end := nx
			for {
				if end >= len(code) {
					invalid("FDEF without ENDF")
				}
				if code[end] == 0x2c || code[end] == 0x89 {
					invalid("nested FDEF")
				}
				e := next(code, end)
				if code[end] == 0x2d {
					m.st.fns[n] = code[nx:e]
					nx = e
					break
				}
				end = e
			}
		case op == 0x2d: // ENDF
			if depth == 0 {
				invalid("ENDF outside of a function")
			}
			return
		case op == 0x2b || op == 0x2a: // CALL, LOOPCALL
			f, ok := m.st.fns[m.pop()]
			if !ok {
				invalid("undefined function")
			}
			n := int64(1)
			if op == 0x2a {
				n = m.pop()
				if n < 0 {
					ambiguous("negative call count")
				}
			}
			for ; n > 0; n-- {
				m.exec(f, depth+1)
			}
		default:
			m.step(op, code[pc+1:nx])
		}
		pc = nx
	}
}

func (m *Mach) offset(o int64) int {
	if o == 0 || o > 40000 || o < -40000 {
		invalid("jump by %d", o)
	}
	return int(o)
}

// skip finds where execution goes on: after the matching ELSE (if wanted) or
// EIF.
func (m *Mach) skip(code []byte, pc int, toElse bool) int {
	depth := 0
	for {
		if pc >= len(code) {
			invalid("IF without EIF")
		}
		op := code[pc]
		pc = next(code, pc)
		switch op {
		case 0x58:
			depth++
		case 0x1b:
			if depth == 0 && toElse {
				return pc
			}
		case 0x59:
			if depth == 0 {
				return pc
			}
			depth--
		case 0x2d, 0x2c:
			invalid("function boundary in a skipped branch")
		}
	}
}

// step executes one instruction that does not change the flow.
func (m *Mach) step(op byte, data []byte) {
	g := &m.gs
	switch {
	case op <= 0x05: // SVTCA, SPVTCA, SFVTCA
		v := [2]int64{0, 0x4000}
		if op&1 != 0 {
			v = [2]int64{0x4000, 0}
		}
		if op <= 0x03 {
			g.pv, g.dv = v, v
		}
		if op <= 0x01 || op >= 0x04 {
			g.fv = v
		}
	case op <= 0x09 || op == 0x86 || op == 0x87: // SPVTL, SFVTL, SDPVTL
		i2 := m.pop()
		i1 := m.pop()
		vec := func(a, b XY) [2]int64 {
			x, y := a.X-b.X, a.Y-b.Y
			if op&1 != 0 {
				x, y = -y, x
			}
			return unit(x, y)
		}
		v := vec(m.pt(1, i1).XY, m.pt(2, i2).XY)
		switch {
		case op <= 0x07:
			g.pv, g.dv = v, v
		case op <= 0x09:
			g.fv = v
		default:
			g.dv = vec(*m.og(1, i1), *m.og(2, i2))
			g.pv = v
		}
	case op == 0x0a || op == 0x0b: // SPVFS, SFVFS
		y := int64(int16(m.pop()))
		x := int64(int16(m.pop()))
		v := unit(x, y)
		if op == 0x0a {
			g.pv, g.dv = v, v
		} else {
			g.fv = v
		}
	case op == 0x0c: // GPV
		m.push(g.pv[0])
		m.push(g.pv[1])
	case op == 0x0d: // GFV
		m.push(g.fv[0])
		m.push(g.fv[1])
	case op == 0x0e: // SFVTPV
		g.fv = g.pv
	case op == 0x0f: // ISECT
		m.isect()
	case op >= 0x10 && op <= 0x12: // SRP
		g.rp[op-0x10] = m.pop()
	case op >= 0x13 && op <= 0x16: // SZP0-2, SZPS
		z := m.pop()
		if z != 0 && z != 1 {
			invalid("zone %d", z)
		}
		if op == 0x16 {
			g.zp = [3]int{int(z), int(z), int(z)}
		} else {
			g.zp[op-0x13] = int(z)
		}
	case op == 0x17: // SLOOP
		g.loop = m.pop()
		if g.loop < 1 {
			ambiguous("loop of %d", g.loop)
		}
	case op == 0x18: // RTG
		g.period, g.phase, g.threshold, g.super45 = 64, 0, 32, false
	case op == 0x19: // RTHG
		g.period, g.phase, g.threshold, g.super45 = 64, 32, 32, false
	case op == 0x3d: // RTDG
		g.period, g.phase, g.threshold, g.super45 = 32, 0, 16, false
	case op == 0x7a: // ROFF
		g.period = 0
	case op == 0x7c: // RUTG
		g.period, g.phase, g.threshold, g.super45 = 64, 0, 63, false
	case op == 0x7d: // RDTG
		g.period, g.phase, g.threshold, g.super45 = 64, 0, 0, false
	case op == 0x76 || op == 0x77: // SROUND, S45ROUND
		n := m.pop()
		p := []int64{32, 64, 128, 64}[n>>6&3]
		if n>>6&3 == 3 {
			ambiguous("reserved period")
		}
		g.super45 = op == 0x77
		if g.super45 {
			p = []int64{22, 45, 90}[n>>6&3]
		}
		g.period = p
		g.phase = p * (n >> 4 & 3) / 4
		if n&15 == 0 {
			g.threshold = p - 1
		} else {
			g.threshold = p * (n&15 - 4) / 8
		}
	case op == 0x1a: // SMD
		g.minDist = rng(m.pop())
	case op == 0x1d: // SCVTCI
		g.cutIn = rng(m.pop())
	case op == 0x1e: // SSWCI
		g.swCutIn = rng(m.pop())
	case op == 0x1f: // SSW
		g.sw = rng(m.e.S(rng(m.pop())))
	case op == 0x20: // DUP
		v := m.pop()
		m.push(v)
		m.push(v)
	case op == 0x21: // POP
		m.pop()
	case op == 0x22: // CLEAR
		m.stack = m.stack[:0]
	case op == 0x23: // SWAP
		b, a := m.pop(), m.pop()
		m.push(b)
		m.push(a)
	case op == 0x24: // DEPTH
		m.push(int64(len(m.stack)))
	case op == 0x25 || op == 0x26: // CINDEX, MINDEX
		k := m.pop()
		if k < 1 || k > int64(len(m.stack)) {
			invalid("stack index")
		}
		at := len(m.stack) - int(k)
		v := m.stack[at]
		if op == 0x26 {
			m.stack = append(m.stack[:at], m.stack[at+1:]...)
		}
		m.push(v)
	case op == 0x8a: // ROLL
		m.need(3)
		a, b, c := m.pop(), m.pop(), m.pop()
		m.push(b)
		m.push(a)
		m.push(c)
	case op == 0x27: // ALIGNPTS
		i2, i1 := m.pop(), m.pop()
		p, q := m.pt(1, i1), m.pt(0, i2)
		d := m.proj(q.X-p.X, q.Y-p.Y) / 2
		m.move(p, d)
		m.move(q, -d)
	case op == 0x29: // UTP
		p := m.pt(0, m.pop())
		if g.fv[0] != 0 {
			p.TX = false
		}
		if g.fv[1] != 0 {
			p.TY = false
		}
	case op == 0x2e || op == 0x2f: // MDAP
		i := m.pop()
		p := m.pt(0, i)
		d := int64(0)
		if op&1 != 0 {
			c := m.proj(p.X, p.Y)
			d = m.round(c) - c
		}
		m.move(p, d)
		g.rp[0], g.rp[1] = i, i
	case op == 0x30 || op == 0x31: // IUP
		m.iup(op == 0x31)
	case op == 0x32 || op == 0x33: // SHP
		_, _, by := m.displacement(op)
		m.eachLoop(func(i int64) { m.shift(m.pt(2, i), by, true) })
	case op == 0x34 || op == 0x35: // SHC
		c := m.pop()
		if g.zp[2] != 1 {
			ambiguous("SHC in the twilight zone")
		}
		z, ref, by := m.displacement(op)
		if c < 0 || c >= int64(len(m.ends)) {
			invalid("contour")
		}
		j0 := 0
		if c > 0 {
			j0 = m.ends[c-1]
		}
		for j := j0; j < m.ends[c]; j++ {
			if z != 1 || int64(j) != ref {
				m.shift(&m.cur[j], by, true)
			}
		}
	case op == 0x36 || op == 0x37: // SHZ
		if e := m.pop(); e != int64(g.zp[2]) {
			ambiguous("SHZ of another zone than zp2")
		}
		z, ref, by := m.displacement(op)
		n := len(m.cur) - 4
		if g.zp[2] == 0 {
			n = len(m.st.tw)
		}
		for j := 0; j < n; j++ {
			if z != g.zp[2] || int64(j) != ref {
				m.shift(m.pt(2, int64(j)), by, false)
			}
		}
	case op == 0x38: // SHPIX
		d := rng(m.pop())
		by := XY{dot(d, 0, g.fv), dot(0, d, g.fv)}
		m.eachLoop(func(i int64) { m.shift(m.pt(2, i), by, true) })
	case op == 0x39: // IP
		m.ip()
	case op == 0x3a || op == 0x3b: // MSIRP
		d := rng(m.pop())
		i := m.pop()
		if g.zp[1] != 1 {
			ambiguous("MSIRP of a twilight point")
		}
		ref, p := m.pt(0, g.rp[0]), m.pt(1, i)
		cur := m.proj(p.X-ref.X, p.Y-ref.Y)
		m.move(p, d-cur)
		g.rp[1], g.rp[2] = g.rp[0], i
		if op&1 != 0 {
			g.rp[0] = i
		}
	case op == 0x3c: // ALIGNRP
		m.eachLoop(func(i int64) {
			p, ref := m.pt(1, i), m.pt(0, g.rp[0])
			m.move(p, -m.proj(p.X-ref.X, p.Y-ref.Y))
		})
	case op == 0x3e || op == 0x3f: // MIAP
		d := m.st.cvt[m.cvtIndex(m.pop())]
		i := m.pop()
		p := m.pt(0, i)
		if g.zp[0] == 0 {
			o := m.og(0, i)
			*o = XY{dot(d, 0, g.fv), dot(0, d, g.fv)}
			p.XY = *o
		}
		c := m.proj(p.X, p.Y)
		if op&1 != 0 {
			if abs(d-c) > g.cutIn {
				d = c
			}
			d = m.round(d)
		}
		m.move(p, d-c)
		g.rp[0], g.rp[1] = i, i
	case op == 0x40 || op >= 0xb0 && op <= 0xb7: // NPUSHB, PUSHB
		if op == 0x40 {
			data = data[1:]
		}
		for _, b := range data {
			m.push(int64(b))
		}
	case op == 0x41 || op >= 0xb8 && op <= 0xbf: // NPUSHW, PUSHW
		if op == 0x41 {
			data = data[1:]
		}
		for ; len(data) > 0; data = data[2:] {
			m.push(int64(int16(uint16(data[0])<<8 | uint16(data[1]))))
		}
	case op == 0x42: // WS
		v := m.pop()
		i := m.pop()
		if m.st.inFpgm {
			ambiguous("storage in fpgm")
		}
		if i < 0 || i >= int64(len(m.st.store)) {
			ambiguous("storage location")
		}
		m.st.store[i] = v
	case op == 0x43: // RS
		i := m.pop()
		if i < 0 || i >= int64(len(m.st.store)) {
			ambiguous("storage location")
		}
		m.push(m.st.store[i])
	case op == 0x44 || op == 0x70: // WCVTP, WCVTF
		v := rng(m.pop())
		i := m.cvtIndex(m.pop())
		if m.st.inFpgm {
			ambiguous("control values in fpgm")
		}
		if op == 0x70 {
			v = rng(m.e.S(v))
		}
		m.st.cvt[i] = v
	case op == 0x45: // RCVT
		i := m.cvtIndex(m.pop())
		m.push(m.st.cvt[i])
	case op == 0x46: // GC current
		p := m.pt(2, m.pop())
		m.push(m.proj(p.X, p.Y))
	case op == 0x47: // GC original
		p := m.og(2, m.pop())
		m.push(m.dual(p.X, p.Y))
	case op == 0x48: // SCFS
		v := rng(m.pop())
		i := m.pop()
		p := m.pt(2, i)
		m.move(p, v-m.proj(p.X, p.Y))
		if g.zp[2] == 0 {
			*m.og(2, i) = p.XY
		}
	case op == 0x49: // MD grid-fitted
		i2, i1 := m.pop(), m.pop()
		p, q := m.pt(0, i1), m.pt(1, i2)
		m.push(m.proj(p.X-q.X, p.Y-q.Y))
	case op == 0x4a: // MD original
		i2, i1 := m.pop(), m.pop()
		m.push(m.orgDist(0, i1, 1, i2))
	case op == 0x4b: // MPPEM
		m.push(m.PPEM())
	case op == 0x4c: // MPS
		ambiguous("point size")
	case op == 0x4d: // FLIPON
		g.autoFlip = true
	case op == 0x4e: // FLIPOFF
		g.autoFlip = false
	case op >= 0x50 && op <= 0x55:
		b, a := m.pop(), m.pop()
		m.push(b2i([]bool{a < b, a <= b, a > b, a >= b, a == b, a != b}[op-0x50]))
	case op == 0x56 || op == 0x57: // ODD, EVEN
		v := m.round(m.pop())
		if v&63 != 0 {
			ambiguous("parity of a fraction")
		}
		m.push(b2i((v>>6&1 != 0) == (op == 0x56)))
	case op == 0x5a: // AND
		b, a := m.pop(), m.pop()
		m.push(b2i(a != 0 && b != 0))
	case op == 0x5b: // OR
		b, a := m.pop(), m.pop()
		m.push(b2i(a != 0 || b != 0))
	case op == 0x5c: // NOT
		m.push(b2i(m.pop() == 0))
	case op == 0x5d || op == 0x71 || op == 0x72: // DELTAP
		c0 := map[byte]int64{0x5d: 0, 0x71: 16, 0x72: 32}[op]
		m.delta(c0, func(i, d int64, hit bool) {
			p := m.pt(0, i)
			if hit {
				m.move(p, d)
			}
		})
	case op >= 0x73 && op <= 0x75: // DELTAC
		m.delta(int64(op-0x73)*16, func(i, d int64, hit bool) {
			k := m.cvtIndex(i)
			if hit {
				if m.st.inFpgm {
					ambiguous("control values in fpgm")
				}
				m.st.cvt[k] = rng(m.st.cvt[k] + d)
			}
		})
	case op == 0x5e: // SDB
		g.deltaBase = rng(m.pop())
	case op == 0x5f: // SDS
		g.deltaShift = m.pop()
		if g.deltaShift < 0 || g.deltaShift > 6 {
			invalid("delta shift")
		}
	case op == 0x60:
		b, a := m.pop(), m.pop()
		m.push(a + b)
	case op == 0x61:
		b, a := m.pop(), m.pop()
		m.push(a - b)
	case op == 0x62: // DIV
		b, a := m.pop(), m.pop()
		if b == 0 {
			invalid("division by zero")
		}
		m.push(a * 64 / b)
	case op == 0x63: // MUL
		b, a := m.pop(), m.pop()
		if v := a * b; v < 0 && v&63 == 32 {
			ambiguous("negative half")
		}
		m.push(MulDiv(a, b, 64))
	case op == 0x64:
		m.push(abs(m.pop()))
	case op == 0x65:
		m.push(-m.pop())
	case op == 0x66: // FLOOR
		m.push(m.pop() &^ 63)
	case op == 0x67: // CEILING
		m.push((m.pop() + 63) &^ 63)
	case op >= 0x68 && op <= 0x6b: // ROUND
		m.push(m.round(rng(m.pop())))
	case op >= 0x6c && op <= 0x6f: // NROUND
		m.need(1)
	case op == 0x7e || op == 0x7f || op == 0x85 || op == 0x8d: // SANGW, AA, SCANCTRL, SCANTYPE
		m.pop()
	case op == 0x80: // FLIPPT
		m.eachLoop(func(i int64) {
			if i < 0 || i >= int64(len(m.cur)) {
				invalid("point")
			}
			m.cur[i].On = !m.cur[i].On
		})
	case op == 0x81 || op == 0x82: // FLIPRGON, FLIPRGOFF
		hi, lo := m.pop(), m.pop()
		if lo < 0 || hi < 0 || lo >= int64(len(m.cur)) || hi >= int64(len(m.cur)) {
			invalid("point")
		}
		for ; lo <= hi; lo++ {
			m.cur[lo].On = op == 0x81
		}
	case op == 0x88: // GETINFO
		s := m.pop()
		v := int64(0)
		if s&1 != 0 {
			v = 35
		}
		if s&32 != 0 {
			v |= 1 << 12
		}
		m.push(v)
	case op == 0x8b:
		b, a := m.pop(), m.pop()
		m.push(max(a, b))
	case op == 0x8c:
		b, a := m.pop(), m.pop()
		m.push(min(a, b))
	case op == 0x8e: // INSTCTRL
		sel, v := m.pop(), m.pop()
		if v != 0 || sel != 1 && sel != 2 {
			ambiguous("instruction control")
		}
	case op >= 0xc0 && op <= 0xdf: // MDRP
		m.mdrp(op)
	case op >= 0xe0: // MIRP
		m.mirp(op)
	default:
		invalid("opcode %#x", op)
	}
}

// displacement is the displacement of the reference point of SHP, SHC, SHZ.
func (m *Mach) displacement(op byte) (zone int, ref int64, by XY) {
	zp, ref := 1, m.gs.rp[2]
	if op&1 != 0 {
		zp, ref = 0, m.gs.rp[1]
	}
	p, o := m.pt(zp, ref), m.og(zp, ref)
	return m.gs.zp[zp], ref, m.along(m.proj(p.X-o.X, p.Y-o.Y))
}

// orgDist is the original distance between two points.
func (m *Mach) orgDist(za int, a int64, zb int, b int64) int64 {
	if m.gs.zp[za] == 0 || m.gs.zp[zb] == 0 {
		p, q := m.og(za, a), m.og(zb, b)
		return m.dual(p.X-q.X, p.Y-q.Y)
	}
	p, q := m.ou(za, a), m.ou(zb, b)
	return rng(m.scaleDist(m.dual(p.X-q.X, p.Y-q.Y)))
}

func (m *Mach) isect() {
	m.need(5)
	b1, b0, a1, a0 := m.pop(), m.pop(), m.pop(), m.pop()
	p := m.pt(2, m.pop())
	A0, A1 := m.pt(1, a0).XY, m.pt(1, a1).XY
	B0, B1 := m.pt(0, b0).XY, m.pt(0, b1).XY
	ax, ay := A1.X-A0.X, A1.Y-A0.Y
	bx, by := B1.X-B0.X, B1.Y-B0.Y
	dx, dy := B0.X-A0.X, B0.Y-A0.Y
	cross := rng(MulDiv(ax, -by, 64) + MulDiv(ay, bx, 64))
	inner := rng(MulDiv(ax, bx, 64) + MulDiv(ay, by, 64))
	if 19*abs(cross) > abs(inner) {
		v := rng(MulDiv(dx, -by, 64) + MulDiv(dy, bx, 64))
		p.X = rng(A0.X + MulDiv(v, ax, cross))
		p.Y = rng(A0.Y + MulDiv(v, ay, cross))
	} else {
		p.X = (A0.X + A1.X + B0.X + B1.X) / 4
		p.Y = (A0.Y + A1.Y + B0.Y + B1.Y) / 4
	}
	p.TX, p.TY = true, true
}

func (m *Mach) ip() {
	g := &m.gs
	tw := g.zp[0] == 0 || g.zp[1] == 0 || g.zp[2] == 0
	orig := func(zp int, i int64) XY {
		if tw {
			return *m.og(zp, i)
		}
		return m.ou(zp, i)
	}
	base, far := orig(0, g.rp[1]), orig(1, g.rp[2])
	oldRange := m.dual(far.X-base.X, far.Y-base.Y)
	cb, cf := m.pt(0, g.rp[1]).XY, m.pt(1, g.rp[2]).XY
	curRange := m.proj(cf.X-cb.X, cf.Y-cb.Y)
	m.eachLoop(func(i int64) {
		o := orig(2, i)
		od := m.dual(o.X-base.X, o.Y-base.Y)
		p := m.pt(2, i)
		cd := m.proj(p.X-cb.X, p.Y-cb.Y)
		nd := int64(0)
		if od != 0 {
			if oldRange == 0 {
				ambiguous("interpolation without range")
			}
			nd = rng(MulDiv(od, curRange, oldRange))
		}
		m.move(p, nd-cd)
	})
}

func (m *Mach) delta(c0 int64, f func(i, d int64, hit bool)) {
	n := m.pop()
	if n < 0 {
		invalid("delta count")
	}
	for ; n > 0; n-- {
		m.need(2)
		i := m.pop()
		arg := m.pop()
		if arg < 0 || arg > 255 {
			ambiguous("delta argument")
		}
		hit := m.PPEM() == arg>>4+c0+m.gs.deltaBase
		k := arg&15 - 8
		if k >= 0 {
			k++
		}
		f(i, k<<6>>m.gs.deltaShift, hit)
	}
}

func (m *Mach) minimum(d, org int64) int64 {
	if org >= 0 {
		return max(d, m.gs.minDist)
	}
	return min(d, -m.gs.minDist)
}

func (m *Mach) mdrp(op byte) {
	g := &m.gs
	i := m.pop()
	p, ref := m.pt(1, i), m.pt(0, g.rp[0])
	org := m.orgDist(1, i, 0, g.rp[0])
	if abs(org-g.sw) < g.swCutIn {
		if org >= 0 {
			org = g.sw
		} else {
			org = -g.sw
		}
	}
	d := org
	if op&4 != 0 {
		d = m.round(org)
	}
	if op&8 != 0 {
		d = m.minimum(d, org)
	}
	cur := m.proj(p.X-ref.X, p.Y-ref.Y)
	m.move(p, d-cur)
	g.rp[1], g.rp[2] = g.rp[0], i
	if op&16 != 0 {
		g.rp[0] = i
	}
}

func (m *Mach) mirp(op byte) {
	g := &m.gs
	cvt := m.st.cvt[m.cvtIndex(m.pop())]
	i := m.pop()
	if g.zp[1] != 1 {
		ambiguous("MIRP of a twilight point")
	}
	if abs(cvt-g.sw) < g.swCutIn {
		if cvt >= 0 {
			cvt = g.sw
		} else {
			cvt = -g.sw
		}
	}
	p, ref := m.pt(1, i), m.pt(0, g.rp[0])
	po, ro := m.og(1, i), m.og(0, g.rp[0])
	org := m.dual(po.X-ro.X, po.Y-ro.Y)
	if g.autoFlip && (org < 0) != (cvt < 0) {
		cvt = -cvt
	}
	d := cvt
	if op&4 != 0 {
		if g.zp[0] == g.zp[1] && abs(cvt-org) > g.cutIn {
			d = org
		}
		d = m.round(d)
	}
	if op&8 != 0 {
		d = m.minimum(d, org)
	}
	cur := m.proj(p.X-ref.X, p.Y-ref.Y)
	m.move(p, d-cur)
	g.rp[1], g.rp[2] = g.rp[0], i
	if op&16 != 0 {
		g.rp[0] = i
	}
}

// iup interpolates the untouched points of each contour.
func (m *Mach) iup(xAxis bool) {
	touched := func(p *Point) bool {
		if xAxis {
			return p.TX
		}
		return p.TY
	}
	c := func(p *XY) *int64 {
		if xAxis {
			return &p.X
		}
		return &p.Y
	}
	start := 0
	for _, end := range m.ends {
		var ts []int
		for i := start; i < end; i++ {
			if touched(&m.cur[i]) {
				ts = append(ts, i)
			}
		}
		switch len(ts) {
		case 0:
		case 1:
			d := *c(&m.cur[ts[0]].XY) - *c(&m.org[ts[0]])
			for i := start; i < end; i++ {
				if i != ts[0] {
					*c(&m.cur[i].XY) += d
				}
			}
		default:
			for k, a := range ts {
				b := ts[(k+1)%len(ts)]
				for i := a; ; {
					if i++; i == end {
						i = start
					}
					if i == b {
						break
					}
					m.interp(c, i, a, b)
				}
			}
		}
		start = end
	}
}

// interp places the untouched point i between the touched points a and b.
func (m *Mach) interp(c func(*XY) *int64, i, a, b int) {
	ua, ub := *c(&m.orus[a]), *c(&m.orus[b])
	if ua > ub {
		a, b, ua, ub = b, a, ub, ua
	}
	oa, ob := *c(&m.org[a]), *c(&m.org[b])
	na, nb := *c(&m.cur[a].XY), *c(&m.cur[b].XY)
	o := *c(&m.org[i])
	var v int64
	switch {
	case o <= oa:
		v = o + na - oa
	case o >= ob || ua == ub:
		if ua == ub && o < ob {
			ambiguous("interpolation between points that were one")
		}
		v = o + nb - ob
	default:
		scale := MulDiv(nb-na, 0x10000, ub-ua)
		v = na + MulDiv(*c(&m.orus[i])-ua, scale, 0x10000)
	}
	*c(&m.cur[i].XY) = rng(v)
}
