// Package ttgen generates fonts with valid hinting programs. Programs grow
// unit by unit (an instruction with the pushes of its operands, or a control
// structure); a unit that the reference interpreter finds invalid, or that the
// specification leaves open, is dropped.
package ttgen

import (
	"math/rand/v2"
	"slices"

	"verif/harness/fontgen"
	"verif/harness/reftt"
)

func pick[T any](r *rand.Rand, xs ...T) T { return xs[r.IntN(len(xs))] }

// G generates programs for one font.
type G struct {
	R *rand.Rand
	F *fontgen.Font
	// NArgs is the number of arguments of each function, and its kinds:
	// 'p' a point of zp0, 'q' of zp1, 's' of zp2, 'v' a value, 'c' a control value index, 'S' a storage index.
	Fns []string
	// fn numbers, in step with Fns.
	num   []int
	Units int // accepted
	Drops int
	// NoPhantoms keeps programs off the phantom points, and Tail ends prep.
	NoPhantoms bool
	Tail       []byte
	// Big makes the tables that programs use large, and Bare makes glyph
	// programs end by exposing as much hidden state as there are coordinates.
	Big, Bare bool
}

// push pushes values, the last of which ends up on top.
func (g *G) push(vs ...int64) []byte {
	r := g.R
	var b []byte
	for len(vs) > 0 {
		n := 1 + r.IntN(min(len(vs), 12))
		bytes := true
		for _, v := range vs[:n] {
			if v < 0 || v > 255 {
				bytes = false
			}
			if v != int64(int16(v)) {
				// Compose the value: (hi << 15) | lo, with hi small.
				n = 0
				break
			}
		}
		if n == 0 {
			if vs[0] != int64(int16(vs[0])) {
				// v = a*64*... : (a * 64.0) + c by MUL, which is (a*b+32)/64.
				v := vs[0]
				a, c := v>>12, v&0xfff
				b = append(b, 0xb8, byte(a>>8), byte(a))
				b = append(b, 0xb8, 0x40, 0x00, 0x63) // * 0x4000 / 64 = 256
				b = append(b, 0xb8, 0x04, 0x00, 0x63) // * 0x400 / 64 = 16
				b = append(b, 0xb8, byte(c>>8), byte(c), 0x60)
				vs = vs[1:]
				continue
			}
			n = 1
			bytes = vs[0] >= 0 && vs[0] <= 255
		}
		long := r.IntN(3) == 0 || n > 8
		switch {
		case bytes && r.IntN(5) != 0:
			if long {
				b = append(b, 0x40, byte(n))
			} else {
				b = append(b, 0xb0+byte(n-1))
			}
			for _, v := range vs[:n] {
				b = append(b, byte(v))
			}
		default:
			if long {
				b = append(b, 0x41, byte(n))
			} else {
				b = append(b, 0xb8+byte(n-1))
			}
			for _, v := range vs[:n] {
				b = append(b, byte(v>>8), byte(v))
			}
		}
		vs = vs[n:]
	}
	return b
}

// point is a point index in the zone of zone pointer zp.
func (g *G) point(m *reftt.Mach, zp int) int64 {
	n := m.NPoints()
	if m.Zone(zp) == 0 {
		n = m.NTwilight()
	} else if (g.NoPhantoms || g.R.IntN(12) != 0) && n > 4 {
		n -= 4 // mostly not the phantom points
	}
	if n == 0 {
		return 0
	}
	return int64(g.R.IntN(n))
}

// value is a 26.6 value.
func (g *G) value() int64 {
	r := g.R
	switch r.IntN(6) {
	case 0:
		return int64(r.IntN(7) - 3)
	case 1:
		return int64(r.IntN(9)-4) * 64
	case 2:
		return int64(r.IntN(9)-4) * 32
	case 3:
		return int64(r.IntN(20001) - 10000)
	}
	return int64(r.IntN(601) - 300)
}

func (g *G) cvt(m *reftt.Mach) int64 {
	if m.NCVT() == 0 {
		return 0
	}
	return int64(g.R.IntN(m.NCVT()))
}

// expr generates code that leaves one value on the stack.
func (g *G) expr(m *reftt.Mach, depth int) []byte {
	r := g.R
	if depth <= 0 {
		switch r.IntN(10) {
		case 0:
			if m.NStore() > 0 {
				return append(g.push(int64(r.IntN(m.NStore()))), 0x43)
			}
		case 1, 2:
			if m.NCVT() > 0 {
				return append(g.push(g.cvt(m)), 0x45)
			}
		case 3:
			return []byte{0x4b}
		case 4, 5:
			return append(g.push(g.point(m, 2)), pick(r, byte(0x46), 0x46, 0x47))
		case 6:
			return append(g.push(g.point(m, 0), g.point(m, 1)), pick(r, byte(0x49), 0x4a))
		case 7:
			if r.IntN(3) == 0 {
				return append(g.push(int64(r.IntN(64))), 0x88)
			}
			if r.IntN(3) == 0 {
				return []byte{0x24} // DEPTH
			}
		}
		if r.IntN(10) == 0 {
			return g.push(int64(r.IntN(2000001) - 1000000))
		}
		return g.push(g.value())
	}
	a := g.expr(m, depth-1-r.IntN(2))
	switch r.IntN(4) {
	case 0: // unary
		return append(a, pick(r, byte(0x64), 0x65, 0x66, 0x67, 0x68, 0x69, 0x6a, 0x6b, 0x6c, 0x6d, 0x6e, 0x6f, 0x5c, 0x56, 0x57))
	case 1: // through stack shuffles
		b := g.expr(m, depth-1-r.IntN(2))
		c := append(append([]byte{}, a...), b...)
		switch r.IntN(6) {
		case 0:
			return append(c, 0x23, 0x61) // SWAP SUB
		case 1:
			return append(c, 0x21) // POP
		case 2:
			return append(append(append(c, g.expr(m, 0)...), 0x8a), 0x61, 0x60) // ROLL SUB ADD
		case 3:
			return append(append(append(c, g.push(2)...), 0x25), 0x61, 0x61) // CINDEX: a b a
		case 4:
			return append(append(append(append(c, g.expr(m, 0)...), g.push(int64(1+r.IntN(3)))...), 0x26), 0x61, 0x60) // MINDEX
		case 5:
			return append(c, 0x20, 0x60, 0x61) // DUP ADD SUB
		}
	}
	b := g.expr(m, depth-1-r.IntN(2))
	c := append(append([]byte{}, a...), b...)
	return append(c, pick(r, byte(0x60), 0x60, 0x61, 0x61, 0x62, 0x63, 0x63, 0x8b, 0x8c, 0x50, 0x51, 0x52, 0x53, 0x54, 0x55, 0x5a, 0x5b))
}

// loop generates code that sets the loop variable and pushes that many
// points.
func (g *G) loop(m *reftt.Mach, zp int) []byte {
	var b []byte
	n := int64(1)
	if g.R.IntN(2) == 0 {
		n = int64(1 + g.R.IntN(6))
	}
	if l := m.Loop(); l != 1 && l <= 40 && g.R.IntN(2) == 0 {
		n = l // set before, perhaps by a function
	} else if n != 1 || l != 1 || g.R.IntN(4) == 0 {
		b = append(g.push(n), 0x17)
	}
	var ps []int64
	for ; n > 0; n-- {
		ps = append(ps, g.point(m, zp))
	}
	if len(ps) == 0 {
		return b
	}
	return append(b, g.push(ps...)...)
}

// junk is syntactically valid code that need not be executable.
func (g *G) junk() []byte {
	r := g.R
	var b []byte
	for k := r.IntN(6); k > 0; k-- {
		switch r.IntN(4) {
		case 0: // pushes whose data looks like structure
			n := 1 + r.IntN(8)
			b = append(b, 0xb0+byte(n-1))
			for ; n > 0; n-- {
				b = append(b, pick(r, byte(0x58), 0x59, 0x1b, 0x2d, 0x2c, 0x1c, 0xff))
			}
		case 1:
			n := 1 + r.IntN(8)
			b = append(b, 0xb8+byte(n-1))
			for ; n > 0; n-- {
				b = append(b, pick(r, byte(0x58), 0x59, 0x1b, 0x2d), pick(r, byte(0x59), 0x1b, 0x2d))
			}
		case 2:
			n := r.IntN(5)
			if r.IntN(2) == 0 {
				b = append(b, 0x40, byte(n))
			} else {
				b = append(b, 0x41, byte(n))
				n *= 2
			}
			for ; n > 0; n-- {
				b = append(b, pick(r, byte(0x58), 0x59, 0x1b, 0x2d))
			}
		case 3:
			op := byte(r.UintN(256))
			switch {
			case op == 0x40 || op == 0x41 || op >= 0xb0 && op < 0xc0, op == 0x2c || op == 0x2d || op == 0x89,
				op == 0x58 || op == 0x59 || op == 0x1b:
				op = 0x21
			}
			b = append(b, op)
		}
	}
	if r.IntN(3) == 0 {
		in := g.junk()
		b = append(append(b, 0x58), in...)
		if r.IntN(2) == 0 {
			b = append(append(b, 0x1b), g.junk()...)
		}
		b = append(b, 0x59)
	}
	return b
}

// jump generates code that jumps over some junk.
func (g *G) jump(m *reftt.Mach) []byte {
	j := g.junk()
	off := int64(len(j) + 1)
	switch g.R.IntN(3) {
	case 0:
		return append(append(g.push(off), 0x1c), j...)
	case 1:
		b := g.push(off)
		if g.R.IntN(4) == 0 {
			// Not taken: what follows must be executable.
			return append(append(b, g.push(0)...), 0x78)
		}
		b = append(b, g.push(pick(g.R, int64(1), -1, 64))...)
		return append(append(b, 0x78), j...)
	}
	b := g.push(off)
	if g.R.IntN(4) == 0 {
		return append(append(b, g.push(5)...), 0x79)
	}
	return append(append(append(b, g.push(0)...), 0x79), j...)
}

// backwards generates a loop by a backward jump: a counter in a storage
// location goes down to zero.
func (g *G) backwards(m *reftt.Mach) []byte {
	if m.NStore() == 0 {
		return nil
	}
	s := int64(g.R.IntN(m.NStore()))
	b := append(g.push(s, int64(1+g.R.IntN(4))), 0x42)
	var body []byte
	for k := 1 + g.R.IntN(2); k > 0; k-- {
		body = append(body, g.flat(m)...)
	}
	// s := s - 1
	body = append(body, g.push(s)...)
	body = append(body, g.push(s)...)
	body = append(body, 0x43)
	body = append(body, g.push(1)...)
	body = append(body, 0x61, 0x42)
	// if s != 0, jump back to the start of the body
	at := len(body)
	body = append(body, 0xb8, 0, 0) // the offset
	body = append(body, g.push(s)...)
	body = append(body, 0x43, 0x78)
	off := -(len(body) - 1)
	body[at+1], body[at+2] = byte(off>>8), byte(off)
	return append(b, body...)
}

func (g *G) call(m *reftt.Mach) []byte {
	if len(g.Fns) == 0 {
		return nil
	}
	i := g.R.IntN(len(g.Fns))
	times := 1
	op := byte(0x2b)
	if g.R.IntN(3) == 0 {
		op = 0x2a
		times = g.R.IntN(4)
	}
	var b []byte
	for k := 0; k < times; k++ {
		for _, a := range g.Fns[i] {
			switch a {
			case 'p':
				b = append(b, g.push(g.point(m, 0))...)
			case 'q':
				b = append(b, g.push(g.point(m, 1))...)
			case 's':
				b = append(b, g.push(g.point(m, 2))...)
			case 'c':
				b = append(b, g.push(g.cvt(m))...)
			case 'S':
				b = append(b, g.push(int64(g.R.IntN(max(1, m.NStore()))))...)
			default:
				b = append(b, g.push(g.value())...)
			}
		}
	}
	if op == 0x2a {
		b = append(b, g.push(int64(times))...)
	}
	return append(append(b, g.push(int64(g.num[i]))...), op)
}

// unit generates any unit.
func (g *G) unit(m *reftt.Mach) []byte {
	r := g.R
	switch r.IntN(16) {
	case 0: // IF
		var b []byte
		if r.IntN(2) == 0 {
			b = g.expr(m, 2)
		} else {
			b = g.push(pick(r, int64(0), 1))
		}
		b = append(b, 0x58)
		branch := func() {
			if r.IntN(4) == 0 {
				b = append(b, g.junk()...)
				return
			}
			for k := r.IntN(3); k > 0; k-- {
				b = append(b, g.flat(m)...)
			}
			if r.IntN(4) == 0 {
				b = append(b, g.unit(m)...)
			}
		}
		branch()
		if r.IntN(2) == 0 {
			b = append(b, 0x1b)
			branch()
		}
		return append(b, 0x59)
	case 1:
		return append(g.jump(m), g.flat(m)...)
	case 2:
		if r.IntN(2) == 0 {
			return g.backwards(m)
		}
	case 3:
		return g.call(m)
	case 4:
		return g.relative(m)
	}
	return g.flat(m)
}

// relative generates a MIRP or MDRP after setting what it depends on to
// values that matter: control values near the distance that the outline has,
// cut-ins and minimum distances of its order, negative ones among them.
func (g *G) relative(m *reftt.Mach) []byte {
	r := g.R
	var b []byte
	if m.Zone(0) != 1 || m.Zone(1) != 1 {
		if r.IntN(4) != 0 {
			b = append(g.push(1), 0x16)
		}
	}
	if r.IntN(2) == 0 {
		b = append(b, byte(r.IntN(2)))
	}
	// small is a distance of up to a few pixels, small ones more often.
	small := func() int64 { return int64(r.IntN(1+r.IntN(pick(r, 8, 64, 300, 2000)))) * int64(1-2*r.IntN(2)) }
	abs := func(v int64) int64 { return max(v, -v) }
	rp, p := g.point(m, 0), g.point(m, 1)
	b = append(append(b, g.push(rp)...), 0x10)
	if r.IntN(3) != 0 {
		b = append(append(b, g.push(abs(small()))...), 0x1e) // SSWCI
		v := small()
		if r.IntN(2) == 0 {
			v = v * int64(g.F.UPEM) / max(1, m.PPEM()) / 64
		}
		b = append(append(b, g.push(v)...), 0x1f) // SSW
	}
	if r.IntN(3) == 0 {
		b = append(append(b, g.push(abs(small()))...), 0x1d) // SCVTCI
	}
	if r.IntN(3) == 0 {
		b = append(append(b, g.push(small())...), 0x1a) // SMD
	}
	if r.IntN(3) == 0 {
		b = append(b, pick(r, byte(0x4d), 0x4e)) // FLIPON, FLIPOFF
	}
	if r.IntN(3) == 0 {
		// Bring the point close to the reference point, or onto it.
		b = append(append(b, g.push(p, small())...), 0x3a) // MSIRP
	}
	if m.NCVT() == 0 || r.IntN(3) == 0 {
		return append(append(b, g.push(p)...), 0xc0+byte(r.IntN(32)))
	}
	cv := g.cvt(m)
	switch r.IntN(3) {
	case 0:
		b = append(append(b, g.push(cv, small())...), 0x44)
	case 1:
		// The distance in the outline, give or take a little, or negated.
		b = append(append(b, g.push(cv, p, rp)...), pick(r, byte(0x49), 0x4a))
		if r.IntN(2) == 0 {
			b = append(append(b, g.push(small())...), 0x60)
		}
		if r.IntN(3) == 0 {
			b = append(b, 0x65)
		}
		b = append(b, 0x44)
	}
	return append(append(b, g.push(p, cv)...), 0xe0+byte(r.IntN(32)))
}

// flat generates a unit without control flow.
func (g *G) flat(m *reftt.Mach) []byte {
	r := g.R
	switch r.IntN(30) {
	case 0: // axis vectors
		return []byte{byte(r.IntN(6))}
	case 1: // vectors along lines
		return append(g.push(g.point(m, 1), g.point(m, 2)), pick(r, byte(0x06), 0x07, 0x08, 0x09, 0x86, 0x87))
	case 2: // vectors from the stack
		switch r.IntN(4) {
		case 0:
			return append(g.push(int64(r.IntN(0x8001)-0x4000), int64(r.IntN(0x8001)-0x4000)), pick(r, byte(0x0a), 0x0b))
		case 1:
			return []byte{0x0e}
		case 2:
			return append([]byte{pick(r, byte(0x0c), 0x0d)}, pick(r, byte(0x0a), 0x0b))
		default:
			if m.NStore() < 2 {
				return nil
			}
			// Save the vector: y on top.
			b := []byte{pick(r, byte(0x0c), 0x0d)}
			b = append(b, g.push(int64(r.IntN(m.NStore())))...)
			b = append(b, 0x23, 0x42)
			b = append(b, g.push(int64(r.IntN(m.NStore())))...)
			return append(b, 0x23, 0x42)
		}
	case 3: // zone pointers
		z := int64(1)
		if m.NTwilight() > 0 && r.IntN(3) == 0 {
			z = 0
		}
		return append(g.push(z), pick(r, byte(0x13), 0x14, 0x15, 0x16))
	case 4: // reference points
		k := r.IntN(3)
		return append(g.push(g.point(m, r.IntN(3))), 0x10+byte(k))
	case 5: // rounding
		switch r.IntN(7) {
		case 0, 1:
			return append(g.push(int64(r.IntN(256))), pick(r, byte(0x76), 0x76, 0x77))
		default:
			return []byte{pick(r, byte(0x18), 0x18, 0x19, 0x3d, 0x7a, 0x7c, 0x7d)}
		}
	case 6: // other state
		switch r.IntN(9) {
		case 7:
			return g.state()
		case 0:
			return append(g.push(pick(r, int64(64), 32, 0, 128, int64(r.IntN(200)))), 0x1a)
		case 1:
			return append(g.push(pick(r, int64(68), 0, 32, 1000, int64(r.IntN(300)))), 0x1d)
		case 2:
			return append(g.push(pick(r, int64(0), 16, 64, int64(r.IntN(300)))), 0x1e)
		case 3:
			return append(g.push(int64(r.IntN(2001)-500)), 0x1f)
		case 4:
			return []byte{pick(r, byte(0x4d), 0x4e)}
		case 5:
			return append(g.push(max(0, m.PPEM()-int64(r.IntN(50)))), 0x5e)
		case 6:
			return append(g.push(int64(r.IntN(7))), 0x5f)
		default:
			switch r.IntN(4) {
			case 0:
				return append(g.push(int64(r.IntN(500))), pick(r, byte(0x85), 0x8d, 0x7e, 0x7f))
			case 1:
				return append(g.push(0, pick(r, int64(1), 2)), 0x8e)
			}
			return append(g.push(int64(1+r.IntN(4))), 0x17)
		}
	case 7: // MDAP
		return append(g.push(g.point(m, 0)), pick(r, byte(0x2e), 0x2f))
	case 8: // MIAP
		return append(g.push(g.point(m, 0), g.cvt(m)), pick(r, byte(0x3e), 0x3f))
	case 9, 10: // MDRP
		return append(g.push(g.point(m, 1)), 0xc0+byte(r.IntN(32)))
	case 11, 12: // MIRP
		return append(g.push(g.point(m, 1), g.cvt(m)), 0xe0+byte(r.IntN(32)))
	case 13: // MSIRP
		return append(g.push(g.point(m, 1), g.value()), pick(r, byte(0x3a), 0x3b))
	case 14: // ALIGNRP
		return append(g.loop(m, 1), 0x3c)
	case 15, 16: // IP
		var b []byte
		if r.IntN(2) == 0 {
			b = append(append(g.push(g.point(m, 0)), 0x11), append(g.push(g.point(m, 1)), 0x12)...)
		}
		return append(b, append(g.loop(m, 2), 0x39)...)
	case 17: // SHP
		return append(g.loop(m, 2), pick(r, byte(0x32), 0x33))
	case 18: // SHC, SHZ
		if r.IntN(2) == 0 && len(m.Ends()) > 0 {
			return append(g.push(int64(r.IntN(len(m.Ends())))), pick(r, byte(0x34), 0x35))
		}
		return append(g.push(int64(m.Zone(2))), pick(r, byte(0x36), 0x37))
	case 19: // SHPIX
		return append(append(g.loop(m, 2), g.push(g.value())...), 0x38)
	case 20: // ISECT
		return append(g.push(g.point(m, 2), g.point(m, 1), g.point(m, 1), g.point(m, 0), g.point(m, 0)), 0x0f)
	case 21: // ALIGNPTS
		return append(g.push(g.point(m, 1), g.point(m, 0)), 0x27)
	case 22: // SCFS of a computed value
		b := g.push(g.point(m, 2))
		return append(append(b, g.expr(m, 1+r.IntN(3))...), 0x48)
	case 23: // UTP, IUP
		if r.IntN(2) == 0 {
			return append(g.push(g.point(m, 0)), 0x29)
		}
		return []byte{pick(r, byte(0x30), 0x31)}
	case 24: // DELTAP
		return g.delta(m, []byte{0x5d, 0x71, 0x72}, func() int64 { return g.point(m, 0) })
	case 25: // DELTAC
		if m.NCVT() == 0 {
			return nil
		}
		return g.delta(m, []byte{0x73, 0x74, 0x75}, func() int64 { return g.cvt(m) })
	case 26: // flips
		if r.IntN(2) == 0 {
			return append(g.loop(m, 2), 0x80)
		}
		a, b := g.point(m, 2), g.point(m, 2)
		if a > b && r.IntN(4) != 0 {
			a, b = b, a
		}
		return append(g.push(a, b), pick(r, byte(0x81), 0x82))
	case 27: // storage
		if m.NStore() == 0 {
			return nil
		}
		b := g.push(int64(r.IntN(m.NStore())))
		return append(append(b, g.expr(m, r.IntN(4))...), 0x42)
	case 28: // control values
		if m.NCVT() == 0 {
			return nil
		}
		b := g.push(g.cvt(m))
		return append(append(b, g.expr(m, r.IntN(3))...), pick(r, byte(0x44), 0x44, 0x70))
	default: // the stack
		switch r.IntN(6) {
		case 0:
			return g.expr(m, r.IntN(3)) // a value stays on the stack
		case 1:
			return []byte{0x21}
		case 2:
			return []byte{pick(r, byte(0x20), 0x23, 0x24, 0x8a, 0x22)}
		case 3:
			if n := len(m.Stack()); n > 0 {
				return append(g.push(int64(1+r.IntN(n))), pick(r, byte(0x25), 0x26))
			}
		case 4:
			return append(g.push(g.point(m, 2)), 0x23, 0x48) // SWAP SCFS
		}
		return append(g.expr(m, 2), 0x21)
	}
}

// state generates code that sets a part of the graphics state to a value that
// does not depend on anything.
func (g *G) state() []byte {
	r := g.R
	switch r.IntN(8) {
	case 0, 1:
		return append(g.push(int64(1+r.IntN(5))), 0x17) // SLOOP
	case 2:
		return append(g.push(int64(r.IntN(2))), pick(r, byte(0x13), 0x14, 0x15, 0x16)) // SZP
	case 3:
		return append(g.push(int64(r.IntN(5))), pick(r, byte(0x10), 0x11, 0x12)) // SRP
	case 4:
		return append(g.push(pick(r, g.value(), -1, 70000, -70000)), pick(r, byte(0x1a), 0x1d, 0x1e)) // SMD, SCVTCI, SSWCI
	case 5:
		return append(g.push(int64(r.IntN(256))), pick(r, byte(0x76), 0x77)) // SROUND
	case 6:
		return append(g.push(int64(r.IntN(0x8001)-0x4000), int64(r.IntN(0x8001)-0x4000)), pick(r, byte(0x0a), 0x0b))
	}
	return append(g.push(int64(r.IntN(7))), pick(r, byte(0x5e), 0x5f)) // SDB, SDS
}

func (g *G) delta(m *reftt.Mach, ops []byte, arg func() int64) []byte {
	r := g.R
	k := r.IntN(3)
	n := int64(r.IntN(4))
	var vs []int64
	for i := int64(0); i < n; i++ {
		rel := m.PPEM() - m.DeltaBase() - int64(16*k)
		if r.IntN(4) == 0 {
			rel += int64(r.IntN(3) - 1)
		}
		if rel < 0 || rel > 15 {
			rel = int64(r.IntN(16))
		}
		vs = append(vs, rel<<4|int64(r.IntN(16)), arg())
	}
	vs = append(vs, n)
	return append(g.push(vs...), ops[k])
}

// expose generates a unit that makes a hidden value visible as a coordinate.
func (g *G) expose(m *reftt.Mach) []byte {
	if m.NPoints() <= 4 {
		return nil
	}
	return g.exposeAt(m, g.R.IntN(2*(m.NPoints()-4)))
}

// exposeAt is expose with the coordinate: twice the point, plus the axis.
func (g *G) exposeAt(m *reftt.Mach, at int) []byte {
	r := g.R
	p := int64(at / 2)
	b := append(g.push(1), 0x16)
	b = append(b, byte(at%2))
	b = append(b, g.push(p)...)
	switch r.IntN(7) {
	case 0, 1:
		if m.NStore() == 0 {
			return nil
		}
		b = append(append(b, g.push(int64(r.IntN(m.NStore())))...), 0x43)
	case 2, 3:
		if m.NCVT() == 0 {
			return nil
		}
		b = append(append(b, g.push(g.cvt(m))...), 0x45)
	case 4:
		if m.NTwilight() == 0 {
			return nil
		}
		b = append(append(b, g.push(0)...), 0x15)
		b = append(append(b, g.push(int64(r.IntN(m.NTwilight())))...), pick(r, byte(0x46), 0x47))
		b = append(append(b, g.push(1)...), 0x15)
	case 5:
		b = append(append(b, g.push(g.value())...), 0x68)
	case 6:
		b = append(b, 0x24)
	}
	return append(b, 0x48)
}

// Program generates a program on a machine, of up to n units.
func (g *G) Program(m *reftt.Mach, n int, expose bool) []byte {
	var code []byte
	try := func(u []byte) {
		if len(u) == 0 || len(code)+len(u) > 6000 {
			return
		}
		c, out := m.Try(u)
		if out != nil {
			g.Drops++
			return
		}
		m.Adopt(c)
		code = append(code, u...)
		g.Units++
	}
	for k := 0; k < n; k++ {
		try(g.unit(m))
	}
	if expose && g.Bare && m.NPoints() > 4 {
		for _, at := range g.R.Perm(2 * (m.NPoints() - 4)) {
			try(g.exposeAt(m, at))
		}
	} else if expose {
		for k := g.R.IntN(5); k > 0; k-- {
			try(g.expose(m))
		}
	}
	return code
}

// Functions generates a font program that defines functions.
func (g *G) Functions() []byte {
	r, f := g.R, g.F
	var out []byte
	n := r.IntN(9)
	nums := r.Perm(40)
	type def struct {
		num  int
		args string
		body []byte
	}
	var defs []def
	for i := 0; i < n; i++ {
		d := def{num: nums[i]}
		if n := int(f.MaxFunctions); n > 64 {
			d.num = (n - 1 - nums[i]*r.IntN(max(1, n/40))) % n
			if slices.ContainsFunc(defs, func(e def) bool { return e.num == d.num }) {
				continue
			}
		}
		call := func(f def) []byte { return append(g.push(int64(f.num)), 0x2b) }
		switch r.IntN(14) {
		case 0:
			d.args, d.body = "p", []byte{pick(r, byte(0x2e), 0x2f)}
		case 1:
			d.args, d.body = "qc", []byte{0xe0 + byte(r.IntN(32))}
		case 2:
			d.args, d.body = "q", []byte{0xc0 + byte(r.IntN(32))}
		case 3: // with a conditional on the size
			d.args = "q"
			d.body = append([]byte{0x4b}, g.push(int64(5+r.IntN(60)))...)
			d.body = append(d.body, 0x50, 0x58, 0xc0+byte(r.IntN(32)), 0x1b, 0xc0+byte(r.IntN(32)), 0x59)
		case 4: // increment a storage location
			d.args = "S"
			d.body = append([]byte{0x20, 0x43}, g.push(int64(r.IntN(100)))...)
			d.body = append(d.body, 0x60, 0x42)
		case 5: // set a storage location to the sum of two values
			d.args, d.body = "Svv", []byte{0x60, 0x42}
		case 6: // change a control value
			d.args, d.body = "cv", []byte{pick(r, byte(0x44), 0x70)}
		case 7: // shift by a rounded value
			d.args, d.body = "sv", []byte{0x68, 0x38}
		case 8: // set the coordinate of a point relative to another
			d.args = "sv"
			d.body = []byte{0x23, 0x20, 0x46, 0x8a, 0x60} // v p -> v p c -> p c v?? -> sums
			d.body = []byte{0x48}
		case 9: // call another function twice
			if len(defs) > 0 {
				f := defs[r.IntN(len(defs))]
				if len(f.args) <= 3 {
					d.args = f.args + f.args
					d.body = append(call(f), call(f)...)
				}
			}
		case 10: // skip by a jump
			j := g.junk()
			d.args = "p"
			d.body = append(append(append(g.push(int64(len(j)+1)), 0x1c), j...), 0x2f)
		case 11: // reference points
			d.args, d.body = "ppq", []byte{0x12, 0x11, 0x10}
		case 12: // state
			d.args, d.body = "", []byte{pick(r, byte(0x18), 0x19, 0x3d, 0x7a, 0x7c, 0x7d, 0x00, 0x01, 0x4d, 0x4e)}
			if r.IntN(2) == 0 {
				d.body = g.state()
			}
		case 13: // nested conditionals with junk
			d.args = "v"
			d.body = append([]byte{0x58}, g.push(3)...)
			d.body = append(d.body, 0x21, 0x1b)
			d.body = append(d.body, g.push(4)...)
			d.body = append(d.body, 0x21, 0x59)
			d.body = append(append(append(append(d.body, g.push(0)...), 0x58), g.junk()...), 0x59)
		}
		if d.body == nil {
			continue
		}
		defs = append(defs, d)
		out = append(append(append(append(out, g.push(int64(d.num))...), 0x2c), d.body...), 0x2d)
		if r.IntN(5) == 0 {
			// Code between definitions.
			out = append(append(out, g.push(g.value(), g.value())...), 0x60, 0x21)
		}
	}
	if len(defs) > 1 && r.IntN(6) == 0 {
		// Redefine one with the same arguments.
		k := r.IntN(len(defs))
		body := make([]byte, len(defs[k].args))
		for i := range body {
			body[i] = 0x21
		}
		out = append(append(append(append(out, g.push(int64(defs[k].num))...), 0x2c), body...), 0x2d)
	}
	for _, d := range defs {
		g.Fns, g.num = append(g.Fns, d.args), append(g.num, d.num)
	}
	return out
}

// Programs gives the font programs that are valid at the scale. It returns
// the environment they leave, or nil if something went wrong.
func Programs(r *rand.Rand, f *fontgen.Font, scale int64, maxUnits int) (*reftt.Env, *G) {
	g := &G{R: r, F: f}
	return g.Programs(scale, maxUnits), g
}

// Programs generates the programs of g's font.
func (g *G) Programs(scale int64, maxUnits int) *reftt.Env {
	r, f := g.R, g.F
	f.MaxStack = uint16(64 + r.IntN(300))
	f.MaxFunctions = 64
	f.MaxStorage = uint16(pick(r, 0, 1, 8, 32, 64))
	f.MaxTwilight = uint16(pick(r, 0, 1, 4, 16))
	if g.Big {
		f.MaxStack = uint16(64 + r.IntN(2000))
		f.MaxFunctions = uint16(pick(r, 255, 256, 257, 512, 1000, 40000, 65535))
		f.MaxStorage = uint16(r.IntN(600))
		f.MaxTwilight = uint16(r.IntN(300))
	}
	f.CVT = nil
	k := pick(r, 0, 1, 10, 40)
	if g.Big {
		k = r.IntN(600)
	}
	for ; k > 0; k-- {
		f.CVT = append(f.CVT, int16(r.IntN(2*f.UPEM+1)-f.UPEM/2))
	}
	if r.IntN(4) != 0 {
		f.FPGM = g.Functions()
	}
	if r.IntN(4) != 0 {
		e, out := reftt.NewEnv(f, scale, true)
		if out != nil {
			return nil
		}
		if r.IntN(3) == 0 {
			e.F.Prep = nil
		}
		m := e.PrepMach()
		f.Prep = append(g.Program(m, 1+r.IntN(max(1, maxUnits/2)), false), g.Tail...)
	}
	e, out := reftt.NewEnv(f, scale, true)
	if out != nil {
		return nil
	}
	for i, gl := range f.Glyphs {
		if gl.Empty || r.IntN(8) == 0 {
			continue
		}
		gl.Program = nil
		var code []byte
		out := e.Generate(i, func(m *reftt.Mach) {
			code = g.Program(m, 1+r.IntN(maxUnits), true)
		})
		if out != nil {
			continue
		}
		gl.Program = code
	}
	return e
}
