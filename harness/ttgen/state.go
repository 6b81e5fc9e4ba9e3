package ttgen

import "math/rand/v2"

// Dirty generates valid code that leaves as much state behind as it can; N, S
// and C as in H must be exact, T is the number of twilight points.
func Dirty(r *rand.Rand, n, s, c, t, k int, nested bool) []byte {
	var b []byte
	small := func() { b = push16(b, r.IntN(600)-300) }
	for ; k > 0; k-- {
		switch r.IntN(15) {
		case 0, 1:
			if s > 0 {
				b = append(b, 0xb0, byte(r.IntN(s)))
				small()
				b = append(b, 0x42) // WS
			}
		case 2, 3:
			if c > 0 {
				b = append(b, 0xb0, byte(r.IntN(c)))
				small()
				b = append(b, pick(r, byte(0x44), 0x70)) // WCVTP, WCVTF
			}
		case 4, 5: // a twilight point
			if c > 0 && t > 0 {
				b = append(b, 0xb0, 0, 0x16) // SZPS
				b = append(b, 0xb1, byte(r.IntN(t)), byte(r.IntN(c)), pick(r, byte(0x3e), 0x3f))
				b = append(b, 0xb0, 1, 0x16)
			}
		case 6:
			b = append(b, 0xb0, byte(r.IntN(5)), 0x17) // SLOOP
		case 7:
			small()
			b = append(b, pick(r, byte(0x1a), 0x1d, 0x1e, 0x1f)) // SMD, SCVTCI, SSWCI, SSW
		case 8:
			b = append(b, 0xb0, byte(r.IntN(7)), pick(r, byte(0x5e), 0x5f)) // SDB, SDS
		case 9:
			b = append(b, pick(r, byte(0x18), 0x19, 0x3d, 0x7c, 0x7d, 0x7a, 0x4d, 0x4e))
		case 10:
			b = append(b, 0xb0, byte(r.IntN(256))&0xbf, pick(r, byte(0x76), 0x77))
		case 11:
			b = append(b, pick(r, byte(0x00), 0x01, 0x02, 0x03, 0x04, 0x05))
		case 12:
			if n > 1 {
				b = append(b, 0xb0, byte(r.IntN(n)), pick(r, byte(0x10), 0x11, 0x12))
			}
		case 13: // leave something on the stack
			for j := r.IntN(4); j > 0; j-- {
				small()
			}
		case 14: // redefine a function
			if nested {
				break
			}
			b = append(b, 0xb0, byte(r.IntN(4)), 0x2c)
			small()
			b = append(b, 0x21, 0x2d)
		}
	}
	return b
}

// Expose generates valid code that moves points by what the state holds.
func Expose(r *rand.Rand, n, s, c, t, f, k int) []byte {
	var b []byte
	if n == 0 {
		return nil
	}
	// shift moves a point by the value on the stack: clamped to +-1000.
	shift := func() {
		b = append(push16(b, 1000), 0x8c)  // MIN
		b = append(push16(b, -1000), 0x8b) // MAX
		p := byte(r.IntN(n))
		if r.IntN(20) != 0 {
			b = append(b, 0xb0, 1, 0x17) // SLOOP
		}
		b = append(b, 0xb0, p, 0x23, 0x38) // SWAP, SHPIX
	}
	for ; k > 0; k-- {
		switch r.IntN(11) {
		case 0, 1:
			if s > 0 {
				b = append(b, 0xb0, byte(r.IntN(s)), 0x43)
				shift()
			}
		case 2, 3:
			if c > 0 {
				b = append(b, 0xb0, byte(r.IntN(c)), 0x45)
				shift()
			}
		case 4, 5: // a twilight point's co-ordinate
			if t > 0 {
				b = append(b, 0xb0, 0, 0x16, 0xb0, byte(r.IntN(t)), pick(r, byte(0x46), 0x47), 0xb0, 1, 0x16)
				shift()
			}
		case 6:
			b = append(b, 0x24) // DEPTH
			shift()
		case 7:
			b = append(push16(b, r.IntN(900)-450), 0x68) // ROUND
			shift()
		case 8:
			b = append(b, pick(r, byte(0x0c), 0x0d)) // GPV, GFV
			b = append(b, 0x60)
			shift()
		case 9: // MDRP, MIRP, DELTAP, IP in the state left
			switch r.IntN(4) {
			case 0:
				b = append(b, 0xb0, byte(r.IntN(n)), 0xc0+byte(r.UintN(32)))
			case 1:
				if c > 0 {
					b = append(b, 0xb1, byte(r.IntN(n)), byte(r.IntN(c)), 0xe0+byte(r.UintN(32)))
				}
			case 2:
				b = append(b, 0xb0, 1, 0x17, 0xb2, byte(r.UintN(256)), byte(r.IntN(n)), 1, pick(r, byte(0x5d), 0x71, 0x72))
			case 3:
				b = append(b, 0xb0, byte(r.IntN(n)), 0x2f)
			}
		case 10:
			if f > 0 {
				b = append(b, 0xb0, byte(r.IntN(f)), 0x2b)
			}
		}
	}
	return b
}
