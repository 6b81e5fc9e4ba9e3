package ttgen

import "math/rand/v2"

// RandBytes are n random bytes.
func RandBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.UintN(256))
	}
	return b
}

// pops is the number of operands of each instruction.
var pops = [256]uint8{
	0, 0, 0, 0, 0, 0, 2, 2, 2, 2, 2, 2, 0, 0, 0, 5,
	1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 1, 0, 1, 1, 1, 1,
	1, 1, 0, 2, 0, 1, 1, 2, 0, 1, 2, 1, 1, 0, 1, 1,
	0, 0, 1, 1, 1, 1, 1, 1, 1, 0, 2, 2, 1, 0, 2, 2,
	0, 0, 2, 1, 2, 1, 1, 1, 2, 2, 2, 0, 0, 0, 0, 1,
	2, 2, 2, 2, 2, 2, 1, 1, 1, 0, 2, 2, 1, 1, 1, 1,
	2, 2, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
	2, 1, 1, 1, 1, 1, 1, 1, 2, 2, 0, 0, 0, 0, 1, 1,
	0, 2, 2, 0, 0, 1, 2, 2, 1, 1, 3, 2, 2, 1, 2, 0,
	0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
	0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
	0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
	1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
	1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
	2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2,
	2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2,
}

// H generates hostile programs. N is about the number of points, F of
// functions, S of storage locations and C of control values.
type H struct {
	R          *rand.Rand
	N, F, S, C int
}

func push16(b []byte, v int) []byte {
	return append(b, 0xb8, byte(v>>8), byte(v))
}

// Val pushes a value, from the mundane to the extreme.
func (h *H) Val(b []byte) []byte {
	r := h.R
	switch r.IntN(12) {
	case 0:
		return push16(b, -1-r.IntN(3))
	case 1:
		return push16(b, pick(r, 32767, -32768, 16384, 255, 256, 64, 32, -64))
	case 2:
		return push16(b, int(int16(r.Uint32())))
	case 3: // a 32 bit extreme
		b = push16(b, pick(r, 32767, -32768, -1, 1))
		for k := 0; k < 3; k++ {
			b = append(push16(b, pick(r, 32767, -32768, 64*64, 64)), 0x63) // MUL
		}
		if r.IntN(3) == 0 {
			b = append(b, pick(r, byte(0x64), 0x65)) // ABS, NEG
		}
		return b
	case 4:
		return push16(b, pick(r, h.N-5, h.N-4, h.N-1, h.N, h.N+1, h.S-1, h.S, h.C-1, h.C, h.F-1, h.F))
	case 5:
		return append(b, 0x24) // DEPTH
	case 6: // read something
		return append(h.Val(b), pick(r, byte(0x43), 0x45, 0x46, 0x47, 0x4b, 0x4c, 0x88))
	}
	return append(b, 0xb0, byte(r.IntN(pick(r, 2, 4, max(1, h.N), max(1, h.N+4), 16))))
}

// Op generates an operation with operands, more or less.
func (h *H) Op(b []byte) []byte {
	r := h.R
	var op byte
	switch r.IntN(6) {
	case 0:
		op = byte(r.UintN(256))
	case 1:
		op = byte(0xc0 + r.UintN(0x40))
	case 2:
		op = pick(r, byte(0x30), 0x31, 0x39, 0x32, 0x33, 0x34, 0x35, 0x36, 0x37, 0x38, 0x3c, 0x0f, 0x27, 0x29, 0x3a, 0x3b, 0x3e, 0x3f, 0x5d, 0x71, 0x72, 0x80, 0x81, 0x82, 0x10, 0x11, 0x12, 0x2e, 0x2f)
	case 3:
		op = pick(r, byte(0x06), 7, 8, 9, 0xa, 0xb, 0xc, 0xd, 0xe, 0x13, 0x14, 0x15, 0x16, 0x17, 0x42, 0x43, 0x44, 0x45, 0x70, 0x73, 0x74, 0x75, 0x86, 0x87, 0x76, 0x77, 0x5e, 0x5f)
	case 4:
		op = pick(r, byte(0x20), 0x21, 0x22, 0x23, 0x24, 0x25, 0x26, 0x8a, 0x60, 0x61, 0x62, 0x63, 0x64, 0x65, 0x66, 0x67, 0x50, 0x51, 0x52, 0x53, 0x54, 0x55, 0x56, 0x57, 0x5a, 0x5b, 0x5c, 0x68, 0x6c, 0x8b, 0x8c, 0x88, 0x8d, 0x8e, 0x85, 0x4a, 0x49, 0x46, 0x48, 0x4b)
	case 5:
		return h.control(b)
	}
	n := int(pops[op])
	switch {
	case op == 0x5d || op == 0x71 || op == 0x72 || op == 0x73 || op == 0x74 || op == 0x75:
		k := r.IntN(4)
		for i := 0; i < 2*k; i++ {
			b = h.Val(b)
		}
		b = append(b, 0xb0, byte(k))
		n = 0
		if r.IntN(6) == 0 {
			b = h.Val(append(b, 0x21))
		}
	case op == 0x32 || op == 0x33 || op == 0x34 || op == 0x35 || op == 0x38 || op == 0x39 || op == 0x3c || op == 0x80:
		k := 1
		if r.IntN(3) == 0 {
			k = r.IntN(6)
			for i := 0; i < k; i++ {
				b = h.Val(b)
			}
			b = append(b, 0xb0, byte(k), 0x17)
			k = 0
		}
		n += k
		if n > 3 {
			n = 3
		}
	}
	for ; n > 0; n-- {
		if r.IntN(60) != 0 {
			b = h.Val(b)
		}
	}
	if r.IntN(4) != 0 || op < 0x78 || op > 0x79 && op != 0x1c {
		b = append(b, op)
	}
	return b
}

// control generates control flow.
func (h *H) control(b []byte) []byte {
	r := h.R
	switch r.IntN(9) {
	case 0: // an infinite or long loop
		if r.IntN(3) != 0 {
			return b
		}
		k := len(b)
		for n := r.IntN(3); n > 0; n-- {
			b = h.Op(b)
		}
		return append(push16(b, k-len(b)-3), 0x1c)
	case 1: // forward jump
		return append(push16(b, pick(r, 0, 1, 1, 2, 3, 8, 1000, -1, 32767, -32768)), 0x1c)
	case 2:
		b = h.Val(h.Val(b))
		return append(b, pick(r, byte(0x78), 0x79))
	case 3: // IF
		b = append(h.Val(b), 0x58)
		b = h.Op(b)
		if r.IntN(2) == 0 {
			b = h.Op(append(b, 0x1b))
		}
		if r.IntN(10) != 0 {
			b = append(b, 0x59)
		}
		return b
	case 4: // call
		return append(b, 0xb0, byte(r.IntN(h.F+1)), 0x2b)
	case 5: // repeated call
		b = push16(b, pick(r, 0, 1, 2, 3, 10, 100, 32767, -1))
		return append(b, 0xb0, byte(r.IntN(h.F+1)), 0x2a)
	case 6: // data, possibly truncated
		n := r.IntN(6)
		switch r.IntN(4) {
		case 0:
			b = append(b, 0x40, byte(n))
		case 1:
			b = append(b, 0x41, byte(n))
			n *= 2
		case 2:
			b = append(b, 0xb0+byte(n))
			n++
		default:
			b = append(b, 0xb8+byte(n))
			n = 2*n + 2
		}
		if r.IntN(10) == 0 {
			n--
		}
		return append(b, RandBytes(r, max(0, n))...)
	case 7: // definition in the middle of things
		if r.IntN(4) != 0 {
			return b
		}
		b = append(b, 0xb0, byte(r.IntN(h.F+2)), pick(r, byte(0x2c), 0x89))
		b = h.Op(b)
		if r.IntN(6) != 0 {
			b = append(b, 0x2d)
		}
		return b
	}
	if r.IntN(20) == 0 {
		return append(b, pick(r, byte(0x2d), 0x59, 0x1b, 0x2c, 0x58, 0x1c))
	}
	return b
}

// Program generates about n operations, ending in damage now and then.
func (h *H) Program(n int) []byte {
	var b []byte
	for k := 0; k < n; k++ {
		b = h.Op(b)
	}
	return h.Damage(b, 30)
}

// Damage changes a byte or cuts the program, one time in k.
func (h *H) Damage(b []byte, k int) []byte {
	r := h.R
	if len(b) == 0 || r.IntN(k) != 0 {
		return b
	}
	b = append([]byte(nil), b...)
	switch r.IntN(4) {
	case 0:
		return b[:r.IntN(len(b))]
	case 1:
		i := r.IntN(len(b))
		return append(b[:i], b[min(len(b), i+1+r.IntN(3)):]...)
	case 2:
		i := r.IntN(len(b))
		return append(b[:i:i], append(RandBytes(r, 1+r.IntN(3)), b[i:]...)...)
	}
	b[r.IntN(len(b))] = byte(r.UintN(256))
	return b
}

// Functions generates a font program of F functions, which may call others.
func (h *H) Functions() []byte {
	r := h.R
	var b []byte
	for i := 0; i < h.F; i++ {
		b = append(b, 0xb0, byte(i), 0x2c)
		for n := r.IntN(4); n > 0; n-- {
			b = h.Op(b)
		}
		switch r.IntN(6) {
		case 0:
			b = append(b, 0xb0, byte(r.IntN(h.F)), 0x2b)
		case 1:
			b = append(push16(b, pick(r, 2, 3, 300, 32767)), 0xb0, byte(r.IntN(h.F)), 0x2a)
		}
		b = append(b, 0x2d)
	}
	return h.Damage(b, 20)
}
