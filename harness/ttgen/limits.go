package ttgen

import "slices"

// Limits gives g's font programs that are large in one respect: the height of
// the stack, the depth of calls or conditionals, the number of points, storage
// locations, control values or functions, the count of a loop, the length of a
// jump or of a program. It returns what that respect is. The programs show
// what they compute by moving points. The first glyph has n points.
func (g *G) Limits(n int) string {
	r, f := g.R, g.F
	f.MaxStack = uint16(pick(r, 32, 256, 512, 768, 1024, 1+r.IntN(2000), 1+r.IntN(2000), 1+r.IntN(20000)))
	f.MaxStack = max(f.MaxStack, 12)
	f.MaxFunctions = uint16(pick(r, 1, 40, 255, 256, 257, 512, 1+r.IntN(3000), 65535))
	f.MaxStorage = uint16(pick(r, 1, 255, 256, 257, 1+r.IntN(3000), 65535))
	f.MaxTwilight = uint16(pick(r, 1, 255, 256, 257, 1+r.IntN(1000), 1+r.IntN(1000), 1+r.IntN(1000), 1+r.IntN(30000)))
	f.CVT = make([]int16, pick(r, 1, 255, 256, 257, 1+r.IntN(2000), 1+r.IntN(2000), 1+r.IntN(2000), 1+r.IntN(32000)))
	for i := range f.CVT {
		f.CVT[i] = int16(r.IntN(2*f.UPEM+1) - f.UPEM)
	}
	f.FPGM, f.Prep = nil, nil

	var code []byte
	axis := []byte{byte(r.IntN(2))}
	code = append(code, axis...)
	// show shifts a point by the value on top.
	show := func(b []byte) []byte {
		b = append(push16(b, 1000), 0x8c)  // MIN
		b = append(push16(b, -1000), 0x8b) // MAX
		b = push16(b, r.IntN(n))
		return append(b, 0x23, 0x38) // SWAP, SHPIX
	}
	def := func(num int, body []byte) {
		f.FPGM = append(push16(f.FPGM, num), 0x2c)
		f.FPGM = append(append(f.FPGM, body...), 0x2d)
	}
	call := func(b []byte, num int) []byte { return append(push16(b, num), 0x2b) }
	fn := func() int { // a function number, often a high one
		m := int(f.MaxFunctions)
		return pick(r, 0, m-1, r.IntN(m), max(0, m-1-r.IntN(4)))
	}
	var what string
	switch r.IntN(12) {
	case 0:
		what = "stack"
		k := int(f.MaxStack) - pick(r, 0, 0, 1, 2, r.IntN(8))
		vs := make([]int64, k)
		for i := range vs {
			vs[i] = int64(pick(r, r.IntN(256), r.IntN(256), r.IntN(65536)-32768))
			if i%16 != 0 {
				vs[i] = int64(r.IntN(256))
			}
		}
		j := pick(r, r.IntN(k), 0, 2)
		code = append(code, g.bulk(vs[:k-j])...)
		switch {
		case j == 2: // GPV, GFV
			code = append(code, 0x0c+byte(r.IntN(2)))
		case j > 0:
			for ; j > 1; j-- {
				code = append(code, 0x20) // DUP
			}
			code = append(code, pick(r, byte(0x20), 0x20, 0x24, 0x4b)) // DUP, DEPTH, MPPEM
		}
		for i := 0; i < 5; i++ {
			code = append(code, pick(r, byte(0x21), 0x60)) // POP, ADD
		}
		h := k - 5
		for j := r.IntN(12); j > 0 && h > 2; j-- {
			// CINDEX or MINDEX from deep down.
			code = push16(code, pick(r, h, h-1, 1, 1+r.IntN(h)))
			if r.IntN(2) == 0 {
				code = append(code, 0x26)
			} else {
				code = append(code, 0x25, 0x60) // CINDEX, ADD
			}
			if r.IntN(3) == 0 {
				code = append(code, pick(r, byte(0x8a), 0x23)) // ROLL, SWAP
			}
		}
		code = append(code, 0x24) // DEPTH
		code = show(code)
		for j := 3 + r.IntN(10); j > 0; j-- {
			code = show(code)
		}
	case 1:
		what = "calls"
		depth := 1 + r.IntN(31)
		f.MaxFunctions = max(f.MaxFunctions, uint16(depth))
		m := int(f.MaxFunctions)
		base := pick(r, 0, m-depth)
		for i := 0; i < depth; i++ {
			var b []byte
			b = push16(b, 1+r.IntN(9))
			b = append(b, 0x60) // ADD
			if i < depth-1 {
				if r.IntN(6) == 0 {
					b = append(push16(push16(b, 1), base+i+1), 0x2a) // LOOPCALL once
				} else {
					b = call(b, base+i+1)
				}
				b = append(push16(b, 64+r.IntN(16)), 0x63) // MUL
			}
			def(base+i, b)
		}
		code = push16(code, r.IntN(64))
		code = call(code, base)
		code = show(code)
	case 2:
		what = "conditionals"
		depth := 1 + r.IntN(300)
		bad := -1
		if r.IntN(2) == 0 {
			bad = r.IntN(depth)
		}
		code = push16(code, r.IntN(500))
		for i := 0; i < depth; i++ {
			if i == bad {
				code = append(code, 0xb0, 0, 0x58)
			} else {
				code = append(push16(code, 1+r.IntN(300)-400*r.IntN(2)), 0x58)
			}
			if r.IntN(8) == 0 {
				code = append(code, 0xb0, byte(r.IntN(256)), 0x60)
			}
		}
		for i := 0; i < depth; i++ {
			if r.IntN(4) == 0 {
				code = append(code, 0xb0, byte(r.IntN(256)), 0x60)
			}
			if r.IntN(3) == 0 {
				code = append(code, 0x1b)
				if r.IntN(3) == 0 {
					code = append(code, 0xb0, byte(r.IntN(256)), 0x61)
				}
				if r.IntN(3) == 0 {
					code = append(append(append(code, 0xb0, 0, 0x58), g.payload()...), 0x59)
				}
			}
			code = append(code, 0x59)
		}
		code = show(code)
	case 3:
		what = "skipped data"
		code = push16(code, r.IntN(500))
		for j := 1 + r.IntN(4); j > 0; j-- {
			code = append(code, 0xb0, 0, 0x58)
			for k := 1 + r.IntN(3); k > 0; k-- {
				code = append(code, g.payload()...)
			}
			code = append(code, 0x1b, 0xb0, byte(r.IntN(200)), 0x60, 0x59)
			code = append(code, 0xb0, 1, 0x58, 0xb0, byte(r.IntN(200)), 0x60, 0x1b)
			code = append(code, g.payload()...)
			code = append(code, 0x59)
		}
		if r.IntN(2) == 0 {
			// In a function definition that has data like this.
			k := fn()
			def(k, append(append([]byte{0xb0, 0, 0x58}, g.payload()...), 0x59, 0xb0, 77, 0x60))
			code = call(code, k)
			code = call(code, k)
		}
		code = show(code)
	case 4:
		what = "functions"
		m := int(f.MaxFunctions)
		nums := []int{0, m - 1}
		for j := r.IntN(20); j > 0; j-- {
			k := r.IntN(m)
			nums = append(nums, k)
			if k+256 < m {
				nums = append(nums, k+256)
			}
		}
		slices.Sort(nums)
		nums = slices.Compact(nums)
		r.Shuffle(len(nums), func(i, j int) { nums[i], nums[j] = nums[j], nums[i] })
		for _, k := range nums {
			b := push16(nil, r.IntN(64))
			if r.IntN(3) == 0 {
				b = append(b, g.payload()...)
				b = append(push16(append(append([]byte{}, 0xb0, 0, 0x58), g.payload()...), 0), 0x21, 0x59)
				b = push16(b, r.IntN(64))
			}
			def(k, append(b, 0x60))
		}
		code = push16(code, 0)
		for j := r.IntN(20); j > 0; j-- {
			code = call(code, nums[r.IntN(len(nums))])
		}
		for j := 3; j > 0; j-- {
			code = push16(code, r.IntN(32))
			code = show(call(code, nums[r.IntN(len(nums))]))
		}
		code = show(code)
	case 5:
		what = "points"
		// Many points, some of them again, to an instruction that loops.
		k := 1 + r.IntN(min(pick(r, 600, 600, 600, 6000), int(f.MaxStack)-4))
		ps := make([]int64, k)
		for i := range ps {
			ps[i] = int64(r.IntN(n))
		}
		if k >= n && r.IntN(2) == 0 {
			for i := range n {
				ps[i] = int64(i)
			}
		}
		code = append(push16(code, r.IntN(n)), 0x10)
		code = append(push16(code, r.IntN(n)), 0x11)
		code = append(push16(code, r.IntN(n)), 0x12)
		if r.IntN(2) == 0 {
			// Make the reference points differ from where they were.
			code = append(push16(code, r.IntN(n)), 0xb0, byte(r.IntN(256)), 0x38)
		}
		code = append(code, g.bulk(ps)...)
		op := pick(r, byte(0x38), 0x3c, 0x39, 0x32, 0x33, 0x80)
		if op == 0x38 {
			code = push16(code, r.IntN(65)-32)
			k = len(ps)
			code = append(push16(code, k), 0x17, op)
		} else {
			code = append(push16(code, k), 0x17, op)
		}
		code = append(push16(code, r.IntN(n)), 0xb0, byte(r.IntN(256)), 0x38)
		if r.IntN(2) == 0 {
			code = append(code, 0x30+axis[0]) // IUP
		}
	case 6:
		what = "loop of calls"
		k := fn()
		body := pick(r, []byte{0xb0, 1, 0x60}, []byte{0x20, 0x21, 0xb0, 3, 0x60}, []byte{0xb0, 65, 0x63}, []byte{0x65})
		def(k, body)
		count := pick(r, 255, 256, 257, 1+r.IntN(8000), 58000/(len(body)+1))
		if count > 58000/(len(body)+1) {
			count = 58000 / (len(body) + 1)
		}
		code = push16(code, r.IntN(500)-250)
		code = append(push16(push16(code, count), k), 0x2a)
		code = show(code)
	case 7:
		what = "storage"
		m := int(f.MaxStorage)
		var ks []int
		for j := 1 + r.IntN(20); j > 0; j-- {
			k := pick(r, 0, m-1, r.IntN(m))
			ks = append(ks, k)
			if k+256 < m {
				ks = append(ks, k+256)
			}
		}
		for _, k := range ks {
			b := push16(push16(nil, k-65536*(k>>15)), r.IntN(1000)-500)
			if k > 32767 {
				// An index above a word: 16384 + 16384 + the rest.
				b = push16(push16(push16(nil, 16384), 16384), k-32768)
				b = append(b, 0x60, 0x60)
				b = push16(b, r.IntN(1000)-500)
			}
			b = append(b, 0x42)
			if r.IntN(4) == 0 {
				f.Prep = append(f.Prep, b...)
			} else {
				code = append(code, b...)
			}
		}
		for j := 0; j < 4; j++ {
			k := ks[r.IntN(len(ks))]
			if k > 32767 {
				code = push16(push16(push16(code, 16384), 16384), k-32768)
				code = append(code, 0x60, 0x60)
			} else {
				code = push16(code, k)
			}
			code = show(append(code, 0x43))
		}
	case 8:
		what = "jumps"
		code = push16(code, r.IntN(100))
		dist := pick(r, 126, 127, 128, 254, 255, 256, 257, 32767, 1+r.IntN(30000))
		pad := func(n int) []byte {
			b := make([]byte, n)
			for i := range b {
				b[i] = pick(r, byte(0x21), 0x2d, 0x58, 0x59, 0x1b, 0x2c, 0x91, 0x42)
			}
			return b
		}
		switch r.IntN(3) {
		case 0: // forwards over what must not run
			code = append(push16(code, dist), 0x1c)
			code = append(code, pad(dist-1)...)
		case 1:
			op := byte(0x78 + r.IntN(2)) // JROT, JROF
			code = append(push16(push16(code, dist), int(0x79-op)), op)
			code = append(code, pad(dist-1)...)
		case 2:
			// Forwards over a body, back to it, and forwards out.
			body := append(push16(nil, 1+r.IntN(100)), 0x60)
			body = append(body, make([]byte, max(0, dist-60))...)
			for i := 3 + 1; i < len(body); i++ {
				body[i] = axis[0]
			}
			// body; push out; jump
			var tail []byte
			out := 8
			tail = append(push16(tail, out), 0x1c) // 4 bytes: jump from offset 3 to 3+8 = 11
			// offset 4..7: the way back, PUSHW JMPR, whose JMPR is at offset 7
			back := -(7 + len(body))
			tail = append(push16(tail, back), 0x1c, 0x4f, 0x4f, 0x4f)
			// Offset 11: the way on. From the start: to offset 4.
			code = append(push16(code, len(body)+5), 0x1c)
			code = append(append(code, body...), tail...)
		}
		code = append(code, 0xb0, byte(r.IntN(100)), 0x60)
		code = show(code)
	case 9:
		what = "length"
		k := pick(r, 255, 256, 257, 32767, 32768, 1+r.IntN(40000))
		for len(code) < k {
			switch r.IntN(3) {
			case 0:
				code = append(code, pick(r, byte(0x18), 0x19, 0x3d, 0x7c, 0x7d))
			case 1:
				code = append(append(code, g.payload()...), 0x22) // CLEAR
			case 2:
				code = append(push16(code, r.IntN(n)), 0xb0, byte(r.IntN(3)), 0x38)
			}
		}
		code = append(push16(code, r.IntN(1000)-500), 0x68)
		code = show(code)
	case 10:
		what = "deltas"
		base := 9
		k := 1 + r.IntN(min(pick(r, 400, 400, 400, 5000), (int(f.MaxStack)-4)/2))
		if r.IntN(2) == 0 {
			base = r.IntN(60)
			code = append(push16(code, base), 0x5e)
		}
		code = append(push16(code, r.IntN(7)), 0x5f)
		var vs []int64
		c := r.IntN(2) == 0
		for i := 0; i < k; i++ {
			a := int64(r.IntN(n))
			if c {
				a = int64(r.IntN(len(f.CVT)))
			}
			vs = append(vs, int64(r.IntN(256)), a)
		}
		code = push16(append(code, g.bulk(vs)...), k)
		if c {
			code = append(code, pick(r, byte(0x73), 0x74, 0x75))
			for j := 0; j < 4; j++ {
				code = show(append(push16(code, int(vs[2*r.IntN(k)+1])), 0x45))
			}
		} else {
			code = append(code, pick(r, byte(0x5d), 0x71, 0x72))
		}
	case 11:
		what = "values and twilight points"
		m, t := len(f.CVT), int(f.MaxTwilight)
		for j := 0; j < 8; j++ {
			k := pick(r, 0, m-1, r.IntN(m))
			p := pick(r, 0, t-1, r.IntN(t))
			b := append(push16(push16(nil, k), r.IntN(2000)-1000), pick(r, byte(0x44), 0x70))
			if r.IntN(2) == 0 {
				f.Prep = append(f.Prep, b...)
			} else {
				code = append(code, b...)
			}
			code = append(code, 0xb0, 0, 0x16)
			code = append(push16(push16(code, p), k), 0x3e+byte(r.IntN(2)))
			code = append(push16(code, p), 0x46)
			code = show(append(code, 0xb0, 1, 0x16))
			if k+256 < m {
				code = show(append(push16(code, k+256), 0x45))
			}
			code = show(append(push16(code, k), 0x45))
		}
	}
	f.Glyphs[0].Program = code
	return what
}

// bulk pushes values by instructions of many each.
func (g *G) bulk(vs []int64) []byte {
	r := g.R
	var b []byte
	for len(vs) > 0 {
		n := min(len(vs), pick(r, 255, 255, 254, 128, 127, 1+r.IntN(255), 1+r.IntN(255)))
		bytes := true
		for _, v := range vs[:n] {
			bytes = bytes && v >= 0 && v < 256
		}
		short := n <= 8 && r.IntN(2) == 0
		if bytes && r.IntN(4) != 0 {
			b = append(b, 0x40, byte(n))
			if short {
				b = append(b[:len(b)-2], 0xb0+byte(n-1))
			}
			for _, v := range vs[:n] {
				b = append(b, byte(v))
			}
		} else {
			b = append(b, 0x41, byte(n))
			if short {
				b = append(b[:len(b)-2], 0xb8+byte(n-1))
			}
			for _, v := range vs[:n] {
				b = append(b, byte(v>>8), byte(v))
			}
		}
		vs = vs[n:]
	}
	return b
}

// payload pushes data that looks like the structure of a program.
func (g *G) payload() []byte {
	r := g.R
	n := pick(r, 0, 1, 8, 127, 128, 255, r.IntN(256))
	n = min(n, int(g.F.MaxStack)-8)
	op := pick(r, byte(0x40), 0x41)
	b := []byte{op, byte(n)}
	if n > 0 && n <= 8 && r.IntN(2) == 0 {
		b = []byte{0xb0 + byte(n-1) + (op-0x40)*8}
	}
	if op == 0x41 {
		n *= 2
	}
	for ; n > 0; n-- {
		b = append(b, pick(r, byte(0x58), 0x59, 0x1b, 0x2d, 0x2c, 0x40, 0x41, 0xb7, 0xbf))
	}
	return b
}
