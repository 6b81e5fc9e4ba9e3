// Command ftdump writes generated fonts and what the reference interpreter
// makes of their glyphs, for tools/ftcompare.py to compare with libfreetype.
// It is a development tool: no check uses it.
package main

import (
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"os"
	"strconv"

	"verif/harness/fontgen"
	"verif/harness/ttgen"
)

type glyph struct {
	Index   int
	Points  [][3]int64
	Ends    []int
	Advance int64
	Program string
}

type rec struct {
	File       string
	Scale      int64
	FPGM, Prep string
	CVT        []int16
	Glyphs     []glyph
}

func main() {
	dir := os.Args[1]
	n, _ := strconv.Atoi(os.Args[2])
	seed, _ := strconv.Atoi(os.Args[3])
	var out []rec
	for k := 0; k < n; k++ {
		r := rand.New(rand.NewPCG(uint64(seed), uint64(k)))
		glyphs := 1
		if r.IntN(3) == 0 {
			glyphs = 6
		}
		f := fontgen.Rand(r, fontgen.Opts{MaxGlyphs: glyphs, MaxPoints: 12, Plain: true, Coord: 1000, Composites: glyphs > 1, UseMetrics: true})
		f.UPEM = 1024
		for i, g := range f.Glyphs {
			// libfreetype no longer shifts outlines to have the origin on the grid.
			f.LSB[i] = g.XMin
		}
		scale := int64(64 * (1 + r.IntN(60)))
		env := (&ttgen.G{R: r, F: f, NoPhantoms: true, Tail: []byte{0x18}}).Programs(scale, 1+r.IntN(8))
		if env == nil {
			continue
		}
		q := rec{File: fmt.Sprintf("%s/%d.ttf", dir, k), Scale: scale, FPGM: fmt.Sprintf("%x", f.FPGM), Prep: fmt.Sprintf("%x", f.Prep), CVT: f.CVT}
		for i, g := range f.Glyphs {
			w, o := env.Load(i)
			if o != nil {
				continue
			}
			x := glyph{Index: i, Ends: w.Ends, Advance: w.Advance, Program: fmt.Sprintf("%x", g.Program)}
			for _, p := range w.Points {
				on := int64(0)
				if p.On {
					on = 1
				}
				x.Points = append(x.Points, [3]int64{p.X, p.Y, on})
			}
			q.Glyphs = append(q.Glyphs, x)
		}
		os.WriteFile(q.File, f.Encode(r), 0o644)
		out = append(out, q)
	}
	b, _ := json.Marshal(out)
	os.WriteFile(dir+"/all.json", b, 0o644)
}
