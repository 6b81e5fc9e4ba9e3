package checks

import (
	"os"
	"path/filepath"
	"sort"
	"sync"

	"github.com/golang/freetype/truetype"
	"golang.org/x/image/font/gofont/gobold"
	"golang.org/x/image/font/gofont/goitalic"
	"golang.org/x/image/font/gofont/gomono"
	"golang.org/x/image/font/gofont/goregular"
	"golang.org/x/image/font/gofont/gosmallcaps"

	"verif/harness/fontgen"
)

type realFont struct {
	name string
	data []byte
	ft   *truetype.Font // nil if it does not parse
	err  error
	// The decoded model, or why there is none.
	model    *fontgen.Font
	modelErr any
}

// realFonts are the fonts at hand: those of the repository, those installed
// and the Go fonts.
var realFonts = sync.OnceValue(func() []*realFont {
	repo := os.Getenv("VERIF_REPO")
	if repo == "" {
		repo = "/repo"
	}
	var out []*realFont
	add := func(name string, b []byte) {
		f := &realFont{name: name, data: b}
		func() {
			// A panic here shows in the checks that use the font.
			defer func() { recover() }()
			f.ft, f.err = parseFont(b)
		}()
		func() {
			defer func() { f.modelErr = recover() }()
			f.model = fontgen.Decode(b)
		}()
		out = append(out, f)
	}
	paths, _ := filepath.Glob(filepath.Join(repo, "testdata/*.ttf"))
	sys, _ := filepath.Glob("/usr/share/fonts/truetype/dejavu/*.ttf")
	sort.Strings(paths)
	sort.Strings(sys)
	for _, p := range append(paths, sys...) {
		if b, err := os.ReadFile(p); err == nil {
			add(filepath.Base(p), b)
		}
	}
	add("Go-Regular", goregular.TTF)
	add("Go-Bold", gobold.TTF)
	add("Go-Italic", goitalic.TTF)
	add("Go-Mono", gomono.TTF)
	add("Go-Smallcaps", gosmallcaps.TTF)
	return out
})
