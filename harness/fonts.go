package main

import (
	"fmt"
	"sync"

	"github.com/go-fonts/dejavu/dejavusans"
	"github.com/go-fonts/dejavu/dejavusansbold"
	"github.com/go-fonts/dejavu/dejavusansboldoblique"
	"github.com/go-fonts/dejavu/dejavusansoblique"
	"github.com/go-fonts/latin-modern/lmroman10bold"
	"github.com/go-fonts/latin-modern/lmroman10bolditalic"
	"github.com/go-fonts/latin-modern/lmroman10italic"
	"github.com/go-fonts/latin-modern/lmroman10regular"
	"github.com/go-fonts/liberation/liberationserifbold"
	"github.com/go-fonts/liberation/liberationserifbolditalic"
	"github.com/go-fonts/liberation/liberationserifitalic"
	"github.com/go-fonts/liberation/liberationserifregular"
	"github.com/go-fonts/stix/stix2textbold"
	"github.com/go-fonts/stix/stix2textbolditalic"
	"github.com/go-fonts/stix/stix2textitalic"
	"github.com/go-fonts/stix/stix2textregular"
	"github.com/go-latex/latex/drawtex"
	"github.com/go-latex/latex/font/liberation"
	"github.com/go-latex/latex/font/lm"
	"github.com/go-latex/latex/font/ttf"
	"golang.org/x/image/font/gofont/gobold"
	"golang.org/x/image/font/gofont/gobolditalic"
	"golang.org/x/image/font/gofont/goitalic"
	"golang.org/x/image/font/gofont/goregular"
	"golang.org/x/image/font/sfnt"
)

// fontSetNames are the font sets the checks use: the default and the packaged
// ones, and sets of other fonts, the last of which has
// a font in two roles, and none in a role that is never used.
var fontSetNames = []string{"default", "lm", "liberation", "mixed", "stix", "dejavu", "twofold"}

// rawSet holds the files of a font set.
type rawSet struct{ def, rm, it, bf, bfit []byte }

var rawFonts = map[string]rawSet{
	"default":    {goregular.TTF, goregular.TTF, goitalic.TTF, gobold.TTF, gobolditalic.TTF},
	"lm":         {lmroman10regular.TTF, lmroman10regular.TTF, lmroman10italic.TTF, lmroman10bold.TTF, lmroman10bolditalic.TTF},
	"liberation": {liberationserifregular.TTF, liberationserifregular.TTF, liberationserifitalic.TTF, liberationserifbold.TTF, liberationserifbolditalic.TTF},
	"mixed":      {gobold.TTF, liberationserifregular.TTF, goitalic.TTF, lmroman10bold.TTF, gobolditalic.TTF},
	"stix":       {stix2textregular.TTF, stix2textregular.TTF, stix2textitalic.TTF, stix2textbold.TTF, stix2textbolditalic.TTF},
	"dejavu":     {dejavusans.TTF, dejavusans.TTF, dejavusansoblique.TTF, dejavusansbold.TTF, dejavusansboldoblique.TTF},
	"twofold":    {gobold.TTF, goregular.TTF, goregular.TTF, gobold.TTF, nil},
}

func parseFont(raw []byte) *sfnt.Font {
	f, err := sfnt.Parse(raw)
	if err != nil {
		panic(fmt.Errorf("harness: %w", err))
	}
	return f
}

var (
	customMu   sync.Mutex
	customSets = map[string]*ttf.Fonts{}
)

// fontSet returns a font set; nil stands for the default one.
func fontSet(name string) *ttf.Fonts {
	switch name {
	case "default":
		return nil
	case "lm":
		return lm.Fonts()
	case "liberation":
		return liberation.Fonts()
	}
	customMu.Lock()
	defer customMu.Unlock()
	if f := customSets[name]; f != nil {
		return f
	}
	raw, ok := rawFonts[name]
	if !ok {
		panic("harness: unknown font set " + name)
	}
	// one font for the roles with the same file.
	made := map[*byte]*sfnt.Font{}
	parse := func(raw []byte) *sfnt.Font {
		if raw == nil {
			return nil
		}
		if made[&raw[0]] == nil {
			made[&raw[0]] = parseFont(raw)
		}
		return made[&raw[0]]
	}
	f := &ttf.Fonts{
		Default: parse(raw.def), Rm: parse(raw.rm), It: parse(raw.it),
		Bf: parse(raw.bf), BfIt: parse(raw.bfit),
	}
	customSets[name] = f
	return f
}

func newTTF(set string) (*drawtex.Canvas, *ttf.Backend) {
	cnv := drawtex.New()
	if f := fontSet(set); f != nil {
		return cnv, ttf.NewFrom(cnv, f)
	}
	return cnv, ttf.New(cnv)
}

// canvasOps lists the operations of a canvas.
func canvasOps(cnv *drawtex.Canvas) []op {
	var out []op
	for _, v := range cnv.Ops() {
		switch v := v.(type) {
		case drawtex.GlyphOp:
			out = append(out, op{X: v.X, Y: v.Y, Sym: v.Glyph.Symbol, Size: v.Glyph.Size})
		case drawtex.RectOp:
			out = append(out, op{Rect: true, X: v.X1, Y: v.Y1, X2: v.X2, Y2: v.Y2})
		default:
			panic(fmt.Sprintf("unknown operation %T", v))
		}
	}
	return out
}
