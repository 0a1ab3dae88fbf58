package main

import (
	"errors"
	"fmt"
	"strings"
	"unicode"

	"github.com/go-latex/latex/font"
	"github.com/go-latex/latex/font/ttf"
	"github.com/go-latex/latex/mtex"
	"github.com/go-latex/latex/tex"
	"golang.org/x/image/font/sfnt"
	"pgregory.net/rapid"
)

// This file holds the check of incomplete font sets and failing backends.

// spyBackend passes queries on to a backend, and notes what it is asked for.
// It may fail.
type spyBackend struct {
	font.Backend
	failAt int    // if positive, that query fails
	how    string // how it fails
	n      int    // number of queries
	drawn  int    // number of drawing operations
	glyphs []askedGlyph
	xtypes map[string]bool // font types asked for their x-height
}

type askedGlyph struct {
	sym, typ string
	math     bool
}

func (be *spyBackend) query() {
	be.n++
	if be.failAt == 0 || be.n != be.failAt {
		return
	}
	switch be.how {
	case "error":
		panic(errors.New("the harness fails"))
	case "string":
		panic("the harness fails")
	case "nil":
		var f *sfnt.Font
		f.UnitsPerEm()
		panic(f)
	case "index":
		panic([]int{}[len(be.how)-len("index"):][be.n-1])
	default:
		panic(struct{ n int }{be.n})
	}
}

func (be *spyBackend) Metrics(sym string, fnt font.Font, dpi float64, math bool) font.Metrics {
	be.query()
	be.glyphs = append(be.glyphs, askedGlyph{sym, fnt.Type, math})
	return be.Backend.Metrics(sym, fnt, dpi, math)
}

func (be *spyBackend) XHeight(fnt font.Font, dpi float64) float64 {
	be.query()
	be.xtypes[fnt.Type] = true
	return be.Backend.XHeight(fnt, dpi)
}

func (be *spyBackend) UnderlineThickness(fnt font.Font, dpi float64) float64 {
	be.query()
	return be.Backend.UnderlineThickness(fnt, dpi)
}

func (be *spyBackend) Kern(f1 font.Font, s1 string, f2 font.Font, s2 string, dpi float64) float64 {
	be.query()
	return be.Backend.Kern(f1, s1, f2, s2, dpi)
}

func (be *spyBackend) RenderGlyph(x, y float64, fnt font.Font, sym string, dpi float64) {
	be.drawn++
	be.Backend.RenderGlyph(x, y, fnt, sym, dpi)
}

func (be *spyBackend) RenderRectFilled(x1, y1, x2, y2 float64) {
	be.drawn++
	be.Backend.RenderRectFilled(x1, y1, x2, y2)
}

type faultCase struct {
	texCase
	Set     string   `json:"set"`
	Missing []string `json:"missing,omitempty"` // styles the font set lacks
	Broken  bool     `json:"broken,omitempty"`  // they are unusable instead
	Fail    int      `json:"fail,omitempty"`    // the query that fails, modulo the number of queries
	How     string   `json:"how,omitempty"`
	Test    bool     `json:"test,omitempty"` // with generated metrics
}

var styleNames = []string{"default", "rm", "it", "bf", "bfit"}

func drawFaultCase(t *rapid.T) faultCase {
	p := profTypeset()
	c := faultCase{texCase: drawTexCase(t, p, 25)}
	switch uni(t, 6, "simple") {
	case 0:
		// letters in math.
		c.Expr = nil
		for i := 0; i <= uni(t, 4, "maths"); i++ {
			n := &N{K: "math"}
			for j := uni(t, 3, "words"); j >= 0; j-- {
				n.C = append(n.C, &N{K: "word", T: string(one(t, lettersASCII, "letter")) + "x"})
			}
			c.Expr = append(c.Expr, n)
		}
	case 1:
		// text and constructs.
		c.Expr = []*N{{K: "word", T: "text"}, {K: "num", T: "1.5"}, {K: "sym", T: "+"}}
		c.Expr = nest(t, c.Expr, 1+uni(t, 5, "levels"))
	}
	if uni(t, 3, "textual") == 0 {
		// without the italic letters of math expressions.
		for i, n := range c.Expr {
			if n.K == "math" {
				c.Expr[i] = &N{K: "math", C: []*N{{K: "num", T: "1.5"}}}
			}
		}
	}
	c.Set = one(t, fontSetNames[1:], "set")
	if uni(t, 2, "fault") == 0 {
		c.Fail = 1 + uni(t, 1000, "fail")
		c.How = one(t, []string{"error", "string", "nil", "index", "other"}, "how")
		c.Test = uni(t, 2, "test") == 0
		return c
	}
	for _, s := range styleNames {
		if uni(t, 2, "lacks "+s) == 0 {
			c.Missing = append(c.Missing, s)
		}
	}
	c.Broken = uni(t, 4, "broken") == 0
	return c
}

// onlyText tells whether an expression is made of text and of constructs with
// nothing else inside.
func onlyText(ns []*N) bool {
	for _, n := range ns {
		switch n.K {
		case "word", "num", "sym":
		case "arg", "opt":
			if !onlyText(n.C) {
				return false
			}
		case "mac":
			switch n.T {
			case `\frac`, `\dfrac`, `\tfrac`, `\binom`, `\sqrt`, `\overline`, `\sin`, `\exp`, `\log`:
			default:
				return false
			}
			if !onlyText(n.C) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// onlyLetters tells whether an expression is made of Latin letters in math.
func onlyLetters(ns []*N) bool {
	for _, n := range ns {
		if n.K != "math" {
			return false
		}
		for _, w := range n.C {
			if w.K != "word" || strings.IndexFunc(w.T, func(r rune) bool { return r >= 0x250 }) >= 0 {
				return false
			}
		}
	}
	return true
}

// fontsWithout is a font set without some of its styles.
func (c faultCase) fontsWithout() *ttf.Fonts {
	f := *fontSet(c.Set)
	var no *sfnt.Font
	if c.Broken {
		no = new(sfnt.Font)
	}
	for _, s := range c.Missing {
		switch s {
		case "default":
			f.Default = no
		case "rm":
			f.Rm = no
		case "it":
			f.It = no
		case "bf":
			f.Bf = no
		case "bfit":
			f.BfIt = no
		}
	}
	return &f
}

func runFault(c faultCase, o *Obs) error {
	if !c.valid() || c.Set == "default" || rawFonts[c.Set].rm == nil {
		return nil
	}
	if c.Fail > 0 {
		return c.runFailing(o)
	}
	text := c.src().text
	_, be := newTTF(c.Set)
	spy := &spyBackend{Backend: be, xtypes: map[string]bool{}}
	if _, err := mtex.Parse(text, c.Size, 72, spy); err != nil {
		o.Label("not typeset")
		return nil // decided by C07
	}
	lacks := map[string]bool{}
	for _, s := range c.Missing {
		lacks[s] = true
	}
	// which fonts the glyphs are taken from.
	need, maybe := "", ""
	for _, g := range spy.glyphs {
		r, ok := refRune(g.sym, g.math)
		if !ok {
			maybe = g.sym
			continue
		}
		style := g.typ
		if style == "regular" {
			style = "rm"
		}
		if style == "it" && !unicode.IsLetter(r) {
			style = "rm"
			if r >= 0x10000 && (lacks["rm"] || lacks["it"]) {
				maybe = g.sym
				continue
			}
		}
		if style == "it" && unicode.Is(unicode.Greek, r) && unicode.IsUpper(r) && (lacks["rm"] || lacks["it"]) {
			maybe = g.sym
			continue
		}
		if lacks[style] {
			need = fmt.Sprintf("the %q font is needed for %q", style, g.sym)
		}
	}
	for typ := range spy.xtypes {
		if lacks[typ] {
			maybe = "x-height"
		}
	}
	// expressions of text never need the italic font, letters in math nothing else.
	simple := ""
	switch {
	case onlyText(c.Expr):
		simple = "rm"
	case onlyLetters(c.Expr):
		simple = "it"
	}
	if simple != "" {
		o.Label("only %s", simple)
		if !lacks[simple] {
			need, maybe = "", ""
		}
	}
	what := fmt.Sprintf("Render(%q) with the fonts of %q but %v (broken: %v)", text, c.Set, c.Missing, c.Broken)
	var want, got recRenderer
	if err := mtex.Render(&want, text, c.Size, c.DPI, fontSet(c.Set)); err != nil || len(want.calls) != 1 {
		return fmt.Errorf("Render(%q): %v, %d calls, but it can be typeset", text, err, len(want.calls))
	}
	fonts := c.fontsWithout()
	before := *fonts
	err := mtex.Render(&got, text, c.Size, c.DPI, fonts)
	if *fonts != before {
		return fmt.Errorf("%s: the font set is modified", what)
	}
	switch {
	case err != nil && len(got.calls) != 0:
		return fmt.Errorf("%s: renderer called %d times, with error %v", what, len(got.calls), err)
	case err != nil && err.Error() == "":
		return fmt.Errorf("%s: empty error", what)
	case need != "" && err == nil:
		return fmt.Errorf("%s: no error, but %s\n%s", what, need, opsString(canvasOps(got.calls[0].cnv)))
	case need == "" && maybe == "" && err != nil:
		return fmt.Errorf("%s: error %v, but none of the missing fonts is needed", what, err)
	}
	o.Label("error: %v", err != nil)
	if err == nil {
		if len(got.calls) != 1 {
			return fmt.Errorf("%s: renderer called %d times", what, len(got.calls))
		}
		g, w := got.calls[0], want.calls[0]
		if maybe == "" {
			if g.w != w.w || g.h != w.h || g.dpi != w.dpi {
				return fmt.Errorf("%s: size %gx%g at %g dpi, with all fonts %gx%g at %g dpi", what, g.w, g.h, g.dpi, w.w, w.h, w.dpi)
			}
			if err := sameOps(canvasOps(g.cnv), canvasOps(w.cnv), 0); err != nil {
				return fmt.Errorf("%s: not as with all fonts: %v", what, err)
			}
			if err := sameFonts(g.cnv, w.cnv); err != nil {
				return fmt.Errorf("%s: not as with all fonts: %v", what, err)
			}
		}
	}
	o.Label("missing %d", len(c.Missing))
	o.NonTrivial(len(c.Missing) > 0 && len(c.Missing) < 5 && len(want.calls[0].cnv.Ops()) >= 2 && maybe == "")
	return nil
}

// runFailing makes one of the queries of the typesetter fail.
func (c faultCase) runFailing(o *Obs) error {
	text := c.src().text
	newBE := func() (*spyBackend, func() []op) {
		spy := &spyBackend{xtypes: map[string]bool{}}
		if c.Test {
			be := newTestBackend(c.BE)
			spy.Backend = be
			return spy, func() []op { return be.ops }
		}
		cnv, be := newTTF(c.Set)
		spy.Backend = be
		return spy, func() []op { return canvasOps(cnv) }
	}
	ship := func(box tex.Node) {
		var sh tex.Ship
		sh.Call(0, 0, box.(tex.Tree))
	}
	ref, refOps := newBE()
	box, err := mtex.Parse(text, c.Size, c.DPI, ref)
	if err != nil {
		o.Label("not typeset")
		return nil // decided by C07
	}
	total := ref.n
	if total == 0 {
		o.Label("no query")
		return nil
	}
	ship(box)

	be, ops := newBE()
	be.failAt, be.how = 1+(c.Fail-1)%total, c.How
	what := fmt.Sprintf("Parse(%q) with a backend whose query %d of %d fails (%s)", text, be.failAt, total, c.How)
	box, err = mtex.Parse(text, c.Size, c.DPI, be)
	switch {
	case be.n < be.failAt:
		o.Label("fewer queries")
		return nil
	case err == nil:
		return fmt.Errorf("%s: no error", what)
	case err.Error() == "":
		return fmt.Errorf("%s: empty error", what)
	case box != nil:
		return fmt.Errorf("%s: box %v with error %v", what, box, err)
	case be.drawn != 0:
		return fmt.Errorf("%s: %d drawing operations", what, be.drawn)
	}
	// once more, without the failure.
	be.failAt = 0
	again, err := mtex.Parse(text, c.Size, c.DPI, be)
	if err != nil {
		return fmt.Errorf("%s, then with one that doesn't: %v", what, err)
	}
	ship(again)
	if err := sameOps(ops(), refOps(), 0); err != nil {
		return fmt.Errorf("%s: the next call differs: %v", what, err)
	}
	o.Label("fails: %s", c.How)
	o.NonTrivial(total >= 5 && len(refOps()) >= 2)
	return nil
}

// enumFault has every subset of the styles, and a failure of every query.
func enumFault() []faultCase {
	var (
		out  []faultCase
		word = func(s string) *N { return &N{K: "word", T: s} }
		arg  = func(ns ...*N) *N { return &N{K: "arg", C: ns} }
		be   = beParams{Seed: 1, Thick: 0.0625, XH: 0.5}
	)
	for i, e := range [][]*N{
		{word("ab")}, {{K: "math", C: []*N{word("ab")}}}, {{K: "math", C: []*N{{K: "num", T: "1.5"}}}}, {{K: "math", C: []*N{{K: "sym", T: "+"}}}},
		{{K: "mac", T: `\sin`}}, {{K: "mac", T: `\quad`}}, {{K: "mac", T: `\alpha`}}, {{K: "math", C: []*N{{K: "mac", T: `\alpha`}}}},
		{{K: "mac", T: `\frac`, C: []*N{arg(word("a")), arg(word("b"))}}}, {{K: "mac", T: `\overline`, C: []*N{arg(word("a"))}}},
		{{K: "mac", T: `\sqrt`, C: []*N{arg(word("a"))}}}, {{K: "mac", T: `\binom`, C: []*N{arg(word("a")), arg(word("b"))}}},
		{{K: "math", C: []*N{{K: "mac", T: `\sqrt`, C: []*N{{K: "opt", C: []*N{word("n")}}, arg(word("a"))}}, {K: "mac", T: `\exp`, C: []*N{arg(word("x"))}}}}},
	} {
		c := faultCase{texCase: texCase{Expr: e, Size: 12, DPI: 72, BE: be}, Set: fontSetNames[1+i%(len(fontSetNames)-1)]}
		for m := 0; m < 1<<len(styleNames); m++ {
			c.Missing = nil
			for j, s := range styleNames {
				if m>>j&1 != 0 {
					c.Missing = append(c.Missing, s)
				}
			}
			for _, c.Broken = range []bool{false, true} {
				out = append(out, c)
			}
		}
		c.Missing, c.Broken = nil, false
		for k := 1; k <= 25; k++ {
			for _, c.How = range []string{"error", "string", "nil", "index", "other"} {
				c.Fail, c.Test = k, k%2 == 0
				out = append(out, c)
			}
		}
	}
	return out
}

func init() {
	register("C31", "typesettable expressions with font sets that lack styles, and with backends of which one query fails; non-trivial: some style is missing, or the failing typesetting makes at least 5 queries, and at least 2 drawing operations",
		60000, 400000, drawFaultCase, runFault, withEnum(enumFault))
}
