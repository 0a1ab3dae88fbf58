package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"sync"
	"unicode"
	"unicode/utf8"

	"github.com/go-latex/latex/drawtex"
	"github.com/go-latex/latex/font"
	"github.com/go-latex/latex/font/liberation"
	"github.com/go-latex/latex/font/lm"
	"github.com/go-latex/latex/font/ttf"
	stdfont "golang.org/x/image/font"
	"golang.org/x/image/font/sfnt"
	"golang.org/x/image/math/fixed"
	"pgregory.net/rapid"
)

// This file holds the checks of the TrueType backend, against what the font
// files say in their own units.

// refFont is a font file, read by the harness.
type refFont struct {
	f    *sfnt.Font
	raw  []byte
	name string // PostScript name
	upem float64

	mu     sync.Mutex
	glyphs map[rune]refGlyph
}

// refGlyph is a glyph, in font units.
type refGlyph struct {
	num                         sfnt.GlyphIndex
	adv, xmin, xmax, ymin, ymax float64
	empty                       bool
}

var (
	refFontsMu sync.Mutex
	refFonts   = map[*byte]*refFont{}
)

func newRefFont(raw []byte) *refFont {
	refFontsMu.Lock()
	defer refFontsMu.Unlock()
	if r := refFonts[&raw[0]]; r != nil {
		return r
	}
	f := parseFont(raw)
	name, err := f.Name(nil, sfnt.NameIDPostScript)
	if err != nil {
		panic(fmt.Errorf("harness: %w", err))
	}
	r := &refFont{f: f, raw: raw, name: name, upem: float64(f.UnitsPerEm()), glyphs: map[rune]refGlyph{}}
	refFonts[&raw[0]] = r
	return r
}

func (r *refFont) glyph(c rune) refGlyph {
	r.mu.Lock()
	defer r.mu.Unlock()
	if g, ok := r.glyphs[c]; ok {
		return g
	}
	var (
		buf sfnt.Buffer
		g   refGlyph
	)
	must := func(err error) {
		if err != nil {
			panic(fmt.Errorf("harness: %s: %w", r.name, err))
		}
	}
	num, err := r.f.GlyphIndex(&buf, c)
	must(err)
	g.num = num
	// a size of as many pixels as there are units.
	ppem := fixed.I(int(r.f.UnitsPerEm()))
	segs, err := r.f.LoadGlyph(&buf, num, ppem, nil)
	must(err)
	b := segs.Bounds()
	g.empty = len(segs) == 0
	g.xmin, g.xmax = float64(b.Min.X)/64, float64(b.Max.X)/64
	g.ymin, g.ymax = -float64(b.Max.Y)/64, -float64(b.Min.Y)/64
	// the advance in units: one raw unit of ppem per em unit.
	adv, err := r.f.GlyphAdvance(&buf, num, fixed.Int26_6(r.f.UnitsPerEm()), stdfont.HintingNone)
	must(err)
	g.adv = float64(adv)
	r.glyphs[c] = g
	return g
}

// kern is the kerning of two glyphs in font units.
func (r *refFont) kern(a, b rune) float64 {
	ga, gb := r.glyph(a), r.glyph(b)
	k, err := r.f.Kern(nil, ga.num, gb.num, fixed.Int26_6(r.f.UnitsPerEm()), stdfont.HintingNone)
	switch {
	case err == sfnt.ErrNotFound:
		return 0
	case err != nil:
		panic(fmt.Errorf("harness: %s: %w", r.name, err))
	}
	return float64(k)
}

// table returns a table of the font file.
func (r *refFont) table(tag string) []byte {
	n := int(binary.BigEndian.Uint16(r.raw[4:]))
	for i := 0; i < n; i++ {
		e := r.raw[12+16*i:]
		if string(e[:4]) == tag {
			off, size := binary.BigEndian.Uint32(e[8:]), binary.BigEndian.Uint32(e[12:])
			return r.raw[off : off+size]
		}
	}
	return nil
}

// xheight is the x-height in font units.
func (r *refFont) xheight() float64 {
	os2 := r.table("OS/2")
	if len(os2) >= 88 && binary.BigEndian.Uint16(os2) >= 2 {
		if v := int16(binary.BigEndian.Uint16(os2[86:])); v != 0 {
			return math.Abs(float64(v))
		}
	}
	return r.glyph('x').ymax
}

// style flags of the font file.
func (r *refFont) flags() (bold, italic bool) {
	os2 := r.table("OS/2")
	fs := binary.BigEndian.Uint16(os2[62:])
	return fs&(1<<5) != 0, fs&1 != 0
}

// refRune is the character a symbol stands for.
func refRune(sym string, math bool) (rune, bool) {
	r, n := utf8.DecodeRuneInString(sym)
	switch {
	case !math:
		return r, r != utf8.RuneError
	case sym == "-":
		return '\u2212', true
	case n == len(sym):
		return r, r != utf8.RuneError
	}
	r, ok := texUnicode[sym]
	return r, ok
}

// pickFont returns the font files a symbol may be drawn with.
func pickFont(set, typ string, r rune, known bool) []*refFont {
	raw := rawFonts[set]
	switch typ {
	case "default":
		return []*refFont{newRefFont(raw.def)}
	case "regular", "rm":
		return []*refFont{newRefFont(raw.rm)}
	case "bf":
		return []*refFont{newRefFont(raw.bf)}
	case "it":
		switch {
		case r >= 0x10000 && !unicode.IsLetter(r):
			// not specified.
			return []*refFont{newRefFont(raw.rm), newRefFont(raw.it)}
		case !unicode.IsLetter(r):
			return []*refFont{newRefFont(raw.rm)}
		case unicode.Is(unicode.Greek, r) && unicode.IsUpper(r):
			if known {
				return []*refFont{newRefFont(raw.rm), newRefFont(raw.it)}
			}
			return []*refFont{newRefFont(raw.rm)}
		}
		return []*refFont{newRefFont(raw.it)}
	}
	panic("harness: font type " + typ)
}

// fontQuery is a query to a backend.
type fontQuery struct {
	Op   string    `json:"op"` // metrics, kern, render, rect, xheight, thick
	Sym  string    `json:"sym,omitempty"`
	Sym2 string    `json:"sym2,omitempty"`
	Font font.Font `json:"font"`
	Fnt2 font.Font `json:"font2"`
	DPI  float64   `json:"dpi"`
	Math bool      `json:"math,omitempty"`
	X    float64   `json:"x,omitempty"`
	Y    float64   `json:"y,omitempty"`
	X2   float64   `json:"x2,omitempty"`
	Y2   float64   `json:"y2,omitempty"`
}

type fontCase struct {
	Set     string      `json:"set"`
	Queries []fontQuery `json:"queries"`
}

var (
	fontTypes = []string{"default", "regular", "rm", "it", "bf"}
	fontNames = []string{"default", "it", "regular"}
	kernText  = []rune("AVWTYLPFaovyweT.,-'f")
	otherText = []rune("abgjmqxyzQ019()[]{}|/\\%&é ßøÅœŁĲαβγφΩΣΔΠя中א−√∑∫⨝≠ →𝑥𝔸ﬁ—―︙ﷺ…ǄѾ\u00a0\u2003\u0302")
)

func drawSym(t *rapid.T) string {
	if r := dictRune(t, 0, unicode.IsPrint); r != 0 {
		return string(r)
	}
	switch uni(t, 8, "sym") {
	case 0, 1, 2:
		return string(one(t, kernText, "kern"))
	case 3, 4:
		return string(one(t, otherText, "other"))
	case 5:
		return string(one(t, lettersASCII, "letter"))
	case 6:
		return "-"
	default:
		return oneOr(t, texNames, "macro")
	}
}

var texNames = keysOf(texUnicode)

func drawFont(t *rapid.T) font.Font {
	return font.Font{
		Name: one(t, fontNames, "name"),
		Type: one(t, fontTypes, "type"),
		Size: drawSize(t),
	}
}

func drawFontCase(t *rapid.T, ops []string, n int) fontCase {
	c := fontCase{Set: one(t, fontSetNames, "set")}
	k := 1 + uni(t, n, "queries")
	if n > 1 {
		k = dictInt(t, k, 1, 1500)
	}
	var pool []font.Font
	for i := 0; i < 1+uni(t, 3, "fonts"); i++ {
		pool = append(pool, drawFont(t))
	}
	var syms []string
	for i := 0; i < 2+uni(t, 5, "syms"); i++ {
		syms = append(syms, drawSym(t))
	}
	dpis := []float64{72, 72, 100, 300, drawDPI(t)}
	for i := 0; i < k; i++ {
		q := fontQuery{
			Op:   one(t, ops, "op"),
			Sym:  one(t, syms, "sym"),
			Font: one(t, pool, "font"),
			DPI:  one(t, dpis, "dpi"),
		}
		if i > 0 && uni(t, 12, "near") == 0 {
			// an earlier query at nearly its size.
			q = c.Queries[uni(t, i, "earlier")]
			q.Font.Size *= one(t, []float64{1 + 1e-5, 1 - 1e-5, 1.0001, 0.9999, 1.003, 0.98}, "nearly")
			q.Fnt2 = q.Font
			c.Queries = append(c.Queries, q)
			continue
		}
		q.Math = uni(t, 2, "math") == 0 || utf8.RuneCountInString(q.Sym) > 1
		switch q.Op {
		case "kern":
			q.Sym2 = one(t, syms, "sym2")
			q.Fnt2 = q.Font
			if uni(t, 4, "otherfont") == 0 {
				q.Fnt2 = one(t, pool, "font2")
				if uni(t, 3, "similar") == 0 {
					q.Fnt2 = q.Font
					q.Fnt2.Size *= one(t, []float64{1.0001, 0.999, 1.02, 0.7, 2}, "ratio")
				}
			}
			q.Math = false
		case "render", "rect":
			q.X, q.Y = float64(uni(t, 4000, "x"))*0.037-20, float64(uni(t, 4000, "y"))*0.041-20
			q.X2, q.Y2 = float64(uni(t, 4000, "x"))*0.043-20, float64(uni(t, 4000, "y"))*0.039-20
			for _, v := range []*float64{&q.X, &q.Y, &q.X2, &q.Y2} {
				*v = dictNum(t, *v, -1e9, 1e9)
			}
		}
		c.Queries = append(c.Queries, q)
	}
	if n > 1 && uni(t, 40, "flood") == 0 {
		// a long history.
		at := uni(t, len(c.Queries)+1, "floodat")
		more := floodQueries(t, ops)
		c.Queries = append(c.Queries[:at:at], append(more, c.Queries[at:]...)...)
	}
	return c
}

var floodSyms = []rune("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789+=()")

// floodQueries draws many queries, nearly all of them different.
func floodQueries(t *rapid.T, ops []string) []fontQuery {
	var (
		n    = 20 + uni(t, 600, "flood")
		step = one(t, []int{1, 7, 13, 29}, "step") // prime to the number of symbols
		fnt  = drawFont(t)
		vary = uni(t, 3, "vary")
		op   = one(t, ops, "floodop")
		out  []fontQuery
	)
	sym := func(i int) string { return string(floodSyms[(i*step)%len(floodSyms)]) }
	for i := 0; i < n; i++ {
		q := fontQuery{Op: op, Sym: sym(i), Font: fnt, DPI: 72, Math: i%2 == 0}
		switch vary {
		case 0:
			q.Font.Size = fnt.Size + float64(i/len(floodSyms))
		case 1:
			q.Font.Size = fnt.Size * (1 + float64(i)/64)
		case 2:
			q.Font.Type = fontTypes[i%len(fontTypes)]
			q.DPI = float64(72 + i/16)
		}
		switch op {
		case "kern":
			q.Sym2, q.Fnt2, q.Math = sym(i+1), q.Font, false
		case "render", "rect":
			q.X, q.Y, q.X2, q.Y2 = float64(i), float64(n-i)/2, float64(2*i+1), float64(n)
		}
		out = append(out, q)
	}
	return out
}

type glyphKey struct {
	sym string
	f   font.Font
	dpi float64
}

// replay makes the queries on a single backend. Which answers are verified is
// told by the verify function.
func (c fontCase) replay(o *Obs, staleKnown, adv2048, greek bool, verify func(op string) bool) (decided int, err error) {
	var (
		cnv, be = newTTF(c.Set)
		first   = map[glyphKey]rune{} // what was first asked for a key
		want    []func(drawtex.Op) error
	)
	// runes a symbol may stand for, after the previous queries.
	runes := func(sym string, f font.Font, dpi float64, math bool) []rune {
		r, ok := refRune(sym, math)
		if !ok {
			return nil
		}
		k := glyphKey{sym, f, dpi}
		if _, ok := first[k]; !ok {
			first[k] = r
		}
		out := []rune{r}
		if staleKnown && first[k] != r {
			out = append(out, first[k])
		}
		return out
	}
	for i, q := range c.Queries {
		fail := func(format string, args ...any) error {
			return fmt.Errorf("query %d (%+v) of font set %q: %s", i, q, c.Set, fmt.Sprintf(format, args...))
		}
		if q.Font.Size <= 0 || q.DPI <= 0 {
			continue
		}
		switch q.Op {
		case "metrics":
			rs := runes(q.Sym, q.Font, q.DPI, q.Math)
			if rs == nil {
				continue
			}
			got := be.Metrics(q.Sym, q.Font, q.DPI, q.Math)
			if !verify(q.Op) {
				continue
			}
			var bad error
			ok := false
			for _, r := range rs {
				for _, f := range pickFont(c.Set, q.Font.Type, r, greek) {
					e := f.checkMetrics(got, r, q.Font.Size, adv2048)
					if e == nil {
						e = checkSlanted(got, q.Sym, r, q.Font.Type)
					}
					if e == nil {
						ok = true
					} else if bad == nil {
						bad = e
					}
				}
			}
			if !ok {
				return decided, fail("%v", bad)
			}
			decided++
		case "kern":
			if q.Fnt2.Size <= 0 {
				continue
			}
			r1, ok1 := refRune(q.Sym, true)
			r2, ok2 := refRune(q.Sym2, true)
			if !ok1 || !ok2 {
				continue
			}
			var a, b = []rune{r1}, []rune{r2}
			if q.Font.Name == q.Fnt2.Name && q.Font.Size == q.Fnt2.Size {
				a, b = runes(q.Sym, q.Font, q.DPI, true), runes(q.Sym2, q.Fnt2, q.DPI, true)
			}
			got := be.Kern(q.Font, q.Sym, q.Fnt2, q.Sym2, q.DPI)
			if !verify(q.Op) {
				continue
			}
			var (
				wants []float64
				ok    bool
			)
			for _, r1 := range a {
				for _, r2 := range b {
					for _, f1 := range pickFont(c.Set, q.Font.Type, r1, greek) {
						for _, f2 := range pickFont(c.Set, q.Fnt2.Type, r2, greek) {
							w := 0.0
							if f1 == f2 && q.Font.Name == q.Fnt2.Name && q.Font.Size == q.Fnt2.Size {
								w = f1.kern(r1, r2) / f1.upem * q.Font.Size
								if q.Font.Type != q.Fnt2.Type {
									// the same file under two styles: not specified.
									wants = append(wants, 0)
								}
							}
							wants = append(wants, w)
						}
					}
				}
			}
			for _, w := range wants {
				ok = ok || near(got, w, 1e-9*q.Font.Size)
			}
			if !ok {
				return decided, fail("kerning is %g, want %v", got, wants)
			}
			if got != 0 {
				o.Label("kerning pair")
			} else {
				o.Label("no kerning")
			}
			decided++
		case "render":
			rs := runes(q.Sym, q.Font, q.DPI, true)
			if rs == nil {
				continue
			}
			be.RenderGlyph(q.X, q.Y, q.Font, q.Sym, q.DPI)
			metrics := be.Metrics(q.Sym, q.Font, q.DPI, true)
			want = append(want, func(v drawtex.Op) error {
				g, ok := v.(drawtex.GlyphOp)
				if !ok {
					return fail("%T recorded", v)
				}
				if g.X != q.X || g.Y != q.Y || g.Glyph.Size != q.Font.Size {
					return fail("recorded at (%g, %g), size %g", g.X, g.Y, g.Glyph.Size)
				}
				if g.Glyph.Metrics != metrics {
					return fail("metrics %+v recorded, want %+v", g.Glyph.Metrics, metrics)
				}
				for _, r := range rs {
					if g.Glyph.Symbol != string(r) {
						continue
					}
					for _, f := range pickFont(c.Set, q.Font.Type, r, greek) {
						if name, err := g.Glyph.Font.Name(nil, sfnt.NameIDPostScript); err == nil && name == f.name &&
							g.Glyph.Num == f.glyph(r).num && g.Glyph.Postscript == f.name {
							return nil
						}
					}
				}
				return fail("glyph %q, number %d of %q recorded", g.Glyph.Symbol, g.Glyph.Num, g.Glyph.Postscript)
			})
		case "rect":
			be.RenderRectFilled(q.X, q.Y, q.X2, q.Y2)
			want = append(want, func(v drawtex.Op) error {
				if v != (drawtex.RectOp{X1: q.X, Y1: q.Y, X2: q.X2, Y2: q.Y2}) {
					return fail("%+v recorded", v)
				}
				return nil
			})
		case "xheight":
			got := be.XHeight(q.Font, q.DPI)
			if !verify(q.Op) {
				continue
			}
			f := pickFont(c.Set, q.Font.Type, 'x', greek)[0]
			w := f.xheight() / f.upem * q.Font.Size * q.DPI / 72
			if !near(got, w, 2.5/64) {
				return decided, fail("x-height is %g, want %g", got, w)
			}
			decided++
		case "thick":
			got := be.UnderlineThickness(q.Font, q.DPI)
			if !verify(q.Op) {
				continue
			}
			w := q.Font.Size / 16 * q.DPI / 72
			if !near(got, w, 1e-12*w) {
				return decided, fail("rule thickness is %g, want %g", got, w)
			}
			decided++
		}
	}
	if !verify("render") {
		return decided, nil
	}
	ops := cnv.Ops()
	if len(ops) != len(want) {
		return decided, fmt.Errorf("%d operations recorded, want %d", len(ops), len(want))
	}
	for i, v := range ops {
		if err := want[i](v); err != nil {
			return decided, fmt.Errorf("operation %d: %w", i, err)
		}
		decided++
	}
	return decided, nil
}

// checkMetrics compares metrics with those of the glyph of a character.
func (f *refFont) checkMetrics(m font.Metrics, r rune, size float64, adv2048 bool) error {
	var (
		g   = f.glyph(r)
		u   = size / f.upem
		tol = 1.01 / 64 * size / 12 // bounds are those of the glyph at 12 pixels per em
		eps = 1e-9 * size
	)
	for _, v := range []struct {
		what      string
		got, want float64
	}{
		{"XMin", m.XMin, g.xmin * u}, {"XMax", m.XMax, g.xmax * u},
		{"YMin", m.YMin, g.ymin * u}, {"YMax", m.YMax, g.ymax * u},
	} {
		if !near(v.got, v.want, tol) {
			return fmt.Errorf("%s of %q in %s is %g, want %g (+- %g)", v.what, r, f.name, v.got, v.want, tol)
		}
	}
	if !near(m.Width, m.XMax-m.XMin, eps) || !near(m.Height, m.YMax-m.YMin, eps) || !near(m.Iceberg, m.YMax, eps) {
		return fmt.Errorf("inconsistent metrics %+v", m)
	}
	if near(m.Advance, g.adv*u, eps) || (adv2048 && near(m.Advance, g.adv/2048*size, eps)) {
		return nil
	}
	return fmt.Errorf("Advance of %q in %s is %g, want %g", r, f.name, m.Advance, g.adv*u)
}

// checkSlanted compares the slant flag of metrics with the style of the glyph.
func checkSlanted(m font.Metrics, sym string, r rune, typ string) error {
	want := typ == "it" && (unicode.IsLetter(r) || r >= 0x10000)
	switch {
	case sym == `\int` || sym == `\oint`:
		want = true
	case r == '∫' || r == '∮' || typ == "it" && unicode.Is(unicode.Greek, r) && unicode.IsUpper(r):
		return nil
	}
	if m.Slanted != want {
		return fmt.Errorf("Slanted of %q in style %q is %v", sym, typ, m.Slanted)
	}
	return nil
}

// --- C19 ---

func runC19(c fontCase, o *Obs) error {
	n, err := c.replay(o, o.Known("stale-math"), o.Known("advance-upem"), true,
		func(op string) bool { return op == "metrics" || op == "xheight" || op == "thick" })
	if err != nil {
		return err
	}
	o.Label("set %s", c.Set)
	o.NonTrivial(n >= 3)
	// scaling: a fresh backend at another size.
	for i, q := range c.Queries {
		if q.Op != "metrics" || q.Font.Size <= 0 {
			continue
		}
		if _, ok := refRune(q.Sym, q.Math); !ok {
			continue
		}
		_, be := newTTF(c.Set)
		m1 := be.Metrics(q.Sym, q.Font, q.DPI, q.Math)
		f2 := q.Font
		f2.Size = 12
		m2 := be.Metrics(q.Sym, f2, q.DPI, q.Math)
		k := q.Font.Size / 12
		for _, v := range [][2]float64{
			{m1.Advance, m2.Advance}, {m1.Height, m2.Height}, {m1.Width, m2.Width},
			{m1.XMin, m2.XMin}, {m1.XMax, m2.XMax}, {m1.YMin, m2.YMin}, {m1.YMax, m2.YMax}, {m1.Iceberg, m2.Iceberg},
		} {
			if !near(v[0], v[1]*k, 1e-9*q.Font.Size) {
				return fmt.Errorf("query %d (%+v): metrics don't scale linearly: %+v at size %g, %+v at size 12", i, q, m1, q.Font.Size, m2)
			}
		}
		break
	}
	return nil
}

func probeStaleMath() (string, bool) {
	var (
		_, be = newTTF("default")
		fnt   = font.Font{Name: "default", Type: "rm", Size: 12}
		_, b2 = newTTF("default")
	)
	be.Metrics("-", fnt, 72, false)
	return `the metrics of a symbol in math depend on earlier queries: Metrics("-", math=true) after Metrics("-", math=false) are those of the hyphen instead of the minus sign (the glyph cache is not keyed by math)`,
		be.Metrics("-", fnt, 72, true) != b2.Metrics("-", fnt, 72, true)
}

func probeAdvance() (string, bool) {
	var (
		_, be = newTTF("lm")
		m     = be.Metrics("m", font.Font{Name: "default", Type: "rm", Size: 12}, 72, false)
		f     = newRefFont(rawFonts["lm"].rm)
		want  = f.glyph('m').adv / f.upem * 12
	)
	return fmt.Sprintf("the advance of glyphs assumes fonts with 2048 units per em: %q in Latin Modern (1000 units per em) at size 12 advances by %.4f instead of %.4f", "m", m.Advance, want),
		!near(m.Advance, want, 1e-6)
}

// --- C20 ---

func runC20(c fontCase, o *Obs) error {
	n, err := c.replay(o, o.Known("stale-math"), true, true, func(op string) bool { return op == "kern" })
	if err != nil {
		return err
	}
	o.Label("set %s", c.Set)
	o.NonTrivial(n >= 2)
	return nil
}

// --- C24 ---

// canvasStep is a step of the history of several canvases.
type canvasStep struct {
	Canvas int        `json:"canvas"`
	Direct bool       `json:"direct,omitempty"` // drawn on the canvas, not through a backend
	Look   bool       `json:"look,omitempty"`   // only look at the operations
	Times  int        `json:"times,omitempty"`  // the step is made that many more times
	Q      fontQuery  `json:"q"`
	G      glyphAttrs `json:"g"`
}

type glyphAttrs struct {
	Size   float64 `json:"size,omitempty"`
	Symbol string  `json:"symbol,omitempty"`
	Post   string  `json:"post,omitempty"`
	Num    uint16  `json:"num,omitempty"`
	Offset float64 `json:"offset,omitempty"`
	Width  float64 `json:"width,omitempty"`
	Font   int     `json:"font,omitempty"`
}

type canvasCase struct {
	Sets  []string     `json:"sets"` // font set of each canvas
	Steps []canvasStep `json:"steps"`
}

func drawCanvasCase(t *rapid.T) canvasCase {
	var c canvasCase
	for i := 0; i < 1+uni(t, 3, "canvases"); i++ {
		c.Sets = append(c.Sets, one(t, fontSetNames, "set"))
	}
	f := drawFontCase(t, []string{"render", "render", "render", "rect", "rect", "metrics"}, 40)
	for _, q := range f.Queries {
		s := canvasStep{Canvas: uni(t, len(c.Sets), "canvas"), Q: q}
		switch uni(t, 8, "step") {
		case 0, 1:
			s.Direct = true
			s.G = glyphAttrs{
				Size: drawSize(t), Symbol: drawSym(t), Post: one(t, []string{"", "x", "Cmex10"}, "post"), Num: uint16(dictInt(t, uni(t, 70000, "num"), 0, 65535)),
				Offset: float64(uni(t, 100, "off")) * 0.3, Width: float64(uni(t, 100, "w")) * 0.3, Font: uni(t, 3, "font"),
			}
		case 2:
			s.Look = true
		}
		if uni(t, 20000, "times") == 0 && !s.Look {
			s.Times = 1 + uni(t, one(t, []int{300, 3000, 20000}, "max"), "more")
		} else if !s.Look {
			s.Times = dictInt(t, 0, 1, 30000)
		}
		c.Steps = append(c.Steps, s)
		if uni(t, 4, "again") == 0 {
			c.Steps = append(c.Steps, s) // the very same operation again
		}
	}
	return c
}

func sameGlyphOp(got drawtex.Op, want drawtex.Op) bool { return got == want }

func runC24(c canvasCase, o *Obs) error {
	if len(c.Sets) == 0 {
		return nil
	}
	type canvas struct {
		cnv  *drawtex.Canvas
		be   *ttf.Backend
		want []drawtex.Op
	}
	var cs []*canvas
	for _, set := range c.Sets {
		cnv, be := newTTF(set)
		cs = append(cs, &canvas{cnv: cnv, be: be})
	}
	look := func(k int, x *canvas) error {
		ops := x.cnv.Ops()
		if len(ops) != len(x.want) {
			return fmt.Errorf("canvas %d holds %d operations, want %d", k, len(ops), len(x.want))
		}
		for i, v := range ops {
			if !sameGlyphOp(v, x.want[i]) {
				return fmt.Errorf("canvas %d: operation %d is %+v, want %+v", k, i, v, x.want[i])
			}
		}
		return nil
	}
	drawn, throughBE := 0, 0
	var steps []canvasStep
	for _, s := range c.Steps {
		for k := 0; k <= min(s.Times, 100000); k++ {
			if s.Times > 0 {
				s.Q.X += 0.125 // so that they differ
			}
			steps = append(steps, s)
		}
	}
	for i, s := range steps {
		if s.Canvas < 0 || s.Canvas >= len(cs) || s.Q.Font.Size <= 0 {
			continue
		}
		x := cs[s.Canvas]
		q := s.Q
		switch {
		case s.Look:
			for k, x := range cs {
				if err := look(k, x); err != nil {
					return fmt.Errorf("step %d: %w", i, err)
				}
			}
		case q.Op == "rect":
			if s.Direct {
				x.cnv.RenderRectFilled(q.X, q.Y, q.X2, q.Y2)
			} else {
				x.be.RenderRectFilled(q.X, q.Y, q.X2, q.Y2)
			}
			x.want = append(x.want, drawtex.RectOp{X1: q.X, Y1: q.Y, X2: q.X2, Y2: q.Y2})
			drawn++
		case q.Op == "render" && s.Direct:
			g := drawtex.Glyph{
				Size: s.G.Size, Postscript: s.G.Post, Symbol: s.G.Symbol, Num: sfnt.GlyphIndex(s.G.Num), Offset: s.G.Offset,
				Metrics: font.Metrics{Width: s.G.Width, Advance: -s.G.Width},
			}
			switch s.G.Font {
			case 1:
				g.Font = lm.Fonts().Rm
			case 2:
				g.Font = liberation.Fonts().It
			}
			x.cnv.RenderGlyph(q.X, q.Y, g)
			x.want = append(x.want, drawtex.GlyphOp{X: q.X, Y: q.Y, Glyph: g})
			drawn++
		case q.Op == "render":
			r, ok := refRune(q.Sym, true)
			if !ok {
				continue
			}
			m := x.be.Metrics(q.Sym, q.Font, q.DPI, true)
			x.be.RenderGlyph(q.X, q.Y, q.Font, q.Sym, q.DPI)
			throughBE++
			drawn++
			ops := x.cnv.Ops()
			if len(ops) != len(x.want)+1 {
				return fmt.Errorf("step %d: %d operations after drawing a glyph, had %d", i, len(ops), len(x.want))
			}
			v := ops[len(ops)-1]
			g, ok := v.(drawtex.GlyphOp)
			if !ok {
				return fmt.Errorf("step %d: drawing a glyph recorded a %T", i, v)
			}
			switch {
			case g.X != q.X || g.Y != q.Y:
				return fmt.Errorf("step %d: glyph recorded at (%g, %g), drawn at (%g, %g)", i, g.X, g.Y, q.X, q.Y)
			case g.Glyph.Size != q.Font.Size:
				return fmt.Errorf("step %d: glyph recorded with size %g, drawn with %g", i, g.Glyph.Size, q.Font.Size)
			case g.Glyph.Metrics != m:
				return fmt.Errorf("step %d: glyph recorded with metrics %+v, want %+v", i, g.Glyph.Metrics, m)
			case g.Glyph.Font == nil:
				return fmt.Errorf("step %d: glyph recorded without font", i)
			case g.Glyph.Symbol != string(r):
				return fmt.Errorf("step %d: character %q recorded for %q", i, g.Glyph.Symbol, q.Sym)
			}
			// the recorded font maps the character to the recorded glyph.
			num, err := g.Glyph.Font.GlyphIndex(nil, r)
			if err != nil || num != g.Glyph.Num {
				return fmt.Errorf("step %d: glyph number %d recorded for %q, the font says %d (%v)", i, g.Glyph.Num, r, num, err)
			}
			name, err := g.Glyph.Font.Name(nil, sfnt.NameIDPostScript)
			if err != nil || name != g.Glyph.Postscript {
				return fmt.Errorf("step %d: PostScript name %q recorded, the font says %q (%v)", i, g.Glyph.Postscript, name, err)
			}
			x.want = append(x.want, v)
		case q.Op == "metrics":
			if _, ok := refRune(q.Sym, q.Math); ok && (q.Math || q.Sym != "-") {
				x.be.Metrics(q.Sym, q.Font, q.DPI, true)
			}
		}
		if err := look(s.Canvas, x); err != nil {
			return fmt.Errorf("step %d: %w", i, err)
		}
	}
	for k, x := range cs {
		if err := look(k, x); err != nil {
			return fmt.Errorf("at the end: %w", err)
		}
	}
	o.Label("canvases: %d", len(cs))
	o.Label("through a backend: %v", throughBE > 0)
	o.NonTrivial(drawn >= 3)
	return nil
}

// --- C29 ---

type styleCase struct {
	Set    string      `json:"set"`
	Before string      `json:"before,omitempty"` // font set the caller's variable held before
	Syms   []fontQuery `json:"syms"`
}

func fontFields(f *ttf.Fonts) []*sfnt.Font {
	return []*sfnt.Font{f.Default, f.Rm, f.It, f.Bf, f.BfIt}
}

// sameFontFile compares a font with the one of a file, on the outlines of some
// glyphs.
func sameFontFile(f *sfnt.Font, want *refFont, syms []rune) error {
	if f == nil {
		return fmt.Errorf("no font, want %s", want.name)
	}
	name, err := f.Name(nil, sfnt.NameIDPostScript)
	if err != nil {
		return err
	}
	if name != want.name {
		return fmt.Errorf("font %s, want %s", name, want.name)
	}
	if f.NumGlyphs() != want.f.NumGlyphs() || f.UnitsPerEm() != want.f.UnitsPerEm() {
		return fmt.Errorf("another version of font %s", name)
	}
	for _, r := range syms {
		num, err := f.GlyphIndex(nil, r)
		if err != nil || num != want.glyph(r).num {
			return fmt.Errorf("font %s maps %q to %d (%v), want %d", name, r, num, err, want.glyph(r).num)
		}
	}
	return nil
}

func runC29(c styleCase, o *Obs) error {
	var syms []rune
	for _, q := range c.Syms {
		if r, ok := refRune(q.Sym, true); ok {
			syms = append(syms, r)
		}
	}
	if _, ok := rawFonts[c.Before]; !ok && c.Before != "" {
		return nil
	}
	raw := rawFonts[c.Set]
	// the packaged set.
	if get := map[string]func() *ttf.Fonts{"lm": lm.Fonts, "liberation": liberation.Fonts}[c.Set]; get != nil {
		f := get()
		if f == nil || get() != f {
			return fmt.Errorf("font set %s is not always the same", c.Set)
		}
		before := *f
		for i, w := range [][]byte{raw.def, raw.rm, raw.it, raw.bf, raw.bfit} {
			what := []string{"default", "regular", "italic", "bold", "bold-italic"}[i]
			ref := newRefFont(w)
			if err := sameFontFile(fontFields(f)[i], ref, syms); err != nil {
				return fmt.Errorf("%s font of set %s: %w", what, c.Set, err)
			}
			bold, italic := ref.flags()
			if bold != (i >= 3) || italic != (i == 2 || i == 4) {
				return fmt.Errorf("harness: %s is not %s", ref.name, what)
			}
		}
		if *get() != before {
			return fmt.Errorf("fonts of set %s are not always the same", c.Set)
		}
	}
	// the fonts drawn with; the caller may have used the same variable for
	// other fonts before.
	cnv, be := newTTF(c.Set)
	if set := fontSet(c.Set); set != nil && c.Before != "" {
		own := ttf.Fonts{}
		if old := fontSet(c.Before); old != nil {
			own = *old
		}
		ttf.NewFrom(drawtex.New(), &own).Metrics("x", font.Font{Name: "default", Type: "rm", Size: 12}, 72, true)
		own = *set
		be = ttf.NewFrom(cnv, &own)
	}
	for i, q := range c.Syms {
		r, ok := refRune(q.Sym, true)
		if !ok || q.Font.Size <= 0 {
			continue
		}
		be.RenderGlyph(q.X, q.Y, q.Font, q.Sym, 72)
		ops := cnv.Ops()
		g, ok := ops[len(ops)-1].(drawtex.GlyphOp)
		if !ok || g.Glyph.Font == nil {
			return fmt.Errorf("query %d: no glyph drawn", i)
		}
		var bad error
		ok = false
		for _, f := range pickFont(c.Set, q.Font.Type, r, o.Known("greek-capitals")) {
			if e := sameFontFile(g.Glyph.Font, f, syms); e == nil {
				ok = true
			} else if bad == nil {
				bad = e
			}
		}
		if !ok {
			return fmt.Errorf("%q (%q) in style %q with set %s: %w", q.Sym, r, q.Font.Type, c.Set, bad)
		}
		if set := fontSet(c.Set); set != nil {
			// the very objects of the set.
			own := false
			for _, f := range fontFields(set) {
				own = own || f == g.Glyph.Font
			}
			if !own {
				return fmt.Errorf("query %d: drawn with a font that is not in the set", i)
			}
		}
		o.Label("style %s, letter: %v", q.Font.Type, unicode.IsLetter(r))
	}
	o.Label("set %s", c.Set)
	o.NonTrivial(len(syms) >= 2)
	return nil
}

func probeGreek() (string, bool) {
	cnv, be := newTTF("default")
	be.RenderGlyph(0, 0, font.Font{Name: "default", Type: "it", Size: 12}, `\Sigma`, 72)
	g, ok := cnv.Ops()[0].(drawtex.GlyphOp)
	if !ok {
		return "", false
	}
	name, _ := g.Glyph.Font.Name(nil, sfnt.NameIDPostScript)
	it := newRefFont(rawFonts["default"].it)
	return `Greek capital letters are drawn in italics in math, not upright: \Sigma is drawn with ` + name, name == it.name
}

func enumC29() []styleCase {
	var out []styleCase
	for _, set := range fontSetNames {
		for _, typ := range fontTypes {
			c := styleCase{Set: set}
			add := func(sym string) {
				c.Syms = append(c.Syms, fontQuery{Op: "render", Sym: sym, Font: font.Font{Name: "default", Type: typ, Size: 12}, DPI: 72})
			}
			for r := rune(0x21); r < 0x600; r++ {
				if r != 0x7f && utf8.ValidRune(r) && !unicode.IsControl(r) {
					add(string(r))
				}
				if len(c.Syms) >= 150 {
					out = append(out, c)
					c.Syms = nil
				}
			}
			for i, k := range texNames {
				add(k)
				if i%150 == 149 {
					out = append(out, c)
					c.Syms = nil
				}
			}
			out = append(out, c)
		}
	}
	return out
}

var _ = bytes.Equal

func init() {
	register("C19", "histories of up to 30, now and then hundreds of, queries on one TrueType backend (6 font sets, all styles, names, sizes, resolutions, single characters and symbol macros, in and out of math), metrics compared with the outlines of the font file in font units; non-trivial: at least 3 compared answers",
		120000, 900000, func(t *rapid.T) fontCase {
			return drawFontCase(t, []string{"metrics", "metrics", "metrics", "metrics", "xheight", "thick", "kern", "render"}, 30)
		}, runC19, withKnown("stale-math", probeStaleMath), withKnown("advance-upem", probeAdvance))
	register("C20", "histories of up to 30, now and then hundreds of, queries on one TrueType backend, kerning of pairs compared with the font file; non-trivial: at least 2 compared pairs",
		120000, 900000, func(t *rapid.T) fontCase {
			return drawFontCase(t, []string{"kern", "kern", "kern", "metrics", "render"}, 30)
		}, runC20, withKnown("stale-math", probeStaleMath))
	register("C24", "histories of up to 40, now and then thousands of, drawing steps over 1 to 3 canvases, directly and through TrueType backends, with repeated operations; non-trivial: at least 3 operations drawn",
		80000, 900000, drawCanvasCase, runC24)
	register("C29", "every printable character below U+0600 and every symbol macro in every style of 6 font sets, then random ones; the font file drawn with is identified by name, glyph count and character map; non-trivial: at least two symbols",
		12000, 300000, func(t *rapid.T) styleCase {
			f := drawFontCase(t, []string{"render"}, 20)
			c := styleCase{Set: f.Set, Syms: f.Queries}
			if uni(t, 4, "before") == 0 {
				c.Before = one(t, fontSetNames[1:], "before")
			}
			return c
		}, runC29, withEnum(enumC29), withKnown("greek-capitals", probeGreek))
}
