package main

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"

	"github.com/go-latex/latex/drawtex"
	"github.com/go-latex/latex/drawtex/drawimg"
	"github.com/go-latex/latex/mtex"
	"github.com/go-latex/latex/tex"
	"pgregory.net/rapid"
)

// This file holds the checks of the entry points of the typesetter.

// recRenderer records the calls it gets, and fails with err.
type recRenderer struct {
	calls []renderCall
	err   error
}

type renderCall struct {
	w, h, dpi float64
	cnv       *drawtex.Canvas
}

func (r *recRenderer) Render(w, h, dpi float64, cnv *drawtex.Canvas) error {
	r.calls = append(r.calls, renderCall{w, h, dpi, cnv})
	return r.err
}

// --- C07 ---

type supportCase struct {
	Text     []byte    `json:"text"`
	Note     string    `json:"note,omitempty"`
	Size     float64   `json:"size"`
	DPI      float64   `json:"dpi"`
	BE       beParams  `json:"be"`
	Set      string    `json:"set"`
	Fail     bool      `json:"fail,omitempty"`     // the renderer fails
	FailWith string    `json:"failwith,omitempty"` // its error
	Long     *textCase `json:"long,omitempty"`     // a very long text, instead of Text
	Bad      string    `json:"bad,omitempty"`      // a font size that isn't positive and finite, instead of Size
}

// refSupport tells whether a well-formed expression can be typeset.
func refSupport(ns []*N, math bool) (v verdict, why string) {
	v = accepted
	join := func(w verdict, y string) {
		switch {
		case w == rejected, w == unspecified && v == accepted:
			if v != rejected {
				v, why = w, y
			}
		}
	}
	for _, n := range ns {
		switch n.K {
		case "word", "num":
		case "sym":
			if math && !strings.Contains(mathSymsMtex, n.T) {
				join(rejected, "symbol "+n.T)
			}
		case "sup", "sub":
			join(rejected, n.K)
		case "math":
			join(refSupport(n.C, true))
		case "list", "arg", "opt":
			join(refSupport(n.C, math))
		case "mac":
			name := n.T
			_, space := spaceTable[name]
			switch {
			case space:
			case name == `\hspace`:
				list := n.C[0].C
				switch {
				case len(list) == 0:
					join(rejected, "empty hspace")
				case list[0].K != "num":
					join(rejected, "hspace without number")
				case len(list) > 1:
					join(unspecified, "hspace with more than a number")
				default:
					if _, err := strconv.ParseFloat(list[0].T, 64); err != nil {
						join(rejected, "hspace out of range")
					}
				}
			case inClass("FunctionNames", name[1:]),
				name == `\frac`, name == `\dfrac`, name == `\tfrac`, name == `\binom`, name == `\sqrt`, name == `\overline`:
				join(refSupport(n.C, math))
			case name == `\ldotp`, name == `\cdotp`:
				join(rejected, name)
			default:
				if _, ok := texUnicode[name]; !ok {
					join(rejected, name)
				}
			}
		default:
			panic("harness: kind " + n.K)
		}
	}
	return v, why
}

func drawSupportCase(t *rapid.T) supportCase {
	c := supportCase{
		Size: drawSize(t), DPI: drawDPI(t), BE: drawBE(t),
		Set:  one(t, []string{"default", "default", "lm", "liberation"}, "set"),
		Fail: uni(t, 3, "fail") == 0,
	}
	if c.Fail {
		c.FailWith = one(t, keysOf(writeErrors), "failwith")
	}
	switch uni(t, 4, "kind") {
	case 0:
		x := drawTextCase(t)
		c.Text, c.Note = x.Text, x.Note
	case 1:
		s := writeExpr(genExpr(t, profParse(), 1+uni(t, 20, "budget")), genBlanks(t, true))
		c.Text, c.Note = []byte(s.text), "well-formed"
	case 2:
		expr := genExpr(t, profTypeset(), 1+uni(t, 20, "budget"))
		if uni(t, 6, "deep") == 0 {
			expr = nest(t, expr, 1+uni(t, 30, "levels"))
		}
		s := writeExpr(expr, genBlanks(t, true))
		c.Text, c.Note = []byte(s.text), "typesettable"
	default:
		expr := genExpr(t, profTypeset(), 1+uni(t, 20, "budget"))
		s := writeExpr(expr, genBlanks(t, true))
		text := s.text
		if uni(t, 2, "damage") == 0 {
			text = damage(t, text)
			c.Note = "damaged typesettable"
		} else {
			// one unsupported construct.
			i := 0
			if len(text) > 0 {
				i = uni(t, len(text)+1, "at")
			}
			bad := one(t, unsupportedBits, "bad")
			text = text[:i] + bad + text[i:]
			c.Note = "unsupported construct"
		}
		c.Text = []byte(text)
	}
	return c
}

var unsupportedBits = []string{
	"$,$", "$;$", "$!$", "$?$", "$/$", "$'$", "$[$", "$]$", "^2", "_{i}", "$x^2$", `\mathbf{x}`, `\textit{x}`, `\operatorname{sn}`,
	`\stackrel{a}{b}`, `\ldotp `, `\cdotp `, `\Alpha `, `\omicron `, `\amalg `, `\setminus `, `\rm `, `\hspace{}`, `\hspace{x}`, `\hspace{\frac12}`,
	`\hspace{` + strings.Repeat("9", 400) + `}`, `\genfrac`, `\lhd `, `\bigsqcup `, `\exp{^2}`, `\sqrt[^2]{x}`, `\sqrt[$,$]{x}`, `\ddagger `, `\hspace{$1$}`, `\hspace{-1}`,
}

// runLong typesets a very long or very deeply nested text.
func runLong(c supportCase, o *Obs) error {
	text := c.Long.source()
	what := fmt.Sprintf("%q, %d times %q, %q, as many times %q, %q", c.Long.Pre, c.Long.N, c.Long.Open, c.Long.Text, c.Long.Close, c.Long.Post)
	_, be := newTTF(c.Set)
	box, err := mtex.Parse(text, c.Size, c.DPI, be)
	o.Label("%s: error %v", c.Long.Note, err != nil)
	o.NonTrivial(true)
	if (box == nil) != (err != nil) {
		return fmt.Errorf("Parse of %s: a box and an error, or neither", what)
	}
	if err != nil && c.Long.Note != "very deep" {
		return fmt.Errorf("Parse of %s: %w", what, cutError(err))
	}
	var dst recRenderer
	rerr := mtex.Render(&dst, text, c.Size, c.DPI, fontSet(c.Set))
	switch {
	case (rerr != nil) != (err != nil):
		return fmt.Errorf("%s: Parse fails: %v, Render fails: %v", what, err != nil, rerr != nil)
	case err == nil && len(dst.calls) != 1 || err != nil && len(dst.calls) != 0:
		return fmt.Errorf("Render of %s: renderer called %d times", what, len(dst.calls))
	}
	return nil
}

// runBadSize renders an expression with a font size that makes no sense.
func runBadSize(c supportCase, o *Obs) error {
	size, err := strconv.ParseFloat(c.Bad, 64)
	if err != nil || size > 0 && !math.IsInf(size, 0) {
		return nil
	}
	o.Label("font size %g", size)
	var dst recRenderer
	if err := mtex.Render(&dst, string(c.Text), size, c.DPI, fontSet(c.Set)); err == nil {
		return fmt.Errorf("Render(%q) with font size %g: no error", c.Text, size)
	}
	if len(dst.calls) != 0 {
		return fmt.Errorf("Render(%q) with font size %g: renderer called %d times", c.Text, size, len(dst.calls))
	}
	var buf bytes.Buffer
	err = mtex.Render(drawimg.NewRenderer(&buf), string(c.Text), size, c.DPI, fontSet(c.Set))
	if err == nil || buf.Len() != 0 {
		return fmt.Errorf("Render(%q) to an image with font size %g: error %v, %d bytes", c.Text, size, err, buf.Len())
	}
	o.NonTrivial(len(c.Text) > 1)
	return nil
}

func runC07(c supportCase, o *Obs) error {
	if c.Size <= 0 || c.DPI <= 0 || c.BE.Thick <= 0 {
		return nil
	}
	if c.Long != nil {
		return runLong(c, o)
	}
	if c.Bad != "" {
		return runBadSize(c, o)
	}
	text := string(c.Text)
	tree, v, why := refParse(text)
	if v == accepted {
		v, why = refSupport(tree, false)
	}
	o.Label("%s: %v", c.Note, v)
	judge := func(what string, err error) error {
		switch {
		case err != nil && err.Error() == "":
			return fmt.Errorf("%s(%q): empty error", what, text)
		case v == accepted && err != nil:
			return fmt.Errorf("%s(%q): a supported expression yields an error: %v", what, text, err)
		case v == rejected && err == nil:
			return fmt.Errorf("%s(%q): no error, but it can't be typeset (%s)", what, text, why)
		}
		return nil
	}
	finite := func(what string, b tex.Node) error {
		for _, v := range []float64{b.Width(), b.Height(), b.Depth()} {
			if math.IsNaN(v) || math.IsInf(v, 0) {
				return fmt.Errorf("%s(%q): box dimensions (w=%g, h=%g, d=%g)", what, text, b.Width(), b.Height(), b.Depth())
			}
		}
		return nil
	}

	_, _, err := typeset(text, c.Size, c.DPI, 0, 0, c.BE)
	if err := judge("typesetting", err); err != nil {
		return err
	}

	cnv, be := newTTF(c.Set)
	box, err := mtex.Parse(text, c.Size, c.DPI, be)
	if err := judge("Parse", err); err != nil {
		return err
	}
	if (box == nil) != (err != nil) {
		return fmt.Errorf("Parse(%q): box %v with error %v", text, box, err)
	}
	if n := len(cnv.Ops()); n != 0 {
		return fmt.Errorf("Parse(%q) drew %d operations", text, n)
	}
	if box != nil && v == accepted && !strings.Contains(text, `\hspace`) {
		if err := finite("Parse", box); err != nil {
			return err
		}
	}

	var dst recRenderer
	if c.Fail {
		dst.err = writeErrors[c.FailWith]
		if dst.err == nil {
			dst.err = writeErrors[""]
		}
	}
	rerr := mtex.Render(&dst, text, c.Size, c.DPI, fontSet(c.Set))
	switch {
	case err != nil:
		if err := judge("Render", rerr); err != nil {
			return err
		}
		if rerr == nil {
			return fmt.Errorf("Render(%q): no error, but Parse says %v", text, err)
		}
		if len(dst.calls) != 0 {
			return fmt.Errorf("Render(%q): renderer called %d times, with error %v", text, len(dst.calls), rerr)
		}
	default:
		if len(dst.calls) != 1 {
			return fmt.Errorf("Render(%q): renderer called %d times", text, len(dst.calls))
		}
		if dst.calls[0].cnv == nil {
			return fmt.Errorf("Render(%q): no canvas", text)
		}
		switch {
		case !c.Fail && rerr != nil:
			return fmt.Errorf("Render(%q): %v", text, rerr)
		case c.Fail && rerr == nil:
			return fmt.Errorf("Render(%q): error of the renderer lost", text)
		case c.Fail && !errors.Is(rerr, dst.err) && !strings.Contains(rerr.Error(), dst.err.Error()):
			return fmt.Errorf("Render(%q): error of the renderer replaced by %v", text, rerr)
		}
		if c.Fail {
			o.Label("failing renderer")
		}
	}
	if v == rejected {
		w := strings.SplitN(why, " \\", 2)[0]
		if strings.HasPrefix(w, `\`) {
			w = "macro"
		}
		o.Label("rejected: %s", w)
	}
	o.NonTrivial(v == rejected || v == accepted && len(tree) >= 3)
	return nil
}

func enumC07() []supportCase {
	var out []supportCase
	add := func(note string, texts ...string) {
		for i, s := range texts {
			out = append(out, supportCase{
				Text: []byte(s), Note: note, Size: 12, DPI: 72, Set: "default", Fail: i%2 == 0,
				BE: beParams{Seed: uint64(i), Thick: 0.0625, XH: 0.5},
			})
		}
	}
	add("fixed", "", "$$", " ", "%", "%\n", "a", "1", ".", "$.$", "1.", "$1.$", "{", "$}", `\`, `\ `, "x^2", "x_2", "$x^{2}$", `$\sqrt[ ]{ }$`, `\frac{}{}`, `\binom{}{}`, `\sqrt{}`, `\sqrt[]{}`, `\overline{}`, `\exp{}`, `\tfrac{}{}`, `\dfrac{}{}`)
	add("fixed", unsupportedBits...)
	for _, size := range []string{"0", "-0", "-1", "-12", "-1e300", "nan", "inf", "-inf"} {
		for _, x := range []string{"", "a", "$x+1$", `$\sqrt[3]{x}$`, `\frac{a}{b}`, `\overline{x}`, `$\binom{n}{k}$`, `\exp{2}`, `\hspace{2}x`, "$", `\foo`} {
			for i, set := range []string{"default", "lm"} {
				out = append(out, supportCase{Text: []byte(x), Note: "bad size", Size: 12, DPI: []float64{72, 150}[i], Set: set, Bad: size, BE: beParams{Thick: 0.0625, XH: 0.5}})
			}
		}
	}
	names := map[string]bool{}
	for n := range macroArity {
		names[n] = true
	}
	for n := range texUnicode {
		names[n] = true
	}
	for _, n := range keysOf(names) {
		args := ""
		for _, a := range macroArity[n] {
			switch a {
			case 'a':
				args += "{1}"
			case 'o':
				args += "[2]"
			}
		}
		add("every macro", n+args+" x", "$a"+n+args+" x$")
	}
	for r := rune(0x20); r < 0x250; r++ {
		add("single character", string(r), "$"+string(r)+"$", `\`+string(r), `$\`+string(r)+"$")
	}
	for _, n := range []int{50, 300} {
		x := func(a string) string { return strings.Repeat(a, n) }
		add("deep", x(`\sqrt{`)+"x"+x("}"), x(`\frac{1}{`)+"x"+x("}"), x(`\frac{`)+"x"+x("}{1}"), x(`\binom{`)+"x"+x("}{1}"), x(`\sqrt[`)+"x"+x("]{1}"),
			x(`\overline{`)+"x"+x("}"), "$"+x("{")+x("}")+"$", x(`\exp{`)+"x"+x("}"), x("$x$"), x("ab "), "$"+x("-")+"$", x("1.")+"1", x(`\sqrt{`), x(`\sqrt{`)+x("}")+"^2")
	}
	long := deepTexts()
	for _, d := range [][5]string{
		{"", `\sqrt{`, "x", "}", ""}, {"", `\overline{`, "x", "}", ""}, {"", `\exp{`, "x", "}", ""}, {"$", "{", "", "}", "$"}, {"", `\overline{$`, "", "$}", ""},
	} {
		long = append(long, textCase{N: 3000, Pre: d[0], Open: d[1], Text: []byte(d[2]), Close: d[3], Post: d[4], Note: "deep"})
	}
	for _, x := range []string{"a", "1", "$x$", "(", `\frac{1}{2}`, "+", " ", "%\n", "é"} {
		long = append(long, textCase{N: 20000, Open: x, Note: "very long"})
	}
	for _, x := range []string{"x", "+", `\alpha `, "=1", "{y}", `\,`, "%\n"} {
		long = append(long, textCase{N: 20000, Pre: "$", Open: x, Post: "$", Note: "very long"})
	}
	for i := range long {
		out = append(out, supportCase{Long: &long[i], Size: 12, DPI: 72, Set: fontSetNames[i%len(fontSetNames)], BE: beParams{Thick: 0.0625, XH: 0.5}})
	}
	return out
}

// --- C17 ---

type scaleCase struct {
	texCase
	K   float64 `json:"k"`
	Set string  `json:"set"` // font set, or empty for generated metrics
}

func drawScaleCase(t *rapid.T) scaleCase {
	c := scaleCase{texCase: drawTexCase(t, profTypeset(), 25)}
	c.K = dictNum(t, one(t, []float64{2, 0.5, 3, 1.1, 10, 0.125, 7.3}, "k"), 0.1, 20)
	if uni(t, 3, "ttf") > 0 {
		c.Set = one(t, fontSetNames, "set")
	}
	return c
}

// shipWith typesets and ships an expression, with either kind of backend.
func (c scaleCase) shipWith(text string, size float64) (box tex.Node, ops []op, err error) {
	if c.Set == "" {
		return typeset(text, size, c.DPI, 0, 0, c.BE)
	}
	cnv, be := newTTF(c.Set)
	box, err = mtex.Parse(text, size, c.DPI, be)
	if err != nil {
		return nil, nil, err
	}
	var sh tex.Ship
	sh.Call(0, 0, box.(tex.Tree))
	return box, canvasOps(cnv), nil
}

func runC17(c scaleCase, o *Obs) error {
	if !c.valid() || !(c.K > 0) {
		return nil
	}
	text := c.src().text
	a, opsA, err := c.shipWith(text, c.Size)
	if err != nil {
		return fmt.Errorf("%q: %w", text, err)
	}
	b, opsB, err := c.shipWith(text, c.Size*c.K)
	if err != nil {
		return fmt.Errorf("%q: %w", text, err)
	}
	fail := func(format string, args ...any) error {
		return fmt.Errorf("%q at sizes %g and %g (dpi %g, fonts %q): %s\n%s\n%s", text, c.Size, c.Size*c.K, c.DPI, c.Set,
			fmt.Sprintf(format, args...), opsString(opsA), opsString(opsB))
	}
	// the root and the overline may be adjusted to a height; sizes are compared
	// relatively, for dimensions that grow with the depth of the expression.
	k := c.K
	big := c.Size + math.Abs(a.Width()) + math.Abs(a.Height()) + math.Abs(a.Depth())
	if big*math.Max(k, 1) > hugeBox {
		o.Label("huge box")
		return nil
	}
	tol := 1e-9 * big * math.Max(k, 1)
	// spaces are computed with a precision of a unit of the font.
	for _, d := range []struct {
		what string
		a, b float64
	}{{"width", a.Width(), b.Width()}, {"height", a.Height(), b.Height()}, {"depth", a.Depth(), b.Depth()}} {
		if !near(d.a*k, d.b, tol) {
			return fail("%s is %g and %g", d.what, d.a, d.b)
		}
	}
	if len(opsA) != len(opsB) {
		return fail("%d and %d drawing operations", len(opsA), len(opsB))
	}
	// centring glue is rounded to whole units: once per fraction a glyph is in.
	glues := 0
	walkAll(c.Expr, func(n *N) {
		switch n.T {
		case `\frac`, `\dfrac`, `\tfrac`, `\binom`:
			glues += 2
		case `\sqrt`, `\overline`:
			glues++
		}
	})
	slack := tol + 1.01*(1+k)*float64(glues)
	for i := range opsA {
		g, h := opsA[i], opsB[i]
		if g.Rect != h.Rect || g.Sym != h.Sym || g.Typ != h.Typ {
			return fail("operation %d differs", i)
		}
		if g.Rect {
			if !near((g.X2-g.X)*k, h.X2-h.X, tol) || !near((g.Y2-g.Y)*k, h.Y2-h.Y, tol) {
				return fail("rule %d is %g x %g and %g x %g", i, g.X2-g.X, g.Y2-g.Y, h.X2-h.X, h.Y2-h.Y)
			}
		} else if !near(g.Size*k, h.Size, 1e-9*h.Size) {
			return fail("glyph %d of size %g and %g", i, g.Size, h.Size)
		}
		if !near(g.X*k, h.X, slack) || !near(g.Y*k, h.Y, slack) {
			return fail("operation %d at (%g, %g) and (%g, %g)", i, g.X, g.Y, h.X, h.Y)
		}
	}
	kinds := kindsOf(c.Expr)
	o.NonTrivial(len(opsA) >= 3 && (k < 0.9 || k > 1.05))
	o.Label("fonts %q", c.Set)
	for _, k := range []string{`\frac`, `\binom`, `\sqrt`, `\overline`} {
		if kinds[k] > 0 {
			o.Label("has %s", k)
		}
	}
	return nil
}

// --- C18 ---

type handoverCase struct {
	texCase
	Set string `json:"set"`
}

func drawHandover(t *rapid.T) handoverCase {
	c := handoverCase{texCase: drawTexCase(t, profTypeset(), 25)}
	c.Set = one(t, fontSetNames, "set")
	return c
}

func runC18(c handoverCase, o *Obs) error {
	if !c.valid() {
		return nil
	}
	text := c.src().text
	cnv, be := newTTF(c.Set)
	box, err := mtex.Parse(text, c.Size, 72, be)
	if err != nil {
		return fmt.Errorf("%q: %w", text, err)
	}
	var sh tex.Ship
	sh.Call(0, 0, box.(tex.Tree))

	var dst recRenderer
	if err := mtex.Render(&dst, text, c.Size, c.DPI, fontSet(c.Set)); err != nil {
		return fmt.Errorf("Render(%q): %w", text, err)
	}
	fail := func(format string, args ...any) error {
		return fmt.Errorf("Render(%q, size %g, dpi %g, fonts %q): %s", text, c.Size, c.DPI, c.Set, fmt.Sprintf(format, args...))
	}
	if len(dst.calls) != 1 {
		return fail("renderer called %d times", len(dst.calls))
	}
	call := dst.calls[0]
	w, h, d := box.Width(), box.Height(), box.Depth()
	if !near(call.w, w/72, 1e-9*(1+math.Abs(w))) {
		return fail("width %g inches, want %g", call.w, w/72)
	}
	var (
		sum  = h + d
		size = call.h * 72
	)
	if d < 0 {
		sum = h // the box is as high as its ink at most.
	}
	if h == 0 && d == 0 && size != 0 {
		return fail("height %g points of a flat expression", size)
	}
	if !near(size, math.Ceil(sum), 1e-6) && !near(sum, math.Round(sum), 1e-6) {
		return fail("height %g points, want %g rounded up", size, sum)
	}
	if !near(size, math.Round(size), 1e-9*(1+math.Abs(size))) || size < sum-1e-6 || size > sum+1+1e-6 {
		return fail("height %g points, want %g rounded up", size, sum)
	}
	if call.dpi != c.DPI {
		return fail("resolution %g", call.dpi)
	}

	// the canvas.
	got, want := canvasOps(call.cnv), canvasOps(cnv)
	if err := sameOps(got, want, 1e-9*(c.Size+math.Abs(w)+math.Abs(h))); err != nil {
		return fail("%v", err)
	}
	if err := sameFonts(call.cnv, cnv); err != nil {
		return fail("%v", err)
	}
	// the glyphs of the expression, at the requested size at most.
	vis := visible(c.Expr, "rm", c.Size, nil)
	rules := 0
	for _, g := range vis {
		if g.rule {
			rules++
		}
	}
	var sizes, wantSizes []float64
	spaces := 0
	for i, g := range got {
		if g.Rect {
			continue
		}
		gl := call.cnv.Ops()[i].(drawtex.GlyphOp).Glyph
		if blank, err := gl.Font.GlyphIndex(nil, ' '); err == nil && gl.Num == blank {
			spaces++
			continue
		}
		sizes = append(sizes, g.Size)
	}
	for _, g := range vis {
		if !g.rule && !g.auto {
			wantSizes = append(wantSizes, g.size)
		}
	}
	if len(sizes) != len(vis)-rules || len(got)-spaces-len(sizes) != rules {
		return fail("%d glyphs and %d rules on the canvas, the expression has %d and %d", len(sizes), len(got)-spaces-len(sizes), len(vis)-rules, rules)
	}
	// the delimiters and radicals have a size of their own.
	sort.Float64s(sizes)
	sort.Float64s(wantSizes)
	i := 0
	for _, w := range wantSizes {
		for i < len(sizes) && sizes[i] < w-1e-9*c.Size {
			i++
		}
		if i == len(sizes) || !near(sizes[i], w, 1e-9*c.Size) {
			return fail("no glyph of size %g left, sizes are %v, want %v", w, sizes, wantSizes)
		}
		i++
	}

	// vertical containment of the ink.
	tol := 1e-6*(c.Size+math.Abs(h)+math.Abs(d)) + c.inkSlack()
	for i, v := range call.cnv.Ops() {
		top, bot := math.Inf(1), math.Inf(-1)
		switch v := v.(type) {
		case drawtex.RectOp:
			top, bot = math.Min(v.Y1, v.Y2), math.Max(v.Y1, v.Y2)
		case drawtex.GlyphOp:
			m := v.Glyph.Metrics
			if m.Width == 0 && m.Height == 0 {
				continue
			}
			top, bot = v.Y-m.YMax, v.Y-m.YMin
		}
		if top < -tol || bot > h+math.Max(d, 0)+tol {
			if g, ok := v.(drawtex.GlyphOp); ok && o.Known("text-hyphen") && textHyphen(c.Expr, false) && isRune(g.Glyph, '\u2212') {
				o.Label("known: text hyphen drawn as a minus sign")
				continue
			}
			return fail("ink of operation %d (%+v) spans %g..%g, the box is %g high and %g deep\n%s", i, got[i], top, bot, h, d, opsString(got))
		}
	}
	o.NonTrivial(len(got) >= 3)
	o.Label("fonts %q", c.Set)
	o.Label("depth %v", d > 0)
	return nil
}

// textHyphen tells whether an expression has a hyphen outside of math.
func textHyphen(ns []*N, math bool) bool {
	for _, n := range ns {
		if !math && n.K == "sym" && n.T == "-" || textHyphen(n.C, math || n.K == "math") {
			return true
		}
	}
	return false
}

func isRune(g drawtex.Glyph, r rune) bool {
	num, err := g.Font.GlyphIndex(nil, r)
	return err == nil && num == g.Num
}

// probeTextHyphen tells whether a hyphen outside of math is drawn as a minus
// sign in a fraction.
func probeTextHyphen() (string, bool) {
	var dst recRenderer
	if err := mtex.Render(&dst, `\frac{\frac{-}{}}{xy}`, 12, 72, fontSet("lm")); err != nil || len(dst.calls) != 1 || len(dst.calls[0].cnv.Ops()) == 0 {
		return "", false
	}
	g, ok := dst.calls[0].cnv.Ops()[0].(drawtex.GlyphOp)
	what := fmt.Sprintf("a hyphen outside of math is drawn as a minus sign inside a fraction, where its box is that of the hyphen: \\frac{\\frac{-}{}}{xy} in Latin Modern draws %q at y=%.3f, its ink starts at y=%.3f, above the box", g.Glyph.Symbol, g.Y, g.Y-g.Glyph.Metrics.YMax)
	return what, ok && isRune(g.Glyph, '\u2212')
}

// inkSlack is the amount the ink may exceed the box by: the glue of a root or
// an overline is rounded to a whole number of points.
func (c handoverCase) inkSlack() float64 {
	var deep func(ns []*N) int
	deep = func(ns []*N) (o int) {
		for _, n := range ns {
			k := deep(n.C)
			if n.T == `\sqrt` || n.T == `\overline` {
				k++
			}
			o = max(o, k)
		}
		return o
	}
	return 0.501 * float64(deep(c.Expr))
}

// sameFonts compares the fonts and characters of the glyphs of two canvases.
func sameFonts(got, want *drawtex.Canvas) error {
	for i, v := range want.Ops() {
		w, ok := v.(drawtex.GlyphOp)
		if !ok {
			continue
		}
		g := got.Ops()[i].(drawtex.GlyphOp)
		if g.Glyph.Postscript != w.Glyph.Postscript || g.Glyph.Num != w.Glyph.Num || g.Glyph.Font == nil || g.Glyph.Metrics != w.Glyph.Metrics {
			return fmt.Errorf("operation %d is drawn with %s, glyph %d, want %s, glyph %d", i,
				g.Glyph.Postscript, g.Glyph.Num, w.Glyph.Postscript, w.Glyph.Num)
		}
	}
	return nil
}

func init() {
	register("C07", "random, damaged, well-formed and typesettable texts, with succeeding and failing renderers; non-trivial: the reference rejects the text, or accepts it with at least 3 items",
		40000, 600000, drawSupportCase, runC07, withEnum(enumC07))
	register("C17", "typesettable expressions with generated and real fonts at two sizes; non-trivial: at least 3 drawing operations and a ratio away from 1",
		60000, 400000, drawScaleCase, runC17)
	register("C18", "typesettable expressions, sizes, resolutions and font sets handed to a recording renderer; non-trivial: at least 3 drawing operations",
		50000, 300000, drawHandover, runC18, withKnown("text-hyphen", probeTextHyphen))
}
