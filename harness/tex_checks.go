package main

import (
	"fmt"
	"math"
	"strings"

	"pgregory.net/rapid"
)

// This file holds the checks of the layout of expressions.

func drawBE(t *rapid.T) beParams {
	p := beParams{
		Seed:  rapid.Uint64Range(0, 1<<40).Draw(t, "seed"),
		Thick: one(t, []float64{0.0625, 0.04, 0.1, 0.03}, "thick"),
		XH:    one(t, []float64{0.43, 0.5, 0.6}, "xh"),
	}
	p.NoKern = uni(t, 4, "nokern") == 0
	return p
}

var fontSizes = []float64{12, 10, 1, 3.5, 7, 11.3, 20, 48, 64, 144.5}

func drawSize(t *rapid.T) float64 {
	if v := dictNum(t, 0, 1./16, 600); v > 0 {
		return v
	}
	if uni(t, 2, "anysize") == 0 {
		return one(t, fontSizes, "size")
	}
	return float64(1+uni(t, 1600, "size16")) / 16
}

func drawDPI(t *rapid.T) float64 {
	if v := dictNum(t, 0, 1, 2500); v > 0 {
		return v
	}
	if uni(t, 4, "anydpi") == 0 {
		return float64(1+uni(t, 999983, "dpi")) / 997 // up to 1003 dpi
	}
	return one(t, []float64{72, 72, 96, 100, 150, 300, 50.5}, "dpi")
}

func drawTexCase(t *rapid.T, p prof, budget int) texCase {
	expr := genExpr(t, p, 1+uni(t, budget, "budget"))
	if uni(t, 8, "deep") == 0 {
		expr = nest(t, expr, dictInt(t, 1+uni(t, 9, "levels"), 1, 40))
	}
	return texCase{
		Expr:   expr,
		Blanks: genBlanks(t, true),
		Size:   drawSize(t),
		DPI:    drawDPI(t),
		BE:     drawBE(t),
	}
}

// nest puts an expression into that many constructs.
func nest(t *rapid.T, ns []*N, levels int) []*N {
	ns = noRightBracket(ns)
	for ; levels > 0; levels-- {
		var (
			a = &N{K: "arg", C: ns}
			x = &N{K: "arg", C: []*N{{K: "word", T: "xy"}}}
		)
		n := &N{K: "mac"}
		switch uni(t, 7, "nest") {
		case 0:
			n.T, n.C = `\frac`, []*N{a, x}
		case 1:
			n.T, n.C = `\frac`, []*N{x, a}
		case 2:
			n.T, n.C = `\binom`, []*N{a, x}
		case 3:
			n.T, n.C = `\dfrac`, []*N{x, a}
		case 4:
			n.T, n.C = `\sqrt`, []*N{a}
		case 5:
			n.T, n.C = `\sqrt`, []*N{{K: "opt", C: ns}, x}
		case 6:
			n.T, n.C = `\overline`, []*N{a}
		}
		ns = []*N{n}
	}
	return ns
}

// noRightBracket drops brackets, which would end an optional argument.
func noRightBracket(ns []*N) []*N {
	var o []*N
	for _, n := range ns {
		if n.K == "sym" && n.T == "]" {
			continue
		}
		n.C = noRightBracket(n.C)
		o = append(o, n)
	}
	return o
}

// valid tells whether the case is in the domain of the checks, however it was
// made.
func (c texCase) valid() bool {
	return c.Size > 0 && c.DPI > 0 && c.BE.Thick > 0
}

func kindsOf(ns []*N) map[string]int {
	m := map[string]int{}
	walkAll(ns, func(n *N) {
		switch {
		case n.K == "mac" && n.T == `\sqrt` && len(n.C) == 2:
			m["indexed root"]++
		case n.K == "mac" && len(n.C) > 0:
			m[n.T]++
		case n.K == "mac":
			m["symbol"]++
		}
		m[n.K]++
	})
	return m
}

// --- C30 ---

func runC30(c texCase, o *Obs) error {
	if !c.valid() {
		return nil
	}
	if err := c.checkLayout(o); err != nil {
		return err
	}
	kinds := kindsOf(c.Expr)
	cons := 0
	for _, k := range []string{`\frac`, `\tfrac`, `\dfrac`, `\binom`, `\sqrt`, "indexed root", `\overline`, `\exp`} {
		if kinds[k] > 0 {
			cons += kinds[k]
			o.Label("has %s", k)
		}
	}
	o.NonTrivial(cons >= 1 && countNodes(c.Expr) >= 6)
	o.Label("constructs: %d", min(cons, 8))
	return nil
}

// --- C08 ---

// glyphRef is a glyph expected in the output; auto glyphs have a size that
// depends on what they enclose.
type glyphRef struct {
	sym, typ string
	size     float64
	auto     bool
	rule     bool
}

// visible lists the glyphs and rules of an expression in reading order.
func visible(ns []*N, typ string, size float64, out []glyphRef) []glyphRef {
	chars := func(s, typ string) {
		for _, r := range s {
			if r != ' ' {
				out = append(out, glyphRef{sym: string(r), typ: typ, size: size})
			}
		}
	}
	rule := glyphRef{rule: true}
	for _, n := range ns {
		switch n.K {
		case "word", "num", "sym":
			chars(n.T, typ)
		case "list":
			out = visible(n.C, typ, size, out)
		case "math":
			out = visible(n.C, "it", size, out)
		case "mac":
			if _, ok := spaceTable[n.T]; ok || n.T == `\hspace` {
				continue
			}
			if inClass("FunctionNames", n.T[1:]) {
				chars(n.T[1:], "rm")
				for _, a := range n.C {
					out = visible(a.C, typ, size, out)
				}
				continue
			}
			switch n.T {
			case `\frac`, `\tfrac`:
				out = visible(n.C[0].C, typ, size*0.7, out)
				out = append(out, rule)
				out = visible(n.C[1].C, typ, size*0.7, out)
			case `\dfrac`:
				out = visible(n.C[0].C, typ, size, out)
				out = append(out, rule)
				out = visible(n.C[1].C, typ, size, out)
			case `\binom`:
				out = append(out, glyphRef{sym: "(", typ: typ, auto: true})
				out = visible(n.C[0].C, typ, size*0.7, out)
				out = visible(n.C[1].C, typ, size*0.7, out)
				out = append(out, glyphRef{sym: ")", typ: typ, auto: true})
			case `\sqrt`:
				if len(n.C) == 2 {
					out = visible(n.C[0].C, typ, size*0.49, out)
				}
				out = append(out, glyphRef{sym: `\__sqrt__`, typ: typ, auto: true}, rule)
				out = visible(n.C[len(n.C)-1].C, typ, size, out)
			case `\overline`:
				out = append(out, rule)
				out = visible(n.C[0].C, typ, size, out)
			default:
				out = append(out, glyphRef{sym: n.T, typ: typ, size: size})
			}
		default:
			panic("harness: visible " + n.K)
		}
	}
	return out
}

func runC08(c texCase, o *Obs) error {
	if !c.valid() {
		return nil
	}
	s := c.src()
	want := visible(c.Expr, "rm", c.Size, nil)
	_, ops, err := typeset(s.text, c.Size, c.DPI, 0, 0, c.BE)
	if err != nil {
		return fmt.Errorf("%q: %w", s.text, err)
	}
	var got []op
	for _, v := range ops {
		if v.Sym != " " {
			got = append(got, v)
		}
	}
	wantString := func() string {
		var o strings.Builder
		for i, w := range want {
			switch {
			case w.rule:
				fmt.Fprintf(&o, " %2d: rule\n", i)
			default:
				fmt.Fprintf(&o, " %2d: glyph %q %s %.4f\n", i, w.sym, w.typ, w.size)
			}
		}
		return o.String()
	}
	fail := func(i int) error {
		return fmt.Errorf("%q: drawn item %d differs\ngot:\n%swant:\n%s", s.text, i, opsString(got), wantString())
	}
	for i := range min(len(got), len(want)) {
		g, w := got[i], want[i]
		if g.Rect != w.rule {
			return fail(i)
		}
		if w.rule {
			continue
		}
		if g.Sym != w.sym || g.Typ != w.typ || g.DPI != c.DPI || (!w.auto && !near(g.Size, w.size, 1e-9*c.Size)) {
			return fail(i)
		}
	}
	if len(got) != len(want) {
		return fail(min(len(got), len(want)))
	}
	kinds := kindsOf(c.Expr)
	for _, k := range []string{`\frac`, `\dfrac`, `\binom`, `\sqrt`, "indexed root", `\overline`, `\exp`, "math", "list"} {
		if kinds[k] > 0 {
			o.Label("has %s", k)
		}
	}
	o.NonTrivial(len(want) >= 4 && depthOf(c.Expr) >= 2)
	return nil
}

// --- C10 ---

// partsCase is a construct with the expressions it is made of.
type partsCase struct {
	Cmd    string     `json:"cmd"`
	A      []*N       `json:"a"`
	B      []*N       `json:"b,omitempty"`
	HasB   bool       `json:"has_b,omitempty"`
	Math   bool       `json:"math,omitempty"`
	Blanks [][]string `json:"blanks,omitempty"`
	Size   float64    `json:"size"`
	DPI    float64    `json:"dpi"`
	BE     beParams   `json:"be"`
}

func drawParts(t *rapid.T, cmds []string, optional bool) partsCase {
	c := partsCase{
		Cmd:    one(t, cmds, "cmd"),
		Math:   uni(t, 3, "math") > 0,
		Blanks: genBlanks(t, true),
		Size:   drawSize(t),
		DPI:    drawDPI(t),
		BE:     drawBE(t),
	}
	p := profTypeset()
	part := func(opt bool) []*N {
		switch uni(t, 3, "flat") {
		case 0:
			p.depth = 4
		default:
			p.depth = 1
			p.kinds = kindsFlat
		}
		g := &gen{t: t, p: p, budget: 1 + uni(t, 12, "budget")}
		return noDots(g.list(gctx{math: c.Math, depth: 1, inOpt: opt}, 0))
	}
	c.A = part(false)
	c.HasB = !optional || (c.Cmd == `\sqrt` && uni(t, 2, "index") == 0)
	if c.HasB {
		c.B = part(c.Cmd == `\sqrt`)
		if c.Cmd != `\sqrt` && uni(t, 10, "equal") == 0 {
			c.B = nil
			for _, n := range c.A {
				c.B = append(c.B, n.clone())
			}
		}
	}
	return c
}

// noDots drops the dots before numbers that follow a number: whether they are
// spaced depends on the blanks between them.
func noDots(ns []*N) []*N {
	for i, n := range ns {
		noDots(n.C)
		if i > 0 && n.K == "num" && n.T[0] == '.' && ns[i-1].K == "num" {
			n.T = n.T[1:]
		}
	}
	return ns
}

var kindsFlat = []string{"word", "word", "num", "sym", "sym", "mac", "mac", "space", "func", "hspace"}

// piece is a typeset expression.
type piece struct {
	w, h, d float64
	ops     []op // relative to the baseline
	glues   int  // number of glues whose rounding moves parts of it
}

func (c partsCase) measure(ns []*N) (piece, error) {
	if c.Math {
		// in braces, as in the argument.
		ns = []*N{{K: "math", C: []*N{{K: "list", C: ns}}}}
	}
	return c.piece(ns)
}

func (c partsCase) piece(ns []*N) (piece, error) {
	s := writeExpr(ns, nil)
	box, ops, err := typeset(s.text, c.Size, c.DPI, 0, 0, c.BE)
	if err != nil {
		return piece{}, fmt.Errorf("%q: %w", s.text, err)
	}
	p := piece{w: box.Width(), h: box.Height(), d: box.Depth(), ops: ops}
	for i := range p.ops {
		p.ops[i].Y -= p.h
		p.ops[i].Y2 -= p.h
	}
	walkAll(ns, func(n *N) {
		if n.K == "mac" {
			switch n.T {
			case `\frac`, `\tfrac`, `\dfrac`, `\binom`:
				p.glues += 2
			case `\sqrt`, `\overline`:
				p.glues++
			}
		}
	})
	return p, nil
}

func (p piece) scaled(f float64) piece {
	q := piece{w: p.w * f, h: p.h * f, d: p.d * f, glues: p.glues}
	for _, v := range p.ops {
		v.X, v.Y, v.X2, v.Y2, v.Size = v.X*f, v.Y*f, v.X2*f, v.Y2*f, v.Size*f
		q.ops = append(q.ops, v)
	}
	return q
}

// slack is how much glue rounding may move parts of a piece when it is scaled.
func (p piece) slack() float64 { return 1.01 * float64(p.glues) }

// placed checks that the drawing operations are those of the piece, moved as a
// whole to a baseline, and returns how far it was moved to the right.
func placed(what string, got []op, p piece, y, tol float64) (dx float64, err error) {
	if len(got) != len(p.ops) {
		return 0, fmt.Errorf("%s: %d drawing operations, want %d:\ngot:\n%swant:\n%s", what, len(got), len(p.ops), opsString(got), opsString(p.ops))
	}
	if len(got) == 0 {
		return 0, nil
	}
	dx = got[0].X - p.ops[0].X
	slack := p.slack() + tol
	for i, g := range got {
		w := p.ops[i]
		same := g.Rect == w.Rect && g.Sym == w.Sym && g.Typ == w.Typ && near(g.Size, w.Size, tol) && near(g.X, w.X+dx, slack) && near(g.Y, w.Y+y, slack)
		if g.Rect {
			same = same && near(g.X2-g.X, w.X2-w.X, tol) && near(g.Y2-g.Y, w.Y2-w.Y, tol)
		}
		if !same {
			return 0, fmt.Errorf("%s: operation %d is not that of the part moved by (%g, %g)\ngot:\n%spart:\n%s", what, i, dx, y, opsString(got), opsString(p.ops))
		}
	}
	return dx, nil
}

func (c partsCase) whole() (piece, string, error) {
	n := &N{K: "mac", T: c.Cmd}
	if c.HasB && c.Cmd == `\sqrt` {
		n.C = append(n.C, &N{K: "opt", C: c.B})
	}
	n.C = append(n.C, &N{K: "arg", C: c.A})
	if c.HasB && c.Cmd != `\sqrt` {
		n.C = append(n.C, &N{K: "arg", C: c.B})
	}
	expr := []*N{n}
	if c.Math {
		expr = []*N{{K: "math", C: expr}}
	}
	s := writeExpr(expr, c.Blanks)
	box, ops, err := typeset(s.text, c.Size, c.DPI, 0, 0, c.BE)
	if err != nil {
		return piece{}, s.text, fmt.Errorf("%q: %w", s.text, err)
	}
	p := piece{w: box.Width(), h: box.Height(), d: box.Depth(), ops: ops}
	for i := range p.ops {
		p.ops[i].Y -= p.h
		p.ops[i].Y2 -= p.h
	}
	return p, s.text, nil
}

func (p piece) dims(w, h, d, tol float64) error {
	if !near(p.w, w, tol) || !near(p.h, h, tol) || !near(p.d, d, tol) {
		return fmt.Errorf("dimensions: got (w=%g, h=%g, d=%g), want (w=%g, h=%g, d=%g)", p.w, p.h, p.d, w, h, d)
	}
	return nil
}

func (c partsCase) valid() bool { return c.Size > 0 && c.DPI > 0 && c.BE.Thick > 0 }

func (c partsCase) typ() string {
	if c.Math {
		return "it"
	}
	return "rm"
}

// hugeBox is a size beyond which glue may be limited to 1e9 as in TeX.
const hugeBox = 3e8

func runC10(c partsCase, o *Obs) error {
	if !c.valid() || !c.HasB {
		return nil
	}
	noDots(c.A)
	noDots(c.B)
	a, err := c.measure(c.A)
	if err != nil {
		o.Label("part not typeset")
		return nil // another property
	}
	b, err := c.measure(c.B)
	if err != nil {
		o.Label("part not typeset")
		return nil
	}
	got, text, err := c.whole()
	if err != nil {
		return err
	}
	if math.Abs(a.w)+math.Abs(b.w) > hugeBox {
		o.Label("huge box")
		return nil
	}
	if err := c.checkFrac(got, a, b); err != nil {
		return fmt.Errorf("%q: %w", text, err)
	}
	o.NonTrivial(len(a.ops) >= 1 && len(b.ops) >= 1)
	o.Label("%s, math: %v", c.Cmd, c.Math)
	o.Label("nested: %v", a.glues+b.glues > 0)
	return nil
}

func (c partsCase) checkFrac(got, a, b piece) error {
	var (
		be   = newTestBackend(c.BE)
		t    = be.Thick * c.Size * c.DPI / 72
		eq   = be.metrics("=", "it", true)
		axis = (eq.ymax + eq.ymin) / 2 * c.Size
	)
	if c.Cmd != `\dfrac` {
		a, b = a.scaled(0.7), b.scaled(0.7)
	}
	var (
		bare = c.Cmd == `\binom`
		rule = t
	)
	if bare {
		rule = 0
	}
	var (
		w   = max(a.w, b.w)
		num = -axis - t - t/2 - rule/2 - a.d // baselines
		den = b.h - axis + 3*t
	)
	if !bare {
		num = -axis - 2*t - a.d
	} else {
		num = -axis - t - a.d
	}
	var (
		vw  = max(0, w) // lists are never narrower than that
		fw  = vw + 2*t
		fh  = max(0, a.h-num)
		fd  = max(0, b.d+den)
		tol = 1e-8 * (c.Size + w + fh + fd)
		ops = got.ops
		x0  = 0.0
	)
	if bare {
		// parentheses around.
		if len(ops) < 2 {
			return fmt.Errorf("no parentheses:\n%s", opsString(ops))
		}
		var adv [2]float64
		ah, ad := fh, fd
		for i, sym := range []string{"(", ")"} {
			g := ops[0]
			if i == 1 {
				g = ops[len(ops)-1]
			}
			m := be.metrics(sym, c.typ(), true)
			size := (ah + ad) / m.h
			adv[i] = m.adv * size
			shift := ad + m.ymin*size
			if g.Rect || g.Sym != sym || g.Typ != c.typ() || !near(g.Size, size, tol) || !near(g.Y, shift, tol) {
				return fmt.Errorf("parenthesis %v, want %q %s at size %g, y=%g", g, sym, c.typ(), size, shift)
			}
			x := 0.0
			if i == 1 {
				x = adv[0] + vw + 2*t
			}
			if !near(g.X, x, tol) {
				return fmt.Errorf("parenthesis %v, want it at x=%g", g, x)
			}
			fh = max(fh, max(0, m.ymax*size)-shift)
			fd = max(fd, max(0, -m.ymin*size)+shift)
		}
		fw += adv[0] + adv[1]
		x0 = adv[0]
		ops = ops[1 : len(ops)-1]
	}
	if err := got.dims(fw, fh, fd, tol); err != nil {
		return err
	}
	na, nb, nr := len(a.ops), len(b.ops), 1
	if bare {
		nr = 0
	}
	if len(ops) != na+nb+nr {
		return fmt.Errorf("%d drawing operations, want %d\n%s", len(ops), na+nb+nr, opsString(ops))
	}
	if !bare {
		bar := ops[na]
		// known finding: rules are drawn one thickness below their slot.
		y := -axis + t
		if !bar.Rect || !near(bar.X, x0, tol) || !near(bar.X2, x0+vw, tol) || !near(bar.Y, y, tol) || !near(bar.Y2, y+t, tol) {
			return fmt.Errorf("fraction bar %v, want x from %g to %g, y from %g to %g", bar, x0, x0+vw, y, y+t)
		}
	}
	for i, part := range []struct {
		what string
		ops  []op
		p    piece
		y    float64
	}{
		{"numerator", ops[:na], a, num},
		{"denominator", ops[na+nr:], b, den},
	} {
		_ = i
		dx, err := placed(part.what, part.ops, part.p, part.y, tol)
		if err != nil {
			return err
		}
		if len(part.ops) == 0 {
			continue
		}
		if off := dx - x0 - (w-part.p.w)/2; !near(off, 0, 0.5+part.p.slack()+tol) {
			return fmt.Errorf("%s is off the centre by %g", part.what, off)
		}
	}
	return nil
}

// --- C11 ---

func runC11(c partsCase, o *Obs) error {
	if !c.valid() || (c.Cmd != `\sqrt` && c.HasB) {
		return nil
	}
	noDots(c.A)
	noDots(c.B)
	a, err := c.measure(c.A)
	if err != nil {
		o.Label("part not typeset")
		return nil // another property
	}
	var idx piece
	if c.HasB {
		idx, err = c.measure(c.B)
		if err != nil {
			o.Label("part not typeset")
			return nil
		}
	}
	got, text, err := c.whole()
	if err != nil {
		return err
	}
	if math.Abs(a.w)+math.Abs(idx.w) > hugeBox {
		o.Label("huge box")
		return nil
	}
	if c.Cmd == `\sqrt` {
		err = c.checkRoot(got, a, idx)
	} else {
		err = c.checkOverline(got, a)
	}
	if err != nil {
		return fmt.Errorf("%q: %w", text, err)
	}
	o.NonTrivial(len(a.ops) >= 1)
	o.Label("%s, index: %v, math: %v", c.Cmd, c.HasB, c.Math)
	o.Label("nested: %v", a.glues+idx.glues > 0)
	return nil
}

// body checks the body under a rule: it stays on the baseline up to the
// rounding of a glue.
func checkBody(ops []op, a piece, x, tol float64) error {
	if len(ops) == 0 && len(a.ops) == 0 {
		return nil
	}
	if len(ops) != len(a.ops) {
		_, err := placed("body", ops, a, 0, tol)
		return err
	}
	dy := ops[0].Y - a.ops[0].Y
	if !near(dy, 0, 0.5+a.slack()+tol) {
		return fmt.Errorf("body is moved by %g below its baseline\n%s", dy, opsString(ops))
	}
	dx, err := placed("body", ops, a, dy, tol)
	if err != nil {
		return err
	}
	if !near(dx, x, a.slack()+tol) {
		return fmt.Errorf("body starts at x=%g, want %g", dx, x)
	}
	return nil
}

func (c partsCase) checkRule(g op, x, w, h, t, tol float64) error {
	// known finding: rules are drawn one thickness below their slot.
	y := -h + t
	if !g.Rect || !near(g.X, x, tol) || !near(g.X2, x+w, tol) || !near(g.Y, y, tol) || !near(g.Y2, y+t, tol) {
		return fmt.Errorf("rule %v, want x from %g to %g, y from %g to %g", g, x, x+w, y, y+t)
	}
	return nil
}

func (c partsCase) checkRoot(got, a, idx piece) error {
	var (
		be    = newTestBackend(c.BE)
		t     = be.Thick * c.Size * c.DPI / 72
		m     = be.metrics(`\__sqrt__`, c.typ(), true)
		size  = (a.h + a.d + 5*t) / m.h
		shift = a.d + m.ymin*size // of the baseline of the sign
		signH = max(0, m.ymax*size) - shift
		signD = max(0, -m.ymin*size) + shift
		signW = m.adv * size
		h     = signH + c.Size*c.DPI/1200
		x     = 0.0 // of the sign
		tol   = 1e-8 * (c.Size + a.w + a.h + a.d + idx.w + idx.h + idx.d + size)
	)
	idx = idx.scaled(0.49)
	idxH, idxD := 0.0, 0.0
	if c.HasB {
		x = max(0, idx.w) - signW/2
		idxH = idx.h + 0.6*signH
		idxD = idx.d - 0.6*signH
	}
	if err := got.dims(x+signW+max(0, a.w+4*t), max(0, signH, h, idxH), max(0, signD, a.d, idxD), tol); err != nil {
		return err
	}
	n := len(idx.ops)
	if len(got.ops) != n+2+len(a.ops) {
		return fmt.Errorf("%d drawing operations, want %d\n%s", len(got.ops), n+2+len(a.ops), opsString(got.ops))
	}
	dx, err := placed("index", got.ops[:n], idx, -0.6*signH, tol)
	if err != nil {
		return err
	}
	if !near(dx, 0, idx.slack()+tol) {
		return fmt.Errorf("index is moved by %g", dx)
	}
	if g := got.ops[n]; g.Sym != `\__sqrt__` || g.Typ != c.typ() || !near(g.Size, size, tol) || !near(g.X, x, tol) || !near(g.Y, shift, tol) {
		return fmt.Errorf("radical sign %v, want it of size %g at (%g, %g)", g, size, x, shift)
	}
	if err := c.checkRule(got.ops[n+1], x+signW, max(0, a.w+4*t), h, t, tol); err != nil {
		return err
	}
	return checkBody(got.ops[n+2:], a, x+signW+2*t, tol)
}

func (c partsCase) checkOverline(got, a piece) error {
	var (
		t   = newTestBackend(c.BE).Thick * c.Size * c.DPI / 72
		h   = a.h + 3*t + c.Size*c.DPI/1200
		tol = 1e-8 * (c.Size + a.w + a.h + a.d)
	)
	if err := got.dims(max(0, a.w), h, a.d, tol); err != nil {
		return err
	}
	if len(got.ops) != 1+len(a.ops) {
		return fmt.Errorf("%d drawing operations, want %d\n%s", len(got.ops), 1+len(a.ops), opsString(got.ops))
	}
	if err := c.checkRule(got.ops[0], 0, max(0, a.w), h, t, tol); err != nil {
		return err
	}
	return checkBody(got.ops[1:], a, 0, tol)
}

// --- C12, C13 ---

func unspaced(from []string) []string {
	var o []string
	for _, k := range from {
		if !isSpacedRef(k) {
			o = append(o, k)
		}
	}
	return o
}

func profFlat() prof {
	p := profTypeset()
	p.kinds = []string{"word", "word", "num", "num", "sym", "mac", "mac", "func", "math", "math"}
	p.macros = unspaced(setMacros)
	p.depth = 1
	p.maxLen = 8
	return p
}

// plainRun tells whether the tree only holds what C12 is about.
func plainRun(ns []*N, math bool) bool {
	for _, n := range ns {
		switch n.K {
		case "word":
		case "num":
			if n.T[0] == '.' || n.T[len(n.T)-1] == '.' {
				return false
			}
		case "sym":
			if math && (isSpacedRef(n.T) || n.T == ".") {
				return false
			}
		case "mac":
			if len(n.C) > 0 || isSpacedRef(n.T) || n.T == `\hspace` {
				return false
			}
			if _, ok := spaceTable[n.T]; ok {
				return false
			}
		case "math":
			if math || !plainRun(n.C, true) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func drawC12(t *rapid.T) texCase {
	c := drawTexCase(t, profFlat(), 20)
	var fix func(ns []*N, math bool) []*N
	fix = func(ns []*N, math bool) []*N {
		var o []*N
		for _, n := range ns {
			if n.K == "math" {
				n.C = fix(n.C, true)
			}
			if plainRun([]*N{n}, math) {
				o = append(o, n)
			}
		}
		return o
	}
	c.Expr = fix(c.Expr, false)
	return c
}

func runC12(c texCase, o *Obs) error {
	if !c.valid() || !plainRun(c.Expr, false) {
		return nil
	}
	if err := c.checkLayout(o); err != nil {
		return err
	}
	n := len(visible(c.Expr, "rm", c.Size, nil))
	o.NonTrivial(n >= 3)
	o.Label("kerning: %v", !c.BE.NoKern)
	for k := range kindsOf(c.Expr) {
		o.Label("has %s", k)
	}
	return nil
}

func profSpacing() prof {
	p := profTypeset()
	var spaced []string
	for _, k := range setMacros {
		if isSpacedRef(k) {
			spaced = append(spaced, k)
		}
	}
	p.kinds = []string{"word", "num", "num", "sym", "sym", "sym", "sym", "mac", "mac", "mac", "space", "space", "hspace", "func", "group", "group", "exp", "math", "math"}
	p.macros = append(append([]string{}, spaced...), unspaced(setMacros)...)
	for i := 0; i < 20; i++ {
		p.macros = append(p.macros, `\{`, `\$`, `\langle`, `\pm`, `\cdot`, `\times`)
	}
	// bytes of other letters may look like symbols.
	p.letters = append([]rune("äèûĤľķŻŤܛۀیۻ"), lettersASCII...)
	p.depth = 3
	p.maxLen = 7
	return p
}

func runC13(c texCase, o *Obs) error {
	if !c.valid() {
		return nil
	}
	c.BE.NoKern = true // kerning is another property.
	bad := false
	walkAll(c.Expr, func(n *N) {
		if len(n.C) > 0 && n.K == "mac" && n.T != `\exp` && n.T != `\hspace` {
			bad = true
		}
	})
	if bad {
		return nil
	}
	if err := c.checkLayout(o); err != nil {
		return err
	}
	ops, spaces := 0, 0
	walkAll(c.Expr, func(n *N) {
		switch {
		case n.K != "num" && isSpacedRef(n.T), n.K == "sym" && n.T == ".", n.K == "num" && strings.Contains(n.T, "."):
			ops++
		case n.T == `\hspace`, spaceTable[n.T] != 0:
			spaces++
		}
	})
	if ops > 0 {
		o.Label("operators")
	}
	if spaces > 0 {
		o.Label("spaces")
	}
	if len(c.src().comments) > 0 {
		o.Label("comments")
	}
	o.NonTrivial(ops+spaces >= 1 && countNodes(c.Expr) >= 4)
	return nil
}

// enumC13 puts every symbol into each context.
func enumC13() []texCase {
	var out []texCase
	add := func(ns ...*N) {
		out = append(out, texCase{
			Expr: []*N{{K: "math", C: ns}}, Size: 12, DPI: 72, BE: beParams{Seed: 5, Thick: 0.0625, XH: 0.4, NoKern: true},
		})
	}
	var (
		x    = &N{K: "word", T: "x"}
		y    = &N{K: "word", T: "y"}
		five = &N{K: "num", T: "5"}
	)
	var syms []*N
	for _, k := range setMacros {
		syms = append(syms, &N{K: "mac", T: k})
	}
	for _, k := range spaceMacros {
		syms = append(syms, &N{K: "mac", T: k})
	}
	for _, r := range mathSymsMtex {
		syms = append(syms, &N{K: "sym", T: string(r)})
	}
	for _, s := range syms {
		add(x, s, y)
		add(s, y)
		add(x, s)
		add(&N{K: "list", C: []*N{s, y}})
		add(x, &N{K: "list", C: []*N{s}}, y)
		add(&N{K: "sym", T: "("}, s, five)
		add(&N{K: "sym", T: ")"}, s, five)
		add(&N{K: "sym", T: "<"}, s, five)
		add(five, s, five)
		add(&N{K: "mac", T: `\{`}, s, y)
		add(&N{K: "mac", T: `\}`}, s, y)
		add(&N{K: "mac", T: `\$`}, s, y)
		add(&N{K: "mac", T: `\langle`}, s, y)
		add(s, s)
	}
	for _, p := range []string{"1", "3.5", ".25", "0", "10", "100.125", "2."} {
		add(x, &N{K: "mac", T: `\hspace`, C: []*N{{K: "arg", C: []*N{{K: "num", T: p}}}}}, y)
		add(x, &N{K: "num", T: p}, y)
		add(five, &N{K: "sym", T: "."}, x)
	}
	return out
}

func init() {
	register("C08", "typesettable expressions with arbitrary nesting; the drawn glyphs (spaces aside) and rules are compared with those listed from the source tree; non-trivial: at least 4 drawn items, nested",
		200000, 1500000, func(t *rapid.T) texCase { return drawTexCase(t, profTypeset(), 35) }, runC08)
	register("C10", "a fraction or binomial of two random expressions (flat or nested), each also typeset on its own, random metrics; non-trivial: both parts draw something",
		80000, 1200000, func(t *rapid.T) partsCase { return drawParts(t, fracCmds, false) }, runC10)
	register("C11", "a root (with or without index) or overline of random expressions, each also typeset on its own, random metrics; non-trivial: the body draws something",
		80000, 1200000, func(t *rapid.T) partsCase { return drawParts(t, []string{`\sqrt`, `\sqrt`, `\overline`}, true) }, runC11)
	register("C12", "flat runs of words, numbers, symbols and function names, in and outside of math, random metrics and kerning; non-trivial: at least 3 glyphs",
		120000, 1500000, drawC12, runC12)
	register("C13", "math expressions with operators, delimiters, dots, numbers, groups and spacing commands, random metrics without kerning; non-trivial: at least one operator, dot or space among 4 nodes",
		80000, 1500000, func(t *rapid.T) texCase { return drawTexCase(t, profSpacing(), 16) }, runC13, withEnum(enumC13))
	register("C30", "typesettable expressions of the supported grammar, nested, with blanks and comments, font metrics, kerning, sizes and resolutions drawn at random; non-trivial: at least one construct (fraction, binomial, root, overline, function with argument) and 6 nodes",
		150000, 1500000, func(t *rapid.T) texCase { return drawTexCase(t, profTypeset(), 30) }, runC30)
}
