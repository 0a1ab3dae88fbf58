package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/go-latex/latex/mtex"
	"github.com/go-latex/latex/tex"
)

// This file is the reference typesetter: it lays out a reference tree in the
// reference box model.

// style is the state a node is typeset in.
type style struct {
	typ  string
	size float64
	math bool
}

type layouter struct {
	be     *testBackend
	src    *src
	dpi    float64
	spaces int // number of explicit or implicit spaces (their factors are approximate)
}

func newLayouter(be *testBackend, s *src, dpi float64) *layouter {
	return &layouter{be: be, src: s, dpi: dpi}
}

// layout lays out an expression.
func (l *layouter) layout(ns []*N, size float64) *bx {
	return l.group(ns, style{typ: "rm", size: size})
}

func (l *layouter) thickness(st style) float64 { return l.be.Thick * st.size * l.dpi / 72 }

func (l *layouter) char(sym string, st style) *bx {
	m := l.be.metrics(sym, st.typ, st.math)
	c := &bx{
		K: "char", Sym: sym, Typ: st.typ, Size: st.size,
		W: m.w * st.size, H: m.ymax * st.size, D: -m.ymin * st.size,
		Adv: m.adv * st.size, XMin: m.xmin * st.size, YMin: m.ymin * st.size,
	}
	if sym == " " {
		c.W = c.Adv
	}
	return c
}

// em is the width spaces are multiples of.
func (l *layouter) em(st style) float64 { return l.be.metrics("m", "it", true).adv * st.size }

func (l *layouter) space(em float64, st style) *bx {
	l.spaces++
	return bxKern(em * l.em(st))
}

// symbol lays out an operator, relation, digit, dot or symbol macro that starts
// at the given offset of the source.
func (l *layouter) symbol(sym string, pos int, st style) *bx {
	ch := l.char(sym, st)
	switch {
	case isSpacedRef(sym):
		before := strings.TrimRight(l.src.clean[:pos], " \t\r\n")
		if inClass("BinaryOperators", sym) {
			escaped := strings.HasSuffix(before, `\$`)
			if before == "" || (strings.HasSuffix(before, "$") && !escaped) {
				return ch
			}
			if strings.HasSuffix(before, "{") || strings.HasSuffix(before, "(") ||
				strings.HasSuffix(before, "[") || strings.HasSuffix(before, "<") {
				return ch
			}
		}
		return bxKerned(l.be, l.space(0.2, st), ch, l.space(0.2, st))
	case sym == ".":
		s := l.src.clean
		if pos > 0 && pos+1 < len(s) && isDig(rune(s[pos-1])) && isDig(rune(s[pos+1])) {
			return ch
		}
		return bxKerned(l.be, ch, l.space(0.2, st))
	}
	return ch
}

func (l *layouter) group(ns []*N, st style) *bx { return bxKerned(l.be, l.list(ns, st)...) }

func (l *layouter) list(ns []*N, st style) []*bx {
	var o []*bx
	for _, n := range ns {
		o = append(o, l.node(n, st)...)
	}
	return o
}

func (l *layouter) node(n *N, st style) []*bx {
	switch n.K {
	case "word":
		var o []*bx
		for _, r := range n.T {
			o = append(o, l.char(string(r), st))
		}
		return []*bx{bxKerned(l.be, o...)}
	case "num":
		var o []*bx
		for i, r := range n.T {
			o = append(o, l.symbol(string(r), l.src.pos[n][0]+i, st))
		}
		return o
	case "sym":
		if st.math {
			return []*bx{l.symbol(n.T, l.src.pos[n][0], st)}
		}
		return []*bx{l.char(n.T, st)}
	case "list":
		return l.list(n.C, st)
	case "math":
		st.math = true
		st.typ = "it"
		return l.list(n.C, st)
	case "mac":
		return []*bx{l.macro(n, st)}
	}
	panic("harness: layout " + n.K)
}

func (l *layouter) macro(n *N, st style) *bx {
	if em, ok := spaceTable[n.T]; ok {
		return l.space(em, st)
	}
	if inClass("FunctionNames", n.T[1:]) {
		rm := st
		rm.typ = "rm"
		var o []*bx
		for _, r := range n.T[1:] {
			o = append(o, l.char(string(r), rm))
		}
		for _, a := range n.C {
			o = append(o, l.group(a.C, st))
		}
		return bxKerned(l.be, o...)
	}
	switch n.T {
	case `\hspace`:
		var v float64
		if _, err := fmt.Sscanf(n.C[0].C[0].T, "%g", &v); err != nil {
			panic("harness: hspace " + n.C[0].C[0].T)
		}
		return l.space(v, st)
	case `\frac`, `\tfrac`, `\dfrac`, `\binom`:
		return l.frac(n, st)
	case `\sqrt`:
		return l.sqrt(n, st)
	case `\overline`:
		return l.overline(n, st)
	}
	st.math = true
	return l.symbol(n.T, l.src.name[n][0], st)
}

func (l *layouter) frac(n *N, st style) *bx {
	var (
		t    = l.thickness(st)
		num  = l.group(n.C[0].C, st)
		den  = l.group(n.C[1].C, st)
		rule = t
	)
	if n.T == `\binom` {
		rule = 0
	}
	if n.T != `\dfrac` {
		num.scale(0.7)
		den.scale(0.7)
	}
	w := math.Max(num.W, den.W)
	cnum := hpack(bxHCentered(num), w, false)
	cden := hpack(bxHCentered(den), w, false)
	v := bxVList(
		cnum,
		bxBox(0, 0, 2*t),
		bxRule(inf, rule/2, rule/2),
		bxBox(0, 0, 2*t),
		cden,
	)
	eq := l.be.metrics("=", "it", true)
	v.Shift = cden.H - ((eq.ymax+eq.ymin)/2*st.size - 3*t)
	box := bxHList(v, bxBox(2*t, 0, 0))
	if n.T != `\binom` {
		return box
	}
	left := l.auto("(", math.Max(box.H, 0), math.Max(box.D, 0), st)
	right := l.auto(")", math.Max(box.H, 0), math.Max(box.D, 0), st)
	return bxHList(left, box, right)
}

// auto is a character scaled to a height and depth.
func (l *layouter) auto(sym string, height, depth float64, st style) *bx {
	st.math = true
	ch := l.char(sym, st)
	st.size *= (height + depth) / (ch.H + ch.D)
	ch = l.char(sym, st)
	b := bxKerned(l.be, ch)
	b.Shift = depth - ch.D
	return b
}

func (l *layouter) sqrt(n *N, st style) *bx {
	var (
		t     = l.thickness(st)
		body  = l.group(n.C[len(n.C)-1].C, st)
		check = l.auto(`\__sqrt__`, body.H+5*t, body.D, st)
		h     = check.H - check.Shift
		d     = check.D + check.Shift
		root  *bx
	)
	switch len(n.C) {
	case 1:
		root = bxBox(check.W/2, 0, 0)
	default:
		root = l.group(n.C[0].C, st)
		root.scale(0.7 * 0.7)
	}
	padded := bxHList(bxBox(2*t, 0, 0), body, bxBox(2*t, 0, 0))
	rhs := bxVList(bxRule(inf, t/2, t/2), bxGlue("fill"), padded)
	vpack(rhs, h+st.size*l.dpi/1200, false, d)

	idx := bxVList(bxHList(root))
	idx.Shift = -0.6 * h
	return bxHList(idx, bxKern(-check.W/2), check, rhs)
}

func (l *layouter) overline(n *N, st style) *bx {
	var (
		t    = l.thickness(st)
		body = l.group(n.C[0].C, st)
		rhs  = bxVList(bxRule(inf, t/2, t/2), bxGlue("fill"), bxHList(body))
	)
	vpack(rhs, body.H+3*t+st.size*l.dpi/1200, false, body.D)
	return bxHList(rhs)
}

// typeset typesets an expression with the code under test and ships it at the
// given origin.
func typeset(text string, size, dpi, ox, oy float64, p beParams) (tex.Tree, []op, error) {
	be := newTestBackend(p)
	box, err := mtex.Parse(text, size, dpi, be)
	if err != nil {
		if box != nil {
			return nil, nil, fmt.Errorf("both a box and an error: %v", err)
		}
		return nil, nil, err
	}
	tree, ok := box.(tex.Tree)
	if !ok {
		return nil, nil, fmt.Errorf("box %T is not a tree", box)
	}
	if n := len(be.ops); n != 0 {
		return nil, nil, fmt.Errorf("Parse drew %d operations", n)
	}
	var sh tex.Ship
	sh.Call(ox, oy, tree)
	return tree, be.ops, nil
}

func near(a, b, tol float64) bool {
	return a == b || math.Abs(a-b) <= tol
}

// sameOps compares drawing operations.
func sameOps(got, want []op, tol float64) error {
	diff := func(i int) error {
		return fmt.Errorf("drawing operation %d differs\ngot:\n%swant:\n%s", i, opsString(got), opsString(want))
	}
	for i := range min(len(got), len(want)) {
		g, w := got[i], want[i]
		if g.Rect != w.Rect || g.Sym != w.Sym || g.Typ != w.Typ ||
			!near(g.Size, w.Size, tol) ||
			!near(g.X, w.X, tol) || !near(g.Y, w.Y, tol) ||
			!near(g.X2, w.X2, tol) || !near(g.Y2, w.Y2, tol) {
			return diff(i)
		}
	}
	if len(got) != len(want) {
		return diff(min(len(got), len(want)))
	}
	return nil
}

// sameDims compares the dimensions of a box.
func sameDims(box tex.Node, w, h, d, tol float64) error {
	if !near(box.Width(), w, tol) || !near(box.Height(), h, tol) || !near(box.Depth(), d, tol) {
		return fmt.Errorf("box dimensions: got (w=%g, h=%g, d=%g), want (w=%g, h=%g, d=%g)",
			box.Width(), box.Height(), box.Depth(), w, h, d)
	}
	return nil
}

// texCase is an expression to typeset.
type texCase struct {
	Expr   []*N       `json:"expr"`
	Blanks [][]string `json:"blanks,omitempty"`
	Size   float64    `json:"size"`
	DPI    float64    `json:"dpi"`
	BE     beParams   `json:"be"`
}

func (c texCase) src() *src { return writeExpr(c.Expr, c.Blanks) }

// tol is the tolerance on coordinates.
func (c texCase) tol(l *layouter, b *bx) float64 {
	big := c.Size + math.Abs(b.W) + math.Abs(b.H) + math.Abs(b.D)
	return 1e-9*big + 1.2e-5*c.Size*float64(l.spaces)*l.em(style{size: 1})
}

// checkLayout compares the typeset expression with the reference layout.
func (c texCase) checkLayout(o *Obs) (err error) {
	s := c.src()
	be := newTestBackend(c.BE)
	l := newLayouter(be, s, c.DPI)
	want := l.layout(c.Expr, c.Size)
	tol := c.tol(l, want)
	sh := shipTol(want, 0, 0, tol)
	tree, ops, err := typeset(s.text, c.Size, c.DPI, 0, 0, c.BE)
	if err != nil {
		return fmt.Errorf("%q: %w", s.text, err)
	}
	if sh.tie {
		o.Label("rounding tie (positions not compared)")
		return sameDims(tree, want.W, want.H, want.D, tol)
	}
	if err := sameDims(tree, want.W, want.H, want.D, tol); err != nil {
		return fmt.Errorf("%q: %w", s.text, err)
	}
	if err := sameOps(ops, sh.ops, tol); err != nil {
		return fmt.Errorf("%q: %w", s.text, err)
	}
	return nil
}
