package main

import (
	"fmt"
	"hash/fnv"
	"unicode/utf8"

	"github.com/go-latex/latex/font"
)

// testBackend is a font backend with generated metrics, which records what is
// drawn.
type testBackend struct {
	beParams
	ops    []op
	failAt int // if positive, drawing that many operations fails
}

func newTestBackend(p beParams) *testBackend { return &testBackend{beParams: p} }

// beParams are the parameters of a test backend.
type beParams struct {
	Seed   uint64  `json:"seed"`
	Thick  float64 `json:"thick"`
	XH     float64 `json:"xh"`
	NoKern bool    `json:"nokern,omitempty"`
}

func hash01(parts ...string) func() float64 {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0})
	}
	x := h.Sum64()
	return func() float64 {
		x = splitmix(x)
		return float64(x>>40) / float64(1<<24)
	}
}

// key is what a symbol stands for. Like the TrueType backend, the symbol is a
// TeX name in math, and a single character otherwise.
func (be *testBackend) key(sym string, math bool) string {
	if !math {
		r, _ := utf8.DecodeRuneInString(sym)
		if r == utf8.RuneError {
			panic(fmt.Errorf("backend: invalid symbol %q", sym))
		}
		return string(r)
	}
	switch {
	case sym == "-":
		return "\u2212"
	case utf8.RuneCountInString(sym) == 1:
		return sym
	}
	r, ok := texUnicode[sym]
	if !ok {
		panic(fmt.Errorf("backend: unknown symbol %q", sym))
	}
	return string(r)
}

type refMetrics struct{ adv, w, h, xmin, ymin, ymax float64 }

// metrics returns the metrics of a symbol for a size of 1.
func (be *testBackend) metrics(sym, typ string, math bool) refMetrics {
	k := be.key(sym, math)
	rnd := hash01(fmt.Sprint(be.Seed), k, typ)
	m := refMetrics{
		adv:  0.2 + 0.8*rnd(),
		xmin: -0.05 + 0.15*rnd(),
		ymin: -0.3 + 0.4*rnd(),
	}
	m.w = 0.1 + 0.8*rnd()
	m.h = 0.1 + 0.9*rnd()
	if k == " " {
		m.w, m.h, m.xmin, m.ymin = 0, 0, 0, 0
	}
	m.ymax = m.ymin + m.h
	return m
}

// kern returns the kerning for a size of 1.
func (be *testBackend) kern(typ1, sym1, typ2, sym2 string) float64 {
	if be.NoKern {
		return 0
	}
	rnd := hash01(fmt.Sprint(be.Seed), "kern", sym1, typ1, sym2, typ2)
	if rnd() < 0.4 {
		return 0
	}
	return 0.3*rnd() - 0.2
}

func (be *testBackend) fail() {
	if be.failAt > 0 && len(be.ops)+1 >= be.failAt {
		panic("drawing failed")
	}
}

func (be *testBackend) RenderGlyph(x, y float64, fnt font.Font, symbol string, dpi float64) {
	be.fail()
	be.ops = append(be.ops, op{X: x, Y: y, Sym: symbol, Typ: fnt.Type, Name: fnt.Name, Size: fnt.Size, DPI: dpi})
}

func (be *testBackend) RenderRectFilled(x1, y1, x2, y2 float64) {
	be.fail()
	be.ops = append(be.ops, op{Rect: true, X: x1, Y: y1, X2: x2, Y2: y2})
}

func (be *testBackend) Kern(ft1 font.Font, sym1 string, ft2 font.Font, sym2 string, dpi float64) float64 {
	return be.kern(ft1.Type, sym1, ft2.Type, sym2) * ft1.Size
}

func (be *testBackend) Metrics(symbol string, fnt font.Font, dpi float64, math bool) font.Metrics {
	m := be.metrics(symbol, fnt.Type, math)
	s := fnt.Size
	return font.Metrics{
		Advance: m.adv * s,
		Height:  m.h * s,
		Width:   m.w * s,
		XMin:    m.xmin * s,
		XMax:    (m.xmin + m.w) * s,
		YMin:    m.ymin * s,
		YMax:    m.ymax * s,
		Iceberg: m.ymax * s,
		Slanted: fnt.Type == "it",
	}
}

func (be *testBackend) XHeight(fnt font.Font, dpi float64) float64 { return be.XH * fnt.Size }

func (be *testBackend) UnderlineThickness(fnt font.Font, dpi float64) float64 {
	return be.Thick * fnt.Size * dpi / 72
}
