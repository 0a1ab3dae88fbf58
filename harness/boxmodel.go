package main

import (
	"fmt"
	"math"
	"strings"
)

// This file is the reference model of the TeX box rules (hpack, vpack, ship
// out), written from the TeX program (nodes 619-679) restricted to what package
// tex documents.

// bx is a node of the reference box model.
type bx struct {
	K       string // char, accent, box, hlist, vlist, rule, glue, kern
	W, H, D float64
	Shift   float64
	C       []*bx

	// char, accent
	Sym        string
	Typ        string
	Size       float64
	Adv        float64
	XMin, YMin float64

	// glue: W is the natural width
	St, Sh   float64
	StO, ShO int

	// glue setting of a list
	set   float64
	sign  int
	order int
	tight bool // whether there is nothing to set is a matter of rounding errors
}

var inf = math.Inf(+1)

func isInf(v float64) bool { return math.IsInf(v, 0) }

func bxGlue(typ string) *bx {
	g := &bx{K: "glue"}
	switch typ {
	case "fil":
		g.St, g.StO = 1, 1
	case "fill":
		g.St, g.StO = 1, 2
	case "filll":
		g.St, g.StO = 1, 3
	case "neg_fil":
		g.Sh, g.ShO = 1, 1
	case "neg_fill":
		g.Sh, g.ShO = 1, 2
	case "neg_filll":
		g.Sh, g.ShO = 1, 3
	case "ss":
		g.St, g.StO, g.Sh, g.ShO = 1, 1, -1, 1
	case "empty":
	default:
		panic("harness: unknown glue " + typ)
	}
	return g
}

func bxKern(w float64) *bx        { return &bx{K: "kern", W: w} }
func bxBox(w, h, d float64) *bx   { return &bx{K: "box", W: w, H: h, D: d} }
func bxRule(w, h, d float64) *bx  { return &bx{K: "rule", W: w, H: h, D: d} }
func bxHList(children ...*bx) *bx { return hpack(&bx{K: "hlist", C: children}, 0, true) }
func bxVList(children ...*bx) *bx { return vpack(&bx{K: "vlist", C: children}, 0, true, inf) }
func bxHCentered(children ...*bx) *bx {
	c := []*bx{bxGlue("ss")}
	c = append(c, children...)
	c = append(c, bxGlue("ss"))
	return bxHList(c...)
}

// kernOf is the space wanted after a character: what its advance exceeds its
// width by, and the kerning with a following character.
func kernOf(be *testBackend, c, next *bx) float64 {
	if c.K != "char" && c.K != "accent" {
		return 0
	}
	k := c.Adv - c.W
	if next != nil && (next.K == "char" || next.K == "accent") {
		k += be.kern(c.Typ, c.Sym, next.Typ, next.Sym) * c.Size
	}
	return k
}

// bxKerned is a horizontal list with the kerns of its characters.
func bxKerned(be *testBackend, children ...*bx) *bx {
	var out []*bx
	for i, c := range children {
		var next *bx
		if i+1 < len(children) {
			next = children[i+1]
		}
		out = append(out, c)
		if k := kernOf(be, c, next); k != 0 {
			out = append(out, bxKern(k))
		}
	}
	return bxHList(out...)
}

func (b *bx) isList() bool { return b.K == "hlist" || b.K == "vlist" }

// setGlue distributes x over the glue of the highest order.
func (b *bx) setGlue(x float64) {
	b.sign, b.order, b.set = 0, 0, 0
	if x == 0 {
		return
	}
	var tot [4]float64
	for _, c := range b.C {
		if c.K != "glue" {
			continue
		}
		if x > 0 {
			tot[c.StO] += c.St
		} else {
			tot[c.ShO] += c.Sh
		}
	}
	for o := 3; o >= 0; o-- {
		if tot[o] != 0 {
			b.order = o
			b.set = x / tot[o]
			b.sign = +1
			if x < 0 {
				b.sign = -1
			}
			return
		}
	}
}

// coincides tells whether the excess x over the sum of several numbers is
// zero but for rounding errors.
func (b *bx) coincides(x float64) bool {
	var (
		sum float64
		n   int
	)
	add := func(v float64) {
		if v != 0 && !isInf(v) {
			sum += math.Abs(v)
			n++
		}
	}
	for _, c := range b.C {
		switch {
		case b.K == "hlist" || c.K == "glue" || c.K == "kern":
			add(c.W)
		default:
			add(c.H)
			add(c.D)
		}
	}
	return n > 1 && math.Abs(x) < 1e-9*(1+sum)
}

func hpack(b *bx, width float64, additional bool) *bx {
	var w, h, d float64
	for _, c := range b.C {
		w += c.W
		switch c.K {
		case "glue", "kern":
			continue
		}
		shift := 0.0
		if c.isList() {
			shift = c.Shift
		}
		if !isInf(c.H) {
			h = math.Max(h, c.H-shift)
		}
		if !isInf(c.D) {
			d = math.Max(d, c.D+shift)
		}
	}
	b.H, b.D = h, d
	b.W = width
	if additional {
		b.W = width + w
	}
	b.setGlue(b.W - w)
	b.tight = !additional && b.coincides(b.W-w)
	return b
}

func vpack(b *bx, height float64, additional bool, maxDepth float64) *bx {
	var w, x, d float64
	for _, c := range b.C {
		switch c.K {
		case "glue", "kern":
			x += d + c.W
			d = 0
			continue
		}
		x += d + c.H
		d = c.D
		if !isInf(c.W) {
			w = math.Max(w, c.W)
		}
	}
	b.W = w
	b.D = d
	if d > maxDepth {
		x += d - maxDepth
		b.D = maxDepth
	}
	b.H = height
	if additional {
		b.H = height + x
	}
	b.setGlue(b.H - x)
	b.tight = !additional && b.coincides(b.H-x)
	return b
}

// scale multiplies every dimension below b by f.
func (b *bx) scale(f float64) {
	for _, c := range b.C {
		c.scale(f)
	}
	b.W *= f
	b.H *= f
	b.D *= f
	b.Shift *= f
	b.Size *= f
	b.Adv *= f
	b.XMin *= f
	b.YMin *= f
	b.set *= f
}

func (b *bx) clone() *bx {
	o := *b
	o.C = make([]*bx, len(b.C))
	for i, c := range b.C {
		o.C[i] = c.clone()
	}
	return &o
}

// op is a drawing operation.
type op struct {
	Rect           bool
	X, Y, X2, Y2   float64
	Sym, Typ, Name string
	Size, DPI      float64
}

func (o op) String() string {
	if o.Rect {
		return fmt.Sprintf("rect(%.4f,%.4f - %.4f,%.4f)", o.X, o.Y, o.X2, o.Y2)
	}
	return fmt.Sprintf("glyph(%q %s %.4f at %.4f,%.4f)", o.Sym, o.Typ, o.Size, o.X, o.Y)
}

func opsString(ops []op) string {
	var o strings.Builder
	for i, v := range ops {
		fmt.Fprintf(&o, " %2d: %v\n", i, v)
	}
	return o.String()
}

// shipper ships out boxes of the model.
type shipper struct {
	h, v   float64 // current position relative to the origin
	ox, oy float64
	ops    []op

	// tie is set when a glue was set so close to half a unit that its
	// rounding is a matter of floating-point noise, or when it is such a
	// matter whether a rule has a thickness.
	tie bool
	// margin is how close to half a unit that is.
	margin float64
	// slots: rules of vertical lists are drawn in their own slot instead of
	// one thickness below.
	slots bool
}

func ship(b *bx, ox, oy float64) *shipper { return shipTol(b, ox, oy, 0) }

// shipTol ships out boxes whose dimensions are known within tol.
func shipTol(b *bx, ox, oy, tol float64) *shipper {
	s := &shipper{ox: ox, oy: oy + b.H, margin: 1e-6 + tol}
	s.hout(b)
	return s
}

func (s *shipper) glue(b, g *bx, cur, curG *float64) float64 {
	prev := *curG
	switch {
	case b.sign == +1 && g.StO == b.order:
		*cur += g.St
	case b.sign == -1 && g.ShO == b.order:
		*cur += g.Sh
	default:
		return g.W
	}
	v := b.set * *cur
	v = math.Max(-1e9, math.Min(1e9, v))
	*curG = math.Round(v)
	if f := math.Abs(v - math.Trunc(v)); math.Abs(f-0.5) < s.margin {
		s.tie = true
	}
	return g.W + *curG - prev
}

// thin notices rules whose thickness is zero but for rounding errors.
func (s *shipper) thin(c *bx, h, d float64) {
	if (c.H != 0 || c.D != 0) && math.Abs(h+d) <= 1e-9*(1+math.Abs(h)+math.Abs(d)) {
		s.tie = true
	}
}

func (s *shipper) hout(b *bx) {
	var (
		base      = s.v
		cur, curG float64
	)
	for _, c := range b.C {
		switch c.K {
		case "char":
			s.ops = append(s.ops, op{X: s.h + s.ox, Y: s.v + s.oy, Sym: c.Sym, Typ: c.Typ, Size: c.Size})
			s.h += c.W
		case "accent":
			s.ops = append(s.ops, op{X: s.h + s.ox - c.XMin, Y: s.v + s.oy + c.YMin, Sym: c.Sym, Typ: c.Typ, Size: c.Size})
			s.h += c.W
		case "kern", "box":
			s.h += c.W
		case "glue":
			s.h += s.glue(b, c, &cur, &curG)
		case "rule":
			h, d := c.H, c.D
			if isInf(h) {
				h = b.H
			}
			if isInf(d) {
				d = b.D
			}
			s.thin(c, h, d)
			if h+d > 0 && c.W > 0 {
				x, y := s.h+s.ox, s.v+s.oy
				s.ops = append(s.ops, op{Rect: true, X: x, Y: y - h, X2: x + c.W, Y2: y + d})
			}
			s.h += c.W
		case "hlist", "vlist":
			left := s.h
			if len(c.C) > 0 {
				s.v = base + c.Shift
				if c.K == "hlist" {
					s.hout(c)
				} else {
					s.vout(c)
				}
			}
			s.h, s.v = left+c.W, base
		default:
			panic("harness: hout " + c.K)
		}
	}
}

func (s *shipper) vout(b *bx) {
	var (
		left      = s.h
		cur, curG float64
	)
	s.v -= b.H
	for _, c := range b.C {
		switch c.K {
		case "kern":
			s.v += c.W
		case "box":
			s.v += c.H + c.D
		case "glue":
			s.v += s.glue(b, c, &cur, &curG)
		case "rule":
			w := c.W
			if isInf(w) {
				w = b.W
			}
			t := c.H + c.D
			s.thin(c, c.H, c.D)
			if t > 0 {
				// known finding: the rule is drawn below its slot.
				x, y := s.h+s.ox, s.v+s.oy
				if !s.slots {
					y += t
				}
				s.ops = append(s.ops, op{Rect: true, X: x, Y: y, X2: x + w, Y2: y + t})
			}
			s.v += t
		case "hlist", "vlist":
			top := s.v
			if len(c.C) > 0 {
				s.v = top + c.H
				s.h = left + c.Shift
				c.W = b.W // the members of a vertical list span it
				if c.K == "hlist" {
					s.hout(c)
				} else {
					s.vout(c)
				}
			}
			s.v = top + c.H + c.D
			s.h = left
		default:
			panic("harness: vout " + c.K)
		}
	}
}
