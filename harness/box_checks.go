package main

import (
	"fmt"
	"math"

	"github.com/go-latex/latex/font"
	"github.com/go-latex/latex/tex"
	"pgregory.net/rapid"
)

// This file holds the checks of package tex: packing, shipping, scaling and
// auto-sized characters, on generated box trees.

// boxN describes a box tree.
//
// Kinds: char, accent, hbox, vbox, hrule, vrule, rule, glue, kern, hlist,
// vlist, hcent, vcent and auto, the horizontal lists of which may be clusters.
type boxN struct {
	K    string  `json:"k"`
	Sym  string  `json:"sym,omitempty"`
	Typ  string  `json:"typ,omitempty"`
	Size float64 `json:"size,omitempty"`
	Math bool    `json:"math,omitempty"`
	W    float64 `json:"w,omitempty"`
	H    float64 `json:"h,omitempty"`
	D    float64 `json:"d,omitempty"`
	Run  string  `json:"run,omitempty"` // running dimension of a rule: h or d
	Glue string  `json:"glue,omitempty"`
	Kern bool    `json:"kern,omitempty"`
	Clus bool    `json:"clus,omitempty"` // a horizontal list within a SubSuperCluster
	C    []*boxN `json:"c,omitempty"`
	Ops  []boxOp `json:"ops,omitempty"` // applied in turn once built

	touched error // what building did to the slices handed over
}

// boxOp is an operation on a box: pack, shift, shrink or grow.
type boxOp struct {
	Op  string  `json:"op"`
	V   float64 `json:"v,omitempty"`
	Add bool    `json:"add,omitempty"`
	Max float64 `json:"max,omitempty"` // greatest depth, unless Inf
	Inf bool    `json:"inf,omitempty"`
}

type boxCase struct {
	Box *boxN    `json:"box"`
	DPI float64  `json:"dpi"`
	OX  float64  `json:"ox,omitempty"`
	OY  float64  `json:"oy,omitempty"`
	OX2 float64  `json:"ox2,omitempty"`
	OY2 float64  `json:"oy2,omitempty"`
	Ops []string `json:"ops,omitempty"` // shrink, grow
	BE  beParams `json:"be"`
}

func (n *boxN) state(be font.Backend, dpi float64) tex.State {
	return tex.NewState(be, font.Font{Name: "default", Size: n.Size, Type: n.Typ}, dpi)
}

// build builds the described box with package tex.
func (n *boxN) build(be font.Backend, dpi float64) tex.Node {
	var (
		state = n.state(be, dpi)
		kids  []tex.Node
		node  tex.Node
	)
	for _, c := range n.C {
		kids = append(kids, c.build(be, dpi))
	}
	// the members are part of a larger slice of the caller.
	row := append(kids[:len(kids):len(kids)], tex.HBox(1e3), tex.HBox(2e3), tex.HBox(3e3))
	kids = row[:len(kids)]
	mine := append([]tex.Node(nil), row...)
	defer func() {
		for i, v := range row {
			if v != mine[i] {
				n.touched = fmt.Errorf("building a %s of %d members changed element %d of the caller's slice", n.K, len(kids), i)
			}
		}
		// what the caller does with them later is none of the list's business.
		for i := range row {
			row[i] = row[len(row)-1]
		}
	}()
	switch n.K {
	case "char":
		node = tex.NewChar(n.Sym, state, n.Math)
	case "accent":
		node = tex.NewAccent(n.Sym, state, n.Math)
	case "hbox":
		node = tex.HBox(n.W)
	case "vbox":
		node = tex.VBox(n.H, n.D)
	case "hrule":
		node = tex.HRule(state, n.H)
	case "vrule":
		node = tex.VRule(state)
	case "rule":
		node = tex.NewRule(n.W, run(n.Run == "h", n.H), run(n.Run == "d", n.D), state)
	case "glue":
		node = tex.NewGlue(n.Glue)
	case "kern":
		node = tex.NewKern(n.W)
	case "hlist":
		node = tex.HListOf(kids, n.Kern)
	case "vlist":
		node = tex.VListOf(kids)
	case "hcent":
		node = tex.HCentered(kids)
	case "vcent":
		node = tex.VCentered(kids)
	case "auto":
		node = tex.AutoHeightChar(n.Sym, n.H, n.D, state, n.W)
	default:
		panic("harness: build " + n.K)
	}
	for _, o := range n.Ops {
		switch o.Op {
		case "pack":
			switch node := node.(type) {
			case *tex.HList:
				node.HPack(o.V, o.Add)
			case *tex.VList:
				node.VPack(o.V, o.Add, o.max())
			}
		case "shift":
			if node, ok := node.(*tex.VList); ok {
				node.SetShift(o.V)
			}
		case "shrink":
			node.Shrink()
		case "grow":
			node.Grow()
		}
	}
	if l, ok := node.(*tex.HList); ok && n.Clus {
		node = &tex.SubSuperCluster{HList: l}
	}
	return node
}

// bare returns the list within a cluster.
func bare(n tex.Node) tex.Node {
	if c, ok := n.(*tex.SubSuperCluster); ok {
		return c.HList
	}
	return n
}

func (o boxOp) max() float64 {
	if o.Inf {
		return inf
	}
	return o.Max
}

func run(is bool, v float64) float64 {
	if is {
		return inf
	}
	return v
}

// model builds the described box in the reference model.
func (n *boxN) model(be *testBackend, dpi float64) *bx {
	var (
		l    = newLayouter(be, nil, dpi)
		st   = style{typ: n.Typ, size: n.Size, math: n.Math}
		kids []*bx
		b    *bx
	)
	for _, c := range n.C {
		kids = append(kids, c.model(be, dpi))
	}
	switch n.K {
	case "char":
		b = l.char(n.Sym, st)
	case "accent":
		b = l.char(n.Sym, st)
		b.K = "accent"
		m := be.metrics(n.Sym, n.Typ, n.Math)
		b.W, b.H, b.D = m.w*n.Size, (m.ymax-m.ymin)*n.Size, 0
	case "hbox":
		b = bxBox(n.W, 0, 0)
	case "vbox":
		b = bxBox(0, n.H, n.D)
	case "hrule":
		t := n.H
		if t < 0 {
			t = l.thickness(st)
		}
		b = bxRule(inf, t/2, t/2)
	case "vrule":
		b = bxRule(l.thickness(st), inf, inf)
	case "rule":
		b = bxRule(n.W, run(n.Run == "h", n.H), run(n.Run == "d", n.D))
	case "glue":
		b = bxGlue(n.Glue)
	case "kern":
		b = bxKern(n.W)
	case "hlist":
		if n.Kern {
			b = bxKerned(be, kids...)
		} else {
			b = bxHList(kids...)
		}
	case "vlist":
		b = bxVList(kids...)
	case "hcent":
		b = bxHCentered(kids...)
	case "vcent":
		b = bxVList(append(append([]*bx{bxGlue("ss")}, kids...), bxGlue("ss"))...)
	case "auto":
		if n.W != 0 {
			st.math = true
			st.size *= n.W
			c := l.char(n.Sym, st)
			b = bxKerned(be, c)
			b.Shift = n.D - c.D
		} else {
			b = l.auto(n.Sym, n.H, n.D, st)
		}
	}
	for _, o := range n.Ops {
		switch o.Op {
		case "pack":
			switch b.K {
			case "hlist":
				hpack(b, o.V, o.Add)
			case "vlist":
				vpack(b, o.V, o.Add, o.max())
			}
		case "shift":
			if b.K == "vlist" {
				b.Shift = o.V
			}
		case "shrink":
			b.scale(0.7)
		case "grow":
			b.scale(1 / 0.7)
		}
	}
	return b
}

// --- generation ---

type boxGen struct {
	t      *rapid.T
	budget int
	long   int // if positive, a list is that long
	unit   float64
	scales bool // shrink and grow members
}

var (
	boxSyms  = []string{"a", "b", "f", "W", "x", "1", "+", "=", "(", " ", `\alpha`, `\sum`, `\int`, "-"}
	glueTyps = []string{"fil", "fill", "filll", "neg_fil", "neg_fill", "neg_filll", "empty", "ss", "fil", "ss"}
	fontTyps = []string{"rm", "it", "bf"}
)

func (g *boxGen) n(k int) int { return uni(g.t, k, "n") }

// dim draws a dimension, which is not a multiple of one half.
func (g *boxGen) dim(neg bool) float64 {
	if g.n(12) == 0 {
		return 0
	}
	v := float64(1+g.n(512)) * 0.0371 * g.unit
	if w := dictNum(g.t, 0, -1e6, 1e6); w != 0 && (w > 0 || neg) {
		return w
	}
	if neg && g.n(3) == 0 {
		v = -v
	}
	return v
}

func (g *boxGen) leaf(horizontal bool) *boxN {
	n := &boxN{Typ: one(g.t, fontTyps, "typ"), Size: float64(1+g.n(200)) * 0.123}
	if horizontal {
		switch k := g.n(16); {
		case k < 7:
			n.K = "char"
			n.Sym = one(g.t, boxSyms, "sym")
			n.Math = g.n(2) == 0 || n.Sym[0] == '\\'
		case k < 8:
			n.K = "accent"
			n.Sym = one(g.t, boxSyms[:9], "sym")
		case k < 9:
			n.K, n.W = "hbox", g.dim(true)
		case k < 10:
			n.K = "vrule"
		case k < 11:
			n.K, n.W, n.H, n.D = "rule", g.dim(false), g.dim(false), g.dim(true)
			n.Run = one(g.t, []string{"", "", "h", "d"}, "run")
		case k < 13:
			n.K, n.Glue = "glue", one(g.t, glueTyps, "glue")
		case k < 14:
			n.K, n.W = "kern", g.dim(true)
		case k < 15:
			n.K, n.H, n.D = "vbox", g.dim(false), g.dim(true)
		default:
			n.K, n.Sym, n.H, n.D = "auto", one(g.t, boxSyms[:9], "sym"), g.dim(false), g.dim(false)
			if g.n(3) == 0 {
				n.W = g.dim(false)
			}
			if n.W == 0 && n.H+n.D == 0 {
				n.H = 1
			}
		}
	} else {
		switch k := g.n(10); {
		case k < 2:
			n.K, n.H, n.D = "vbox", g.dim(false), g.dim(true)
		case k < 4:
			n.K = "hrule"
			n.H = -1
			if g.n(2) == 0 {
				n.H = g.dim(false)
			}
		case k < 5:
			n.K, n.W, n.H, n.D = "rule", g.dim(false), g.dim(false), g.dim(false)
		case k < 7:
			n.K, n.Glue = "glue", one(g.t, glueTyps, "glue")
		case k < 9:
			n.K, n.W = "kern", g.dim(true)
		default:
			n.K, n.W = "hbox", g.dim(false)
		}
	}
	switch n.K {
	case "char", "accent", "auto", "hrule", "vrule":
	default:
		n.Typ, n.Size = "rm", 10
	}
	g.ops(n)
	return n
}

func (g *boxGen) ops(n *boxN) {
	if n.K == "hlist" || n.K == "hcent" || n.K == "auto" {
		n.Clus = g.n(16) == 0
	}
	list := n.K == "hlist" || n.K == "hcent" || n.K == "vlist" || n.K == "vcent"
	if list {
		k := dictInt(g.t, g.n(4)-1, 0, 40)
		for i := 0; i < k; i++ {
			o := boxOp{Op: "pack", Add: g.n(3) == 0}
			o.V = g.dim(o.Add)
			if g.n(3) == 0 {
				o.V *= 8
			}
			if n.K == "vlist" || n.K == "vcent" {
				o.Inf = g.n(2) == 0
				if !o.Inf {
					o.Max = g.dim(g.n(4) == 0)
				}
			}
			n.Ops = append(n.Ops, o)
		}
	}
	if (n.K == "vlist" || n.K == "vcent") && g.n(2) == 0 {
		n.Ops = append(n.Ops, boxOp{Op: "shift", V: g.dim(true)})
	}
	if g.scales && g.n(6) == 0 {
		k := 1 + g.n(3)
		for i := 0; i < k; i++ {
			n.Ops = append(n.Ops, boxOp{Op: one(g.t, []string{"shrink", "shrink", "grow"}, "scale")})
		}
	}
}

func (g *boxGen) list(kind string, depth int) *boxN {
	n := &boxN{K: kind, Typ: "rm", Size: 10}
	horizontal := kind[0] == 'h'
	n.Kern = kind == "hlist" && g.n(2) == 0
	k := dictInt(g.t, g.n(7), 0, 1500)
	if g.long > 0 && g.n(3) == 0 {
		k, g.long = g.long+g.n(g.long), 0
	}
	for i := 0; i < k; i++ {
		g.budget--
		if depth > 0 && g.budget > 0 && g.n(5) < 2 {
			n.C = append(n.C, g.list(one(g.t, []string{"hlist", "hlist", "vlist", "vlist", "hcent", "vcent"}, "list"), depth-1))
			continue
		}
		n.C = append(n.C, g.leaf(horizontal))
	}
	g.ops(n)
	return n
}

// tower puts a list into that many others, the outermost of one of the kinds.
func (g *boxGen) tower(box *boxN, kinds []string, levels int) *boxN {
	for ; levels > 0; levels-- {
		kind := one(g.t, kinds, "kind")
		if levels > 1 {
			kind = one(g.t, []string{"hlist", "hlist", "vlist", "vlist", "hcent", "vcent"}, "list")
		}
		n := &boxN{K: kind, Typ: "rm", Size: 10}
		for i := g.n(3); i > 0; i-- {
			n.C = append(n.C, g.leaf(kind[0] == 'h'))
		}
		n.C = append(n.C, box)
		for i := g.n(3); i > 0; i-- {
			n.C = append(n.C, g.leaf(kind[0] == 'h'))
		}
		if g.n(3) == 0 {
			g.ops(n)
		}
		box = n
	}
	return box
}

func drawBoxCase(t *rapid.T, kinds []string, scales bool) boxCase {
	g := &boxGen{t: t, budget: 30, scales: scales, unit: 1}
	depth := uni(t, 4, "depth")
	switch uni(t, 30, "large") {
	case 0:
		g.long = one(t, append(manyInts(8, 30), 200, 1000), "long")
	case 1:
		depth, g.budget = 5+uni(t, 20, "levels"), 80
	case 2, 3:
		g.unit = one(t, []float64{1e-3, 0.1, 10, 300, 5000}, "unit")
	}
	box := g.list(one(t, kinds, "top"), depth)
	if uni(t, 50, "tower") == 0 {
		box = g.tower(box, kinds, 5+uni(t, one(t, append(manyInts(6, 30), 100), "max"), "levels"))
	} else if k := dictInt(t, 0, 1, 300); k > 4 {
		box = g.tower(box, kinds, k)
	}
	return boxCase{
		Box: box,
		DPI: drawDPI(t),
		OX:  g.dim(true), OY: g.dim(true), OX2: 10 * g.dim(true), OY2: 10 * g.dim(true),
		BE: drawBE(t),
	}
}

func (n *boxN) walk(f func(*boxN)) {
	f(n)
	for _, c := range n.C {
		c.walk(f)
	}
}

// bad tells a case shrunk out of the domain.
func (n *boxN) bad() bool {
	bad := false
	n.walk(func(n *boxN) {
		switch n.K {
		case "auto":
			bad = bad || n.Sym == " " || n.Size <= 0 || (n.W == 0 && n.H+n.D == 0)
		case "char", "accent":
			bad = bad || n.Size <= 0
		}
	})
	return bad
}

// overgrown tells a case with a box that is shrunk after it was grown 7 times
// or more than shrunk, which is a known finding of C16.
func (n *boxN) overgrown(later []string) bool {
	var ops []string
	for _, o := range n.Ops {
		ops = append(ops, o.Op)
	}
	ops = append(ops, later...)
	level := 0
	for _, o := range ops {
		switch o {
		case "grow":
			level++
		case "shrink":
			level--
			if level >= 6 {
				return true
			}
		}
	}
	for _, c := range n.C {
		if c.overgrown(ops) {
			return true
		}
	}
	return false
}

// --- comparison ---

func (b *bx) count() int {
	k := 1
	for _, c := range b.C {
		k += c.count()
	}
	return k
}

// sameBox compares a box tree with the model, member by member.
func sameBox(got tex.Node, want *bx, tol float64, at string) error {
	d := func(v float64) float64 { return tol * (1 + math.Abs(v)) }
	dim := func(what string, g, w float64) error {
		if isInf(w) && isInf(g) || near(g, w, d(w)) {
			return nil
		}
		return fmt.Errorf("%s: %s is %g, want %g", at, what, g, w)
	}
	if err := dim("width", got.Width(), want.W); err != nil {
		return err
	}
	if err := dim("height", got.Height(), want.H); err != nil {
		return err
	}
	if err := dim("depth", got.Depth(), want.D); err != nil {
		return err
	}
	if !want.isList() {
		return nil
	}
	tree, ok := got.(tex.Tree)
	if !ok {
		return fmt.Errorf("%s: %T is not a list", at, got)
	}
	if got, ok := bare(got).(*tex.HList); ok {
		if err := dim("shift", got.Shift(), want.Shift); err != nil {
			return err
		}
	}
	if g := tree.GlueSign(); g != want.sign {
		return fmt.Errorf("%s: glue sign is %d, want %d", at, g, want.sign)
	}
	if want.sign != 0 {
		if g := tree.GlueOrder(); g != want.order {
			return fmt.Errorf("%s: glue order is %d, want %d", at, g, want.order)
		}
		if err := dim("glue setting", tree.GlueSet(), want.set); err != nil {
			return err
		}
	}
	if len(tree.Nodes()) != len(want.C) {
		return fmt.Errorf("%s: %d members, want %d", at, len(tree.Nodes()), len(want.C))
	}
	for i, n := range tree.Nodes() {
		if err := sameBox(n, want.C[i], tol, fmt.Sprintf("%s/%d:%s", at, i, want.C[i].K)); err != nil {
			return err
		}
	}
	return nil
}

// noise tells whether the setting of a glue depends on floating-point noise:
// the excess is zero but for rounding errors.
func (b *bx) noise() bool {
	if b.isList() {
		var x float64
		for _, c := range b.C {
			switch {
			case b.K == "hlist" || c.K == "glue" || c.K == "kern":
				x += math.Abs(c.W)
			default:
				x += math.Abs(c.H) + math.Abs(c.D)
			}
		}
		if b.tight || b.sign != 0 && math.Abs(b.set) < 1e-9*(1+x) {
			return true
		}
	}
	for _, c := range b.C {
		if c.noise() {
			return true
		}
	}
	return false
}

func drawnOps(be *testBackend, tree tex.Tree, ox, oy float64) []op {
	be.ops = nil
	var sh tex.Ship
	sh.Call(ox, oy, tree)
	return be.ops
}

func (o *Obs) boxLabels(n *boxN) (leaves, glues, packs, depth int) {
	var walk func(n *boxN, d int)
	walk = func(n *boxN, d int) {
		depth = max(depth, d)
		switch n.K {
		case "char", "accent", "rule", "hrule", "vrule", "auto":
			leaves++
		case "glue":
			glues++
		case "hcent", "vcent":
			glues += 2
		}
		for _, o := range n.Ops {
			if o.Op == "pack" {
				packs++
			}
		}
		for _, c := range n.C {
			walk(c, d+1)
		}
	}
	walk(n, 0)
	o.Label("nesting: %d", min(depth, 12))
	o.Label("glues: %d", min(glues, 4))
	o.Label("packs: %d", min(packs, 4))
	return
}

// --- C14 ---

func runC14(c boxCase, o *Obs) error {
	if c.Box.bad() || c.Box.overgrown(nil) {
		return nil
	}
	be := newTestBackend(c.BE)
	want := c.Box.model(be, c.DPI)
	if want.noise() {
		o.Label("glue setting within rounding errors of none")
		return nil
	}
	got := c.Box.build(be, c.DPI)
	var touched error
	c.Box.walk(func(n *boxN) {
		if n.touched != nil {
			touched = n.touched
		}
	})
	if touched != nil {
		return touched
	}
	if err := sameBox(got, want, 1e-9, "box"); err != nil {
		return err
	}
	if len(be.ops) > 0 {
		return fmt.Errorf("packing drew %v", be.ops)
	}
	leaves, glues, packs, _ := o.boxLabels(c.Box)
	o.Label("sign: %d, order: %d", want.sign, want.order)
	o.NonTrivial(leaves >= 1 && glues+packs >= 1 && want.count() >= 4)
	return nil
}

// --- C15 ---

func runC15(c boxCase, o *Obs) error {
	if c.Box.bad() || c.Box.K[0] != 'h' || c.Box.overgrown(nil) {
		return nil
	}
	be := newTestBackend(c.BE)
	model := c.Box.model(be, c.DPI)
	if model.noise() {
		o.Label("glue setting within rounding errors of none")
		return nil
	}
	sh := ship(model, c.OX, c.OY)
	if sh.tie {
		o.Label("rounding tie (positions not compared)")
		return nil
	}
	tree := c.Box.build(be, c.DPI).(tex.Tree)
	tol := 1e-9 * 1e3
	got := drawnOps(be, tree, c.OX, c.OY)
	if err := sameOps(got, sh.ops, tol); err != nil {
		return err
	}
	again := drawnOps(be, tree, c.OX, c.OY)
	if err := sameOps(again, got, 0); err != nil {
		return fmt.Errorf("shipped again: %w", err)
	}
	moved := drawnOps(be, tree, c.OX2, c.OY2)
	for i := range moved {
		moved[i].X -= c.OX2 - c.OX
		moved[i].Y -= c.OY2 - c.OY
		if moved[i].Rect {
			moved[i].X2 -= c.OX2 - c.OX
			moved[i].Y2 -= c.OY2 - c.OY
		}
	}
	if err := sameOps(moved, got, tol); err != nil {
		return fmt.Errorf("shipped elsewhere: %w", err)
	}
	for _, v := range got {
		if !v.Rect && v.DPI != c.DPI {
			return fmt.Errorf("%v drawn at %g dpi instead of %g", v, v.DPI, c.DPI)
		}
	}
	// a shipper may be used again.
	var s tex.Ship
	be.ops = nil
	s.Call(c.OX2, c.OY2, tree)
	be.ops = nil
	s.Call(c.OX, c.OY, tree)
	if err := sameOps(be.ops, got, tol); err != nil {
		return fmt.Errorf("shipped with a used Ship: %w", err)
	}
	// also one whose backend failed half-way.
	if len(got) > 0 {
		be.ops, be.failAt = nil, 1+len(got)*2/3
		func() {
			defer func() { recover() }()
			s.Call(c.OX2, c.OY2, tree)
		}()
		be.ops, be.failAt = nil, 0
		s.Call(c.OX, c.OY, tree)
		if err := sameOps(be.ops, got, tol); err != nil {
			return fmt.Errorf("shipped with a Ship whose last call failed: %w", err)
		}
	}
	_, glues, _, depth := o.boxLabels(c.Box)
	o.Label("operations: %d", min(len(got), 10))
	o.NonTrivial(len(got) >= 2 && depth >= 2 && glues >= 0)
	return nil
}

// probeRuleSlot shows a rule of a vertical list drawn below its slot.
func probeRuleSlot() (string, bool) {
	var (
		be    = newTestBackend(beParams{Thick: 0.1, XH: 0.4})
		state = tex.NewState(be, font.Font{Name: "default", Size: 10, Type: "rm"}, 72)
		rule  = tex.NewRule(5, 2, 1, state)
		list  = tex.HListOf([]tex.Node{tex.VListOf([]tex.Node{tex.VBox(4, 0), rule})}, false)
		ops   = drawnOps(be, list, 0, 0)
	)
	bad := len(ops) == 1 && ops[0].Y == 7
	return "a rule in a vertical list is drawn one thickness below its slot: in VList{VBox(4,0), Rule(h=2,d=1)} its top is drawn at y=7 instead of 4", bad
}

// --- C16 ---

// scaledBox records what scaling changes.
type scaledBox struct {
	w, h, d, shift, set float64
	kern                []float64 // with the next sibling, and alone
	sign, order         int
	kids                []scaledBox
}

func snapshot(n tex.Node) scaledBox {
	s := scaledBox{w: n.Width(), h: n.Height(), d: n.Depth(), kern: []float64{n.Kerning(nil)}}
	if n, ok := bare(n).(*tex.HList); ok {
		s.shift = n.Shift()
	}
	if t, ok := n.(tex.Tree); ok {
		s.set, s.sign, s.order = t.GlueSet(), t.GlueSign(), t.GlueOrder()
		nodes := t.Nodes()
		for i, c := range nodes {
			k := snapshot(c)
			if i+1 < len(nodes) {
				k.kern = append(k.kern, c.Kerning(nodes[i+1]))
			}
			s.kids = append(s.kids, k)
		}
	}
	return s
}

func (s scaledBox) same(o scaledBox, f float64, at string) error {
	cmp := func(what string, got, orig float64) error {
		if isInf(orig) && isInf(got) {
			return nil
		}
		if !near(got, orig*f, 1e-9*(1+math.Abs(orig*f))) {
			return fmt.Errorf("%s: %s is %g, want %g times %g", at, what, got, f, orig)
		}
		return nil
	}
	for _, v := range []struct {
		what      string
		got, orig float64
	}{
		{"width", s.w, o.w}, {"height", s.h, o.h}, {"depth", s.d, o.d}, {"shift", s.shift, o.shift},
	} {
		if err := cmp(v.what, v.got, v.orig); err != nil {
			return err
		}
	}
	if s.sign != o.sign || s.order != o.order {
		return fmt.Errorf("%s: glue is of sign %d and order %d, was of %d, %d", at, s.sign, s.order, o.sign, o.order)
	}
	if s.sign != 0 {
		if err := cmp("glue setting", s.set, o.set); err != nil {
			return err
		}
	}
	for i := range s.kern {
		if err := cmp("kerning", s.kern[i], o.kern[i]); err != nil {
			return err
		}
	}
	if len(s.kids) != len(o.kids) {
		return fmt.Errorf("%s: %d members instead of %d", at, len(s.kids), len(o.kids))
	}
	for i := range s.kids {
		if err := s.kids[i].same(o.kids[i], f, fmt.Sprintf("%s/%d", at, i)); err != nil {
			return err
		}
	}
	return nil
}

func runC16(c boxCase, o *Obs) error {
	if c.Box.bad() || c.Box.K[0] != 'h' || c.Box.overgrown(nil) {
		return nil
	}
	if o.Known("grow-limit") && c.Box.overgrown(c.Ops) {
		o.Label("known finding: shrunk after having been grown 7 times")
		return nil
	}
	be := newTestBackend(c.BE)
	model := c.Box.model(be, c.DPI)
	if model.noise() {
		o.Label("glue setting within rounding errors of none")
		return nil
	}
	var (
		tree   = c.Box.build(be, c.DPI).(tex.Tree)
		before = snapshot(tree)
		net    = 0
	)
	for i, v := range c.Ops {
		switch v {
		case "shrink":
			tree.Shrink()
			net--
		default:
			tree.Grow()
			net++
		}
		f := math.Pow(1/0.7, float64(net))
		if err := snapshot(tree).same(before, f, "box"); err != nil {
			return fmt.Errorf("after %v: %w", c.Ops[:i+1], err)
		}
	}
	f := math.Pow(1/0.7, float64(net))
	model.scale(f)
	sh := ship(model, 0, 0)
	if sh.tie {
		o.Label("rounding tie (positions not compared)")
		return nil
	}
	got := drawnOps(be, tree, 0, 0)
	if err := sameOps(got, sh.ops, 1e-6*(1+f)); err != nil {
		return fmt.Errorf("after %v: %w", c.Ops, err)
	}
	_, _, _, depth := o.boxLabels(c.Box)
	o.Label("net scale: %d", net)
	o.NonTrivial(len(c.Ops) > 0 && len(got) >= 2 && depth >= 1)
	return nil
}

// probeGrowLimit shows a box that doesn't shrink.
func probeGrowLimit() (string, bool) {
	b := tex.HBox(1)
	for i := 0; i < 7; i++ {
		b.Grow()
	}
	w := b.Width()
	b.Shrink()
	return "a box grown 7 times or more is not scaled by a following Shrink (the size level counts the wrong way): HBox(1) stays " + fmt.Sprintf("%.4f wide", w), b.Width() == w
}

// --- C28 ---

type autoCase struct {
	Sym    string   `json:"sym"`
	H      float64  `json:"h"`
	D      float64  `json:"d"`
	Factor float64  `json:"factor"`
	Size   float64  `json:"size"`
	Typ    string   `json:"typ"`
	DPI    float64  `json:"dpi"`
	Fonts  string   `json:"fonts"` // "" for the test backend
	Extra  []string `json:"extra,omitempty"`
	BE     beParams `json:"be"`
}

func drawAuto(t *rapid.T) autoCase {
	g := &boxGen{t: t, unit: one(t, []float64{1, 1, 1, 1e-3, 0.1, 10, 300, 5000}, "unit")}
	c := autoCase{
		Sym:  one(t, []string{"(", ")", "[", "]", "|", "/", `\__sqrt__`, `\{`, `\sum`, `\int`, "a", "+", "g", `\langle`, ".", "-"}, "sym"),
		H:    2 * g.dim(false),
		D:    g.dim(true),
		Size: drawSize(t),
		Typ:  one(t, fontTyps, "typ"),
		DPI:  drawDPI(t),
		BE:   drawBE(t),
	}
	if uni(t, 20, "flat") == 0 {
		c.H = -c.D // no extent at all
	}
	switch uni(t, 6, "other") {
	case 0:
		c.Sym = oneOr(t, texNames, "macro")
	case 1:
		c.Sym = string(one(t, otherText, "char"))
	}
	if c.H+c.D < 0 {
		c.H = 1 - c.D
	}
	if uni(t, 3, "fonts") == 0 {
		c.Fonts = one(t, fontSetNames, "set")
	}
	if uni(t, 3, "factor") == 0 {
		c.Factor = one(t, []float64{1, 0.5, 2, 3.7, 0.01}, "f")
	}
	if uni(t, 2, "extra") == 0 {
		c.Extra = []string{"x", "y"}
	}
	return c
}

func runC28(c autoCase, o *Obs) error {
	if c.H+c.D < 0 || c.Size <= 0 {
		return nil
	}
	var (
		test = newTestBackend(c.BE)
		be   font.Backend
		be2  font.Backend // alike, for what is expected
		rec  func() []op
	)
	switch c.Fonts {
	case "":
		be = test
		be2 = newTestBackend(c.BE)
		rec = func() []op { return test.ops }
	default:
		cnv, tbe := newTTF(c.Fonts)
		be = tbe
		_, be2 = newTTF(c.Fonts)
		rec = func() []op { return canvasOps(cnv) }
	}
	fnt := font.Font{Name: "default", Size: c.Size, Type: c.Typ}
	state := tex.NewState(be, fnt, c.DPI)
	unit := be2.Metrics(c.Sym, fnt, c.DPI, true)
	ext := unit.Height // from the top to the bottom of the ink
	if ext <= 0 {
		return nil
	}
	list := tex.AutoHeightChar(c.Sym, c.H, c.D, state, c.Factor)
	if state.Font != fnt || state.DPI != c.DPI || state.Backend() != be {
		return fmt.Errorf("the state changed: %+v", state)
	}
	if m := be2.Metrics(c.Sym, fnt, c.DPI, true); m != unit {
		return fmt.Errorf("the metrics of the character changed: %+v, were %+v", m, unit)
	}
	factor := c.Factor
	if factor == 0 {
		factor = (c.H + c.D) / ext
	}
	tol := 1e-9 * (1 + c.Size + c.Size*factor)
	var ch *tex.Char
	for _, n := range list.Nodes() {
		if n, ok := n.(*tex.Char); ok {
			if ch != nil {
				return fmt.Errorf("more than one character")
			}
			ch = n
		}
	}
	if ch == nil || ch.String() != c.Sym {
		return fmt.Errorf("character %v, want %q", ch, c.Sym)
	}
	if got := ch.Height() + ch.Depth(); !near(got, ext*factor, tol) {
		return fmt.Errorf("extent %g, want %g", got, ext*factor)
	}
	if c.Factor == 0 && !near(ch.Height()+ch.Depth(), c.H+c.D, tol) {
		return fmt.Errorf("extent %g, requested %g", ch.Height()+ch.Depth(), c.H+c.D)
	}
	if got := list.Shift() + ch.Depth(); !near(got, c.D, tol) {
		return fmt.Errorf("bottom is at a depth of %g, want %g", got, c.D)
	}
	if got, want := list.Width(), unit.Advance*factor; !near(got, want, tol) {
		return fmt.Errorf("width %g, want %g", got, want)
	}
	if got, want := list.Height(), math.Max(0, unit.Iceberg*factor); !near(got, want, tol) {
		return fmt.Errorf("height %g, want %g", got, want)
	}
	if got, want := list.Depth(), math.Max(0, (unit.Height-unit.Iceberg)*factor); !near(got, want, tol) {
		return fmt.Errorf("depth %g, want %g", got, want)
	}
	// drawn in a list: its bottom is at the requested depth.
	nodes := []tex.Node{tex.HBox(3)}
	for _, s := range c.Extra {
		nodes = append(nodes, tex.NewChar(s, state, true))
	}
	nodes = append(nodes, list)
	for _, s := range c.Extra {
		nodes = append(nodes, tex.NewChar(s, state, true))
	}
	x := 3.0
	for range c.Extra {
		x += be.Metrics("x", fnt, c.DPI, true).Advance
	}
	all := tex.HListOf(nodes, false)
	var sh tex.Ship
	sh.Call(0, 0, all)
	ops := rec()
	k := len(c.Extra)
	if len(ops) != 2*k+1 {
		return fmt.Errorf("%d drawing operations, want %d", len(ops), 2*k+1)
	}
	g := ops[k]
	if !near(g.Size, c.Size*factor, tol) {
		return fmt.Errorf("drawn at size %g, want %g", g.Size, c.Size*factor)
	}
	bottom := g.Y - all.Height() + (unit.Height-unit.Iceberg)*factor
	if !near(bottom, c.D, tol+1e-9*all.Height()) {
		return fmt.Errorf("the bottom is drawn at a depth of %g, want %g", bottom, c.D)
	}
	for i, v := range ops {
		if i != k && v.Size != c.Size {
			return fmt.Errorf("another character is drawn at size %g, want %g", v.Size, c.Size)
		}
	}
	o.Label("fonts: %q", c.Fonts)
	o.Label("factor given: %v", c.Factor != 0)
	o.NonTrivial(factor != 1)
	return nil
}

func init() {
	register("C14", "box trees built by random sequences of list, pack, shift, shrink and grow operations; dimensions and glue setting of every list are compared with the model; non-trivial: at least 4 boxes, one visible leaf and one glue or pack",
		500000, 2500000, func(t *rapid.T) boxCase {
			return drawBoxCase(t, []string{"hlist", "vlist", "hcent", "vcent"}, true)
		}, runC14)
	register("C15", "box trees as for C14, shipped at two origins, again, and with a used shipper; non-trivial: at least two drawing operations from a tree of depth 2",
		500000, 2500000, func(t *rapid.T) boxCase {
			return drawBoxCase(t, []string{"hlist", "hlist", "hcent"}, true)
		}, runC15, withKnown("rule-slot", probeRuleSlot))
	register("C16", "box trees as for C14 under random sequences of up to 10 shrinks and grows; every dimension, kerning, glue setting and drawn operation is compared with the original scaled; non-trivial: at least one scaling of a nested tree which draws two operations",
		300000, 1500000, func(t *rapid.T) boxCase {
			c := drawBoxCase(t, []string{"hlist", "hlist", "hcent"}, true)
			n := 1 + uni(t, 10, "scalings")
			bias := uni(t, 3, "bias")
			for i := 0; i < n; i++ {
				switch k := uni(t, 4, "scale"); {
				case bias == 0 && k > 0, bias == 1 && k > 1, bias == 2 && k == 3:
					c.Ops = append(c.Ops, "shrink")
				default:
					c.Ops = append(c.Ops, "grow")
				}
			}
			return c
		}, runC16, withKnown("grow-limit", probeGrowLimit))
	register("C28", "characters auto-sized to random heights and depths, or by a factor, with random metrics and with the packaged fonts; non-trivial: the character is scaled",
		400000, 2000000, drawAuto, runC28)
}
