package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"time"
	"unicode/utf8"

	"github.com/go-latex/latex"
	"github.com/go-latex/latex/ast"
	"github.com/go-latex/latex/drawtex"
	"github.com/go-latex/latex/drawtex/drawimg"
	"github.com/go-latex/latex/font"
	"github.com/go-latex/latex/font/ttf"
	"github.com/go-latex/latex/mtex"
	"github.com/go-latex/latex/mtex/symbols"
	"github.com/go-latex/latex/tex"
	"pgregory.net/rapid"
)

// This file holds the checks of histories and schedules of calls, and of the
// command.

// histOp is a call of the library.
type histOp struct {
	Op     string     `json:"op"` // parse, typeset, render, image, query, set
	Text   []byte     `json:"text,omitempty"`
	Set    string     `json:"set,omitempty"`
	Size   float64    `json:"size,omitempty"`
	DPI    float64    `json:"dpi,omitempty"`
	Shared bool       `json:"shared,omitempty"` // uses the objects of earlier calls
	Own    bool       `json:"own,omitempty"`    // the fonts are handed over in a variable used for other ones before
	Query  *fontQuery `json:"query,omitempty"`
	Reps   int        `json:"reps,omitempty"`   // calls; the last one counts
	Change bool       `json:"change,omitempty"` // the caller changes the result; else it is looked at again later
}

// hasMath tells in which ways an operation asks for hyphens: in math, and
// outside of it.
func (op histOp) hyphens() (inMath, inText bool) {
	if q := op.Query; q != nil {
		switch {
		case q.Sym != "-" && q.Sym2 != "-":
			return false, false
		case q.Op == "metrics" && !q.Math:
			return false, true
		}
		return true, false
	}
	if !bytes.ContainsRune(op.Text, '-') {
		return false, false
	}
	tree, v, _ := refParse(string(op.Text))
	if v != accepted {
		return true, true
	}
	var visit func(ns []*N, math, deep bool)
	visit = func(ns []*N, math, deep bool) {
		for _, n := range ns {
			if n.K == "sym" && n.T == "-" {
				inMath = inMath || math || deep
				inText = inText || !math
			}
			visit(n.C, math || n.K == "math", deep || n.K == "mac")
		}
	}
	visit(tree, false, false)
	return inMath, inText
}

// histState holds the objects shared by a history.
type histState struct {
	cnv map[string]*drawtex.Canvas
	be  map[string]*ttf.Backend
	buf bytes.Buffer
	img *drawimg.Renderer

	own ttf.Fonts // the caller's variable for fonts

	held []heldResult
}

// heldResult is a result handed out by an operation.
type heldResult struct {
	op     int // number of the operation
	digest string
	again  func() string
}

// run performs operations, and looks at their results again at the end.
func (s *histState) run(ops []histOp, after func()) []string {
	var out []string
	for i, op := range ops {
		n := len(s.held)
		out = append(out, s.do(op))
		for j := range s.held[n:] {
			s.held[n+j].op = i
		}
		after()
	}
	for _, h := range s.held {
		if d := h.again(); d != h.digest {
			out[h.op] += fmt.Sprintf(laterMark+"from %s to %s", h.digest, d)
		}
	}
	return out
}

const laterMark = ", and the result changed later "

// result hands a result to the caller, who either changes it or looks at it
// again after all operations.
func (s *histState) result(op histOp, digest func() string, change func()) string {
	d := digest()
	if op.Change {
		change()
	} else if len(s.held) < 100 {
		s.held = append(s.held, heldResult{digest: d, again: digest})
	}
	return d
}

// scribble changes everything in a tree.
func scribble(n ast.Node) {
	list := func(l ast.List) {
		for i, x := range l {
			scribble(x)
			l[i] = &ast.Word{WordPos: 7, Text: "changed"}
		}
	}
	switch n := n.(type) {
	case ast.List:
		list(n)
	case *ast.Macro:
		if n.Name != nil {
			n.Name.NamePos, n.Name.Name = 7, `\changed`
		}
		list(n.Args)
		n.Args = nil
	case *ast.Arg:
		list(n.List)
		*n = ast.Arg{}
	case *ast.OptArg:
		list(n.List)
		*n = ast.OptArg{}
	case *ast.MathExpr:
		list(n.List)
		*n = ast.MathExpr{}
	case *ast.Word:
		*n = ast.Word{Text: "changed"}
	case *ast.Literal:
		*n = ast.Literal{Text: "0"}
	case *ast.Symbol:
		*n = ast.Symbol{Text: "!"}
	case *ast.Sub:
		scribble(n.Node)
		*n = ast.Sub{}
	case *ast.Sup:
		scribble(n.Node)
		*n = ast.Sup{}
	}
}

func newHistState() *histState {
	s := &histState{cnv: map[string]*drawtex.Canvas{}, be: map[string]*ttf.Backend{}}
	s.img = drawimg.NewRenderer(&s.buf)
	return s
}

// fonts returns the fonts of an operation.
func (s *histState) fonts(op histOp) *ttf.Fonts {
	f := fontSet(op.Set)
	if op.Own && f != nil && op.Op != "typeset" { // a box goes on using them
		s.own = *f
		return &s.own
	}
	return f
}

func (s *histState) backend(op histOp) (*drawtex.Canvas, *ttf.Backend) {
	set := op.Set
	if !op.Shared {
		if f := s.fonts(op); f != nil {
			cnv := drawtex.New()
			return cnv, ttf.NewFrom(cnv, f)
		}
		return newTTF(set)
	}
	if s.be[set] == nil {
		s.cnv[set], s.be[set] = newTTF(set)
	}
	return s.cnv[set], s.be[set]
}

// do performs an operation and digests its result.
func (s *histState) do(op histOp) (digest string) {
	if op.Op == "flood" {
		return s.flood(op)
	}
	for i := 1; i < op.Reps; i++ {
		s.do1(op)
	}
	return s.do1(op)
}

// flood processes many different things in many sizes.
func (s *histState) flood(op histOp) string {
	_, be := s.backend(op)
	for i := 0; i < op.Reps; i++ {
		size := 4 + 0.35*float64(i)
		a, b := floodSyms[i%len(floodSyms)], floodSyms[(7*i+3)%len(floodSyms)]
		text := fmt.Sprintf(`%c%c $\frac{%d}{%c}+\sqrt{%c_%d}$`, a, b, i, a, b, i)
		_, _ = latex.ParseExpr(text)
		_, _ = latex.ParseExpr(text[:len(text)-2])
		_, _ = mtex.Parse(text, size, 72, be)
		for k := 0; k < 10; k++ {
			be.Metrics(string(floodSyms[(i+k*k)%len(floodSyms)]), font.Font{Name: "default", Type: fontTypes[k%len(fontTypes)], Size: size}, 72, true)
		}
	}
	return ""
}

func (s *histState) do1(op histOp) (digest string) {
	defer func() {
		if e := recover(); e != nil {
			if strings.HasPrefix(fmt.Sprint(e), "harness:") {
				panic(e)
			}
			digest = fmt.Sprintf("panic: %v", e)
		}
	}()
	var fonts ttf.Fonts
	if f := fontSet(op.Set); f != nil {
		fonts = *f
		defer func() {
			if *f != fonts {
				digest += ", fonts modified"
			}
		}()
	}
	sum := func(parts ...any) string {
		h := fnv.New64a()
		fmt.Fprintln(h, parts...)
		return fmt.Sprintf("%s %016x", op.Op, h.Sum64())
	}
	text := string(op.Text)
	switch op.Op {
	case "parse":
		n, err := latex.ParseExpr(text)
		if err != nil {
			return "error"
		}
		return s.result(op, func() string {
			var (
				list  []any
				print strings.Builder
			)
			ast.Inspect(n, func(n ast.Node) bool {
				if n == nil {
					list = append(list, "up")
					return true
				}
				list = append(list, fmt.Sprintf("%T", n), n.Pos(), n.End())
				return true
			})
			ast.Print(&print, n)
			return sum(print.String(), list)
		}, func() { scribble(n) })

	case "typeset":
		cnv, be := s.backend(op)
		n := len(cnv.Ops())
		box, err := mtex.Parse(text, op.Size, op.DPI, be)
		if err != nil {
			if len(cnv.Ops()) != n {
				return "error, with drawing operations"
			}
			return "error"
		}
		early := exactOps(cnv.Ops()[n:])
		return s.result(op, func() string {
			n := len(cnv.Ops())
			var sh tex.Ship
			sh.Call(0, 0, box.(tex.Tree))
			return sum(exact(box.Width(), box.Height(), box.Depth()), early, exactOps(cnv.Ops()[n:]))
		}, func() {
			box.Shrink()
			nodes := box.(tex.Tree).Nodes()
			for i := range nodes {
				nodes[i] = tex.HBox(1000)
			}
		})

	case "render":
		var dst recRenderer
		if err := mtex.Render(&dst, text, op.Size, op.DPI, s.fonts(op)); err != nil || len(dst.calls) != 1 {
			return fmt.Sprintf("error, %d calls", len(dst.calls))
		}
		c := dst.calls[0]
		return s.result(op, func() string { return sum(exact(c.w, c.h, c.dpi), exactOps(c.cnv.Ops())) }, func() {
			ops := c.cnv.Ops()
			for i := range ops {
				ops[i] = drawtex.RectOp{X1: 1, Y1: 2, X2: 3, Y2: 4}
			}
			for i := 0; i < 20; i++ {
				c.cnv.RenderRectFilled(4, 3, 2, 1)
			}
		})

	case "image":
		img, buf := s.img, &s.buf
		if !op.Shared {
			buf = new(bytes.Buffer)
			img = drawimg.NewRenderer(buf)
		}
		if !imageFits(text, op.Size, op.DPI, s.fonts(op)) {
			return "too many pixels to try"
		}
		n := buf.Len()
		if err := mtex.Render(img, text, op.Size, op.DPI, s.fonts(op)); err != nil {
			// a canvas that is too small for an image is refused.
			return fmt.Sprintf("error, %d bytes", buf.Len()-n)
		}
		return sum(buf.Bytes()[n:])

	case "query":
		cnv, be := s.backend(op)
		q := *op.Query
		switch q.Op {
		case "metrics":
			return sum(exactAny(be.Metrics(q.Sym, q.Font, q.DPI, q.Math)))
		case "kern":
			return sum(exact(be.Kern(q.Font, q.Sym, q.Fnt2, q.Sym2, q.DPI)))
		case "xheight":
			return sum(exact(be.XHeight(q.Font, q.DPI)))
		case "thick":
			return sum(exact(be.UnderlineThickness(q.Font, q.DPI)))
		case "render":
			n := len(cnv.Ops())
			be.RenderGlyph(q.X, q.Y, q.Font, q.Sym, q.DPI)
			return sum(exactOps(cnv.Ops()[n:]))
		case "rect":
			n := len(cnv.Ops())
			be.RenderRectFilled(q.X, q.Y, q.X2, q.Y2)
			return sum(exactOps(cnv.Ops()[n:]))
		}
		panic("harness: query " + q.Op)

	case "set":
		var out []bool
		for _, set := range symbolSets() {
			out = append(out, set.Has(text))
		}
		u := symbols.UnionOf(symbols.RelationSymbols, symbols.ArrowSymbols)
		keys := symbols.ArrowSymbols.Keys()
		made := symbols.NewSet(keys...)
		return s.result(op, func() string {
			return sum(out, symbols.IsSpaced(text), u.Has(text), made.Has(text), len(u), len(made), keys)
		}, func() {
			for i, key := range keys {
				keys[i] = text
				delete(u, key)
				delete(made, key)
			}
			u[text+"!"] = struct{}{}
		})
	}
	panic("harness: operation " + op.Op)
}

func symbolSets() []symbols.Set {
	return []symbols.Set{
		symbols.BinaryOperators, symbols.RelationSymbols, symbols.ArrowSymbols, symbols.PunctuationSymbols,
		symbols.OverUnderSymbols, symbols.OverUnderFunctions, symbols.DropSubSymbols, symbols.FontNames,
		symbols.FunctionNames, symbols.AmbiDelim, symbols.LeftDelim, symbols.RightDelim, symbols.SpacedSymbols,
	}
}

func exact(vs ...float64) string {
	var o strings.Builder
	for _, v := range vs {
		fmt.Fprintf(&o, "%x ", math.Float64bits(v))
	}
	return o.String()
}

func exactAny(v any) string {
	raw, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%+v", v) // not a number
	}
	return string(raw)
}

func exactOps(ops []drawtex.Op) string {
	var o strings.Builder
	for _, v := range ops {
		switch v := v.(type) {
		case drawtex.GlyphOp:
			g := v.Glyph
			fmt.Fprintln(&o, "glyph", exact(v.X, v.Y, g.Size, g.Offset), g.Postscript, g.Symbol, g.Num, exactAny(g.Metrics))
		case drawtex.RectOp:
			fmt.Fprintln(&o, "rect", exact(v.X1, v.Y1, v.X2, v.Y2))
		}
	}
	return o.String()
}

// valid tells whether an operation is within the domain of the checks.
func (op histOp) valid() bool {
	_, known := rawFonts[op.Set]
	switch op.Op {
	case "parse", "set":
		return op.Set == "default"
	case "typeset", "render":
		return known && op.Size > 0 && op.DPI > 0
	case "image":
		return known && op.Size > 0 && op.DPI > 0 && op.Size*op.DPI <= 20000
	case "query":
		return known && op.Query != nil
	case "flood":
		return known && op.Reps <= 1000
	}
	return false
}

// fresh performs operations in a process of its own.
func fresh(ops []histOp) ([]string, error) {
	var c = histCase{Ops: ops}
	raw, err := freshRun("history", c)
	if err != nil {
		return nil, err
	}
	var out []string
	if err := json.Unmarshal(raw, &out); err != nil || len(out) != len(ops) {
		panic(fmt.Errorf("harness: bad reply %q", raw))
	}
	return out, nil
}

func freshRun(what string, in any) ([]byte, error) {
	raw, err := json.Marshal(in)
	if err != nil {
		panic(fmt.Errorf("harness: %w", err))
	}
	exe, err := os.Executable()
	if err != nil {
		panic(fmt.Errorf("harness: %w", err))
	}
	var out bytes.Buffer
	var se tail
	cmd := exec.Command(exe, "-fresh", what)
	cmd.Stdin, cmd.Stdout, cmd.Stderr = bytes.NewReader(raw), &out, &se
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	if err := cmd.Run(); err != nil {
		msg := se.String()
		if strings.Contains(msg, "harness:") || cmd.ProcessState == nil || !cmd.ProcessState.Exited() {
			panic(fmt.Errorf("harness: %v: %s", err, msg))
		}
		return nil, fmt.Errorf("%v\n%s", err, clip(msg, 6000))
	}
	return out.Bytes(), nil
}

// freshMain is the process started by fresh.
func freshMain(what string) {
	raw, err := io.ReadAll(os.Stdin)
	if err != nil {
		panic(fmt.Errorf("harness: %w", err))
	}
	log.SetOutput(io.Discard)
	go watchdogReplay{}.loop()
	var out any
	switch what {
	case "history":
		var c histCase
		if err := json.Unmarshal(raw, &c); err != nil {
			panic(fmt.Errorf("harness: %w", err))
		}
		out = newHistState().run(c.Ops, func() {})
	case "jobs":
		var c jobsCase
		if err := json.Unmarshal(raw, &c); err != nil {
			panic(fmt.Errorf("harness: %w", err))
		}
		s := ""
		if err := c.decide(); err != nil {
			s = err.Error()
		}
		out = s
	default:
		panic("harness: " + what)
	}
	if err := json.NewEncoder(os.Stdout).Encode(out); err != nil {
		panic(fmt.Errorf("harness: %w", err))
	}
}

// --- C23 ---

type histCase struct {
	Ops []histOp `json:"ops"`
}

const shrinkFactor = 0.7

var shrunk12 = func(size float64) float64 { return size * shrinkFactor }(12) // rounded as by the code under test

func drawHistText(t *rapid.T) []byte {
	switch uni(t, 7, "text") {
	case 0:
		return drawTextCase(t).Text
	case 1:
		s := writeExpr(genExpr(t, profParse(), 1+uni(t, 12, "budget")), genBlanks(t, true))
		return []byte(s.text)
	case 3:
		return []byte(one(t, []string{"a-b", "$a-b$", `\frac{-}{x}`, `$\frac{-1}{x}-\sqrt{-}$`, "-", `\sqrt{a-b}`, "$-$", "x-", "$\\alpha-\\sqrt{x}$"}, "hyphens"))
	case 2:
		text := writeExpr(genExpr(t, profTypeset(), 1+uni(t, 12, "budget")), nil).text
		i := uni(t, len(text)+1, "at")
		return []byte(text[:i] + one(t, unsupportedBits, "bad") + text[i:])
	default:
		expr := genExpr(t, profTypeset(), 1+uni(t, 12, "budget"))
		return []byte(writeExpr(expr, genBlanks(t, true)).text)
	}
}

func drawHistOp(t *rapid.T, texts [][]byte, sets []string) histOp {
	op := histOp{
		Op:  one(t, []string{"parse", "typeset", "typeset", "typeset", "render", "image", "query", "query", "set"}, "op"),
		Set: one(t, sets, "set"),
	}
	op.Shared = uni(t, 4, "shared") != 0
	op.Change = uni(t, 3, "change") == 0
	op.Own = uni(t, 4, "own") == 0
	if uni(t, 10, "reps") == 0 {
		op.Reps = 2 + uni(t, 30, "n")
	}
	op.Reps = dictInt(t, op.Reps, 2, 300)
	switch op.Op {
	case "parse":
		op.Set = "default"
		op.Text = one(t, texts, "text")
	case "typeset", "render":
		op.Text = one(t, texts, "text")
		op.Size, op.DPI = one(t, []float64{12, 12, 10, 20, shrunk12}, "size"), one(t, []float64{72, 72, 100}, "dpi")
		op.Size, op.DPI = dictNum(t, op.Size, 0.1, 200), dictNum(t, op.DPI, 1, 300)
	case "image":
		op.Text = one(t, texts, "text")
		op.Size, op.DPI = one(t, []float64{12, 10, 20}, "size"), one(t, []float64{72, 100}, "dpi")
		op.Reps = 0
	case "query":
		c := drawFontCase(t, []string{"metrics", "metrics", "kern", "render", "rect", "xheight", "thick"}, 1)
		q := c.Queries[0]
		if uni(t, 3, "pool") != 0 {
			// likely to meet the glyphs of the other operations.
			fnt := func() font.Font {
				return font.Font{Name: "default", Type: one(t, []string{"it", "it", "rm", "rm", "bf", "default"}, "type"), Size: one(t, []float64{12, 12, 10, 20, shrunk12}, "size")}
			}
			q.Font, q.Fnt2, q.DPI = fnt(), fnt(), one(t, []float64{72, 72, 100}, "dpi")
			sym := func() string { return one(t, []string{"-", "x", "a", "+", "1", `\alpha`, `\sqrt`, "("}, "sym") }
			q.Sym = sym()
			if q.Sym2 != "" {
				q.Sym2 = sym()
			}
			q.Math = q.Math || utf8.RuneCountInString(q.Sym) > 1
		}
		op.Query = &q
	case "set":
		op.Set = "default"
		op.Text = []byte(oneOr(t, texNames, "name"))
	}
	return op
}

func drawHistCase(t *rapid.T) histCase {
	var texts [][]byte
	for i := 0; i < 2+uni(t, 4, "texts"); i++ {
		texts = append(texts, drawHistText(t))
	}
	sets := []string{one(t, fontSetNames, "set1"), one(t, fontSetNames, "set2")}
	n := 2 + uni(t, 12, "ops")
	if uni(t, 20, "long") == 0 {
		n = 15 + uni(t, 60, "longops")
	}
	n = dictInt(t, n, 2, 150)
	var c histCase
	if uni(t, 4, "flood") == 0 {
		c.Ops = append(c.Ops, histOp{Op: "flood", Set: sets[0], Shared: uni(t, 4, "shared") != 0, Reps: one(t, []int{5, 40, 200}, "floods")})
	}
	for i := len(c.Ops); i < n; i++ {
		if i > 0 && uni(t, 4, "again") == 0 {
			c.Ops = append(c.Ops, c.Ops[uni(t, i, "which")])
			continue
		}
		c.Ops = append(c.Ops, drawHistOp(t, texts, sets))
	}
	return c
}

var (
	soloMu sync.Mutex
	solo   = map[string]string{}
)

// alone is the digest of an operation in a process of its own.
func alone(op histOp) (string, error) {
	op.Reps, op.Change, op.Own = 0, false, false
	raw, _ := json.Marshal(op)
	soloMu.Lock()
	d, ok := solo[string(raw)]
	soloMu.Unlock()
	if ok {
		return d, nil
	}
	out, err := fresh([]histOp{op})
	if err != nil {
		return "", err
	}
	soloMu.Lock()
	if len(solo) > 20000 {
		solo = map[string]string{}
	}
	solo[string(raw)] = out[0]
	soloMu.Unlock()
	return out[0], nil
}

func runC23(c histCase, o *Obs) error {
	if len(c.Ops) == 0 {
		return nil
	}
	for _, op := range c.Ops {
		if !op.valid() {
			return nil
		}
	}
	got, err := fresh(c.Ops)
	if err != nil {
		return fmt.Errorf("history: %w", err)
	}
	type seen struct{ math, text bool }
	var (
		hyphens = map[string]seen{}
		good    int
		failed  bool
		last    = len(c.Ops) - 1
	)
	for i, op := range c.Ops {
		var stale bool
		if op.Shared && (op.Op == "typeset" || op.Op == "query") {
			m, x := op.hyphens()
			if s := hyphens[op.Set]; m || x {
				s.math, s.text = s.math || m, s.text || x
				hyphens[op.Set] = s
				stale = s.math && s.text
			}
		}
		if strings.Contains(got[i], laterMark) {
			raw, _ := json.Marshal(op)
			return fmt.Errorf("operation %d, %s (%q), gives %s", i, raw, op.Text, got[i])
		}
		// the last operations, and the ones that repeat an earlier one.
		if i < last-2 || op.Op == "flood" {
			o.Label("flood: %v", op.Op == "flood")
			continue
		}
		if stale && o.Known("stale-math") {
			o.Label("stale hyphen")
			continue
		}
		want, err := alone(op)
		if err != nil {
			return fmt.Errorf("operation %d alone: %w", i, err)
		}
		if got[i] != want {
			raw, _ := json.Marshal(op)
			return fmt.Errorf("operation %d, %s (%q), gives %s after the others, and %s alone", i, raw, op.Text, got[i], want)
		}
		if strings.HasPrefix(want, "error") {
			failed = true
		} else {
			good++
		}
		o.Label("%s, shared %v", op.Op, op.Shared)
	}
	o.NonTrivial(good >= 1 && len(c.Ops) >= 4)
	o.Label("failing call among the compared ones: %v", failed)
	return nil
}

func probeStaleHistory() (string, bool) {
	op := func(text string, size float64) histOp {
		return histOp{Op: "typeset", Text: []byte(text), Set: "lm", Size: size, DPI: 72, Shared: true}
	}
	size := 12.0
	ops := []histOp{op(`\frac{-}{x}`, size), op("a-b", size*shrinkFactor)}
	got, err := fresh(ops)
	if err != nil {
		return "", false
	}
	want, err := fresh(ops[1:])
	if err != nil {
		return "", false
	}
	return "typesetting a-b at size 8.4 with a ttf.Backend that drew \\frac{-}{x} at size 12 before gives a minus sign instead of a hyphen: the glyph cache is not keyed by the math flag", got[1] != want[0]
}

// --- C22 ---

type jobsCase struct {
	Jobs  [][]histOp `json:"jobs"`            // of each goroutine
	Cold  bool       `json:"cold,omitempty"`  // in a process of its own: nothing was used before
	Yield bool       `json:"yield,omitempty"` // yield between operations
}

func drawJobsCase(t *rapid.T) jobsCase {
	c := jobsCase{Cold: uni(t, 8, "cold") == 0, Yield: uni(t, 2, "yield") == 0}
	var texts [][]byte
	for i := 0; i < 1+uni(t, 5, "texts"); i++ {
		texts = append(texts, drawHistText(t))
	}
	sets := []string{"default", "lm", "liberation"}
	if uni(t, 3, "other") == 0 {
		sets = append(sets, "stix", "mixed")
	}
	n := 2 + uni(t, 7, "goroutines")
	if uni(t, 15, "crowd") == 0 {
		n = 9 + uni(t, 40, "crowd")
	}
	same := uni(t, 3, "same") == 0
	for i := 0; i < n; i++ {
		var ops []histOp
		if same && i > 0 {
			ops = c.Jobs[0]
		} else {
			for j := 0; j < 1+uni(t, 4, "ops"); j++ {
				op := drawHistOp(t, texts, sets)
				if op.Op == "image" && op.Size > 12 {
					op.Size = 12
				}
				op.Reps = 0
				ops = append(ops, op)
			}
		}
		c.Jobs = append(c.Jobs, ops)
	}
	return c
}

func (c jobsCase) decide() error {
	var (
		got   = make([][]string, len(c.Jobs))
		ready sync.WaitGroup
		done  sync.WaitGroup
		start = make(chan bool)
	)
	for i := range c.Jobs {
		ready.Add(1)
		done.Add(1)
		go func() {
			defer done.Done()
			s := newHistState() // objects are shared within a goroutine only
			ready.Done()
			<-start
			got[i] = s.run(c.Jobs[i], func() {
				if c.Yield {
					runtime.Gosched()
				}
			})
		}()
	}
	ready.Wait()
	close(start)
	done.Wait()
	for i := range c.Jobs {
		all := newHistState().run(c.Jobs[i], func() {})
		for j, op := range c.Jobs[i] {
			want := all[j]
			if strings.Contains(want, laterMark) {
				want, _, _ = strings.Cut(want, laterMark)
			}
			if got[i][j] != want {
				raw, _ := json.Marshal(op)
				return fmt.Errorf("goroutine %d, operation %d, %s (%q), gives %s, and %s when run alone", i, j, raw, op.Text, got[i][j], want)
			}
		}
	}
	return nil
}

func runC22(c jobsCase, o *Obs) error {
	n := 0
	for _, job := range c.Jobs {
		for _, op := range job {
			if !op.valid() {
				return nil
			}
			n++
			o.Label("%s", op.Op)
		}
	}
	o.NonTrivial(len(c.Jobs) >= 2 && n >= 4)
	o.Label("cold: %v", c.Cold)
	if !c.Cold {
		return c.decide()
	}
	raw, err := freshRun("jobs", c)
	if err != nil {
		return err
	}
	var s string
	if err := json.Unmarshal(raw, &s); err != nil {
		panic(fmt.Errorf("harness: bad reply %q", raw))
	}
	if s != "" {
		return fmt.Errorf("%s", s)
	}
	return nil
}

// --- C26 ---

type cmdCase struct {
	Text    []byte  `json:"text"`
	Size    float64 `json:"size"` // 0 for the default
	DPI     float64 `json:"dpi"`  // 0 for the default
	Path    string  `json:"path"`
	Form    int     `json:"form"` // how flags are written
	Args    int     `json:"args"` // number of expressions
	BadFlag string  `json:"badflag,omitempty"`
	Name    int     `json:"name,omitempty"`
	Twice   bool    `json:"twice,omitempty"` // flags are given twice, the last ones count
}

var (
	cmdPaths = []string{"default", "new", "new", "existing", "longer", "sub", "absolute", "unicode", "dash", "link", "other type", "odd",
		"missing dir", "directory", "under file", "full", "empty"}
	cmdBadFlags = []string{"-nosuch", "-dpi=x", "-font-size=", "-font-size=1x"}
)

// aroundTexts are put around expressions; they mustn't be trimmed.
var aroundTexts = []string{"", "", " ", "\t", "\n", "\\\n", "\\ ", "\\\t", "\r\n", "%", "$", "{", "}", "'", "\"", "\u00a0", "-", "--", "=", "\\"}

func drawCmdCase(t *rapid.T) cmdCase {
	c := cmdCase{Path: one(t, cmdPaths, "path"), Form: uni(t, 16, "form"), Args: 1}
	switch uni(t, 12, "special") {
	case 0:
		c.Args = one(t, []int{0, 0, 2, 3}, "args")
	case 1:
		c.BadFlag = one(t, cmdBadFlags, "badflag")
	}
	if uni(t, 3, "size") != 0 {
		c.Size = drawSize(t)
	}
	if uni(t, 3, "dpi") != 0 {
		c.DPI = drawDPI(t)
	}
	for {
		c.Text = drawHistText(t)
		if !bytes.ContainsRune(c.Text, 0) && len(c.Text) < 100000 {
			break
		}
	}
	if uni(t, 20, "empty") == 0 {
		c.Text = nil
	}
	if uni(t, 12, "around") == 0 {
		if uni(t, 3, "pair") == 0 {
			// in quotes or the like.
			q := one(t, []string{`"`, "'", "`", "$", "$$", " ", "\t", "\n"}, "quote")
			c.Text = []byte(q + string(c.Text) + q)
		} else {
			c.Text = append([]byte(one(t, aroundTexts, "before")), c.Text...)
			c.Text = append(c.Text, one(t, aroundTexts, "after")...)
		}
	}
	if c.Path == "odd" {
		c.Name = uni(t, len(oddNames), "name")
	}
	c.Twice = uni(t, 10, "twice") == 0
	return c
}

// imageFits tells whether an image of an expression doesn't take too long. It
// also says so of the ones that are too large for any image, which give errors.
func imageFits(text string, size, dpi float64, fonts *ttf.Fonts) bool {
	if em := size * dpi / 72; float64(len(text))*em*em < 5e6 && !strings.Contains(text, `\hspace`) {
		return true
	}
	var dst recRenderer
	if err := guard("render", func() { _ = mtex.Render(&dst, text, size, dpi, fonts) }); err != nil {
		return true
	}
	for _, c := range dst.calls {
		if n := c.w * c.h * dpi * dpi; n > 2e7 && n <= 1<<33 {
			return false
		}
	}
	return true
}

func runC26(c cmdCase, o *Obs) error {
	exe := os.Getenv("VERIF_MTEX_RENDER")
	if exe == "" {
		panic("harness: no mtex-render")
	}
	size, dpi := c.Size, c.DPI
	if size == 0 {
		size = 12
	}
	if dpi == 0 {
		dpi = 72
	}
	if size <= 0 || dpi <= 0 || size*dpi > 20000 || bytes.ContainsRune(c.Text, 0) || len(c.Text) > 100100 || c.Args < 0 || c.Args > 3 {
		return nil
	}
	if !imageFits(string(c.Text), size, dpi, fontSet("liberation")) {
		o.Label("too many pixels to try")
		return nil
	}
	dir, clean, err := scratchDir()
	must := func(err error) {
		if err != nil {
			panic(fmt.Errorf("harness: %w", err))
		}
	}
	must(err)
	defer clean()
	must(os.Mkdir(filepath.Join(dir, "sub"), 0o755))
	must(os.WriteFile(filepath.Join(dir, "other.txt"), []byte("other"), 0o644))

	var (
		rel      = "res.png"
		arg      = "" // value of -o
		writable = true
	)
	switch c.Path {
	case "default":
		rel = "out.png"
	case "new":
		arg = rel
	case "existing":
		arg = rel
		must(os.WriteFile(filepath.Join(dir, rel), []byte("old"), 0o644))
	case "longer":
		arg = rel
		must(os.WriteFile(filepath.Join(dir, rel), bytes.Repeat([]byte("old content\n"), 100000), 0o644))
	case "sub":
		rel = "sub/x.png"
		arg = "sub/../sub/x.png"
	case "absolute":
		arg = filepath.Join(dir, rel)
	case "unicode":
		rel = "sub/é ∑ x.PNG"
		arg = rel
	case "dash":
		rel = "-o"
		arg = rel
	case "other type":
		rel = "res"
		arg = rel
	case "odd":
		rel = strings.ReplaceAll(oddNames[c.Name%len(oddNames)], "pdf", "png")
		arg = rel
	case "link":
		rel, arg = "sub/target.png", "link.png"
		must(os.Symlink("sub/target.png", filepath.Join(dir, "link.png")))
	case "missing dir":
		rel, arg, writable = "", "nosuch/x.png", false
	case "directory":
		rel, arg, writable = "", "sub", false
	case "under file":
		rel, arg, writable = "", "other.txt/x.png", false
	case "full":
		rel, arg, writable = "", "/dev/full", false
		if _, err := os.Stat(arg); err != nil {
			return nil
		}
	case "empty":
		rel, writable = "", false
	default:
		return nil
	}
	before, err := listing(dir)
	must(err)

	var args []string
	flag := func(name, val string, form int) {
		dashes := []string{"-", "--"}[form&1]
		if form&2 != 0 {
			args = append(args, dashes+name+"="+val)
		} else {
			args = append(args, dashes+name, val)
		}
	}
	if c.Twice {
		if c.Size != 0 {
			flag("font-size", "3", c.Form)
		}
		if c.Path != "default" {
			flag("o", "first.png", c.Form)
		}
		if c.DPI != 0 {
			flag("dpi", "55", c.Form)
		}
	}
	if c.Size != 0 {
		flag("font-size", fmt.Sprint(c.Size), c.Form)
	}
	if c.Path != "default" && c.Form&8 == 0 {
		flag("o", arg, c.Form>>1)
	}
	if c.DPI != 0 {
		flag("dpi", fmt.Sprint(c.DPI), c.Form>>1)
	}
	if c.Path != "default" && c.Form&8 != 0 {
		flag("o", arg, c.Form)
	}
	if c.BadFlag != "" {
		args = append(args, c.BadFlag)
	}
	if c.Form&4 != 0 || bytes.HasPrefix(c.Text, []byte("-")) {
		args = append(args, "--")
	}
	for i := 0; i < c.Args; i++ {
		args = append(args, string(c.Text))
	}

	ctx, cancel := context.WithTimeout(context.Background(), 200*time.Second)
	defer cancel()
	var stdout, stderr bytes.Buffer
	cmd := exec.CommandContext(ctx, exe, args...)
	cmd.Dir, cmd.Stdout, cmd.Stderr = dir, &stdout, &stderr
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	runtime.LockOSThread()
	rerr := cmd.Run()
	runtime.UnlockOSThread()
	if cmd.ProcessState == nil || ctx.Err() != nil {
		panic(fmt.Errorf("harness: %w", rerr))
	}
	code := cmd.ProcessState.ExitCode()
	after, err := listing(dir)
	must(err)

	fail := func(format string, args2 ...any) error {
		return fmt.Errorf("mtex-render %q (%s output): %s\nexit status %d, stderr:\n%s", args, c.Path,
			fmt.Sprintf(format, args2...), code, clip(stderr.String(), 1500))
	}
	var (
		want bytes.Buffer
		werr error
	)
	text := string(c.Text)
	if err := guard("render", func() {
		werr = mtex.Render(drawimg.NewRenderer(&want), text, size, dpi, fontSet("liberation"))
	}); err != nil {
		werr = err
	}
	usage := c.Args != 1 || c.BadFlag != ""
	o.Label("path: %s", c.Path)
	o.Label("renderable: %v", werr == nil)
	o.Label("bad usage: %v", usage)
	o.NonTrivial(usage || !writable || werr != nil || want.Len() > 200)
	if d := diffFiles(before, after, rel); d != "" {
		return fail("%s", d)
	}
	if usage || !writable || werr != nil {
		switch {
		case code == 0:
			return fail("exits with status 0 (library: %v)", werr)
		case len(bytes.TrimSpace(stderr.Bytes())) == 0:
			return fail("no message on standard error")
		}
		// usage errors are found before anything is written.
		if usage && rel != "" {
			if d := diffFiles(before, after, ""); d != "" {
				return fail("%s", d)
			}
		}
		return nil
	}
	if code != 0 {
		return fail("the library renders it")
	}
	raw, ok := strings.CutPrefix(after[rel], "file ")
	if !ok {
		return fail("no output")
	}
	if raw != want.String() {
		w1, h1, a1, err1 := decodeAlpha([]byte(raw))
		w2, h2, _, _ := decodeAlpha(want.Bytes())
		_ = a1
		return fail("the image differs: %d bytes, %dx%d (%v); the library writes %d bytes, %dx%d", len(raw), w1, h1, err1, want.Len(), w2, h2)
	}
	o.Label("non-ASCII: %v", utf8.RuneCount(c.Text) != len(c.Text))
	return nil
}

func init() {
	register("C22", "2 to 8, now and then 40, goroutines of up to 4 parsing, typesetting, rendering and querying calls each, on shared fonts, under the race detector, some of them in a process where nothing was used before; non-trivial: at least 4 calls",
		800, 40000, drawJobsCase, runC22, withProcs(4, 8))
	register("C23", "histories of up to 13 calls (parsing, typesetting, rendering, font queries, sets, succeeding and failing, repeated up to 31 times) on shared backends, renderers and fonts, in a process of their own, whose last three results are compared with those of processes that make one call; non-trivial: at least 4 calls, one of the compared ones succeeds",
		3000, 100000, drawHistCase, runC23, withKnown("stale-math", probeStaleHistory))
	register("C26", "runs of mtex-render with generated expressions, flags and output paths in a scratch directory; non-trivial: a failure, or an image of more than 200 bytes",
		3000, 30000, drawCmdCase, runC26)
}
