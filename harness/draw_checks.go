package main

import (
	"bytes"
	"errors"
	"fmt"
	"image"
	"image/png"
	"io"
	"math"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"syscall"

	"github.com/go-latex/latex/drawtex"
	"github.com/go-latex/latex/drawtex/drawimg"
	"github.com/go-latex/latex/drawtex/drawpdf"
	"github.com/go-latex/latex/font"
	"golang.org/x/image/font/sfnt"
	"golang.org/x/image/math/fixed"
	"golang.org/x/image/vector"
	"pgregory.net/rapid"
)

// This file holds the checks of the renderers of canvases.

// drawOp is an operation on a canvas.
type drawOp struct {
	Rect bool    `json:"rect,omitempty"`
	X1   float64 `json:"x1"`
	Y1   float64 `json:"y1"`
	X2   float64 `json:"x2,omitempty"`
	Y2   float64 `json:"y2,omitempty"`
	Set  string  `json:"set,omitempty"`
	Sym  string  `json:"sym,omitempty"`
	Typ  string  `json:"typ,omitempty"`
	Size float64 `json:"size,omitempty"`
	Bare bool    `json:"bare,omitempty"` // without a PostScript name and metrics
}

func (o drawOp) raw() []byte {
	s := rawFonts[o.Set]
	return map[string][]byte{"rm": s.rm, "it": s.it, "bf": s.bf, "default": s.def}[o.Typ]
}

// fillCanvas performs the operations, moved by (dx, dy), on a canvas.
func fillCanvas(ops []drawOp, dx, dy float64) *drawtex.Canvas {
	cnv := drawtex.New()
	for _, o := range ops {
		if o.Rect {
			cnv.RenderRectFilled(o.X1+dx, o.Y1+dy, o.X2+dx, o.Y2+dy)
			continue
		}
		r, ok := refRune(o.Sym, true)
		if !ok || o.Size <= 0 {
			continue
		}
		raw := o.raw()
		if raw == nil {
			continue
		}
		f := newRefFont(raw)
		g := f.glyph(r)
		k := o.Size / f.upem
		if o.Bare {
			cnv.RenderGlyph(o.X1+dx, o.Y1+dy, drawtex.Glyph{Font: f.f, Size: o.Size, Symbol: string(r), Num: g.num})
			continue
		}
		cnv.RenderGlyph(o.X1+dx, o.Y1+dy, drawtex.Glyph{
			Font: f.f, Size: o.Size, Postscript: f.name, Symbol: string(r), Num: g.num,
			Metrics: font.Metrics{
				Advance: g.adv * k, Width: (g.xmax - g.xmin) * k, Height: (g.ymax - g.ymin) * k,
				XMin: g.xmin * k, XMax: g.xmax * k, YMin: g.ymin * k, YMax: g.ymax * k, Iceberg: g.ymax * k,
			},
		})
	}
	return cnv
}

// --- C21 ---

type imageCase struct {
	W, H, DPI float64
	Ops       []drawOp `json:"ops"`
	MoveX     int      `json:"movex,omitempty"` // in pixels
	MoveY     int      `json:"movey,omitempty"`
	FailAt    int      `json:"failat,omitempty"` // per mille of the output
	FailWith  string   `json:"failwith,omitempty"`
	Bad       string   `json:"bad,omitempty"` // impossible size
}

var badSizes = map[string][3]float64{
	"negative width": {-1, 1, 72}, "negative height": {1, -0.01, 72}, "negative": {-3, -2, 100},
	"NaN width": {math.NaN(), 1, 72}, "NaN height": {1, math.NaN(), 72},
	"infinite width": {math.Inf(1), 1, 72}, "infinite height": {1, math.Inf(1), 72}, "-infinite": {math.Inf(-1), 1, 72},
	"wide": {1e10, 1, 72}, "high": {1, 1e17, 72}, "huge": {1e300, 1e300, 1e10}, "empty width": {0, 1, 72}, "empty height": {1, 0, 72}, "empty": {0, 0, 72},
	"large": {2147483647, 2147483647, 1}, "too many pixels": {1e9, 1e9, 1}, "1e16 pixels": {1e6, 1e6, 100},
}

func drawImageCase(t *rapid.T) imageCase {
	c := imageCase{DPI: one(t, []float64{72, 72, 96, 100, 150, 300, 36, 50.5, 256, drawDPI(t)}, "dpi")}
	coarse := uni(t, 15, "coarse") == 0
	if coarse {
		// so few dots per inch that a pixel is large.
		c.DPI = one(t, []float64{0.25, 0.9, 1, 3, 7.5}, "coarse")
	}
	n, tiny := 1+uni(t, 6, "ops"), false
	if uni(t, 25, "many") == 0 {
		n = 10 + uni(t, one(t, append(manyInts(12, 110), 1500), "max"), "manyops")
		tiny = uni(t, 2, "tiny") == 0 // so that few of them overlap
	}
	n = dictInt(t, n, 1, 2000)
	px := func(label string) float64 {
		if v := dictNum(t, 0, 1, 600); v != 0 {
			return v
		}
		if uni(t, 4, label) == 0 {
			return float64(1+uni(t, 60, label)) + one(t, []float64{0, 0, 1e-3, -1e-3, 3e-4, 1e-5, -1e-5, 1e-7}, label+"off")
		}
		return float64(1+uni(t, 9000, label)) / 100
	}
	wpx, hpx := px("w"), px("h")
	if tiny {
		wpx, hpx = 40+wpx, 40+hpx
	}
	if uni(t, 60, "large") == 0 {
		wpx *= one(t, []float64{1, 10, 30, 110}, "wide")
		hpx *= one(t, []float64{1, 10, 30, 110}, "high")
		if wpx*hpx > maxPixels {
			wpx /= 110
		}
	}
	c.W, c.H = wpx/c.DPI, hpx/c.DPI
	if uni(t, 20, "bad") == 0 {
		c.Bad = one(t, keysOf(badSizes), "badsize")
	}
	// coordinates in points.
	coord := func(limit float64, label string) float64 {
		k := 72 / c.DPI
		if v := dictNum(t, 0, -1e5, 1e5); v != 0 {
			return v * one(t, []float64{1, k}, label+"unit")
		}
		switch uni(t, 8, label) {
		case 0, 1, 2: // a pixel border
			return float64(uni(t, int(limit)+3, label)-1) * k
		case 3:
			return float64(uni(t, 2000, label)-1000) * k // far away
		case 4:
			return float64(uni(t, 200000, label)-100000) * k // very far away
		default:
			return (float64(uni(t, int(limit*100)+200, label))/100 - 1) * k
		}
	}
	last, bare := -1, uni(t, 12, "allbare") == 0
	for i := 0; i < n; i++ {
		o := drawOp{X1: coord(wpx, "x"), Y1: coord(hpx, "y")}
		if uni(t, 2, "glyph") == 0 {
			o.Rect = true
			switch uni(t, 5, "shape") {
			case 0:
				o.X2, o.Y2 = o.X1, o.Y1+float64(uni(t, 500, "h"))/25
			case 1:
				o.X2, o.Y2 = o.X1+float64(1+uni(t, 100, "w"))*72/c.DPI, o.Y1+float64(1+uni(t, 300, "h"))/100
			default:
				o.X2, o.Y2 = coord(wpx, "x2"), coord(hpx, "y2")
			}
		} else {
			o.Set = one(t, fontSetNames, "set")
			o.Typ = one(t, []string{"rm", "it", "bf", "default"}, "typ")
			for {
				o.Sym = drawSym(t)
				if r, ok := refRune(o.Sym, true); ok {
					if newRefFont(o.raw()).glyph(r).num != 0 || uni(t, 20, "missing") == 0 {
						break
					}
				}
			}
			o.Size = drawSize(t) * one(t, []float64{0.3, 1}, "small")
			o.Bare = bare || uni(t, 16, "bare") == 0
			if coarse {
				o.Size *= 36 / c.DPI
			}
			if last >= 0 && uni(t, 3, "similar") == 0 {
				// the font of an earlier glyph, nearly or exactly at its size.
				p := c.Ops[last]
				if uni(t, 4, "otherfont") != 0 {
					o.Set, o.Typ = p.Set, p.Typ
				}
				o.Size = p.Size * one(t, []float64{1, 1, 1.0005, 1.003, 0.996, 1.02, 0.9}, "ratio")
				if uni(t, 4, "same") == 0 {
					o.Sym = p.Sym
				}
			}
		}
		switch k := 72 / c.DPI; {
		case tiny && o.Rect:
			o.X2, o.Y2 = o.X1+float64(uni(t, 300, "w"))/60*k, o.Y1+float64(uni(t, 300, "h"))/60*k
		case tiny:
			o.Size = float64(10+uni(t, 60, "tinysize")) / 10 * k
		}
		if i > 0 && uni(t, 15, "repeat") == 0 {
			o = c.Ops[i-1]
		}
		if !o.Rect {
			last = i
		}
		c.Ops = append(c.Ops, o)
	}
	if uni(t, 3, "move") == 0 {
		c.MoveX, c.MoveY = uni(t, 41, "mx")-20, uni(t, 41, "my")-20
	}
	if uni(t, 5, "fail") == 0 {
		c.FailAt = 1 + uni(t, 999, "failat")
		c.FailWith = one(t, keysOf(writeErrors), "failwith")
	}
	return c
}

// limitWriter fails after n bytes.
type limitWriter struct {
	n   int
	err error
}

func (w *limitWriter) Write(p []byte) (int, error) {
	if len(p) > w.n {
		n := w.n
		w.n = 0
		return n, w.err
	}
	w.n -= len(p)
	return len(p), nil
}

// refImage is the coverage of the pixels of an image.
type refImage struct {
	w, h  int
	alpha []float64
	edges []float64 // number of drawn borders in the pixel, for the tolerance
}

// over paints a rectangle or a glyph outline.
func (im *refImage) over(i int, a float64) { im.alpha[i] = a + (1-a)*im.alpha[i] }

func (im *refImage) rect(x1, y1, x2, y2 float64) {
	if x1 > x2 {
		x1, x2 = x2, x1
	}
	if y1 > y2 {
		y1, y2 = y2, y1
	}
	for y := max(0, int(math.Floor(y1))-1); y < im.h && float64(y) <= y2+1; y++ {
		cy := math.Max(0, math.Min(y2, float64(y+1))-math.Max(y1, float64(y)))
		for x := max(0, int(math.Floor(x1))-1); x < im.w && float64(x) <= x2+1; x++ {
			cx := math.Max(0, math.Min(x2, float64(x+1))-math.Max(x1, float64(x)))
			i := y*im.w + x
			im.over(i, cx*cy)
			// the borders are rounded to 1/64 pixels.
			for _, v := range []float64{x1 - float64(x), x2 - float64(x), y1 - float64(y), y2 - float64(y)} {
				if v > -0.01 && v < 1.01 {
					im.edges[i]++
				}
			}
		}
	}
}

// glyph paints a glyph with its origin at (x, y), scaled to ppem pixels.
func (im *refImage) glyph(f *sfnt.Font, num sfnt.GlyphIndex, x, y, ppem float64) error {
	var buf sfnt.Buffer
	// sizes and positions are rounded to 1/64 pixels.
	const k = 1. / 64
	tie := func(v float64) bool { return math.Abs(math.Abs(v-math.Trunc(v))-0.5) < 1e-6 }
	width := 2.
	if tie(x*64) || tie(y*64) || tie(ppem*64) {
		// rounded either way, curves may be flattened differently.
		width = 8
	}
	x, y = math.Round(x*64)/64, math.Round(y*64)/64
	segs, err := f.LoadGlyph(&buf, num, fixed.Int26_6(math.Round(ppem*64)), nil)
	if err != nil {
		return err
	}
	b := segs.Bounds()
	x0, y0 := int(math.Floor(x+k*float64(b.Min.X)))-2, int(math.Floor(y+k*float64(b.Min.Y)))-2
	x1, y1 := int(math.Ceil(x+k*float64(b.Max.X)))+2, int(math.Ceil(y+k*float64(b.Max.Y)))+2
	if x1 <= 0 || y1 <= 0 || x0 >= im.w || y0 >= im.h || len(segs) == 0 {
		return nil
	}
	w, h := x1-x0, y1-y0
	ras := vector.NewRasterizer(w, h)
	pt := func(p fixed.Point26_6) (float32, float32) {
		return float32(x + k*float64(p.X) - float64(x0)), float32(y + k*float64(p.Y) - float64(y0))
	}
	for _, s := range segs {
		ax, ay := pt(s.Args[0])
		bx, by := pt(s.Args[1])
		cx, cy := pt(s.Args[2])
		switch s.Op {
		case sfnt.SegmentOpMoveTo:
			ras.ClosePath()
			ras.MoveTo(ax, ay)
		case sfnt.SegmentOpLineTo:
			ras.LineTo(ax, ay)
		case sfnt.SegmentOpQuadTo:
			ras.QuadTo(ax, ay, bx, by)
		case sfnt.SegmentOpCubeTo:
			ras.CubeTo(ax, ay, bx, by, cx, cy)
		}
	}
	ras.ClosePath()
	mask := image.NewAlpha(image.Rect(0, 0, w, h))
	ras.Draw(mask, mask.Bounds(), image.Opaque, image.Point{})
	for j := max(0, -y0); j < h && y0+j < im.h; j++ {
		for i := max(0, -x0); i < w && x0+i < im.w; i++ {
			// a border may be anywhere next to partly covered pixels.
			lo, hi := uint8(255), uint8(0)
			for dj := -1; dj <= 1; dj++ {
				for di := -1; di <= 1; di++ {
					a := mask.AlphaAt(i+di, j+dj).A
					lo, hi = min(lo, a), max(hi, a)
				}
			}
			n := (y0+j)*im.w + x0 + i
			im.over(n, float64(mask.AlphaAt(i, j).A)/255)
			if lo != hi || lo > 0 && lo < 255 {
				im.edges[n] += width
			}
		}
	}
	return nil
}

// reference paints a canvas.
func (c imageCase) reference(cnv *drawtex.Canvas, w, h int) (*refImage, error) {
	im := &refImage{w: w, h: h, alpha: make([]float64, w*h), edges: make([]float64, w*h)}
	k := c.DPI / 72
	for _, v := range cnv.Ops() {
		switch v := v.(type) {
		case drawtex.RectOp:
			im.rect(v.X1*k, v.Y1*k, v.X2*k, v.Y2*k)
		case drawtex.GlyphOp:
			if err := im.glyph(v.Glyph.Font, v.Glyph.Num, v.X*k, v.Y*k, v.Glyph.Size*k); err != nil {
				return nil, err
			}
		}
	}
	return im, nil
}

func (c imageCase) render(cnv *drawtex.Canvas) ([]byte, error) {
	var buf bytes.Buffer
	err := drawimg.NewRenderer(&buf).Render(c.W, c.H, c.DPI, cnv)
	return buf.Bytes(), err
}

// decodeAlpha decodes an image of black ink.
func decodeAlpha(raw []byte) (w, h int, alpha []uint8, err error) {
	r := bytes.NewReader(raw)
	img, err := png.Decode(r)
	if err != nil {
		return 0, 0, nil, fmt.Errorf("no PNG: %w", err)
	}
	if r.Len() != 0 {
		return 0, 0, nil, fmt.Errorf("%d bytes after the image", r.Len())
	}
	b := img.Bounds()
	for y := b.Min.Y; y < b.Max.Y; y++ {
		for x := b.Min.X; x < b.Max.X; x++ {
			cr, cg, cb, ca := img.At(x, y).RGBA()
			if cr != 0 || cg != 0 || cb != 0 {
				return 0, 0, nil, fmt.Errorf("pixel (%d, %d) is not black: %v", x, y, img.At(x, y))
			}
			alpha = append(alpha, uint8(ca>>8))
		}
	}
	return b.Dx(), b.Dy(), alpha, nil
}

// maxPixels limits the size of images.
const maxPixels = 1.2e6

// writeErrors are the errors of failing writers.
var writeErrors = map[string]error{
	"":      errors.New("sentinel of the harness"),
	"short": io.ErrShortWrite, "eof": io.EOF, "closed": os.ErrClosed, "pipe": io.ErrClosedPipe,
	"unexpected": io.ErrUnexpectedEOF, "space": syscall.ENOSPC, "deadline": os.ErrDeadlineExceeded,
}

// edgeTol is the tolerance on the coverage of a pixel, for each border in it.
const edgeTol = 0.035

func runC21(c imageCase, o *Obs) error {
	if c.Bad != "" {
		s, ok := badSizes[c.Bad]
		if !ok {
			return nil
		}
		bad := imageCase{W: s[0], H: s[1], DPI: s[2]}
		raw, err := bad.render(fillCanvas(c.Ops, 0, 0))
		o.Label("impossible size")
		o.NonTrivial(true)
		if err == nil {
			return fmt.Errorf("image of %s %v: no error, %d bytes", c.Bad, s, len(raw))
		}
		return nil
	}
	wf, hf := c.W*c.DPI, c.H*c.DPI
	if !(wf > 0 && hf > 0 && wf*hf <= maxPixels && c.DPI > 0) {
		return nil
	}
	cnv := fillCanvas(c.Ops, 0, 0)
	before := fmt.Sprintf("%#v", cnv.Ops())
	raw, err := c.render(cnv)
	if err != nil {
		return fmt.Errorf("%+v: %w", c, err)
	}
	fail := func(format string, args ...any) error {
		return fmt.Errorf("image of %g x %g inches at %g dpi: %s\nfor %+v", c.W, c.H, c.DPI, fmt.Sprintf(format, args...), c.Ops)
	}
	if fmt.Sprintf("%#v", cnv.Ops()) != before {
		return fail("rendering changed the canvas")
	}
	w, h, alpha, err := decodeAlpha(raw)
	if err != nil {
		return fail("%v", err)
	}
	size := func(got int, want float64) bool {
		return got == int(math.Ceil(want)) || near(want, math.Round(want), 1e-9*want) && got >= int(want-0.5) && got <= int(want+1.5)
	}
	if !size(w, wf) || !size(h, hf) {
		return fail("%d x %d pixels, want %g x %g rounded up", w, h, wf, hf)
	}
	want, err := c.reference(cnv, w, h)
	if err != nil {
		return fmt.Errorf("harness: %w", err)
	}
	for _, v := range cnv.Ops() {
		if g, ok := v.(drawtex.GlyphOp); ok && g.Glyph.Num == 0 {
			// whether characters the font lacks leave ink is not specified.
			o.Label("missing glyph")
			return nil
		}
	}
	ink, partial := 0, 0
	for i, a := range alpha {
		var (
			got = float64(a) / 255
			tol = 0.012 + edgeTol*want.edges[i]
			dev = math.Abs(got - want.alpha[i])
		)
		if dev > tol {
			return fail("pixel (%d, %d) has coverage %.3f, want %.3f", i%w, i/w, got, want.alpha[i])
		}
		if a > 0 {
			ink++
		}
		if a > 0 && a < 255 {
			partial++
		}
	}
	// the same again, with a renderer that was used before.
	var buf bytes.Buffer
	r := drawimg.NewRenderer(&buf)
	for i := 0; i < 2; i++ {
		buf.Reset()
		if err := r.Render(c.W, c.H, c.DPI, cnv); err != nil {
			return fail("rendering again: %v", err)
		}
		if !bytes.Equal(buf.Bytes(), raw) {
			return fail("rendering again gives another image")
		}
	}
	// moved by whole pixels.
	if c.MoveX != 0 || c.MoveY != 0 {
		dx, dy := float64(c.MoveX)*72/c.DPI, float64(c.MoveY)*72/c.DPI
		raw, err := c.render(fillCanvas(c.Ops, dx, dy))
		if err != nil {
			return fail("%v", err)
		}
		w2, h2, moved, err := decodeAlpha(raw)
		if err != nil || w2 != w || h2 != h {
			return fail("moved image of %d x %d: %v", w2, h2, err)
		}
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				x2, y2 := x+c.MoveX, y+c.MoveY
				if x2 < 0 || x2 >= w || y2 < 0 || y2 >= h {
					continue
				}
				a, b := float64(alpha[y*w+x])/255, float64(moved[y2*w+x2])/255
				if math.Abs(a-b) > 0.012+0.02*want.edges[y*w+x] {
					return fail("pixel (%d, %d) has coverage %.3f, but %.3f once moved by (%d, %d)", x, y, a, b, c.MoveX, c.MoveY)
				}
			}
		}
		o.Label("moved")
	}
	if c.FailAt > 0 {
		werr, ok := writeErrors[c.FailWith]
		if !ok {
			return nil
		}
		lw := &limitWriter{n: (len(raw) - 1) * c.FailAt / 1000, err: werr}
		if err := drawimg.NewRenderer(lw).Render(c.W, c.H, c.DPI, cnv); err == nil {
			return fail("no error, but the writer fails with %q after %d of %d bytes", werr, (len(raw)-1)*c.FailAt/1000, len(raw))
		}
		o.Label("failing writer")
	}
	o.NonTrivial(ink >= 4 && partial > 0)
	o.Label("ink: %v", ink > 0)
	return nil
}

// --- C25 ---

type pdfCase struct {
	W    float64  `json:"w"`
	H    float64  `json:"h"`
	Ops  []drawOp `json:"ops"`
	Path string   `json:"path"` // kind of path
	Name int      `json:"name,omitempty"`
}

// oddNames are names of files that are unusual, but fine.
var oddNames = []string{
	" out.pdf", "out.pdf ", "out .pdf", "out.pdf.pdf", "out.", ".pdf", ".hidden", "out.PDF", "out.png", "out.pdf~", "-", "-o.pdf", "out\tx.pdf",
	"a\nb.pdf", "%s%d.pdf", "out?x=1.pdf", "#.pdf", "$HOME.pdf", "~", "*.pdf", "a:b.pdf", "http:a.pdf", "\\out.pdf", "out\xff.pdf", "\"q\".pdf", "out.pdf.tmp", "..out.pdf", "...",
	strings.Repeat("n", 100) + ".pdf", strings.Repeat("n", 200) + ".pdf", strings.Repeat("n", 251) + ".pdf", strings.Repeat("n", 255), "nul", "con.pdf", "sub/ .pdf", "sub/..pdf",
}

var pdfPaths = []string{"new", "new", "new", "existing", "longer", "sub", "missing dir", "directory", "under file", "full", "dots", "unicode", "link", "odd", "odd", "no extension", "relative"}

func drawPDFCase(t *rapid.T) pdfCase {
	c := pdfCase{Path: one(t, pdfPaths, "path")}
	dim := func(label string) float64 {
		if v := dictNum(t, 0, 0.01, 15000); v != 0 {
			return v
		}
		if uni(t, 2, label) == 0 {
			return float64(1 + uni(t, 1000, label))
		}
		return float64(1+uni(t, 1500000, label)) / 100
	}
	if c.Path == "odd" {
		c.Name = uni(t, len(oddNames), "name")
	}
	c.W, c.H = dim("w"), dim("h")
	c.Ops = drawImageCase(t).Ops
	if uni(t, 4, "empty") == 0 {
		c.Ops = nil
	}
	return c
}

// pdfPage reads a PDF file, strictly, and returns the size of its only page
// and its content.
func pdfPage(raw []byte) (w, h float64, content string, err error) {
	fail := func(format string, args ...any) (float64, float64, string, error) {
		return 0, 0, "", fmt.Errorf("invalid PDF: "+format, args...)
	}
	if !bytes.HasPrefix(raw, []byte("%PDF-1.")) {
		return fail("no header")
	}
	text := strings.TrimRight(string(raw), "\r\n ")
	if !strings.HasSuffix(text, "%%EOF") || strings.Count(text, "%%EOF") != 1 {
		return fail("no single end marker")
	}
	m := regexp.MustCompile(`startxref\s+(\d+)\s+%%EOF$`).FindStringSubmatch(text)
	if m == nil {
		return fail("no startxref")
	}
	off, _ := strconv.Atoi(m[1])
	if off <= 0 || off >= len(text) || !strings.HasPrefix(text[off:], "xref") {
		return fail("startxref %d does not point to a table", off)
	}
	lines := strings.Split(text[off:], "\n")
	var first, n int
	if _, err := fmt.Sscanf(lines[1], "%d %d", &first, &n); err != nil || first != 0 {
		return fail("table starts with %q", lines[1])
	}
	objs := map[int]string{}
	for i := 1; i < n; i++ {
		var at, gen int
		var kind string
		if 2+i >= len(lines) {
			return fail("short table")
		}
		if _, err := fmt.Sscanf(lines[2+i], "%d %d %s", &at, &gen, &kind); err != nil || kind != "n" {
			return fail("entry %q", lines[2+i])
		}
		head := fmt.Sprintf("%d 0 obj", i)
		if at >= len(text) || !strings.HasPrefix(text[at:], head) {
			return fail("entry of object %d points elsewhere", i)
		}
		end := strings.Index(text[at:], "endobj")
		if end < 0 {
			return fail("object %d does not end", i)
		}
		objs[i] = strings.TrimSpace(text[at+len(head) : at+end])
	}
	trailer := text[off:]
	ref := func(in, key string) (string, error) {
		m := regexp.MustCompile(`/` + key + `\s+(\d+) 0 R`).FindStringSubmatch(in)
		if m == nil {
			return "", fmt.Errorf("no /%s in %q", key, clip(in, 200))
		}
		i, _ := strconv.Atoi(m[1])
		o, ok := objs[i]
		if !ok {
			return "", fmt.Errorf("/%s refers to a missing object %d", key, i)
		}
		return o, nil
	}
	i := strings.Index(trailer, "trailer")
	if i < 0 {
		return fail("no trailer")
	}
	root, err := ref(trailer[i:], "Root")
	if err != nil {
		return fail("%v", err)
	}
	if !strings.Contains(root, "/Type /Catalog") {
		return fail("root %q", root)
	}
	pages, err := ref(root, "Pages")
	if err != nil {
		return fail("%v", err)
	}
	if !regexp.MustCompile(`/Count 1\b`).MatchString(pages) {
		return fail("pages: %q", pages)
	}
	kids := regexp.MustCompile(`/Kids\s*\[\s*(\d+) 0 R\s*\]`).FindStringSubmatch(pages)
	if kids == nil {
		return fail("pages: %q", pages)
	}
	k, _ := strconv.Atoi(kids[1])
	page := objs[k]
	if !regexp.MustCompile(`/Type\s*/Page\b`).MatchString(page) {
		return fail("page: %q", page)
	}
	if count := len(regexp.MustCompile(`/Type\s*/Page\b[^s]`).FindAllString(text, -1)); count != 1 {
		return fail("%d pages", count)
	}
	box := regexp.MustCompile(`/MediaBox\s*\[\s*([-0-9.]+) ([-0-9.]+) ([-0-9.]+) ([-0-9.]+)\s*\]`)
	mb := box.FindStringSubmatch(page)
	if mb == nil {
		mb = box.FindStringSubmatch(pages)
	}
	if mb == nil {
		return fail("no page size")
	}
	var v [4]float64
	for i := range v {
		v[i], err = strconv.ParseFloat(mb[i+1], 64)
		if err != nil {
			return fail("page size %q", mb[0])
		}
	}
	if m := regexp.MustCompile(`/Rotate\s+(-?\d+)`).FindStringSubmatch(page); m != nil && m[1] != "0" {
		return fail("rotated page")
	}
	stream, err := ref(page, "Contents")
	if err != nil {
		return fail("%v", err)
	}
	m = regexp.MustCompile(`/Length (\d+)`).FindStringSubmatch(stream)
	s := strings.Index(stream, "stream\n")
	if m == nil || s < 0 {
		return fail("content %q", clip(stream, 200))
	}
	size, _ := strconv.Atoi(m[1])
	body := stream[s+len("stream\n"):]
	if len(body) < size || strings.TrimSpace(body[size:]) != "endstream" {
		return fail("content of length %d is followed by %q", size, clip(body[min(size, len(body)):], 200))
	}
	return v[2] - v[0], v[3] - v[1], body[:size], nil
}

// listing lists the files of a directory with their contents.
func listing(dir string) (map[string]string, error) {
	out := map[string]string{}
	err := filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(dir, p)
		switch {
		case fi.IsDir():
			out[rel] = "directory"
		case fi.Mode()&os.ModeSymlink != 0:
			t, _ := os.Readlink(p)
			out[rel] = "link to " + t
		default:
			raw, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			out[rel] = "file " + string(raw)
		}
		return nil
	})
	return out, err
}

// scratchDir makes a directory for a case; the directory of the run is removed
// by the parent process.
func scratchDir() (string, func(), error) {
	base := os.Getenv("VERIF_SCRATCH")
	if base == "" {
		base = os.TempDir()
	}
	dir, err := os.MkdirTemp(base, "case-")
	return dir, func() { os.RemoveAll(dir) }, err
}

func runC25(c pdfCase, o *Obs) error {
	if !(c.W > 0 && c.H > 0 && c.W < 20000 && c.H < 20000) {
		return nil
	}
	dir, clean, err := scratchDir()
	if err != nil {
		return fmt.Errorf("harness: %w", err)
	}
	defer clean()
	must := func(err error) {
		if err != nil {
			panic(fmt.Errorf("harness: %w", err))
		}
	}
	must(os.Mkdir(filepath.Join(dir, "sub"), 0o755))
	must(os.WriteFile(filepath.Join(dir, "other.txt"), []byte("other"), 0o644))
	var (
		rel      = "out.pdf"
		name     = filepath.Join(dir, rel)
		writable = true
	)
	switch c.Path {
	case "existing":
		must(os.WriteFile(name, []byte("old"), 0o644))
	case "longer":
		must(os.WriteFile(name, bytes.Repeat([]byte("old content\n"), 20000), 0o644))
	case "sub":
		rel = "sub/a.pdf"
	case "dots":
		name = dir + "/sub/../out.pdf"
	case "odd":
		rel = oddNames[c.Name%len(oddNames)]
	case "no extension":
		rel = "out"
	case "unicode":
		rel = "sub/é ∑ x.PDF"
	case "link":
		rel = "sub/target.pdf"
		must(os.Symlink("sub/target.pdf", name))
	case "missing dir":
		rel, writable = "nosuch/out.pdf", false
	case "directory":
		rel, writable = "sub", false
	case "under file":
		rel, writable = "other.txt/out.pdf", false
	case "full":
		rel, writable = "", false
		name = "/dev/full"
		if _, err := os.Stat(name); err != nil {
			return nil
		}
	case "new", "relative":
	default:
		return nil
	}
	if c.Path != "dots" && c.Path != "link" && c.Path != "full" {
		name = filepath.Join(dir, rel)
	}
	if c.Path == "relative" {
		wd, err := os.Getwd()
		must(err)
		name, err = filepath.Rel(wd, name)
		must(err)
	}
	before, err := listing(dir)
	must(err)
	cnv := fillCanvas(c.Ops, 0, 0)
	ops := fmt.Sprintf("%#v", cnv.Ops())
	werr := drawpdf.Write(name, c.W, c.H, cnv)
	if fmt.Sprintf("%#v", cnv.Ops()) != ops {
		return fmt.Errorf("writing a PDF changed the canvas")
	}
	after, err := listing(dir)
	must(err)
	o.Label("path: %s", c.Path)
	o.Label("operations: %v", len(cnv.Ops()) > 0)
	o.NonTrivial(true)
	fail := func(format string, args ...any) error {
		return fmt.Errorf("Write(%s path, %g, %g, %d operations): %s", c.Path, c.W, c.H, len(cnv.Ops()), fmt.Sprintf(format, args...))
	}
	if !writable {
		if werr == nil {
			return fail("no error")
		}
		if d := diffFiles(before, after, ""); d != "" {
			return fail("%s, with error %v", d, werr)
		}
		return nil
	}
	if werr != nil {
		return fail("%v", werr)
	}
	if d := diffFiles(before, after, rel); d != "" {
		return fail("%s", d)
	}
	got, ok := strings.CutPrefix(after[rel], "file ")
	if !ok {
		return fail("no file written, but %q", clip(after[rel], 100))
	}
	w, h, _, err := pdfPage([]byte(got))
	if err != nil {
		return fail("%v\n%s", err, clip(got, 2000))
	}
	if !near(w, c.W, 0.0051) || !near(h, c.H, 0.0051) {
		return fail("the page is %g x %g points", w, h)
	}
	return nil
}

// diffFiles describes the files that differ, other than the given one.
func diffFiles(before, after map[string]string, but string) string {
	var names []string
	for n := range before {
		names = append(names, n)
	}
	for n := range after {
		if _, ok := before[n]; !ok {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		b, okb := before[n]
		a, oka := after[n]
		if n != but && (b != a || oka != okb) {
			return fmt.Sprintf("%q was %q, is now %q", n, clip(b, 80), clip(a, 80))
		}
	}
	return ""
}

// probePDFContent tells whether PDF output has no content.
func probePDFContent() (string, bool) {
	dir, clean, err := scratchDir()
	if err != nil {
		return "", false
	}
	defer clean()
	var bodies [2]string
	for i := range bodies {
		name := filepath.Join(dir, fmt.Sprintf("%d.pdf", i))
		cnv := drawtex.New()
		if i == 1 {
			cnv.RenderRectFilled(10, 10, 50, 50)
		}
		if err := drawpdf.Write(name, 100, 100, cnv); err != nil {
			return "", false
		}
		raw, err := os.ReadFile(name)
		if err != nil {
			return "", false
		}
		_, _, bodies[i], err = pdfPage(raw)
		if err != nil {
			return "", false
		}
	}
	return "the PDF page is blank, whatever the canvas holds: drawGlyph and drawRect of drawpdf are empty", bodies[0] == bodies[1]
}

func init() {
	register("C21", "canvases of up to 6, now and then 120, rectangles and glyphs (some repeated) inside, across, outside of and far from the image; non-trivial: at least 4 inked and one partly covered pixel, or an impossible size",
		30000, 300000, drawImageCase, runC21)
	register("C25", "canvases, page sizes and writable and unwritable paths in a scratch directory; non-trivial: every case",
		30000, 100000, drawPDFCase, runC25, withKnown("blank", probePDFContent))
}
