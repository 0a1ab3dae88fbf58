package main

import (
	"fmt"
	"math"
	"reflect"
	"slices"
	"strings"
	"unicode/utf8"

	"github.com/go-latex/latex"
	"github.com/go-latex/latex/ast"
	"pgregory.net/rapid"
)

// parse parses an expression; a panic is a failure.
func parse(text string) (node ast.Node, err, failure error) {
	failure = guard(fmt.Sprintf("ParseExpr(%q)", text), func() {
		node, err = latex.ParseExpr(text)
	})
	if failure != nil {
		return nil, nil, failure
	}
	if err != nil && !isNilNode(node) {
		return node, err, fmt.Errorf("ParseExpr(%q) returned both a tree and the error %v", text, err)
	}
	if err == nil && node == nil {
		return node, err, fmt.Errorf("ParseExpr(%q) returned neither a tree nor an error", text)
	}
	return node, err, nil
}

func isNilNode(n ast.Node) bool {
	if n == nil {
		return true
	}
	v := reflect.ValueOf(n)
	switch v.Kind() {
	case reflect.Pointer, reflect.Slice:
		return v.IsNil()
	}
	return false
}

// pair is a parsed node and the reference node it stands for.
type pair struct {
	got    ast.Node
	want   *N
	parent int // index of the parent pair, -1 for the items of the whole expression
}

// matchList compares a parsed list with the reference nodes, and lists the
// corresponding nodes.
func matchList(got []ast.Node, want []*N, parent int, out *[]pair) error {
	for i := range min(len(got), len(want)) {
		if err := match(got[i], want[i], parent, out); err != nil {
			return err
		}
	}
	if len(got) != len(want) {
		return fmt.Errorf("list has %d items, want %d: got %s, want %s", len(got), len(want), dumpList(got), treeString(want))
	}
	return nil
}

func match(got ast.Node, want *N, parent int, out *[]pair) error {
	bad := func() error {
		return fmt.Errorf("got node %s, want %v", dump(got), want)
	}
	*out = append(*out, pair{got, want, parent})
	self := len(*out) - 1
	if isNilNode(got) {
		if _, ok := got.(ast.List); ok && want.K == "list" && len(want.C) == 0 {
			return nil
		}
		return bad()
	}
	switch n := got.(type) {
	case *ast.Word:
		if want.K != "word" || n.Text != want.T {
			return bad()
		}
	case *ast.Literal:
		if want.K != "num" || n.Text != want.T {
			return bad()
		}
	case *ast.Symbol:
		if want.K != "sym" || n.Text != want.T {
			return bad()
		}
	case *ast.Macro:
		if want.K != "mac" || n.Name == nil || n.Name.Name != want.T {
			return bad()
		}
		return matchList(n.Args, want.C, self, out)
	case *ast.Arg:
		if want.K != "arg" {
			return bad()
		}
		return matchList(n.List, want.C, self, out)
	case *ast.OptArg:
		if want.K != "opt" {
			return bad()
		}
		return matchList(n.List, want.C, self, out)
	case ast.List:
		if want.K != "list" {
			return bad()
		}
		return matchList(n, want.C, self, out)
	case *ast.MathExpr:
		if want.K != "math" || n.Delim != "$" {
			return bad()
		}
		return matchList(n.List, want.C, self, out)
	case *ast.Sup:
		if want.K != "sup" || len(want.C) != 1 {
			return bad()
		}
		return match(n.Node, want.C[0], self, out)
	case *ast.Sub:
		if want.K != "sub" || len(want.C) != 1 {
			return bad()
		}
		return match(n.Node, want.C[0], self, out)
	default:
		return bad()
	}
	return nil
}

func dumpList(l []ast.Node) string {
	var o []string
	for _, n := range l {
		o = append(o, dump(n))
	}
	return "[" + strings.Join(o, " ") + "]"
}

// dump prints a parsed tree, independently of ast.Print.
func dump(n ast.Node) string {
	if isNilNode(n) {
		return fmt.Sprintf("%T(nil)", n)
	}
	switch n := n.(type) {
	case *ast.Word:
		return fmt.Sprintf("word(%q)", n.Text)
	case *ast.Literal:
		return fmt.Sprintf("num(%q)", n.Text)
	case *ast.Symbol:
		return fmt.Sprintf("sym(%q)", n.Text)
	case *ast.Ident:
		return fmt.Sprintf("ident(%q)", n.Name)
	case *ast.Macro:
		name := "<nil>"
		if n.Name != nil {
			name = n.Name.Name
		}
		return fmt.Sprintf("mac{%q %s}", name, dumpList(n.Args))
	case *ast.Arg:
		return "arg" + dumpList(n.List)
	case *ast.OptArg:
		return "opt" + dumpList(n.List)
	case ast.List:
		return "list" + dumpList(n)
	case *ast.MathExpr:
		return fmt.Sprintf("math(%q)%s", n.Delim, dumpList(n.List))
	case *ast.Sup:
		return "sup{" + dump(n.Node) + "}"
	case *ast.Sub:
		return "sub{" + dump(n.Node) + "}"
	}
	return fmt.Sprintf("%T", n)
}

// parseMatch parses the text of an expression and compares the result with its tree.
func parseMatch(text string, want []*N) ([]pair, error) {
	node, err, failure := parse(text)
	if failure != nil {
		return nil, failure
	}
	if err != nil {
		return nil, fmt.Errorf("well-formed expression %q rejected: %v", text, err)
	}
	list, ok := node.(ast.List)
	if !ok {
		return nil, fmt.Errorf("ParseExpr(%q) returned a %T", text, node)
	}
	var out []pair
	if err := matchList(list, want, -1, &out); err != nil {
		return nil, fmt.Errorf("%q: %w\nwhole tree: %s\nwant:       %s", text, err, dump(list), treeString(want))
	}
	return out, nil
}

// --- C01 ---

type parseCase struct {
	Expr   []*N       `json:"expr,omitempty"`
	Blanks [][]string `json:"blanks,omitempty"`
	Text   string     `json:"text,omitempty"` // instead of Expr: any text
}

func drawParseCase(t *rapid.T) parseCase {
	p := profParse()
	switch uni(t, 4, "mode") {
	case 0:
		return parseCase{Text: drawSoup(t)}
	case 1:
		p.letters = lettersASCII
	}
	return parseCase{
		Expr:   genExpr(t, p, 1+uni(t, 40, "budget")),
		Blanks: genBlanks(t, true),
	}
}

var soupTokens = []string{
	"a", "x", "fg", "é", "中", "0", "1", "42", "3.14", ".5", "2.", ".", "..", " ", " ", "  ", "\t", "\n", "\r\n",
	"=", "<", ">", "/", "*", "-", "+", "!", "?", "'", ":", ",", ";", "(", ")", "[", "]", "{", "}", "{", "}", "{x}", "{1}{2}",
	"$", "$", "$x$", "$$", "^", "_", "^2", "_i", "^{n}", "_{k+1}", "^ a", "_\\alpha",
	`\alpha`, `\beta `, `\ `, "\\\n", `\,`, `\!`, `\%`, `\$`, `\{`, `\}`, `\_`, `\(`, `\)`, `\[`, `\#`,
	`\frac`, `\frac{a}{b}`, `\sqrt`, `\sqrt{x}`, `\sqrt[3]{x}`, `\sqrt[`, `\overline{`, `\binom{n}{k}`, `\exp{x}`, `\sin`, `\hspace{2}`,
	`\mathbf{x}`, `\stackrel{a}{b}`, `\operatorname{f}`, `\rm`, `\unknown`, `\x`, `\genfrac`, `\begin`, `\`,
	"%", "%c\n", "% {$\"'\n", "%\n", "%%\n", "&", "#", "@", "|", "`", "∑", "٣", "\u00a0", "\v", "\x01", "²",
}

var soupToken = rapid.Custom(func(t *rapid.T) string {
	return dictStr(t, one(t, soupTokens, "token"), utf8.ValidString)
})

func drawSoup(t *rapid.T) string {
	if uni(t, 12, "longsoup") == 0 {
		return strings.Join(rapid.SliceOfN(soupToken, 15, 80).Draw(t, "soup"), "")
	}
	return strings.Join(rapid.SliceOfN(soupToken, 0, 14).Draw(t, "soup"), "")
}

func (c parseCase) texts() (string, []*N, verdict, string) {
	if c.Text != "" || c.Expr == nil {
		tree, v, why := refParse(c.Text)
		return c.Text, tree, v, why
	}
	return writeExpr(c.Expr, c.Blanks).text, c.Expr, accepted, ""
}

func runC01(c parseCase, o *Obs) error {
	text, want, v, _ := c.texts()
	o.Label("text: %v", c.Expr == nil)
	if v != accepted {
		o.Label("not accepted")
		return nil
	}
	// the reference parser and the generator agree on the grammar.
	if c.Expr != nil {
		tree, v, why := refParse(text)
		if v != accepted || treeString(tree) != treeString(want) {
			return fmt.Errorf("harness: reference parser: %q: %v (%s): %s, want %s", text, v, why, treeString(tree), treeString(want))
		}
	}
	if _, err := parseMatch(text, want); err != nil {
		return err
	}
	nested := depthOf(want)
	o.NonTrivial(nested >= 2 && countNodes(want) >= 4)
	o.Label("depth %d", min(nested, 6))
	walkAll(want, func(n *N) {
		if n.K == "opt" || n.K == "sup" || n.K == "sub" {
			o.Label("has %s", n.K)
		}
	})
	return nil
}

// deepCases are deeply nested well-formed expressions.
func deepCases() []parseCase {
	var out []parseCase
	for _, n := range []int{40, 150, 600, 2500} {
		for _, d := range [][5]string{
			{"", `\sqrt{`, "x", "}", ""}, {"", `\sqrt[`, "x", "]{y}", ""}, {"", `\frac{a`, "x", "}{y}", ""}, {"", `\frac{y}{`, "x", "b}", " c"}, {"", `\overline{$`, "x", "$}", ""},
			{"", "x_", "x", "", "z"}, {"", "^{", "x", "}", "z"}, {"", "x^{y_{", "x", "}}", ""}, {"$", "{", "", "}", "z$"}, {"$", "a{x^{", "b", "}}", "$"}, {"$", `{\mathbf{`, "b", "}}", "$"},
		} {
			c := textCase{Pre: d[0], Open: d[1], Text: []byte(d[2]), Close: d[3], Post: d[4], N: n}
			out = append(out, parseCase{Text: c.source()})
		}
	}
	return out
}

// enumC01 puts every command into its simplest expression.
func enumC01() []parseCase {
	var out []parseCase
	add := func(ns ...*N) {
		out = append(out, parseCase{Expr: ns})
		out = append(out, parseCase{Expr: []*N{{K: "math", C: ns}}})
	}
	word := func(s string) *N { return &N{K: "word", T: s} }
	for _, k := range allMacros {
		add(&N{K: "mac", T: k}, word("x"))
	}
	for _, k := range keysOf(macroArity) {
		if macroArity[k] == "" {
			continue
		}
		n := &N{K: "mac", T: k}
		m := &N{K: "mac", T: k}
		for i, a := range macroArity[k] {
			switch a {
			case 'a':
				n.C = append(n.C, &N{K: "arg", C: []*N{word(string(rune('a' + i)))}})
				m.C = append(m.C, &N{K: "arg"})
			case 'o':
				n.C = append(n.C, &N{K: "opt", C: []*N{word("n")}})
			}
		}
		add(n, word("y"))
		add(m, word("y"))
	}
	for _, s := range textSyms {
		out = append(out, parseCase{Expr: []*N{word("x"), {K: "sym", T: string(s)}, word("y")}})
	}
	return out
}

// shortAlphabets are the pieces of the texts enumerated exhaustively, and how
// many pieces there are at most.
var shortAlphabets = []struct {
	n      int
	pieces []string
}{
	{3, []string{`\`, " ", "\t", "\n", "\r", "%", "$", "{", "}", "[", "]", "(", "^", "_", "a", "é", "1", ".", "-", "'", ",", `\sqrt`, `\frac`, `\alpha`, `\overline{`, "&"}},
	{5, []string{`\`, " ", "\t", "\n", "\r", "%", "a", "$"}},
	{5, []string{"%", "\n", "{", "}", "^", "a", "$", " "}},
	{5, []string{`\sqrt`, "[", "]", "{", "}", "1", "%\n", "$"}},
	{6, []string{"1", ".", "a", "-", " "}},
}

// shortTexts are all the texts made of few pieces.
func shortTexts() []string {
	var out []string
	seen := map[string]bool{}
	for _, a := range shortAlphabets {
		var rec func(s string, n int)
		rec = func(s string, n int) {
			if !seen[s] {
				seen[s] = true
				out = append(out, s)
			}
			if n == 0 {
				return
			}
			for _, p := range a.pieces {
				rec(s+p, n-1)
			}
		}
		rec("", a.n)
	}
	return out
}

// shortCases are the short texts that are well-formed.
func shortCases() []parseCase {
	var out []parseCase
	for _, s := range shortTexts() {
		if _, v, _ := refParse(s); v == accepted && s != "" {
			out = append(out, parseCase{Text: s})
		}
	}
	return out
}

// wideCases have very many items at the same level.
func wideCases() []parseCase {
	var out []parseCase
	for _, x := range []string{"x^2", "x_{y}", "$x$", "$", `\alpha `, `\frac12 `, `\frac{1}{2}`, `\sqrt[3]{x}`, `\sqrt{}`, "1.5 ", "+", "(", " ", "%c\n", "\n", `\ `, "é ", `\,`} {
		n := 12000
		if x == "$" {
			out = append(out, parseCase{Text: strings.Repeat("$$", n) + "x"})
			continue
		}
		y := strings.ReplaceAll(x, "$x$", "{x}")
		for _, t := range []string{strings.Repeat(x, n), "$" + strings.Repeat(y, n) + "$", `\sqrt{` + strings.Repeat(x, n) + "}"} {
			out = append(out, parseCase{Text: t + "z"})
		}
	}
	return out
}

// contextCases puts every command and other item into every place of an
// expression: alone, before and after another item.
func contextCases() []parseCase {
	var (
		out   []parseCase
		items []*N
		word  = func() *N { return &N{K: "word", T: "y"} }
	)
	for _, k := range allMacros {
		items = append(items, &N{K: "mac", T: k})
	}
	for _, k := range keysOf(macroArity) {
		n := &N{K: "mac", T: k}
		full := &N{K: "mac", T: k}
		for _, a := range macroArity[k] {
			switch a {
			case 'a':
				n.C = append(n.C, &N{K: "arg"})
				full.C = append(full.C, &N{K: "arg", C: []*N{{K: "num", T: "7"}}})
			case 'o':
				full.C = append(full.C, &N{K: "opt", C: []*N{{K: "num", T: "3"}}})
			}
		}
		items = append(items, n)
		if len(full.C) > 0 {
			items = append(items, full)
		}
	}
	for _, s := range textSyms {
		items = append(items, &N{K: "sym", T: string(s)})
	}
	items = append(items, &N{K: "word", T: "x"}, &N{K: "num", T: "0.5"}, &N{K: "math"}, &N{K: "math", C: []*N{word()}})
	places := []func(ns []*N) *N{
		func(ns []*N) *N { return &N{K: "sup", C: []*N{{K: "list", C: ns}}} },
		func(ns []*N) *N { return &N{K: "sub", C: []*N{{K: "list", C: ns}}} },
		func(ns []*N) *N {
			return &N{K: "mac", T: `\frac`, C: []*N{{K: "arg", C: ns}, {K: "arg", C: []*N{word()}}}}
		},
		func(ns []*N) *N { return &N{K: "mac", T: `\frac`, C: []*N{{K: "arg"}, {K: "arg", C: ns}}} },
		func(ns []*N) *N {
			return &N{K: "mac", T: `\sqrt`, C: []*N{{K: "opt", C: ns}, {K: "arg", C: []*N{word()}}}}
		},
		func(ns []*N) *N { return &N{K: "mac", T: `\sqrt`, C: []*N{{K: "arg", C: ns}}} },
		func(ns []*N) *N { return &N{K: "mac", T: `\overline`, C: []*N{{K: "arg", C: ns}}} },
		func(ns []*N) *N { return &N{K: "math", C: ns} },
		func(ns []*N) *N { return &N{K: "math", C: []*N{{K: "list", C: ns}}} },
		func(ns []*N) *N { return &N{K: "math", C: []*N{{K: "sup", C: []*N{{K: "list", C: ns}}}}} },
	}
	for i, item := range items {
		var bare []*N
		for _, k := range []string{"sup", "sub"} {
			if item.K != "math" {
				bare = append(bare, &N{K: k, C: []*N{item}})
			}
		}
		lists := [][]*N{{item}, {item, word()}, {word(), item}, {item, item}}
		for j, place := range places {
			for k, list := range lists {
				if k > 0 && (i+j+k)%3 > 0 && item.K == "mac" && len(item.C) == 0 {
					continue // there are many of these
				}
				out = append(out, parseCase{Expr: []*N{word(), place(list), word()}})
			}
		}
		for _, b := range bare {
			out = append(out, parseCase{Expr: []*N{word(), b, word()}}, parseCase{Expr: []*N{{K: "math", C: []*N{word(), b}}}})
		}
	}
	// only what the grammar allows.
	var ok []parseCase
	for _, c := range out {
		text, want, _, _ := c.texts()
		if tree, v, _ := refParse(text); v == accepted && treeString(tree) == treeString(want) {
			ok = append(ok, c)
		}
	}
	return ok
}

// --- C02 ---

func runC02(c parseCase, o *Obs) error {
	if c.Expr == nil {
		tree, v, _ := refParse(c.Text)
		if v != accepted {
			return nil
		}
		c = parseCase{Expr: tree}
	}
	s := writeExpr(c.Expr, c.Blanks)
	pairs, err := parseMatch(s.text, c.Expr)
	if err != nil {
		// the tree is another property: positions are decided on right trees.
		o.Label("other tree")
		return nil
	}
	multi := len(s.text) != utf8.RuneCountInString(s.text)
	for i, p := range pairs {
		want := s.pos[p.want]
		if p.want.K == "list" {
			// groups: known finding, only what lies inside is required.
			if len(p.want.C) == 0 {
				continue
			}
			if err := inside(p.got, want[0], want[1]); err != nil {
				return fmt.Errorf("%q: group: %w", s.text, err)
			}
			continue
		}
		pos, end := int(p.got.Pos()), int(p.got.End())
		if pos != want[0] {
			return fmt.Errorf("%q: %s: Pos = %d, want %d", s.text, dump(p.got), pos, want[0])
		}
		braced := (p.want.K == "sup" || p.want.K == "sub") && p.want.C[0].K == "list"
		switch {
		case end == want[1]:
		case braced && o.Known("group-end") && groupEnd(p.got) == end:
			o.Label("known: end of a braced script")
		default:
			return fmt.Errorf("%q: %s: End = %d, want %d", s.text, dump(p.got), end, want[1])
		}
		if m, ok := p.got.(*ast.Macro); ok {
			nm := s.name[p.want]
			if int(m.Name.Pos()) != nm[0] || int(m.Name.End()) != nm[1] {
				return fmt.Errorf("%q: %s: name at [%d,%d), want [%d,%d)", s.text, dump(p.got), m.Name.Pos(), m.Name.End(), nm[0], nm[1])
			}
		}
		// read back.
		if !braced {
			src := s.text[pos:end]
			switch p.want.K {
			case "word", "num", "sym":
				if src != p.want.T {
					return fmt.Errorf("%q: %s reads back as %q", s.text, dump(p.got), src)
				}
			case "arg":
				if src[0] != '{' || src[len(src)-1] != '}' {
					return fmt.Errorf("%q: %s reads back as %q", s.text, dump(p.got), src)
				}
			case "opt":
				if src[0] != '[' || src[len(src)-1] != ']' {
					return fmt.Errorf("%q: %s reads back as %q", s.text, dump(p.got), src)
				}
			case "math":
				if len(src) < 2 || src[0] != '$' || src[len(src)-1] != '$' {
					return fmt.Errorf("%q: %s reads back as %q", s.text, dump(p.got), src)
				}
			}
		}
		// within the parent, after the previous sibling.
		if p.parent >= 0 && pairs[p.parent].want.K != "list" && pairs[p.parent].want.K != "sup" && pairs[p.parent].want.K != "sub" {
			par := pairs[p.parent].got
			if pos < int(par.Pos()) || end > int(par.End()) {
				return fmt.Errorf("%q: %s at [%d,%d) is not within its parent %s at [%d,%d)", s.text, dump(p.got), pos, end, dump(par), par.Pos(), par.End())
			}
		}
		for j := i - 1; j >= 0; j-- {
			if pairs[j].parent == p.parent {
				if pairs[j].want.K != "list" && int(pairs[j].got.End()) > pos {
					return fmt.Errorf("%q: %s overlaps the previous node %s", s.text, dump(p.got), dump(pairs[j].got))
				}
				break
			}
		}
	}
	o.NonTrivial(len(pairs) >= 3 && len(s.text) >= 6)
	o.Label("multi-byte: %v", multi)
	if strings.Contains(s.text, "%") {
		o.Label("with comments")
	}
	return nil
}

func groupEnd(n ast.Node) int {
	switch n := n.(type) {
	case *ast.Sup:
		return int(n.Node.End())
	case *ast.Sub:
		return int(n.Node.End())
	}
	return math.MinInt
}

// inside checks the items of a group lie between its braces.
func inside(n ast.Node, from, to int) error {
	l, ok := n.(ast.List)
	if !ok {
		return nil
	}
	for _, x := range l {
		if _, ok := x.(ast.List); ok {
			continue
		}
		if int(x.Pos()) < from || int(x.End()) > to {
			return fmt.Errorf("%s at [%d,%d) is not within [%d,%d)", dump(x), x.Pos(), x.End(), from, to)
		}
	}
	return nil
}

func probeGroupEnd() (string, bool) {
	n, err := latex.ParseExpr("x^{ab}")
	if err != nil {
		return "", false
	}
	l, ok := n.(ast.List)
	if !ok || len(l) != 2 {
		return "", false
	}
	return "the End of a sub/superscript (or group) in braces is the end of its last item, not of its closing brace: x^{ab}", l[1].End() == 5
}

// --- C03 ---

type textCase struct {
	Text []byte `json:"text"`
	Note string `json:"note,omitempty"`
	// if not zero, the text is Pre, Open, N times, Text, Close, N times, and Post.
	N     int    `json:"n,omitempty"`
	Pre   string `json:"pre,omitempty"`
	Open  string `json:"open,omitempty"`
	Close string `json:"close,omitempty"`
	Post  string `json:"post,omitempty"`
}

// source returns the text of the case.
func (c textCase) source() string {
	if c.N <= 0 || c.N > 1e7 {
		return string(c.Text)
	}
	return c.Pre + strings.Repeat(c.Open, c.N) + string(c.Text) + strings.Repeat(c.Close, c.N) + c.Post
}

// deepTexts are nested more deeply than there may be stack for.
func deepTexts() []textCase {
	var out []textCase
	for _, d := range [][3]string{
		{`\sqrt{`, "x", "}"}, {`\sqrt[`, "x", "]{y}"}, {`\frac{`, "x", "}{y}"}, {`\frac{y}{`, "x", "}"}, {`\binom{`, "", "}{}"},
		{`\overline{`, "x", "}"}, {`\exp{`, "x", "}"}, {`\mathbf{`, "x", "}"}, {`\overline{$`, "x", "$}"}, {`\overline{${`, "", "}$}"},
		{"^", "x", ""}, {"x_", "x", ""}, {"^{", "x", "}"}, {"_{", "", "}"}, {"x^{y_{", "x", "}}"}, {`\sqrt[{`, "x", ""}, {`\sqrt{`, "", ""}, {`\hspace{`, "2", "}"},
	} {
		out = append(out, textCase{N: 1200000, Open: d[0], Text: []byte(d[1]), Close: d[2], Note: "very deep"})
	}
	for _, d := range [][3]string{{"{", "", "}"}, {"{x^{", "", "}}"}, {"{", "x", ""}} {
		out = append(out, textCase{N: 1200000, Pre: "$", Open: d[0], Text: []byte(d[1]), Close: d[2], Post: "$", Note: "very deep"})
	}
	return out
}

// edits are damages done to a well-formed expression.
var edits = []string{
	"delete", "insert", "truncate", "swap", "double", "close", "open", "dollar", "macro", "chars", "argless", "operand", "none",
}

func drawTextCase(t *rapid.T) textCase {
	switch uni(t, 6, "mode") {
	case 0:
		return textCase{Text: rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "bytes"), Note: "bytes"}
	case 1:
		return textCase{Text: []byte(rapid.StringN(0, 20, -1).Draw(t, "string")), Note: "string"}
	case 2:
		return textCase{Text: []byte(drawSoup(t)), Note: "soup"}
	case 3:
		s := drawSoup(t)
		b := []byte(s)
		for i := 0; i < 2 && len(b) > 0; i++ {
			b[rapid.IntRange(0, len(b)-1).Draw(t, "at")] = rapid.Byte().Draw(t, "byte")
		}
		return textCase{Text: b, Note: "mutated soup"}
	}
	p := profParse()
	s := writeExpr(genExpr(t, p, 1+uni(t, 30, "budget")), genBlanks(t, true))
	return textCase{Text: []byte(damage(t, s.text)), Note: "damaged"}
}

func damage(t *rapid.T, text string) string {
	r := []rune(text)
	at := func(label string) int {
		if len(r) == 0 {
			return 0
		}
		return rapid.IntRange(0, len(r)-1).Draw(t, label)
	}
	ins := func(s string) string {
		i := at("at")
		return string(r[:i]) + s + string(r[i:])
	}
	switch one(t, edits, "edit") {
	case "delete":
		if len(r) > 0 {
			i := at("at")
			return string(r[:i]) + string(r[i+1:])
		}
	case "insert":
		return ins(one(t, soupTokens, "token"))
	case "truncate":
		return string(r[:at("at")])
	case "swap":
		if len(r) > 1 {
			i := at("at")
			j := at("at2")
			r[i], r[j] = r[j], r[i]
			return string(r)
		}
	case "double":
		if len(r) > 0 {
			i := at("at")
			return string(r[:i+1]) + string(r[i:])
		}
	case "close":
		return ins("}")
	case "open":
		return ins("{")
	case "dollar":
		return ins("$")
	case "macro":
		return ins(`\nosuchmacro `)
	case "chars":
		return ins(string(one(t, []rune("&#@|`∑²\v\x01\u2003"), "char")))
	case "argless":
		return ins(one(t, []string{`\frac`, `\frac{x}`, `\sqrt`, `\sqrt[3]`, `\overline`, `\exp`, `\mathbf x`, `\hspace 2`}, "cmd"))
	case "operand":
		return text + one(t, []string{"^", "_", "^ ", "_%c\n", "^{", "_{a", "$x^", "{^}", "$x^}$"}, "script")
	}
	return text
}

func runC03(c textCase, o *Obs) error {
	text := c.source()
	_, err, failure := parse(text)
	if c.Note == "very deep" {
		// is either parsed or rejected.
		o.Label("very deep: rejected: %v", err != nil)
		o.NonTrivial(true)
		if failure != nil {
			return cutError(failure)
		}
		return nil
	}
	if failure != nil {
		return failure
	}
	_, v, why := refParse(text)
	o.Label("%s: %v", c.Note, v)
	switch {
	case v == rejected && err == nil:
		return fmt.Errorf("malformed expression %q is accepted (%s)", text, why)
	case v == accepted && err != nil:
		return fmt.Errorf("well-formed expression %q is rejected: %v", text, err)
	case err != nil && err.Error() == "":
		return fmt.Errorf("%q: empty error", text)
	}
	if v == rejected {
		o.Label("rejected: %s", strings.SplitN(why, " \\", 2)[0])
	}
	o.NonTrivial(v == rejected || (v == unspecified && len(text) > 2))
	return nil
}

// cutError shortens the message of an error.
func cutError(err error) error {
	if s := err.Error(); len(s) > 3000 {
		return fmt.Errorf("%s ... %s", s[:1500], s[len(s)-1000:])
	}
	return err
}

// enumC03 holds malformed and very deep expressions.
func enumC03() []textCase {
	var out []textCase
	add := func(s ...string) {
		for _, s := range s {
			out = append(out, textCase{Text: []byte(s), Note: "fixed"})
		}
	}
	add("", "$", "$$$", "{", "}", "$}$", "${$", "$x", `\`, `$\$`, `\frac`, `\frac{`, `\frac{}`, `\frac{}{`, `\sqrt[`, `\sqrt[]`, `\sqrt[]{`,
		"^", "_", "x^", "x_", "$x^$", "^}", "x^{", "x_{", `\genfrac`, `\genfrac{a}{b}`, `\begin{x}`, "\xff", "\x00", "\ufeff", `"`, `"a`, `"a"`, `\"`, `\"a"`,
		"'", "'a", "`", "``", "%", "%\n", "%a", `\%`, `\\`, `\\\`, "a\\", "$\\", "\\frac%", "\\sqrt%[\n", "\\sqrt%\n[", "\\sqrt %c\n[3] %d\n {x}",
	)
	for _, n := range []int{100, 3000} {
		add(strings.Repeat(`\sqrt{`, n), strings.Repeat(`\sqrt{`, n)+strings.Repeat("}", n),
			"$"+strings.Repeat("{", n), "$"+strings.Repeat("{", n)+strings.Repeat("}", n)+"$",
			strings.Repeat("^", n), strings.Repeat("x^", n)+"x", strings.Repeat("$", n), strings.Repeat("%", n), strings.Repeat("a", n), strings.Repeat("1.", n),
			strings.Repeat(`\frac{1}{`, n)+"2"+strings.Repeat("}", n), strings.Repeat(" ", n), strings.Repeat("\n", n),
		)
	}
	for _, x := range []string{"a", "1", "x^2", `\alpha `, "$x$", "(", `\frac12 `, `\frac{1}{2}`, "+", " ", "%\n", "é", "x_{y}"} {
		out = append(out, textCase{N: 70000, Open: x, Note: "very long"})
	}
	for _, x := range []string{"{x}", "{}", " ", "%\n", "x^2", "x_{y}", `\alpha `, `\frac{1}{2}`, `\sqrt[3]{x}`, "1 "} {
		out = append(out, textCase{N: 20000, Pre: "$", Open: x, Post: "$", Note: "very long"})
	}
	for _, s := range shortTexts() {
		out = append(out, textCase{Text: []byte(s), Note: "short"})
	}
	return append(out, deepTexts()...)
}

// --- C04 ---

type blankCase struct {
	Expr   []*N       `json:"expr"`
	Blanks [][]string `json:"blanks,omitempty"`
	More   [][]string `json:"more,omitempty"`
	Tail   string     `json:"tail,omitempty"` // unfinished comment at the end
}

func runC04(c blankCase, o *Obs) error {
	if c.Tail != "" && strings.ContainsAny(c.Tail, "\n") {
		return nil
	}
	clean := writeExpr(c.Expr, nil)
	base, err, failure := parse(clean.text)
	if failure != nil || err != nil {
		o.Label("clean source rejected")
		return nil // decided by C01, C03
	}
	want := dump(base)
	n := 0
	for i, b := range [][][]string{c.Blanks, c.More} {
		w := writeExpr(c.Expr, b)
		text := w.text
		if i == 1 && c.Tail != "" {
			text += "%" + c.Tail
		}
		if text == clean.text {
			continue
		}
		n++
		got, err, failure := parse(text)
		if failure != nil {
			return failure
		}
		if err != nil {
			return fmt.Errorf("%q is accepted, but with blanks and comments %q is rejected: %v", clean.text, text, err)
		}
		if d := dump(got); d != want {
			return fmt.Errorf("blanks and comments change the tree\nsource %q: %s\nsource %q: %s", clean.text, want, text, d)
		}
		if strings.Contains(text, "%") {
			o.Label("with comment")
		}
	}
	o.NonTrivial(n > 0 && countNodes(c.Expr) >= 3)
	// escaped percent signs and significant spaces are kept.
	count := func(ns []*N, f func(*N) bool) (k int) {
		walkAll(ns, func(n *N) {
			if f(n) {
				k++
			}
		})
		return k
	}
	for what, f := range map[string]func(*N) bool{
		`mac{"\\%" []}`: func(n *N) bool { return n.K == "mac" && n.T == `\%` },
		`mac{"\\ " []}`: func(n *N) bool { return n.K == "mac" && n.T == `\ ` },
		`sym(" ")`:      func(n *N) bool { return n.K == "sym" && n.T == " " },
	} {
		if k := count(c.Expr, f); strings.Count(want, what) != k {
			return fmt.Errorf("%q has %d %s, its tree has %d: %s", clean.text, k, what, strings.Count(want, what), want)
		}
	}
	return nil
}

// enumC04 has very many blanks in one place.
func enumC04() []blankCase {
	var (
		out  []blankCase
		word = &N{K: "word", T: "x"}
	)
	for _, e := range [][]*N{
		{word}, {{K: "math", C: []*N{word}}}, {{K: "mac", T: `\frac`, C: []*N{{K: "arg", C: []*N{word}}, {K: "arg"}}}}, {{K: "mac", T: `\sqrt`, C: []*N{{K: "opt", C: []*N{word}}, {K: "arg", C: []*N{word}}}}},
		{word, {K: "sup", C: []*N{word}}, {K: "sub", C: []*N{{K: "list", C: []*N{word}}}}},
	} {
		for _, b := range []string{"%\n", "%c{$\n", " ", "\n", "\t"} {
			gap := manyOf(12000, b)
			// in the first gap, in the second, and so on, and in all of them.
			for k := 0; k < 7; k++ {
				bl := make([][]string, 7)
				bl[k] = gap
				out = append(out, blankCase{Expr: e, Blanks: bl, More: bl[:k+1]})
			}
			out = append(out, blankCase{Expr: e, Blanks: [][]string{gap}})
		}
	}
	return out
}

func drawBlankCase(t *rapid.T) blankCase {
	p := profParse()
	// more of what is at stake.
	p.kinds = append(append([]string{}, p.kinds...), "percent", "percent")
	g := &gen{t: t, p: p, budget: 1 + uni(t, 25, "budget")}
	g.p.kinds = kindsParse
	g.p.macros = append(append([]string{}, allMacros...), manyOf(120, `\%`, `\ `)...)
	var expr []*N
	if uni(t, 2, "math") == 0 {
		expr = []*N{{K: "math", C: g.list(gctx{math: true}, 1)}}
	} else {
		expr = g.list(gctx{}, 1)
	}
	c := blankCase{Expr: expr, Blanks: denseBlanks(t), More: denseBlanks(t)}
	if uni(t, 4, "tail") == 0 {
		c.Tail = strings.ReplaceAll(genComment(t), "\n", "")
	}
	return c
}

func manyOf(n int, s ...string) []string {
	var o []string
	for i := 0; i < n; i++ {
		o = append(o, s[i%len(s)])
	}
	return o
}

// denseBlanks fills about half of the gaps.
func denseBlanks(t *rapid.T) [][]string {
	n := rapid.IntRange(1, 30).Draw(t, "gaps")
	var o [][]string
	for i := 0; i < n; i++ {
		var gap []string
		for j := uni(t, 3, "pieces"); j > 0; j-- {
			gap = append(gap, genBlank(t, true))
		}
		o = append(o, gap)
	}
	return o
}

func init() {
	register("C01", "grammar-based expressions written out with arbitrary blanks and comments, and token soups accepted by the reference parser; non-trivial: at least 4 nodes, nested",
		300000, 2500000, drawParseCase, runC01, withEnum(func() []parseCase {
			return slices.Concat(enumC01(), contextCases(), deepCases(), shortCases(), wideCases())
		}))
	register("C02", "as C01; non-trivial: at least 3 nodes whose Pos and End are compared with the offsets recorded by the generator",
		300000, 2000000, drawParseCase, runC02, withEnum(func() []parseCase { return slices.Concat(contextCases(), deepCases(), shortCases(), wideCases()) }), withKnown("group-end", probeGroupEnd))
	register("C03", "random bytes, strings, token soups, and well-formed expressions with a damaging edit; non-trivial: the reference parser rejects the input or leaves it unspecified",
		400000, 4000000, drawTextCase, runC03, withEnum(enumC03))
	register("C04", "expressions written with two different fillings of their gaps with blanks and comments; non-trivial: at least 3 nodes and at least one blank inserted",
		150000, 2000000, drawBlankCase, runC04, withEnum(enumC04))
}
