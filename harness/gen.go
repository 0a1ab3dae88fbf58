package main

import (
	"fmt"
	"math"
	"math/bits"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unicode"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// This file holds the reference grammar: trees of well-formed expressions are
// generated, then written out with blanks and comments at every place they may
// stand, while recording where each node starts and ends.

// N is a node of a reference tree.
//
// Kinds: word, num, sym, mac (a command, its arguments are the children), arg,
// opt, list (a group), sup, sub (a child: a list for a braced operand) and math.
type N struct {
	K string `json:"k"`
	T string `json:"t,omitempty"`
	C []*N   `json:"c,omitempty"`
	R bool   `json:"r,omitempty"` // the very node of an equal sibling before
}

func (n *N) String() string {
	switch n.K {
	case "word", "num", "sym":
		return fmt.Sprintf("%s(%q)", n.K, n.T)
	}
	var c []string
	for _, x := range n.C {
		c = append(c, x.String())
	}
	if n.T != "" {
		c = append([]string{fmt.Sprintf("%q", n.T)}, c...)
	}
	return n.K + "{" + strings.Join(c, " ") + "}"
}

func treeString(ns []*N) string { return (&N{K: "list", C: ns}).String() }

func (n *N) walk(f func(*N)) {
	f(n)
	for _, c := range n.C {
		c.walk(f)
	}
}

func walkAll(ns []*N, f func(*N)) {
	for _, n := range ns {
		n.walk(f)
	}
}

func countNodes(ns []*N) int {
	k := 0
	walkAll(ns, func(*N) { k++ })
	return k
}

func depthOf(ns []*N) int {
	d := 0
	for _, n := range ns {
		d = max(d, 1+depthOf(n.C))
	}
	return d
}

// prof is a generator profile.
type prof struct {
	typeset bool     // only what mtex can typeset
	scripts bool     // sub- and superscripts
	letters []rune   // of words
	macros  []string // plain symbol macros
	kinds   []string // of items, repeated by weight
	textOK  bool     // items outside of math expressions
	maxLen  int      // of lists
	depth   int      // of nesting
}

var (
	lettersASCII = []rune("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
	lettersWide  = []rune("abcxyzABCXYZéßœñıłαβγΩΔяЖשعअ中日한ǅªʰ𝒜𝛼𐐀")
	allMacros    = parsableMacros()   // all plain symbol macros the parser accepts
	setMacros    = typesetMacros()    // those mtex typesets as a symbol
	spaceMacros  = keysOf(spaceTable) // explicit spaces
	funcMacros   = functionMacros()
)

var spaceTable = map[string]float64{
	`\,`:         3. / 18,
	`\thinspace`: 3. / 18,
	`\/`:         3. / 18,
	`\>`:         4. / 18,
	`\:`:         4. / 18,
	`\;`:         5. / 18,
	`\ `:         6. / 18,
	`\enspace`:   1. / 2,
	`\quad`:      1,
	`\qquad`:     2,
	`\!`:         -3. / 18,
}

func keysOf[V any](m map[string]V) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}

// isControl tells whether the name of a macro can be scanned as one: a
// backslash followed by letters, or by one other character.
func isControl(name string) bool {
	name = name[1:]
	r, n := utf8.DecodeRuneInString(name)
	if !unicode.IsLetter(r) {
		return n == len(name)
	}
	for _, r := range name {
		if !unicode.IsLetter(r) {
			return false
		}
	}
	return true
}

func parsableMacros() []string {
	set := map[string]bool{}
	for k := range texUnicode {
		if isControl(k) {
			set[k] = true
		}
	}
	for k, v := range macroArity {
		set[k] = true
		if v != "" {
			delete(set, k)
		}
	}
	return keysOf(set)
}

func typesetMacros() []string {
	set := map[string]bool{}
	for k := range texUnicode {
		if isControl(k) {
			set[k] = true
		}
	}
	for _, k := range refClasses["FunctionNames"] {
		delete(set, `\`+k)
	}
	for _, k := range refClasses["PunctuationSymbols"] {
		delete(set, k)
	}
	for k := range spaceTable {
		delete(set, k)
	}
	return keysOf(set)
}

func functionMacros() []string {
	var o []string
	for _, k := range refClasses["FunctionNames"] {
		if macroArity[`\`+k] == "" {
			o = append(o, `\`+k)
		}
	}
	return o
}

func inClass(class, sym string) bool {
	for _, v := range refClasses[class] {
		if v == sym {
			return true
		}
	}
	return false
}

func isSpacedRef(sym string) bool {
	return inClass("BinaryOperators", sym) || inClass("RelationSymbols", sym) || inClass("ArrowSymbols", sym)
}

const (
	textSyms       = "=<>/*-+!?':,;.()[] "
	mathSyms       = "=<>/*-+!?':,;.()[]"
	mathSymsMtex   = "=<>:*-+.()"
	unsupportedSym = ",;!?/'[]"
)

// gen draws trees.
type gen struct {
	t      *rapid.T
	p      prof
	budget int
	made   map[gctx][]*N // the items drawn so far, by context but for the depth
}

type gctx struct {
	math  bool
	inOpt bool // a "]" would end the enclosing optional argument
	arg   bool // directly in an argument, where a "$" opens a math expression
	depth int
}

var bit = rapid.Bool()

// uni draws an integer in [0,n), (almost) uniformly: the integers of rapid are
// biased towards small ones.
func uni(t *rapid.T, n int, label string) int {
	v := 0
	k := bits.Len(uint(n - 1))
	if n&(n-1) != 0 {
		k += 2
	}
	for i := 0; i < k; i++ {
		v <<= 1
		if bit.Draw(t, label) {
			v |= 1
		}
	}
	return v * n >> k
}

// one draws an element of a list, uniformly.
func one[T any](t *rapid.T, from []T, label string) T { return from[uni(t, len(from), label)] }

func (g *gen) intn(n int, label string) int { return uni(g.t, n, label) }

func pick[T any](g *gen, from []T, label string) T {
	return from[g.intn(len(from), label)]
}

// letter draws a letter, of any script.
func (g *gen) letter() rune {
	if r := dictRune(g.t, 0, unicode.IsLetter); r != 0 {
		return r
	}
	switch g.intn(32, "script") {
	case 0:
		return lettersAll()[g.intn(len(lettersAll()), "any")]
	case 1, 2:
		return pick(g, lettersWide, "wide")
	}
	return pick(g, g.p.letters, "letter")
}

var lettersAll = sync.OnceValue(func() []rune {
	var out []rune
	for r := rune(0); r <= unicode.MaxRune; r++ {
		if unicode.IsLetter(r) {
			out = append(out, r)
		}
	}
	return out
})

func (g *gen) word() *N {
	n := dictInt(g.t, 1+g.intn(4, "wordlen"), 1, 4000)
	if s := dictStr(g.t, "", isAlphabetic); s != "" {
		return &N{K: "word", T: s}
	}
	var o strings.Builder
	if n > 4 && g.intn(2, "bytes") == 0 {
		// of as many bytes as letters.
		for i := 0; i < n; i++ {
			o.WriteRune(pick(g, lettersASCII, "letter"))
		}
		return &N{K: "word", T: o.String()}
	}
	for i := 0; i < n; i++ {
		o.WriteRune(g.letter())
	}
	return &N{K: "word", T: o.String()}
}

func (g *gen) digits(min int) string {
	n := dictInt(g.t, min+g.intn(4, "digits"), max(min, 1), 4000)
	if n <= 4 {
		if v := dictInt(g.t, -1, 0, math.MaxInt); v >= 0 {
			return strconv.Itoa(v)
		}
	}
	var o strings.Builder
	for i := 0; i < n; i++ {
		o.WriteByte(byte('0' + g.intn(10, "digit")))
	}
	return o.String()
}

func (g *gen) num(math bool) *N {
	if g.p.typeset && !math {
		// dots at the ends of numbers in text are unspecified.
		switch g.intn(2, "numkind") {
		case 0:
			return &N{K: "num", T: g.digits(1)}
		default:
			return &N{K: "num", T: g.digits(1) + "." + g.digits(1)}
		}
	}
	switch g.intn(4, "numkind") {
	case 0, 1:
		return &N{K: "num", T: g.digits(1)}
	case 2:
		return &N{K: "num", T: g.digits(1) + "." + g.digits(0)}
	default:
		return &N{K: "num", T: "." + g.digits(1)}
	}
}

// constants may draw items made of a constant of the code under test.
func (g *gen) constants(c gctx) []*N {
	if !c.math {
		return nil
	}
	var found []*N
	dictStr(g.t, "", func(s string) bool {
		tree, v, _ := refParse("$" + s + "$")
		if v != accepted || len(tree) != 1 || tree[0].K != "math" {
			return false
		}
		items := tree[0].C
		if c.inOpt {
			items = noRightBracket(items)
		}
		for _, n := range items {
			if n.K != "word" && n.K != "num" && n.K != "sym" && (n.K != "mac" || len(n.C) > 0) {
				return false
			}
		}
		if g.p.typeset {
			if v, _ := refSupport(items, true); v != accepted {
				return false
			}
		}
		found = items
		return true
	})
	return found
}

func (g *gen) sym(c gctx) *N {
	syms := textSyms
	switch {
	case c.math && g.p.typeset:
		syms = mathSymsMtex
	case c.math:
		syms = mathSyms
	}
	if c.inOpt {
		syms = strings.ReplaceAll(syms, "]", "")
	}
	r := dictRune(g.t, rune(syms[g.intn(len(syms), "sym")]), func(r rune) bool { return strings.ContainsRune(syms, r) })
	return &N{K: "sym", T: string(r)}
}

// again may repeat an item drawn before, to meet equal parts.
func (g *gen) again(c gctx) *N {
	c.depth = 0
	made := g.made[c]
	if len(made) == 0 || g.intn(16, "again") != 0 {
		return nil
	}
	n := made[g.intn(len(made), "which")].clone()
	n.walk(func(*N) { g.budget-- })
	return n
}

func (g *gen) arg(c gctx) *N {
	c.inOpt = false
	c.arg = true
	c.depth++
	return &N{K: "arg", C: g.list(c, 0)}
}

func (g *gen) cmd(name string, c gctx) *N {
	n := &N{K: "mac", T: name}
	for _, a := range macroArity[name] {
		switch a {
		case 'a':
			if name == `\hspace` && g.p.typeset {
				x := g.num(true)
				if v, err := strconv.ParseFloat(x.T, 64); err != nil || v >= 10000 || len(x.T) > 9 {
					x.T = x.T[:3]
				}
				n.C = append(n.C, &N{K: "arg", C: []*N{x}})
				continue
			}
			if k := len(n.C); k > 0 && n.C[k-1].K == "arg" && g.intn(10, "equal") == 0 {
				n.C = append(n.C, n.C[k-1].clone())
				continue
			}
			a := g.arg(c)
			if k := len(n.C); k > 0 && n.C[k-1].K == "opt" && g.intn(10, "equal") == 0 {
				a.C = nil
				for _, x := range n.C[k-1].C {
					a.C = append(a.C, x.clone())
				}
			}
			n.C = append(n.C, a)
		case 'o':
			if g.intn(2, "opt") == 1 {
				oc := c
				oc.inOpt = true
				oc.arg = true
				oc.depth++
				n.C = append(n.C, &N{K: "opt", C: g.list(oc, 0)})
			}
		}
	}
	return n
}

var (
	fracCmds = []string{`\frac`, `\dfrac`, `\tfrac`, `\binom`}
	fontCmds = []string{
		`\mathbf`, `\mathit`, `\mathsf`, `\mathtt`, `\mathcal`, `\mathdefault`, `\mathbb`, `\mathfrak`, `\mathscr`, `\mathregular`,
		`\textbf`, `\textit`, `\textsf`, `\texttt`, `\textcal`, `\textdefault`, `\textbb`, `\textfrak`, `\textscr`, `\textregular`,
		`\operatorname`,
	}
	kindsParse = []string{
		"word", "word", "num", "num", "sym", "sym", "sym", "mac", "mac", "space", "frac", "sqrt",
		"over", "exp", "fontcmd", "group", "sup", "sub", "math", "math", "stackrel", "hspace",
	}
	kindsTypeset = []string{
		"word", "word", "num", "sym", "sym", "mac", "mac", "space", "func", "frac", "frac", "sqrt", "sqrt",
		"over", "exp", "group", "math", "math", "hspace",
	}
)

// item draws an item of a list; nil when the drawn kind can't stand here.
func (g *gen) item(c gctx) *N {
	g.budget--
	kind := pick(g, g.p.kinds, "kind")
	deep := c.depth >= g.p.depth || g.budget <= 0
	if deep {
		switch kind {
		case "word", "num", "sym", "mac", "space", "func", "hspace":
		default:
			kind = "word"
		}
	}
	switch kind {
	case "word":
		return g.word()
	case "num":
		return g.num(c.math)
	case "sym":
		return g.sym(c)
	case "mac":
		return &N{K: "mac", T: oneOr(g.t, g.p.macros, "macro")}
	case "space":
		return &N{K: "mac", T: oneOr(g.t, spaceMacros, "space")}
	case "func":
		return &N{K: "mac", T: oneOr(g.t, funcMacros, "func")}
	case "frac":
		return g.cmd(pick(g, fracCmds, "frac"), c)
	case "sqrt":
		return g.cmd(`\sqrt`, c)
	case "over":
		return g.cmd(`\overline`, c)
	case "exp":
		return g.cmd(`\exp`, c)
	case "stackrel":
		return g.cmd(`\stackrel`, c)
	case "hspace":
		return g.cmd(`\hspace`, c)
	case "fontcmd":
		return g.cmd(pick(g, fontCmds, "fontcmd"), c)
	case "group":
		if !c.math {
			return g.word()
		}
		c.inOpt = false
		c.arg = false
		c.depth++
		return &N{K: "list", C: g.list(c, 0)}
	case "math":
		if c.math && !c.arg {
			return g.word()
		}
		c.math = true
		c.inOpt = false
		c.arg = false
		c.depth++
		return &N{K: "math", C: g.list(c, 0)}
	case "sup", "sub":
		n := &N{K: kind}
		c.arg = false
		switch g.intn(3, "operand") {
		case 0:
			c.inOpt = false
			c.depth++
			n.C = []*N{{K: "list", C: g.list(c, 0)}}
		default:
			n.C = []*N{g.operand(c)}
		}
		return n
	}
	panic("harness: item kind " + kind)
}

// operand draws a single-token operand of a script.
func (g *gen) operand(c gctx) *N {
	switch g.intn(6, "operandkind") {
	case 0:
		return g.word()
	case 1:
		return g.num(c.math)
	case 2:
		n := g.sym(c)
		if n.T == " " || n.T == "]" || n.T == "[" {
			n.T = "+"
		}
		return n
	case 3:
		if c.depth < g.p.depth {
			c.depth++
			return g.cmd(pick(g, []string{`\frac`, `\sqrt`, `\overline`, `\mathbf`}, "opcmd"), c)
		}
		fallthrough
	default:
		return &N{K: "mac", T: oneOr(g.t, g.p.macros, "macro")}
	}
}

func (g *gen) list(c gctx, min int) []*N {
	n := dictInt(g.t, min+g.intn(g.p.maxLen+1-min, "len"), 0, 60)
	if n > g.p.maxLen && g.budget > 0 {
		g.budget += n
	}
	var o []*N
	for i := 0; i < n; i++ {
		if g.budget <= 0 && i >= min {
			break
		}
		if xs := g.constants(c); xs != nil {
			o = append(o, xs...)
		}
		x := g.again(c)
		if x == nil {
			x = g.item(c)
			key := c
			key.depth = 0
			if g.made == nil {
				g.made = map[gctx][]*N{}
			}
			g.made[key] = append(g.made[key], x)
		}
		if !c.math && !g.p.textOK && c.depth == 0 && x.K != "math" {
			continue
		}
		o = append(o, x)
	}
	return o
}

// expr draws a whole expression.
func genExpr(t *rapid.T, p prof, budget int) []*N {
	g := &gen{t: t, p: p, budget: budget}
	c := gctx{}
	var ns []*N
	if g.intn(2, "allmath") == 0 {
		mc := gctx{math: true}
		ns = []*N{{K: "math", C: g.list(mc, 0)}}
	} else {
		ns = g.list(c, 0)
	}
	if g.intn(14, "large") == 0 || dictInt(t, 0, 1, 60) > 4 {
		levels := 24
		if !p.typeset {
			levels = one(t, append(manyInts(6, 24), 100, 300), "maxlevels")
		}
		ns = enlarge(t, ns, levels, p.scripts)
	}
	return ns
}

// enlarge makes an expression large in one way: a long list, a long word or
// number, or a deep one.
func enlarge(t *rapid.T, ns []*N, levels int, scripts bool) []*N {
	kinds := 4
	if scripts {
		kinds = 6
	}
	top := &N{K: "list", C: ns}
	var lists, tokens []*N
	var visit func(n *N)
	visit = func(n *N) {
		if n.T == `\hspace` {
			return
		}
		switch n.K {
		case "word", "num":
			tokens = append(tokens, n)
		case "arg", "opt", "list", "math":
			if len(n.C) > 0 {
				lists = append(lists, n)
			}
		}
		for _, x := range n.C {
			visit(x)
		}
	}
	visit(top)
	switch kind := uni(t, 3, "how"); {
	case kind == 0 && len(lists) > 0:
		n := one(t, lists, "list")
		items := n.C
		if len(items) > 8 {
			items = items[:8]
		}
		var more []*N
		k := 2 + uni(t, one(t, append(manyInts(12, 40), 300, 2000), "max"), "times")
		if total := dictInt(t, 0, 1, 20000); total > 0 {
			k = 1 + total/len(items)
		}
		for ; k > 0; k-- {
			for _, x := range items {
				more = append(more, x.clone())
			}
		}
		n.C = append(more, n.C...)
	case kind == 1 && len(tokens) > 0:
		n := one(t, tokens, "token")
		k := 1 + uni(t, one(t, append(manyInts(3, 20), 70, 70, 70, 300, 300, 300, 3000, 3000), "max"), "longer")
		k = dictInt(t, k, 1, 20000)
		if n.K == "word" {
			r := []rune(n.T)
			var o []rune
			for len(o) < k {
				o = append(o, r...)
			}
			n.T = string(o) + n.T
		} else {
			var o []byte
			for i := 0; i < k; i++ {
				o = append(o, byte('0'+i*7%10))
			}
			if !strings.HasPrefix(n.T, ".") {
				n.T = string(o) + n.T
			} else {
				n.T += string(o)
			}
		}
	case kind == 2:
		// deep, through groups, arguments and scripts.
		k := dictInt(t, 1+uni(t, levels, "levels"), 1, max(levels, 60))
		var how []int // a pattern that is repeated
		for i := 0; i < min(k, 24); i++ {
			how = append(how, uni(t, kinds, "nest"))
		}
		inner := noRightBracket(top.C)
		for ; k > 0; k-- {
			switch how[k%len(how)] {
			case 0:
				inner = []*N{{K: "mac", T: `\sqrt`, C: []*N{{K: "opt", C: inner}, {K: "arg", C: []*N{{K: "word", T: "ab"}}}}}}
			case 1:
				inner = []*N{{K: "mac", T: `\frac`, C: []*N{{K: "arg", C: inner}, {K: "arg"}}}}
			case 2:
				inner = []*N{{K: "mac", T: `\overline`, C: []*N{{K: "arg", C: inner}}}, {K: "num", T: "1"}}
			case 3:
				inner = append([]*N{{K: "word", T: "y"}, {K: "mac", T: `\exp`, C: []*N{{K: "arg", C: inner}}}}, &N{K: "sym", T: "-"})
			case 4:
				inner = []*N{{K: "sup", C: []*N{{K: "list", C: inner}}}}
			case 5:
				inner = []*N{{K: "word", T: "z"}, {K: "sub", C: []*N{{K: "list", C: inner}}}}
			}
		}
		top.C = inner
	}
	return top.C
}

func profParse() prof {
	return prof{
		scripts: true, letters: lettersWide, macros: allMacros,
		kinds: kindsParse, textOK: true, maxLen: 6, depth: 4,
	}
}

func profTypeset() prof {
	return prof{
		typeset: true, letters: lettersASCII, macros: setMacros,
		kinds: kindsTypeset, textOK: true, maxLen: 5, depth: 4,
	}
}

// genBlanks draws the blanks put in the successive gaps of an expression.
func genBlanks(t *rapid.T, comments bool) [][]string {
	if uni(t, 4, "noblanks") == 0 {
		return nil
	}
	if uni(t, 40, "many") == 0 {
		// many or long ones.
		var o [][]string
		for i := 0; i < 3; i++ {
			var gap []string
			for k := dictInt(t, uni(t, 60, "pieces"), 0, 20000); k > 0; k-- {
				gap = append(gap, genBlank(t, comments))
			}
			if comments && uni(t, 3, "longcomment") == 0 {
				gap = append(gap, "%"+strings.Repeat(one(t, []string{"c", "{$", "é ", "\\"}, "unit"), dictInt(t, uni(t, 1500, "length"), 0, 70000))+"\n")
			}
			o = append(o, gap)
		}
		return o
	}
	n := uni(t, 25, "gaps")
	var o [][]string
	for i := 0; i < n; i++ {
		var gap []string
		if uni(t, 3, "gap") == 0 {
			k := rapid.IntRange(1, 3).Draw(t, "pieces")
			for j := 0; j < k; j++ {
				gap = append(gap, genBlank(t, comments))
			}
		}
		o = append(o, gap)
	}
	return o
}

func genBlank(t *rapid.T, comments bool) string {
	kinds := []string{" ", "  ", "\t", "\n", "\r\n", "\n\n", "%"}
	n := len(kinds)
	if !comments {
		n--
	}
	b := kinds[uni(t, n, "blank")]
	if b == "%" {
		b += genComment(t) + "\n"
	}
	return b
}

var commentRune = rapid.Custom(func(t *rapid.T) rune {
	if uni(t, 16, "odd") == 0 {
		return one(t, oddRunes, "oddrune")
	}
	return one(t, commentRunes, "rune")
})

// oddRunes may be taken for something else, in a comment.
var oddRunes = []rune("\u0085\u2028\u2029\v\f\u00a0\u3000\u00ad\u200b\u001a\u007f\ufffd\U0010ffff\U0001f600％")

var commentRunes = []rune("ab z0%$\\{}[]()^_\"'`~&#@|/*.,\té中\r")

// genComment draws the text of a comment.
func genComment(t *rapid.T) string {
	s := rapid.StringOfN(commentRune, 0, 8, -1).Draw(t, "comment")
	if k := dictInt(t, 0, 5, 5000); k > 0 {
		return strings.Repeat("c", k)
	}
	return dictStr(t, s, func(s string) bool { return utf8.ValidString(s) && !strings.Contains(s, "\n") })
}

// src is a written-out expression.
type src struct {
	text     string
	clean    string        // the text, with blanks instead of its comments
	comments [][2]int      // start and end of its comments
	pos      map[*N][2]int // start and end of a node (with its delimiters)
	name     map[*N][2]int // start and end of the name of a command
}

type writer struct {
	out      strings.Builder
	pos      map[*N][2]int
	name     map[*N][2]int
	blanks   [][]string
	gap      int
	last     *N // last leaf written, nil after a delimiter
	isMac    bool
	gaps     int // number of gaps filled
	comments [][2]int
}

// writeExpr writes out a tree, with the given blanks in its gaps.
func writeExpr(ns []*N, blanks [][]string) *src {
	w := &writer{
		pos: map[*N][2]int{}, name: map[*N][2]int{},
		blanks: blanks,
	}
	w.nodes(ns, false)
	w.blank(false, nil)
	s := &src{text: w.out.String(), pos: w.pos, name: w.name}
	clean := []byte(s.text)
	for _, c := range w.comments {
		for i := c[0]; i < c[1]; i++ {
			clean[i] = ' '
		}
	}
	s.clean = string(clean)
	s.comments = w.comments
	return s
}

func firstRune(s string) rune { r, _ := utf8.DecodeRuneInString(s); return r }
func lastRune(s string) rune  { r, _ := utf8.DecodeLastRuneInString(s); return r }
func isDig(r rune) bool       { return '0' <= r && r <= '9' }

// needSep tells whether next would be scanned together with the last leaf.
func (w *writer) needSep(next *N) bool {
	p := w.last
	if p == nil || next == nil {
		return false
	}
	f := firstRune(next.T)
	switch {
	case p.K == "word", p.K == "mac" && unicode.IsLetter(lastRune(p.T)):
		return next.K == "word"
	case p.K == "num":
		if f == '.' {
			return !strings.Contains(p.T, ".")
		}
		return next.K == "num"
	case p.K == "sym" && p.T == ".":
		return next.K == "num" && isDig(f)
	}
	return false
}

// blank writes the blanks of the next gap. Spaces may only stand where they
// don't count.
func (w *writer) blank(spaces bool, next *N) {
	var gap []string
	if w.gap < len(w.blanks) {
		gap = w.blanks[w.gap]
	}
	w.gap++
	n := w.out.Len()
	for _, b := range gap {
		if strings.HasPrefix(b, " ") && !spaces {
			continue
		}
		if strings.HasPrefix(b, "%") {
			w.comments = append(w.comments, [2]int{w.out.Len(), w.out.Len() + len(b)})
		}
		w.out.WriteString(b)
	}
	if w.out.Len() == n && w.needSep(next) {
		switch {
		case spaces:
			w.out.WriteByte(' ')
		default:
			w.out.WriteByte('\n')
		}
	}
	if w.out.Len() > n {
		w.gaps++
	}
}

func (w *writer) nodes(ns []*N, math bool) {
	for _, n := range ns {
		w.blank(math, n)
		w.node(n, math)
	}
}

func (w *writer) delim(s string) {
	w.out.WriteString(s)
	w.last = nil
}

func (w *writer) node(n *N, math bool) {
	start := w.out.Len()
	switch n.K {
	case "word", "num", "sym":
		w.out.WriteString(n.T)
		w.last = n
	case "mac":
		w.out.WriteString(n.T)
		w.name[n] = [2]int{start, w.out.Len()}
		w.last = n
		for _, a := range n.C {
			w.blank(true, nil)
			w.node(a, math)
		}
	case "arg", "list":
		w.delim("{")
		w.nodes(n.C, math)
		w.blank(math, nil)
		w.delim("}")
	case "opt":
		w.delim("[")
		w.nodes(n.C, math)
		w.blank(math, nil)
		w.delim("]")
	case "math":
		w.delim("$")
		w.nodes(n.C, true)
		w.blank(true, nil)
		w.delim("$")
	case "sup", "sub":
		d := "^"
		if n.K == "sub" {
			d = "_"
		}
		w.delim(d)
		w.blank(true, nil)
		w.node(n.C[0], math)
	default:
		panic("harness: write " + n.K)
	}
	w.pos[n] = [2]int{start, w.out.Len()}
}
