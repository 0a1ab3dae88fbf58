package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/go-latex/latex"
	"github.com/go-latex/latex/drawtex"
	"github.com/go-latex/latex/mtex"
	"github.com/go-latex/latex/mtex/symbols"
	"github.com/go-latex/latex/tex"
	"pgregory.net/rapid"
)

// This file holds the checks of symbol names and classes.

// The symbol table of the code under test, when it is accessible.
var (
	tableIndex func(v string, math bool) rune
	tableHas   func(v string) bool
	tableNames func() []string
)

// --- C09 ---

type symCase struct {
	Kind string `json:"kind"` // macro, char, unknown, table
	Sym  []byte `json:"sym"`
	Set  string `json:"set,omitempty"`
	In   string `json:"in,omitempty"` // where the symbol is
}

// contexts are sources with a symbol and another glyph.
var contexts = map[string]struct {
	src  string
	math bool
}{
	"math":       {"$S$", true},
	"text":       {"S", false},
	"math frac":  {`$\frac{S}{x}$`, true},
	"text frac":  {`\frac{x}{S}`, false},
	"math root":  {`$\sqrt[x]{S}$`, true},
	"index":      {`$\sqrt[S]{x}$`, true},
	"group":      {"${x{S}}$", true},
	"overline":   {`x\overline{S}`, false},
	"math func":  {`$\exp{Sx}$`, true},
	"after":      {"$x+S$", true},
	"text after": {"xS", false},
	"before":     {"$S x$", true},
}

// extra glyphs drawn in the contexts.
var contextGlyphs = map[string]string{
	"math frac": "x", "text frac": "x", "math root": "x√", "index": "x√", "group": "x", "overline": "x", "math func": "expx", "after": "x+", "text after": "x", "before": "x",
}

var symRunes = []*unicode.RangeTable{unicode.L, unicode.Sm, unicode.P, unicode.S}

func drawSymCase(t *rapid.T) symCase {
	c := symCase{Set: one(t, []string{"default", "dejavu", "stix", "lm", "liberation"}, "set"), In: one(t, keysOf(contexts), "in")}
	switch uni(t, 8, "kind") {
	case 0, 1:
		c.Kind, c.Sym = "macro", []byte(oneOr(t, texNames, "name"))
	case 2, 3, 4:
		c.Kind = "char"
		if uni(t, 3, "bmp") > 0 {
			c.Sym = []byte(string(rapid.RuneFrom(nil, unicode.L).Draw(t, "letter")))
		} else {
			c.Sym = []byte(string(rapid.RuneFrom(nil, symRunes...).Draw(t, "rune")))
		}
	case 5:
		c.Kind, c.Sym = "table", []byte(string(rapid.Rune().Draw(t, "rune")))
	default:
		c.Kind = "unknown"
		name := strings.TrimPrefix(one(t, texNames, "name"), `\`)
		if uni(t, 10, "other") == 0 {
			name = rapid.StringMatching(`[a-zA-Z]{2,12}`).Draw(t, "random")
		}
		r := []rune(name)
		i := uni(t, len(r), "at")
		switch uni(t, 6, "edit") {
		case 0:
			r = append(r, one(t, lettersASCII, "letter"))
		case 1:
			r = append(r[:i:i], r[i+1:]...)
		case 2:
			r[i] = one(t, lettersASCII, "letter")
		case 3:
			if unicode.IsUpper(r[i]) {
				r[i] = unicode.ToLower(r[i])
			} else {
				r[i] = unicode.ToUpper(r[i])
			}
		case 4:
			r = append(r[:i:i], append([]rune{r[i]}, r[i:]...)...)
		case 5:
			if j := uni(t, len(r), "at2"); j != i {
				r[i], r[j] = r[j], r[i]
			}
		}
		c.Sym = []byte(`\` + string(r))
	}
	return c
}

// drawnAs returns the symbols that typesetting an expression draws.
func drawnAs(text, set string) (syms []string, err error) {
	cnv, be := newTTF(set)
	box, err := mtex.Parse(text, 12, 72, be)
	if err != nil {
		return nil, err
	}
	var sh tex.Ship
	sh.Call(0, 0, box.(tex.Tree))
	for _, v := range cnv.Ops() {
		g, ok := v.(drawtex.GlyphOp)
		if !ok {
			continue
		}
		syms = append(syms, g.Glyph.Symbol)
		r, n := utf8.DecodeRuneInString(g.Glyph.Symbol)
		if n != len(g.Glyph.Symbol) {
			return nil, fmt.Errorf("glyph of symbol %q", g.Glyph.Symbol)
		}
		num, err := g.Glyph.Font.GlyphIndex(nil, r)
		if err != nil || num != g.Glyph.Num {
			return nil, fmt.Errorf("symbol %q is drawn with glyph %d, which is %d in %s", g.Glyph.Symbol, g.Glyph.Num, num, g.Glyph.Postscript)
		}
	}
	return syms, nil
}

// handled tells whether a macro of the symbol table is not a plain symbol.
func handled(name string) bool {
	_, space := spaceTable[name]
	return space || macroArity[name] != "" || inClass("FunctionNames", strings.TrimPrefix(name, `\`)) || name == `\ldotp` || name == `\cdotp`
}

func (c symCase) table(sym string, want rune, math bool) error {
	if tableIndex == nil {
		return nil
	}
	var got rune
	if err := guard("Index", func() { got = tableIndex(sym, math) }); err != nil {
		return fmt.Errorf("Index(%q, %v): %w", sym, math, err)
	}
	if got != want {
		return fmt.Errorf("Index(%q, %v) = %U, want %U", sym, math, got, want)
	}
	return nil
}

func runC09(c symCase, o *Obs) error {
	sym := string(c.Sym)
	in, ok := contexts[c.In]
	if !ok || rawFonts[c.Set].rm == nil {
		return nil
	}
	o.Label("%s", c.Kind)
	switch c.Kind {
	case "macro":
		want, ok := texUnicode[sym]
		if !ok {
			return nil
		}
		if err := c.table(sym, want, true); err != nil {
			return err
		}
		if tableHas != nil && !tableHas(strings.TrimPrefix(sym, `\`)) {
			return fmt.Errorf("HasSymbol(%q) = false", strings.TrimPrefix(sym, `\`))
		}
		if !isControl(sym) {
			return nil
		}
		o.NonTrivial(true)
		if _, err := latex.ParseExpr("a" + sym + " $" + sym + " $"); err != nil && macroArity[sym] == "" {
			return fmt.Errorf("the symbol macro %s is rejected: %w", sym, err)
		}
		if handled(sym) {
			return nil
		}
		return c.draw(sym+" ", string(want), o)
	case "char":
		r, n := utf8.DecodeRuneInString(sym)
		if r == utf8.RuneError || n != len(sym) {
			return nil
		}
		if err := c.chars(r); err != nil {
			return err
		}
		if tree, v, _ := refParse(sym); v != accepted || len(tree) != 1 {
			return nil
		}
		if in.math && !unicode.IsLetter(r) && !isDig(r) && !strings.ContainsRune(mathSymsMtex, r) {
			return nil
		}
		if c.In == "index" && r == ']' {
			return nil
		}
		o.NonTrivial(true)
		want := sym
		if r == '-' {
			o.Label("hyphen, math: %v", in.math)
			if in.math {
				want = "\u2212"
			} else if c.In != "text" && c.In != "text after" && o.Known("text-hyphen") {
				return nil
			}
		}
		return c.draw(sym, want, o)
	case "table":
		r, n := utf8.DecodeRuneInString(sym)
		if r == utf8.RuneError || n != len(sym) {
			return nil
		}
		o.NonTrivial(true)
		return c.chars(r)
	case "unknown":
		name := strings.TrimPrefix(sym, `\`)
		if utf8.RuneCountInString(name) < 2 || !isControl(sym) {
			return nil
		}
		_, inRef := texUnicode[sym]
		_, isMacro := macroArity[sym]
		if inRef {
			return nil
		}
		if tableHas != nil {
			for _, k := range tableNames() {
				if k == name {
					return nil // the table has more names.
				}
			}
			if tableHas(name) {
				return fmt.Errorf("HasSymbol(%q) = true, but it is not listed", name)
			}
			if guard("Index", func() { tableIndex(sym, true) }) == nil {
				return fmt.Errorf("Index(%q, true) = %U for an unknown name", sym, tableIndex(sym, true))
			}
		}
		o.NonTrivial(true)
		if isMacro {
			return nil
		}
		text := strings.ReplaceAll(in.src, "S", sym+" ")
		if _, err := latex.ParseExpr(text); err == nil {
			return fmt.Errorf("%q: the unknown macro %s is accepted", text, sym)
		}
		if syms, err := drawnAs(text, c.Set); err == nil {
			return fmt.Errorf("%q: the unknown macro %s is drawn: %q", text, sym, syms)
		}
		return nil
	}
	return nil
}

// chars checks what single characters stand for in the table.
func (c symCase) chars(r rune) error {
	if err := c.table(string(r), r, false); err != nil {
		return err
	}
	want := r
	if r == '-' {
		want = '\u2212'
	}
	return c.table(string(r), want, true)
}

// draw checks what a symbol is drawn as.
func (c symCase) draw(src, want string, o *Obs) error {
	text := strings.ReplaceAll(contexts[c.In].src, "S", src)
	got, err := drawnAs(text, c.Set)
	if err != nil {
		return fmt.Errorf("%q in %s: %w", text, c.Set, err)
	}
	var wants []string
	for _, r := range contextGlyphs[c.In] {
		wants = append(wants, string(r))
	}
	wants = append(wants, want)
	var seen []string
	for _, s := range got {
		if s != " " {
			seen = append(seen, s)
		}
	}
	if want == " " {
		seen = got
	}
	sort.Strings(seen)
	sort.Strings(wants)
	if fmt.Sprint(seen) != fmt.Sprint(wants) {
		return fmt.Errorf("%q in %s is drawn as %q, want %q", text, c.Set, seen, wants)
	}
	return nil
}

// enumC09 is every name in every context, and all characters of the basic
// plane for the table.
func enumC09() []symCase {
	var out []symCase
	for _, in := range keysOf(contexts) {
		for i, n := range texNames {
			out = append(out, symCase{Kind: "macro", Sym: []byte(n), In: in, Set: []string{"default", "dejavu", "stix"}[i%3]})
		}
		for r := rune(0x21); r < 0x180; r++ {
			out = append(out, symCase{Kind: "char", Sym: []byte(string(r)), In: in, Set: "dejavu"})
		}
	}
	if tableNames != nil {
		for _, n := range tableNames() {
			out = append(out, symCase{Kind: "macro", Sym: []byte(`\` + n), In: "math", Set: "default"})
		}
	}
	for r := rune(0x180); r < 0x3000; r++ {
		out = append(out, symCase{Kind: "table", Sym: []byte(string(r)), In: "math", Set: "default"})
	}
	return out
}

func probeHyphen() (string, bool) {
	syms, err := drawnAs(`\frac{-}{x}`, "lm")
	return fmt.Sprintf(`a hyphen outside of math is drawn as a minus sign in a fraction: \frac{-}{x} draws %q`, syms), err == nil && strings.Contains(fmt.Sprint(syms), "\u2212")
}

// --- C27 ---

// setCase is a history of operations on sets; each makes a new set.
type setCase struct {
	Ops []setOp `json:"ops"`
}

type setOp struct {
	Op   string   `json:"op"` // new, union, put, del
	Keys [][]byte `json:"keys,omitempty"`
	Sets []int    `json:"sets,omitempty"`
}

func drawSetCase(t *rapid.T) setCase {
	var (
		c    setCase
		pool []string
	)
	scale := 1
	if uni(t, 20, "large") == 0 {
		scale = 10
	}
	for i := 0; i < 3+uni(t, 12*scale, "pool"); i++ {
		switch uni(t, 5, "key") {
		case 4:
			pool = append(pool, strings.Repeat(one(t, []string{"a", "b", "aB", `\a`, "\u00e9"}, "part"), 1+uni(t, 20, "times"))+one(t, []string{"", "a", "Z", "z"}, "end"))
			if k := len(pool) - 1; uni(t, 2, "same") == 0 {
				pool = append(pool, one(t, []string{"a", "z", "Z", `\`}, "first")+pool[k][1:])
			}
		case 0:
			pool = append(pool, oneOr(t, texNames, "name"))
		case 1:
			pool = append(pool, rapid.StringN(0, 4, -1).Draw(t, "string"))
		case 2:
			pool = append(pool, string(rapid.SliceOfN(rapid.Byte(), 0, 3).Draw(t, "bytes")))
		default:
			pool = append(pool, dictStr(t, one(t, []string{"", "a", "A", "aa", "ab", "b", `\a`, "+", "="}, "small"), func(string) bool { return true }))
		}
	}
	n := 1 + uni(t, 12, "ops")
	for i := 0; i < n; i++ {
		var o setOp
		if i > 0 && uni(t, 4, "change") == 0 {
			// a change by the owner of a set he has built.
			o.Op = one(t, []string{"put", "del"}, "how")
			o.Sets = []int{uni(t, i, "set")}
			o.Keys = [][]byte{[]byte(one(t, pool, "key"))}
		} else if i > 0 && uni(t, 2, "union") == 0 {
			o.Op = "union"
			for k := dictInt(t, uni(t, 5*scale, "operands"), 0, 300); k > 0; k-- {
				o.Sets = append(o.Sets, uni(t, i+4, "set")-4)
			}
		} else {
			o.Op = "new"
			for k := dictInt(t, uni(t, 8*scale, "keys"), 0, 1000); k > 0; k-- {
				o.Keys = append(o.Keys, []byte(one(t, pool, "key")))
			}
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

// predefined sets may be operands too, as -1 to -4.
var predefined = map[int]struct {
	set  *symbols.Set
	name string
}{
	-1: {&symbols.BinaryOperators, "BinaryOperators"}, -2: {&symbols.RelationSymbols, "RelationSymbols"},
	-3: {&symbols.ArrowSymbols, "ArrowSymbols"}, -4: {&symbols.PunctuationSymbols, "PunctuationSymbols"},
}

// sameSet compares a set with its model.
func sameSet(got symbols.Set, want map[string]bool, others []string) error {
	keys := got.Keys()
	if !sort.StringsAreSorted(keys) {
		return fmt.Errorf("keys are not sorted: %q", keys)
	}
	seen := map[string]bool{}
	for _, k := range keys {
		switch {
		case seen[k]:
			return fmt.Errorf("key %q is listed twice", k)
		case !want[k]:
			return fmt.Errorf("key %q is not a member", k)
		}
		seen[k] = true
	}
	for k := range want {
		switch {
		case !seen[k]:
			return fmt.Errorf("member %q is not a key", k)
		case !got.Has(k):
			return fmt.Errorf("Has(%q) = false for a member", k)
		}
	}
	for _, k := range others {
		if got.Has(k) != want[k] {
			return fmt.Errorf("Has(%q) = %v", k, got.Has(k))
		}
	}
	// the keys belong to the caller.
	was := append([]string(nil), keys...)
	for i, j := 0, len(keys)-1; i < j; i, j = i+1, j-1 {
		keys[i], keys[j] = keys[j], keys[i]
	}
	keys = got.Keys()
	if fmt.Sprint(keys) != fmt.Sprint(was) {
		return fmt.Errorf("keys are %q after the caller has changed the order of those he got", keys)
	}
	for i := range keys {
		keys[i] = "changed by the caller"
	}
	if len(keys) > 0 && !seen["changed by the caller"] && got.Has("changed by the caller") {
		return fmt.Errorf("changing the keys changes the set")
	}
	return nil
}

func runC27(c setCase, o *Obs) error {
	var (
		sets   []symbols.Set
		models []map[string]bool
		all    []string
	)
	for _, op := range c.Ops {
		for _, k := range op.Keys {
			all = append(all, string(k), string(k)+"x")
		}
	}
	all = append(all, "", " ", "no such member")
	unions, changes := 0, 0
	for i, op := range c.Ops {
		model := map[string]bool{}
		var set symbols.Set
		switch op.Op {
		case "new":
			var keys []string
			for _, k := range op.Keys {
				keys = append(keys, string(k))
				model[string(k)] = true
			}
			before := append([]string(nil), keys...)
			set = symbols.NewSet(keys...)
			if fmt.Sprintf("%q", before) != fmt.Sprintf("%q", keys) {
				return fmt.Errorf("NewSet changed its arguments %q to %q", before, keys)
			}
			for i := range keys {
				keys[i] = "changed later"
			}
		case "union":
			var args []symbols.Set
			for _, j := range op.Sets {
				switch p, ok := predefined[j]; {
				case ok:
					args = append(args, *p.set)
					for _, k := range refClasses[p.name] {
						model[k] = true
					}
				case j >= 0 && j < i:
					args = append(args, sets[j])
					for k := range models[j] {
						model[k] = true
					}
				}
			}
			set = symbols.UnionOf(args...)
			if len(args) >= 2 {
				unions++
			}
			for j := range args {
				args[j] = nil
			}
		case "put", "del":
			// only shows in that set.
			if len(op.Sets) != 1 || len(op.Keys) != 1 || op.Sets[0] < 0 || op.Sets[0] >= len(sets) {
				return nil
			}
			j, key := op.Sets[0], string(op.Keys[0])
			m := reflect.ValueOf(sets[j])
			if m.Kind() == reflect.Map && !m.IsNil() {
				var elem reflect.Value
				delete(models[j], key)
				if op.Op == "put" {
					elem = reflect.Zero(m.Type().Elem())
					models[j][key] = true
				}
				m.SetMapIndex(reflect.ValueOf(key), elem)
				changes++
			}
			set = sets[j]
			model = models[j]
		default:
			return nil
		}
		sets, models = append(sets, set), append(models, model)
		// all the sets are as they were.
		for j := range sets {
			if err := sameSet(sets[j], models[j], all); err != nil {
				return fmt.Errorf("after operation %d (%s), set %d: %w", i, op.Op, j, err)
			}
		}
	}
	o.NonTrivial(len(sets) >= 3 && unions > 0)
	o.Label("unions: %d", min(unions, 4))
	o.Label("changes: %d", min(changes, 3))
	return checkClasses()
}

// checkClasses compares the predefined classes with the reference ones.
func checkClasses() error {
	classes := map[string]symbols.Set{
		"AmbiDelim": symbols.AmbiDelim, "ArrowSymbols": symbols.ArrowSymbols, "BinaryOperators": symbols.BinaryOperators,
		"DropSubSymbols": symbols.DropSubSymbols, "FontNames": symbols.FontNames, "FunctionNames": symbols.FunctionNames,
		"LeftDelim": symbols.LeftDelim, "OverUnderFunctions": symbols.OverUnderFunctions, "OverUnderSymbols": symbols.OverUnderSymbols,
		"PunctuationSymbols": symbols.PunctuationSymbols, "RelationSymbols": symbols.RelationSymbols, "RightDelim": symbols.RightDelim,
	}
	spaced := map[string]bool{}
	for name, set := range classes {
		want := map[string]bool{}
		for _, k := range refClasses[name] {
			want[k] = true
			if name == "BinaryOperators" || name == "RelationSymbols" || name == "ArrowSymbols" {
				spaced[k] = true
			}
		}
		if err := sameSet(set, want, texNames); err != nil {
			return fmt.Errorf("symbols.%s: %w", name, err)
		}
	}
	if err := sameSet(symbols.SpacedSymbols, spaced, texNames); err != nil {
		return fmt.Errorf("symbols.SpacedSymbols: %w", err)
	}
	others := append([]string{"", "a", " ", "+", "=", "*", "-", "<", ">", ":", ".", ",", "(", ")"}, texNames...)
	for _, k := range others {
		if symbols.IsSpaced(k) != spaced[k] {
			return fmt.Errorf("IsSpaced(%q) = %v", k, symbols.IsSpaced(k))
		}
	}
	return nil
}

func init() {
	register("C09", "every symbol name and every character, in and out of math and in constructs, and near-miss names; non-trivial: the name or character is drawn, or a near-miss name is not known",
		60000, 800000, drawSymCase, runC09, withEnum(enumC09), withKnown("text-hyphen", probeHyphen))
	register("C27", "histories of set constructions and unions, each followed by a comparison of all sets and predefined classes; non-trivial: at least 3 sets and a union of 2",
		50000, 300000, drawSetCase, runC27)
}
