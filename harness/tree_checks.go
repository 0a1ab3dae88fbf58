package main

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/go-latex/latex"
	"github.com/go-latex/latex/ast"
	"github.com/go-latex/latex/token"
	"pgregory.net/rapid"
)

// This file holds the checks of package ast: Walk, Inspect and Print.

// buildAST makes a syntax tree of a reference tree. Besides the kinds of N, it
// knows "nil" (a nil child), "ident", and "mac0" (a macro without a name).
func buildAST(n *N) ast.Node {
	switch n.K {
	case "nil":
		return nil
	case "ident":
		return &ast.Ident{Name: n.text()}
	case "word":
		return &ast.Word{Text: n.text()}
	case "num":
		return &ast.Literal{Text: n.text()}
	case "sym":
		return &ast.Symbol{Text: n.text()}
	case "mac":
		return &ast.Macro{Name: &ast.Ident{Name: n.text()}, Args: buildList(n.C)}
	case "mac0":
		return &ast.Macro{Args: buildList(n.C)}
	case "arg":
		return &ast.Arg{List: buildList(n.C), Rbrace: token.Pos(len(n.C))}
	case "opt":
		return &ast.OptArg{List: buildList(n.C)}
	case "math":
		return &ast.MathExpr{Delim: "$", List: buildList(n.C)}
	case "list":
		return buildList(n.C)
	case "sup", "sub":
		var c ast.Node
		if len(n.C) > 0 {
			c = buildAST(n.C[0])
		}
		if n.K == "sup" {
			return &ast.Sup{Node: c}
		}
		return &ast.Sub{Node: c}
	}
	panic("harness: build " + n.K)
}

func buildList(ns []*N) ast.List {
	var o ast.List
next:
	for i, n := range ns {
		if n.R {
			for j, p := range ns[:i] {
				if p.String() == n.String() {
					o = append(o, o[j])
					continue next
				}
			}
		}
		o = append(o, buildAST(n))
	}
	return o
}

var treeTexts = []string{
	"", "a", "x", "xy", "0", "3.14", "+", "=", " ", ",", "{", "}", "[", "]", `\`, `\frac`, `\"`, `"`, `""`, "a, b", `}, ast.Word{"x"}`, `ast.List{}`,
	"Args:", "\n", "\t", "\r", "\r\n", "a\r\nb", "  ", "a ", "\v", "\u00a0", "\u200b", "e\u0301", "\ufeff", "\\n", "\\x00", "\x00", "é", "中", "\u2028", "\ufffd", rawBytes("\xff"), rawBytes("\xe4\xb8"), rawBytes("\x80"), "\u00ad", "%d", "%", "<nil>", "'", "`", "\U0010ffff",
}

// rawBytes writes bytes that aren't valid UTF-8 in the texts of trees, as cases
// are JSON: they are the characters from U+F700 on.
func rawBytes(s string) string {
	var o []rune
	for i := 0; i < len(s); i++ {
		o = append(o, 0xf700+rune(s[i]))
	}
	return string(o)
}

// text is the text of a node, with the bytes of rawBytes.
func (n *N) text() string {
	var o []byte
	for _, r := range n.T {
		if 0xf780 <= r && r <= 0xf7ff {
			o = append(o, byte(r-0xf700))
		} else {
			o = utf8.AppendRune(o, r)
		}
	}
	return string(o)
}

func manyInts(n, v int) []int {
	o := make([]int, n)
	for i := range o {
		o[i] = v
	}
	return o
}

const maxTreeDepth = 6

// genTree draws any tree of syntax nodes.
func genTree(t *rapid.T, budget *int, depth int, nils bool) *N {
	*budget--
	kinds := []string{"word", "num", "sym", "ident", "word", "mac", "mac", "arg", "opt", "list", "math", "sup", "sub"}
	if nils {
		kinds = append(kinds, "nil", "mac0")
	}
	if depth == maxTreeDepth && uni(t, 8, "leafy") > 0 {
		kinds = kinds[5:] // mostly containers
	}
	k := one(t, kinds, "kind")
	n := &N{K: k}
	switch k {
	case "nil":
		return n
	case "word", "num", "sym", "ident", "mac":
		n.T = one(t, treeTexts, "text")
		if uni(t, 4, "odd") == 0 {
			n.T += one(t, treeTexts, "text2")
		}
		if uni(t, 400, "longtext") == 0 {
			n.T = strings.Repeat(n.T, 1+uni(t, one(t, []int{70, 700, 5000}, "max"), "times"))
		}
		n.T = dictStr(t, n.T, utf8.ValidString)
		if k := dictInt(t, 0, 1, 10000); k > 4 && n.T != "" {
			n.T = strings.Repeat(n.T, 1+k/len(n.T))
		}
		if k != "mac" {
			return n
		}
	}
	kids := 0
	if depth > 0 && *budget > 0 {
		kids = uni(t, 5, "kids")
	}
	if k == "sup" || k == "sub" {
		switch {
		case !nils:
			kids = 1
		default:
			kids = min(kids, 1)
		}
	}
	for i := 0; i < kids; i++ {
		if i > 0 && uni(t, 20, "repeat") == 0 {
			c := *n.C[uni(t, i, "of")]
			c.R = uni(t, 4, "shared") > 0
			n.C = append(n.C, &c)
			continue
		}
		n.C = append(n.C, genTree(t, budget, depth-1, nils))
	}
	return n
}

// genAnyTree draws a tree, which is sometimes wide or deep.
func genAnyTree(t *rapid.T) *N {
	budget := 1 + uni(t, 30, "budget")
	n := genTree(t, &budget, maxTreeDepth, true)
	small := func() *N {
		budget := 3
		return genTree(t, &budget, 2, true)
	}
	more, deep := dictInt(t, 0, 1, 6000), dictInt(t, 0, 1, 400)
	large := uni(t, 25, "large")
	switch {
	case more > 4:
		large = 0
	case deep > 4:
		large = 1
	}
	switch large {
	case 0:
		var lists []*N
		walkAll([]*N{n}, func(n *N) {
			if len(n.C) > 1 || n.K == "list" || n.K == "arg" {
				lists = append(lists, n)
			}
		})
		if len(lists) > 0 {
			l := lists[uni(t, len(lists), "list")]
			k := 10 + uni(t, one(t, append(manyInts(10, 60), 600, 600, 5000), "max"), "more")
			if more > 4 {
				k = max(0, more-len(l.C))
			}
			for ; k > 0; k-- {
				l.C = append(l.C, small())
			}
		}
	case 1:
		k := 5 + uni(t, one(t, append(manyInts(5, 40), 300), "max"), "levels")
		if deep > 4 {
			k = deep
		}
		for ; k > 0; k-- {
			p := &N{K: one(t, []string{"mac", "arg", "opt", "list", "math", "sup", "sub"}, "level")}
			switch {
			case p.K == "sup" || p.K == "sub":
				p.C = []*N{n}
			case uni(t, 2, "siblings") == 0:
				p.C = []*N{small(), n, small()}
			default:
				p.C = []*N{n}
			}
			if p.K == "mac" {
				p.T = `\frac`
			}
			n = p
		}
	}
	return n
}

// --- C05 ---

type walkCase struct {
	Tree *N     `json:"tree,omitempty"` // built by hand
	Text string `json:"text,omitempty"` // or parsed
	// Decisions holds what the successive visits return: 0: the same visitor,
	// 1: another visitor, 2: none.
	Decisions []int `json:"decisions"`
	Inspect   bool  `json:"inspect,omitempty"`
	Nested    bool  `json:"nested,omitempty"` // visits make traversals of their own
}

func drawWalkCase(t *rapid.T) walkCase {
	var c walkCase
	if uni(t, 3, "parsed") == 0 {
		p := profParse()
		c.Text = writeExpr(genExpr(t, p, 1+uni(t, 25, "budget")), nil).text
	} else {
		c.Tree = genAnyTree(t)
		if c.Tree.K == "nil" {
			c.Tree = &N{K: "list", C: []*N{c.Tree}}
		}
	}
	switch uni(t, 4, "decide") {
	case 0:
		c.Decisions = []int{0}
	case 1:
		c.Decisions = []int{1}
	default:
		c.Decisions = rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 0, 1, 1, 2}), 1, 20).Draw(t, "decisions")
	}
	c.Inspect = rapid.Bool().Draw(t, "inspect")
	c.Nested = uni(t, 4, "nested") == 0
	return c
}

type visit struct {
	who  int // number of the visitor
	node ast.Node
}

func sameNode(a, b ast.Node) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	la, oka := a.(ast.List)
	lb, okb := b.(ast.List)
	if oka || okb {
		return oka && okb && len(la) == len(lb) && reflect.ValueOf(la).Pointer() == reflect.ValueOf(lb).Pointer()
	}
	return a == b
}

func visitString(vs []visit) string {
	var o []string
	for _, v := range vs {
		switch v.node {
		case nil:
			o = append(o, fmt.Sprintf("%d:done", v.who))
		default:
			o = append(o, fmt.Sprintf("%d:%s", v.who, dump(v.node)))
		}
	}
	return strings.Join(o, "\n")
}

// children lists the nodes below a node, in source order.
func children(n ast.Node) []ast.Node {
	switch n := n.(type) {
	case *ast.Macro:
		var o []ast.Node
		if n.Name != nil {
			o = append(o, n.Name)
		}
		return append(o, n.Args...)
	case *ast.Arg:
		return n.List
	case *ast.OptArg:
		return n.List
	case *ast.MathExpr:
		return n.List
	case ast.List:
		return n
	case *ast.Sup:
		return []ast.Node{n.Node}
	case *ast.Sub:
		return []ast.Node{n.Node}
	}
	return nil
}

// walkLog is shared by the visitors of a traversal.
type walkLog struct {
	c      walkCase
	visits []visit
	n      int                    // number of nodes visited
	nested func(n ast.Node) error // made by each visit
	nest   error
	last   int // number of the last visitor made
}

// next decides what the visitor who returns for a node (-1: nil).
func (l *walkLog) next(who int, n ast.Node) int {
	l.visits = append(l.visits, visit{who, n})
	if l.c.Nested && l.nested != nil && l.nest == nil {
		l.nest = l.nested(n)
	}
	if len(l.visits) > 3000000 {
		panic("endless traversal")
	}
	d := l.c.Decisions[l.n%len(l.c.Decisions)]
	l.n++
	switch {
	case d == 1 && !l.c.Inspect:
		l.last++
		return l.last
	case d == 2:
		return -1
	}
	return who
}

// model traverses a tree.
func (l *walkLog) model(who int, n ast.Node) {
	w := l.next(who, n)
	if w < 0 {
		return
	}
	for _, c := range children(n) {
		if c != nil {
			l.model(w, c)
		}
	}
	l.visits = append(l.visits, visit{w, nil})
}

type testVisitor struct {
	log *walkLog
	who int
}

func (v testVisitor) Visit(n ast.Node) ast.Visitor {
	if n == nil {
		v.log.visits = append(v.log.visits, visit{v.who, nil})
		// what is returned here doesn't matter.
		if v.log.n%2 == 0 {
			return testVisitor{v.log, -7}
		}
		return nil
	}
	if w := v.log.next(v.who, n); w >= 0 {
		return testVisitor{v.log, w}
	}
	return nil
}

// nestedTraversals looks at a node and its children during another traversal.
func nestedTraversals(n ast.Node) error {
	var want []ast.Node
	want = append(want, n)
	for _, c := range children(n) {
		if c != nil {
			want = append(want, c)
		}
	}
	var seen []ast.Node
	ast.Inspect(n, func(x ast.Node) bool {
		if x == nil {
			return true
		}
		seen = append(seen, x)
		return len(seen) == 1
	})
	log := &walkLog{c: walkCase{Decisions: append([]int{0}, manyInts(len(want), 2)...)}}
	ast.Walk(testVisitor{log, 0}, n)
	ok := len(seen) == len(want) && log.n == len(want)
	for i := 0; ok && i < len(want); i++ {
		ok = sameNode(seen[i], want[i]) && sameNode(log.visits[i].node, want[i])
	}
	if !ok {
		return fmt.Errorf("traversing %s and its children while it is visited visits %d and %d nodes, want %d", dump(n), len(seen), log.n, len(want))
	}
	return nil
}

func runC05(c walkCase, o *Obs) error {
	var tree ast.Node
	if c.Tree != nil {
		tree = buildAST(c.Tree)
	} else {
		var err error
		tree, err = latex.ParseExpr(c.Text)
		if err != nil {
			return nil
		}
	}
	if tree == nil || len(c.Decisions) == 0 {
		return nil
	}
	before := dump(tree)
	want := &walkLog{c: c}
	want.model(0, tree)

	for rep := 0; rep < 2; rep++ {
		got := &walkLog{c: c, nested: nestedTraversals}
		err := guard("traversal", func() {
			if !c.Inspect {
				ast.Walk(testVisitor{got, 0}, tree)
				return
			}
			ast.Inspect(tree, func(n ast.Node) bool {
				if n == nil {
					got.visits = append(got.visits, visit{0, nil})
					return got.n%2 == 0
				}
				return got.next(0, n) >= 0
			})
		})
		if err == nil {
			err = got.nest
		}
		if err != nil {
			return err
		}
		ok := len(got.visits) == len(want.visits)
		for i := 0; ok && i < len(got.visits); i++ {
			g, w := got.visits[i], want.visits[i]
			ok = g.who == w.who && sameNode(g.node, w.node)
		}
		if !ok {
			return fmt.Errorf("tree %s\nvisits:\n%s\nwant:\n%s", dump(tree), visitString(got.visits), visitString(want.visits))
		}
	}
	if after := dump(tree); after != before {
		return fmt.Errorf("the traversal changed the tree from %s to %s", before, after)
	}
	pruned, changed := 0, 0
	for i := 0; i < want.n; i++ {
		switch c.Decisions[i%len(c.Decisions)] {
		case 1:
			changed++
		case 2:
			pruned++
		}
	}
	o.NonTrivial(want.n >= 3)
	o.Label("inspect: %v", c.Inspect)
	if pruned > 0 {
		o.Label("pruned")
	}
	if changed > 0 && !c.Inspect {
		o.Label("changed visitor")
	}
	if strings.Contains(before, "nil") {
		o.Label("with nil children")
	}
	return nil
}

// --- C06 ---

type printCase struct {
	Tree *N     `json:"tree"`
	At   int    `json:"at"` // place of the change
	Edit int    `json:"edit"`
	With string `json:"with"`
}

// refPrint is the reference printer.
func refPrint(n *N) string {
	var kids []string
	for _, c := range n.C {
		kids = append(kids, refPrint(c))
	}
	list := strings.Join(kids, ", ")
	args := ""
	if len(kids) > 0 {
		args = ", Args:" + list
	}
	switch n.K {
	case "nil":
		return "<nil>"
	case "ident":
		return "ast.Ident{" + strconv.Quote(n.text()) + "}"
	case "word":
		return "ast.Word{" + strconv.Quote(n.text()) + "}"
	case "num":
		return "ast.Lit{" + strconv.Quote(n.text()) + "}"
	case "sym":
		return "ast.Symbol{" + strconv.Quote(n.text()) + "}"
	case "mac":
		return "ast.Macro{" + strconv.Quote(n.text()) + args + "}"
	case "arg":
		return "{" + list + "}"
	case "opt":
		return "[" + list + "]"
	case "list":
		return "ast.List{" + list + "}"
	case "math":
		if list != "" {
			list = "List:" + list
		}
		return "ast.MathExpr{" + list + "}"
	case "sup":
		if list == "" {
			list = "<nil>"
		}
		return "ast.Sup{" + list + "}"
	case "sub":
		if list == "" {
			list = "<nil>"
		}
		return "ast.Sub{" + list + "}"
	}
	panic("harness: print " + n.K)
}

func printed(n ast.Node) (string, error) {
	var o strings.Builder
	err := guard("Print", func() { ast.Print(&o, n) })
	return o.String(), err
}

func (n *N) clone() *N {
	o := &N{K: n.K, T: n.T}
	for _, c := range n.C {
		o.C = append(o.C, c.clone())
	}
	return o
}

// editTree changes a node of a tree, and tells whether it did.
func editTree(root *N, at, edit int, with string) bool {
	var all, parents []*N
	var rec func(n, p *N)
	rec = func(n, p *N) {
		all = append(all, n)
		parents = append(parents, p)
		for _, c := range n.C {
			rec(c, n)
		}
	}
	rec(root, nil)
	n, p := all[at%len(all)], parents[at%len(all)]
	leaf := n.K == "word" || n.K == "num" || n.K == "sym" || n.K == "ident"
	swap := func(a, b string) bool {
		switch n.K {
		case a:
			n.K = b
		case b:
			n.K = a
		default:
			return false
		}
		return true
	}
	switch edit % 8 {
	case 0: // another text
		if (!leaf && n.K != "mac") || n.T == with {
			return false
		}
		n.T = with
		return true
	case 1: // another kind
		if leaf {
			kinds := []string{"word", "num", "sym", "ident"}
			for i, k := range kinds {
				if k == n.K {
					n.K = kinds[(i+1+len(with)%3)%4]
					return true
				}
			}
		}
		return swap("arg", "opt") || swap("sup", "sub") || swap("list", "math")
	case 2: // drop a child
		if len(n.C) == 0 || n.K == "sup" || n.K == "sub" {
			return false
		}
		i := len(with) % len(n.C)
		n.C = append(n.C[:i], n.C[i+1:]...)
		return true
	case 3: // double a child
		if len(n.C) == 0 || n.K == "sup" || n.K == "sub" {
			return false
		}
		n.C = append(n.C, n.C[len(n.C)-1])
		return true
	case 4: // swap two children
		if len(n.C) < 2 || refPrint(n.C[0]) == refPrint(n.C[1]) {
			return false
		}
		n.C[0], n.C[1] = n.C[1], n.C[0]
		return true
	case 5: // one level more
		if leaf || n.K == "mac" || n.K == "nil" {
			return false
		}
		n.C = []*N{{K: "list", C: n.C}}
		return true
	case 6: // hoist the children of a child
		if len(n.C) == 0 || n.K == "sup" || n.K == "sub" || p == nil {
			return false
		}
		c := n.C[len(n.C)-1]
		if c.K == "nil" || c.K == "word" {
			return false
		}
		n.C = append(n.C[:len(n.C)-1], c.C...)
		return true
	default: // move the last child up
		if len(n.C) == 0 || p == nil || n.K == "sup" || n.K == "sub" || p.K == "sup" || p.K == "sub" {
			return false
		}
		c := n.C[len(n.C)-1]
		n.C = n.C[:len(n.C)-1]
		for i := range p.C {
			if p.C[i] == n {
				p.C = append(p.C[:i+1], append([]*N{c}, p.C[i+1:]...)...)
				return true
			}
		}
		panic("harness: parent")
	}
}

func runC06(c printCase, o *Obs) error {
	node := buildAST(c.Tree)
	got, err := printed(node)
	if err != nil {
		return err
	}
	if want := refPrint(c.Tree); got != want {
		return fmt.Errorf("printed %s\nwant    %s", got, want)
	}
	again, err := printed(node)
	if err != nil {
		return err
	}
	if again != got {
		return fmt.Errorf("printed %s, then %s", got, again)
	}
	o.NonTrivial(countNodes([]*N{c.Tree}) >= 3)
	other := c.Tree.clone()
	if !editTree(other, c.At, c.Edit, c.With) || other.String() == c.Tree.String() {
		o.Label("not edited")
		return nil
	}
	o.Label("edit %d", c.Edit%8)
	text, err := printed(buildAST(other))
	if err != nil {
		return err
	}
	if text == got {
		return fmt.Errorf("different trees print the same\n%v\n%v\n%s", c.Tree, other, got)
	}
	return nil
}

func drawPrintCase(t *rapid.T) printCase {
	c := printCase{Tree: genAnyTree(t)}
	walkAll([]*N{c.Tree}, func(n *N) {
		if n.K == "mac0" {
			n.K = "mac"
		}
	})
	c.At = uni(t, 41, "at")
	c.Edit = uni(t, 8, "edit")
	c.With = strings.ToValidUTF8(one(t, treeTexts, "with"), "\\xff")
	return c
}

func init() {
	register("C05", "trees built by hand (any node types and nesting, nil children, nodes in several places, now and then wide or 45 levels deep) and parsed expressions, walked with scripted visitors that prune, or change identity; non-trivial: at least 3 nodes are visited",
		500000, 4000000, drawWalkCase, runC05)
	register("C06", "trees built by hand from any node types and texts, and the same tree changed in one place; non-trivial: at least 3 nodes",
		500000, 4000000, drawPrintCase, runC06)
}
