package main

import (
	_ "embed"
	"encoding/json"
	"flag"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"io/fs"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unicode"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// This file makes inputs from the constants of the code under test: a branch
// that is taken for a certain size, length or text only is met by inputs with
// that size, length or text. Constants that aren't in the code the checks were
// written for are used often, the others now and then. This influences which
// inputs are tried, never what is expected of them.

//go:embed constants.json
var knownConstants []byte

// dictionary holds constants, sorted.
type dictionary struct {
	rate int // one draw in that many uses a constant
	nums []float64
	ints []int // the whole numbers from 1 up
	strs []string
	runs []rune
}

func sourceDir() string {
	if dir := os.Getenv("VERIF_SRC"); dir != "" {
		return dir
	}
	return "/repo"
}

// sourceConstants counts the constants in the files of a tree.
func sourceConstants(root string) map[string]map[string]int {
	out := map[string]map[string]int{}
	filepath.WalkDir(root, func(path string, d fs.DirEntry, err error) error {
		name := filepath.Base(path)
		switch {
		case err != nil:
			return nil
		case d.IsDir() && (name == ".git" || name == "testdata" || name == "fakebackend" || name == "ci"):
			return filepath.SkipDir
		case d.IsDir() || !strings.HasSuffix(name, ".go") || strings.HasSuffix(name, "_test.go"):
			return nil
		}
		f, err := parser.ParseFile(token.NewFileSet(), path, nil, parser.SkipObjectResolution)
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(root, path)
		m := map[string]int{}
		out[rel] = m
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
				continue
			}
			ast.Inspect(d, func(n ast.Node) bool {
				if x, ok := n.(ast.Expr); ok {
					if v := constValue(x); v != nil {
						m[constKey(v)]++
						_, leaf := n.(*ast.BasicLit)
						return !leaf
					}
				}
				return true
			})
		}
		return nil
	})
	return out
}

func constKey(v constant.Value) string {
	switch v.Kind() {
	case constant.String:
		return "s" + constant.StringVal(v)
	case constant.Int, constant.Float:
		x, _ := constant.Float64Val(v)
		return "n" + strconv.FormatFloat(x, 'g', -1, 64)
	}
	return "?"
}

// constValue evaluates literals and arithmetic on them.
func constValue(x ast.Expr) (v constant.Value) {
	defer func() {
		if recover() != nil {
			v = nil
		}
	}()
	switch x := x.(type) {
	case *ast.BasicLit:
		v := constant.MakeFromLiteral(x.Value, x.Kind, 0)
		if x.Kind == token.CHAR {
			r, _ := constant.Int64Val(v)
			return constant.MakeString(string(rune(r)))
		}
		return v
	case *ast.ParenExpr:
		return constValue(x.X)
	case *ast.BinaryExpr:
		a, b := constValue(x.X), constValue(x.Y)
		if a == nil || b == nil {
			return nil
		}
		switch x.Op {
		case token.SHL, token.SHR:
			n, ok := constant.Uint64Val(b)
			if !ok || n > 64 {
				return nil
			}
			return constant.Shift(a, x.Op, uint(n))
		case token.ADD, token.SUB, token.MUL:
			return constant.BinaryOp(a, x.Op, b)
		case token.QUO:
			return constant.BinaryOp(constant.ToFloat(a), x.Op, constant.ToFloat(b))
		}
	}
	return nil
}

var dict = sync.OnceValue(func() dictionary {
	var known map[string]map[string]int
	if err := json.Unmarshal(knownConstants, &known); err != nil {
		panic("harness: " + err.Error())
	}
	all, fresh := map[string]bool{}, map[string]bool{}
	for file, m := range sourceConstants(sourceDir()) {
		for k, n := range m {
			if !strings.Contains(file, "tex2unicode") || k[0] == 's' {
				all[k] = true
			}
			if n > known[file][k] {
				fresh[k] = true
			}
		}
	}
	for _, k := range strings.Fields(os.Getenv("VERIF_CONSTANTS")) { // to try the checks themselves
		fresh[k] = true
	}
	d := dictionary{rate: 256}
	if len(fresh) > 0 {
		all, d.rate = fresh, 8
	}
	add := func(s string) {
		s = strings.TrimPrefix(s, "%")
		if s == "" || len(s) > 100 {
			return
		}
		d.strs = append(d.strs, s)
		if r, n := utf8.DecodeRuneInString(s); n == len(s) {
			d.runs = append(d.runs, r)
		}
	}
	for _, k := range keysOf(all) {
		switch k[0] {
		case 's':
			add(k[1:])
			if all["s\\"+k[1:]] || !isAlphabetic(k[1:]) {
				continue
			}
			add(`\` + k[1:])
		case 'n':
			v, err := strconv.ParseFloat(k[1:], 64)
			if err != nil || math.IsInf(v, 0) || math.IsNaN(v) {
				continue
			}
			v = math.Abs(v)
			d.nums = append(d.nums, v)
			if v == math.Trunc(v) && v >= 1 && v <= 1<<31 {
				d.ints = append(d.ints, int(v))
				if unicode.IsPrint(rune(v)) && v >= 32 {
					d.runs = append(d.runs, rune(v))
				}
			}
		}
	}
	sort.Float64s(d.nums)
	sort.Ints(d.ints)
	return d
})

func isAlphabetic(s string) bool {
	for _, r := range s {
		if !unicode.IsLetter(r) {
			return false
		}
	}
	return s != ""
}

// use tells whether a draw uses one of n constants.
func (d *dictionary) use(t *rapid.T, n int) bool {
	return n > 0 && uni(t, d.rate, "constant") == d.rate-1
}

// dictNum may replace a number by one related to a constant, between limits.
func dictNum(t *rapid.T, v, lo, hi float64) float64 {
	d := dict()
	if !d.use(t, len(d.nums)) {
		return v
	}
	c := one(t, d.nums, "constant")
	switch uni(t, 10, "near") {
	case 1:
		c++
	case 2:
		c--
	case 3:
		c *= 1.001
	case 4:
		c *= 0.999
	case 5:
		c *= 1.5
	case 6:
		c *= 2
	case 7:
		c /= 2
	case 8:
		c = -c
	case 9:
		c = -1.01 * c
	}
	if !(lo <= c && c <= hi) {
		return v
	}
	return c
}

// dictInt may replace a number of things by one related to a constant, between
// limits. Large ones are rare.
func dictInt(t *rapid.T, v, lo, hi int) int {
	d := dict()
	if !d.use(t, len(d.ints)) {
		return v
	}
	c := one(t, d.ints, "constant")
	switch uni(t, 6, "near") {
	case 1, 2:
		c++
	case 3:
		c--
	case 4:
		c += 1 + c/2
	case 5:
		c += 2
	}
	if !(lo <= c && c <= hi) || c > 60 && uni(t, c/30, "large") != 0 {
		return v
	}
	// large in a few ways, not in all at once.
	if c > 60 {
		dictLarge += 1 + min(c/1000, 2)
		if dictLarge > 3 {
			return v
		}
	}
	return c
}

// dictLarge counts the large numbers used in the case that is being drawn.
var dictLarge int

// dictStr may replace a text by a constant that is fine.
func dictStr(t *rapid.T, s string, fine func(string) bool) string {
	d := dict()
	if !d.use(t, len(d.strs)) {
		return s
	}
	for i := 0; i < 4; i++ {
		if c := one(t, d.strs, "constant"); fine(c) {
			return c
		}
	}
	return s
}

// dictRune may replace a character by a constant that is fine.
func dictRune(t *rapid.T, r rune, fine func(rune) bool) rune {
	d := dict()
	if !d.use(t, len(d.runs)) {
		return r
	}
	for i := 0; i < 4; i++ {
		if c := one(t, d.runs, "constant"); fine(c) {
			return c
		}
	}
	return r
}

// oneOr draws an element of a sorted list, preferably a constant.
func oneOr(t *rapid.T, from []string, label string) string {
	return dictStr(t, one(t, from, label), func(s string) bool {
		i := sort.SearchStrings(from, s)
		return i < len(from) && from[i] == s
	})
}

var listConstants = flag.Bool("constants", false, "write the constants of the code under test")

func writeConstants() {
	raw, err := json.MarshalIndent(sourceConstants(sourceDir()), "", " ")
	if err != nil {
		panic(err)
	}
	os.Stdout.Write(append(raw, '\n'))
}
