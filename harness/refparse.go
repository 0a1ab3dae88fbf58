package main

import (
	"strings"
	"unicode"
	"unicode/utf8"
)

// This file is a reference parser: an independent recogniser of the grammar,
// which also tells inputs whose treatment is not specified.

type verdict int

const (
	accepted verdict = iota
	rejected
	unspecified
)

func (v verdict) String() string { return [...]string{"accepted", "rejected", "unspecified"}[v] }

type refParser struct {
	in   []rune
	i    int
	why  string
	arit map[string]string
}

type stop struct {
	v   verdict
	why string
}

// refParse parses an expression. The reason is set when it isn't accepted.
func refParse(text string) (tree []*N, v verdict, why string) {
	if !utf8.ValidString(text) || strings.ContainsAny(text, "\x00\ufeff") {
		return nil, unspecified, "characters"
	}
	p := &refParser{in: []rune(text)}
	defer func() {
		if e := recover(); e != nil {
			s, ok := e.(stop)
			if !ok {
				panic(e)
			}
			tree, v, why = nil, s.v, s.why
		}
	}()
	tree = p.list(0, false, false)
	return tree, accepted, ""
}

func (p *refParser) reject(why string) { panic(stop{rejected, why}) }
func (p *refParser) unspec(why string) { panic(stop{unspecified, why}) }

func (p *refParser) peek() rune {
	if p.i < len(p.in) {
		return p.in[p.i]
	}
	return 0
}

func (p *refParser) comment() {
	for p.i < len(p.in) && p.in[p.i] != '\n' {
		p.i++
	}
	if p.i < len(p.in) {
		p.i++
	}
}

// blanks skips blanks; spaces only when they don't count.
func (p *refParser) blanks(spaces bool) {
	for p.i < len(p.in) {
		switch p.in[p.i] {
		case ' ':
			if !spaces {
				return
			}
			p.i++
		case '\t', '\n', '\r':
			p.i++
		case '%':
			p.comment()
		default:
			return
		}
	}
}

// list parses up to the closing delimiter (0: the end of the input). arg tells
// whether it is an argument, where a dollar sign always opens a math expression.
func (p *refParser) list(end rune, math, arg bool) []*N {
	var o []*N
	for {
		p.blanks(math)
		if p.i == len(p.in) {
			if end != 0 {
				p.reject("unterminated " + string(end))
			}
			return o
		}
		if end != 0 && p.peek() == end {
			p.i++
			return o
		}
		o = append(o, p.node(math, arg))
	}
}

func (p *refParser) word() string {
	j := p.i
	for p.i < len(p.in) && unicode.IsLetter(p.in[p.i]) {
		p.i++
	}
	return string(p.in[j:p.i])
}

func (p *refParser) node(math, arg bool) *N {
	c := p.peek()
	switch {
	case unicode.IsLetter(c):
		return &N{K: "word", T: p.word()}
	case isDig(c), c == '.' && p.i+1 < len(p.in) && isDig(p.in[p.i+1]):
		j := p.i
		dot := false
		for p.i < len(p.in) && (isDig(p.in[p.i]) || p.in[p.i] == '.' && !dot) {
			dot = dot || p.in[p.i] == '.'
			p.i++
		}
		return &N{K: "num", T: string(p.in[j:p.i])}
	case strings.ContainsRune("=<>/*-+!?':,;.()[]", c), c == ' ' && !math:
		p.i++
		return &N{K: "sym", T: string(c)}
	case c == '\\':
		return p.macro(math)
	case c == '^', c == '_':
		p.i++
		n := &N{K: "sup"}
		if c == '_' {
			n.K = "sub"
		}
		p.blanks(true)
		switch p.peek() {
		case '{':
			p.i++
			n.C = []*N{{K: "list", C: p.list('}', math, false)}}
		case '^', '_', '$', ']':
			p.unspec("operand")
		case '}', 0:
			p.reject("no operand")
		default:
			n.C = []*N{p.node(math, false)}
		}
		return n
	case c == '{':
		if !math {
			p.unspec("group in text")
		}
		p.i++
		return &N{K: "list", C: p.list('}', math, false)}
	case c == '}':
		p.reject("unmatched closing brace")
	case c == '$':
		if math && !arg {
			p.unspec("math in math")
		}
		p.i++
		return &N{K: "math", C: p.list('$', true, false)}
	}
	if c == '"' || c == '~' {
		p.unspec("quote or tie")
	}
	p.reject("unsupported character")
	return nil
}

func (p *refParser) macro(math bool) *N {
	p.i++
	var name string
	switch c := p.peek(); {
	case p.i == len(p.in):
		p.reject("lone backslash")
	case strings.ContainsRune(" \t\n\r", c):
		p.i++
		name = `\ `
	case unicode.IsLetter(c):
		name = `\` + p.word()
	case c == '"', c == '~':
		p.unspec("quote or tie")
	default:
		p.i++
		name = `\` + string(c)
	}
	arity, ok := macroArity[name]
	if _, sym := texUnicode[name]; !ok && !sym {
		p.reject("unknown macro " + name)
	}
	n := &N{K: "mac", T: name}
	for _, a := range arity {
		p.blanks(true)
		switch a {
		case 'a':
			if p.peek() != '{' {
				p.reject("missing argument of " + name)
			}
			p.i++
			n.C = append(n.C, &N{K: "arg", C: p.list('}', math, true)})
		case 'o':
			if p.peek() == '[' {
				p.i++
				n.C = append(n.C, &N{K: "opt", C: p.list(']', math, true)})
			}
		}
	}
	return n
}
