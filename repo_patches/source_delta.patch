From d6b3f00e8349d68e249678c42fb4788f9400a811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:25 +0000
Subject: [PATCH 01/33] fix: return an error instead of panicking on malformed
 or unsupported expressions

ParseExpr documents an error result but every malformed or unsupported input
(unknown macro, missing argument, stray brace, \genfrac, ...) crashed the
caller with a panic.
---
 parser.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index 7cee11f..d946601 100644
--- a/parser.go
+++ b/parser.go
@@ -41,7 +41,15 @@ func newParser(x string) *parser {
 	return p
 }
 
-func (p *parser) parse() (ast.Node, error) {
+func (p *parser) parse() (node ast.Node, err error) {
+	// parsing functions report malformed or unsupported input by panicking.
+	defer func() {
+		if e := recover(); e != nil {
+			node = nil
+			err = fmt.Errorf("latex: could not parse expression: %v", e)
+		}
+	}()
+
 	var nodes ast.List
 	for p.s.Next() {
 		tok := p.s.Token()
@@ -165,7 +173,7 @@ loop:
 func (p *parser) parseMacro(tok token.Token) ast.Node {
 	name := tok.Text
 	macro, ok := p.macros[name]
-	if !ok {
+	if !ok || macro == nil {
 		panic("unknown macro " + name)
 		//return nil
 	}
-- 
2.43.0


From 68d4d7f872667315a6eb899c39303274904ccfbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:27 +0000
Subject: [PATCH 02/33] fix: reject expressions with an unterminated math
 expression, group or argument

A '$', '{' or '[' without its closing delimiter was silently accepted, as
if it had been closed by the end of the input.
---
 parser.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index d946601..62b2079 100644
--- a/parser.go
+++ b/parser.go
@@ -77,6 +77,14 @@ func (p *parser) expect(v rune) {
 	}
 }
 
+// closed checks the construct opened by tok did not run into the end of
+// the input instead of its closing delimiter.
+func (p *parser) closed(tok token.Token) {
+	if p.s.tok.Kind == token.EOF {
+		panic(fmt.Errorf("missing closing delimiter for %q", tok.Text))
+	}
+}
+
 func (p *parser) parseNode(tok token.Token) ast.Node {
 	switch tok.Kind {
 	case token.Comment:
@@ -166,6 +174,7 @@ loop:
 			math.List = append(math.List, node)
 		}
 	}
+	p.closed(tok)
 
 	return math
 }
@@ -197,7 +206,8 @@ func (p *parser) parseNumber(tok token.Token) ast.Node {
 func (p *parser) parseMacroArg(macro *ast.Macro) {
 	var arg ast.Arg
 	p.expect('{')
-	arg.Lbrace = p.s.tok.Pos
+	open := p.s.tok
+	arg.Lbrace = open.Pos
 
 loop:
 	for p.s.Next() {
@@ -213,6 +223,7 @@ loop:
 			arg.List = append(arg.List, node)
 		}
 	}
+	p.closed(open)
 	macro.Args = append(macro.Args, &arg)
 }
 
@@ -225,7 +236,8 @@ func (p *parser) parseOptMacroArg(macro *ast.Macro) {
 	var opt ast.OptArg
 
 	p.expect('[')
-	opt.Lbrack = p.s.tok.Pos
+	open := p.s.tok
+	opt.Lbrack = open.Pos
 
 loop:
 	for p.s.Next() {
@@ -241,6 +253,7 @@ loop:
 			opt.List = append(opt.List, node)
 		}
 	}
+	p.closed(open)
 	macro.Args = append(macro.Args, &opt)
 }
 
@@ -255,6 +268,7 @@ func (p *parser) parseSup(tok token.Token) ast.Node {
 	switch next := p.s.sc.Peek(); next {
 	case '{':
 		p.expect('{')
+		open := p.s.tok
 		var list ast.List
 	loop:
 		for p.s.Next() {
@@ -269,6 +283,7 @@ func (p *parser) parseSup(tok token.Token) ast.Node {
 				list = append(list, node)
 			}
 		}
+		p.closed(open)
 		hat.Node = list
 	default:
 		hat.Node = p.parseNode(p.next())
@@ -285,6 +300,7 @@ func (p *parser) parseSub(tok token.Token) ast.Node {
 	switch next := p.s.sc.Peek(); next {
 	case '{':
 		p.expect('{')
+		open := p.s.tok
 		var list ast.List
 	loop:
 		for p.s.Next() {
@@ -299,6 +315,7 @@ func (p *parser) parseSub(tok token.Token) ast.Node {
 				list = append(list, node)
 			}
 		}
+		p.closed(open)
 		sub.Node = list
 	default:
 		sub.Node = p.parseNode(p.next())
@@ -341,5 +358,6 @@ loop:
 			lst = append(lst, node)
 		}
 	}
+	p.closed(tok)
 	return lst
 }
-- 
2.43.0


From 8617ea4c16850ebf594520f9a7d939ec8aa39261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:58 +0000
Subject: [PATCH 03/33] fix: end a comment at the end of its line

Comments were scanned as tokens, so that an unbalanced quote in a comment
swallowed the line following the comment.
---
 scanner.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/scanner.go b/scanner.go
index d524ec1..0ae4e54 100644
--- a/scanner.go
+++ b/scanner.go
@@ -174,21 +174,18 @@ func (s *texScanner) scanMacro() token.Token {
 func (s *texScanner) scanComment() string {
 	comment := new(strings.Builder)
 	comment.WriteString("%")
-	wsp := s.sc.Whitespace
-	defer func() {
-		s.sc.Whitespace = wsp
-	}()
-	s.sc.Whitespace = 0
 
+	// the text of a comment isn't made of tokens: read it verbatim, so e.g. a
+	// lone quote doesn't extend the comment past the end of its line.
 	for {
-		s.next()
+		s.r = s.sc.Next()
 		if s.r == '\r' {
 			continue
 		}
 		if s.r == '\n' || s.r == scanner.EOF {
 			break
 		}
-		comment.WriteString(s.sc.TokenText())
+		comment.WriteRune(s.r)
 	}
 	return comment.String()
 }
-- 
2.43.0


From dbf928687bd853dcaa453b64c7e30ac576f0cea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:00 +0000
Subject: [PATCH 04/33] fix: scan control space as a macro

'\ ' was scanned as an ordinary space: math expressions dropped it and text
displayed a backslash. A backslash at the end of a line was glued to the first
token of the next line.
---
 scanner.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/scanner.go b/scanner.go
index 0ae4e54..99ccbb2 100644
--- a/scanner.go
+++ b/scanner.go
@@ -61,10 +61,11 @@ func (s *texScanner) scan() token.Token {
 	case '\\':
 		nxt := s.sc.Peek()
 		switch nxt {
-		case ' ':
-			s.next()
+		case ' ', '\t', '\n', '\r':
+			// control space.
+			s.sc.Next()
 			return token.Token{
-				Kind: token.Space,
+				Kind: token.Macro,
 				Pos:  pos,
 				Text: `\ `,
 			}
-- 
2.43.0


From 95fe738321751c6e5897bc476698fb8ff5f8b3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:01 +0000
Subject: [PATCH 05/33] fix: scan numbers as decimal numbers

Numbers were scanned with the syntax of Go literals: the subscript of '10_2'
was swallowed by the number, '2e^x' and '0x' were reported as malformed
literals instead of being a number followed by a word.
---
 scanner.go | 45 +++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 41 insertions(+), 4 deletions(-)

diff --git a/scanner.go b/scanner.go
index 99ccbb2..dde3b0b 100644
--- a/scanner.go
+++ b/scanner.go
@@ -24,7 +24,7 @@ type texScanner struct {
 func newScanner(r io.Reader) *texScanner {
 	sc := &texScanner{}
 	sc.sc.Init(r)
-	sc.sc.Mode = (scanner.ScanIdents | scanner.ScanInts | scanner.ScanFloats)
+	sc.sc.Mode = scanner.ScanIdents
 	sc.sc.Mode |= scanner.ScanStrings
 	//scanner.ScanRawStrings)
 	//	sc.sc.Error = func(s *scanner.Scanner, msg string) {}
@@ -87,8 +87,22 @@ func (s *texScanner) scan() token.Token {
 			Text: line,
 		}
 
+	case '.':
+		if isDigit(s.sc.Peek()) {
+			return token.Token{
+				Kind: token.Number,
+				Pos:  pos,
+				Text: s.scanNumber(),
+			}
+		}
+		return token.Token{
+			Kind: token.Symbol,
+			Pos:  pos,
+			Text: s.sc.TokenText(),
+		}
+
 	case '$', '_', '=', '<', '>', '^', '/', '*', '-', '+',
-		'!', '?', '\'', ':', ',', ';', '.':
+		'!', '?', '\'', ':', ',', ';':
 		return token.Token{
 			Kind: token.Symbol,
 			Pos:  pos,
@@ -131,11 +145,11 @@ func (s *texScanner) scan() token.Token {
 			Pos:  pos,
 			Text: s.sc.TokenText(),
 		}
-	case scanner.Int, scanner.Float:
+	case '0', '1', '2', '3', '4', '5', '6', '7', '8', '9':
 		return token.Token{
 			Kind: token.Number,
 			Pos:  pos,
-			Text: s.sc.TokenText(),
+			Text: s.scanNumber(),
 		}
 	case scanner.String, scanner.Char:
 		return token.Token{
@@ -172,6 +186,29 @@ func (s *texScanner) scanMacro() token.Token {
 	}
 }
 
+// scanNumber scans the decimal number, with at most one decimal point, that
+// starts with the current rune.
+func (s *texScanner) scanNumber() string {
+	var (
+		number = new(strings.Builder)
+		dot    = s.r == '.'
+	)
+	number.WriteRune(s.r)
+	for {
+		r := s.sc.Peek()
+		if !isDigit(r) && (dot || r != '.') {
+			break
+		}
+		dot = dot || r == '.'
+		number.WriteRune(s.sc.Next())
+	}
+	return number.String()
+}
+
+func isDigit(r rune) bool {
+	return '0' <= r && r <= '9'
+}
+
 func (s *texScanner) scanComment() string {
 	comment := new(strings.Builder)
 	comment.WriteString("%")
-- 
2.43.0


From 1570a23e59a635db0473231f1b6e53b9a8d1feb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:19 +0000
Subject: [PATCH 06/33] fix: accept blanks and comments before arguments,
 subscripts and superscripts

'x^ 2' and 'x_%' followed by a comment produced a superscript or subscript
without operand, and leaked the operand in the enclosing list.
'\frac {a} {b}' was rejected.
---
 parser.go  |  4 ++++
 scanner.go | 15 +++++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/parser.go b/parser.go
index 62b2079..ed0a5f2 100644
--- a/parser.go
+++ b/parser.go
@@ -205,6 +205,7 @@ func (p *parser) parseNumber(tok token.Token) ast.Node {
 
 func (p *parser) parseMacroArg(macro *ast.Macro) {
 	var arg ast.Arg
+	p.s.skipBlanks()
 	p.expect('{')
 	open := p.s.tok
 	arg.Lbrace = open.Pos
@@ -228,6 +229,7 @@ loop:
 }
 
 func (p *parser) parseOptMacroArg(macro *ast.Macro) {
+	p.s.skipBlanks()
 	nxt := p.s.sc.Peek()
 	if nxt != '[' {
 		return
@@ -265,6 +267,7 @@ func (p *parser) parseSup(tok token.Token) ast.Node {
 		HatPos: tok.Pos,
 	}
 
+	p.s.skipBlanks()
 	switch next := p.s.sc.Peek(); next {
 	case '{':
 		p.expect('{')
@@ -297,6 +300,7 @@ func (p *parser) parseSub(tok token.Token) ast.Node {
 		UnderPos: tok.Pos,
 	}
 
+	p.s.skipBlanks()
 	switch next := p.s.sc.Peek(); next {
 	case '{':
 		p.expect('{')
diff --git a/scanner.go b/scanner.go
index dde3b0b..fe6b651 100644
--- a/scanner.go
+++ b/scanner.go
@@ -228,6 +228,21 @@ func (s *texScanner) scanComment() string {
 	return comment.String()
 }
 
+// skipBlanks skips the blanks and comments preceding the next token.
+func (s *texScanner) skipBlanks() {
+	for {
+		switch s.sc.Peek() {
+		case ' ', '\t', '\n', '\r':
+			s.sc.Next()
+		case '%':
+			s.sc.Next()
+			s.scanComment()
+		default:
+			return
+		}
+	}
+}
+
 // func (s *texScanner) expect(want rune) {
 // 	s.next()
 // 	if s.r != want {
-- 
2.43.0


From 2a71bdfbd50eccb81fc27eef7b9a7d129959ab4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:10 +0000
Subject: [PATCH 07/33] fix: report the end of arguments and math expressions
 after their delimiter

Node.End is the position of the first character immediately after the node,
but Arg, OptArg and MathExpr returned the position of their closing delimiter.
---
 ast/ast.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ast/ast.go b/ast/ast.go
index 4205a29..27df9c1 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -67,7 +67,7 @@ type Arg struct {
 }
 
 func (x *Arg) Pos() token.Pos { return x.Lbrace }
-func (x *Arg) End() token.Pos { return x.Rbrace }
+func (x *Arg) End() token.Pos { return x.Rbrace + 1 }
 func (x *Arg) isNode()        {}
 
 // OptArg is an optional argument of a macro
@@ -80,7 +80,7 @@ type OptArg struct {
 }
 
 func (x *OptArg) Pos() token.Pos { return x.Lbrack }
-func (x *OptArg) End() token.Pos { return x.Rbrack }
+func (x *OptArg) End() token.Pos { return x.Rbrack + 1 }
 func (x *OptArg) isNode()        {}
 
 type Ident struct {
@@ -105,7 +105,7 @@ type MathExpr struct {
 
 func (x *MathExpr) isNode()        {}
 func (x *MathExpr) Pos() token.Pos { return x.Left }
-func (x *MathExpr) End() token.Pos { return x.Right }
+func (x *MathExpr) End() token.Pos { return token.Pos(int(x.Right) + len(x.Delim)) }
 
 type Word struct {
 	WordPos token.Pos
-- 
2.43.0


From 50e2c3c2db69a4e22448a43dce5ebfd7efeb0756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:12 +0000
Subject: [PATCH 08/33] fix: only walk the non-nil children of a node

Walk and Inspect are documented to be invoked for the non-nil children of a
node, but panicked on a nil child.
---
 ast/walk.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/ast/walk.go b/ast/walk.go
index 7c95cb2..7fdd86e 100644
--- a/ast/walk.go
+++ b/ast/walk.go
@@ -25,9 +25,7 @@ func Walk(v Visitor, node Node) {
 
 	switch n := node.(type) {
 	case List:
-		for _, x := range n {
-			Walk(v, x)
-		}
+		walkNodes(v, n)
 
 	case *Macro:
 		if n.Name != nil {
@@ -51,10 +49,14 @@ func Walk(v Visitor, node Node) {
 		// nothing to do.
 
 	case *Sub:
-		Walk(v, n.Node)
+		if n.Node != nil {
+			Walk(v, n.Node)
+		}
 
 	case *Sup:
-		Walk(v, n.Node)
+		if n.Node != nil {
+			Walk(v, n.Node)
+		}
 
 	default:
 		panic(fmt.Errorf("unknown ast node %#v (type=%T)", n, n))
@@ -65,7 +67,9 @@ func Walk(v Visitor, node Node) {
 
 func walkNodes(v Visitor, nodes []Node) {
 	for _, x := range nodes {
-		Walk(v, x)
+		if x != nil {
+			Walk(v, x)
+		}
 	}
 }
 
-- 
2.43.0


From 2069d58110d3c7b23ce227f00685264381ac7dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:48 +0000
Subject: [PATCH 09/33] fix: return an error instead of panicking on
 expressions that can't be typeset

Parse and Render have an error result but crashed the caller on unknown or
unsupported symbols, macros, subscripts and superscripts.
---
 mtex/parser.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/mtex/parser.go b/mtex/parser.go
index fd53aad..db4e295 100644
--- a/mtex/parser.go
+++ b/mtex/parser.go
@@ -42,7 +42,15 @@ func newParser(be font.Backend) *parser {
 	return p
 }
 
-func (p *parser) parse(x string, size, dpi float64) (tex.Node, error) {
+func (p *parser) parse(x string, size, dpi float64) (box tex.Node, err error) {
+	// handlers report unknown or unsupported constructs by panicking.
+	defer func() {
+		if e := recover(); e != nil {
+			box = nil
+			err = fmt.Errorf("could not typeset latex expression %q: %v", x, e)
+		}
+	}()
+
 	p.expr = x
 	node, err := latex.ParseExpr(x)
 	if err != nil {
-- 
2.43.0


From b1203ac6bb657b571d85d19e605f42a8ef58bf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:50 +0000
Subject: [PATCH 10/33] fix: typeset the groups of a math expression

The nodes of a math expression were visited without being walked: the content
of its '{...}' groups was dropped.
---
 mtex/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mtex/parser.go b/mtex/parser.go
index db4e295..fadc0ea 100644
--- a/mtex/parser.go
+++ b/mtex/parser.go
@@ -111,7 +111,7 @@ func (v *visitor) Visit(n ast.Node) ast.Visitor {
 		v.state.Font.Type = rcparams("mathtext.default").(string)
 
 		for _, x := range n.List {
-			v.Visit(x)
+			ast.Walk(v, x)
 		}
 		v.math = oldm
 		v.state.Font.Type = oldt
-- 
2.43.0


From d32323775e9f09fb3c74984c9d4e05512ea2a4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:52 +0000
Subject: [PATCH 11/33] fix: look for decimal points at the position of the dot

Whether a dot is a decimal separator was decided from the first dot of the
whole expression instead of from the dot being typeset.
---
 mtex/parser.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mtex/parser.go b/mtex/parser.go
index fadc0ea..bd7566b 100644
--- a/mtex/parser.go
+++ b/mtex/parser.go
@@ -16,6 +16,7 @@ import (
 	"github.com/go-latex/latex/internal/tex2unicode"
 	"github.com/go-latex/latex/mtex/symbols"
 	"github.com/go-latex/latex/tex"
+	"github.com/go-latex/latex/token"
 )
 
 // Parse parses a LaTeX math expression and returns the TeX-like box model
@@ -99,8 +100,8 @@ func (v *visitor) Visit(n ast.Node) ast.Visitor {
 		v.nodes = append(v.nodes, tex.HListOf(nodes, true))
 	case *ast.Literal:
 		h := handlerFunc(handleSymbol)
-		for _, c := range n.Text {
-			n := &ast.Literal{Text: string(c)}
+		for i, c := range n.Text {
+			n := &ast.Literal{LitPos: n.LitPos + token.Pos(i), Text: string(c)}
 			v.nodes = append(v.nodes, h.Handle(v.p, n, v.state, v.math))
 		}
 
@@ -231,7 +232,6 @@ func handleSymbol(p *parser, node ast.Node, state tex.State, math bool) tex.Node
 	case symbols.PunctuationSymbols.Has(sym):
 		switch sym {
 		case ".":
-			pos := strings.Index(p.expr[pos:], sym)
 			if (pos > 0 && isdigit(p.expr[pos-1])) &&
 				(pos < len(p.expr)-1 && isdigit(p.expr[pos+1])) {
 				// do not space dots as decimal separators.
-- 
2.43.0


From 18c75a322ba90c9022595ef0707ea5ccf322deaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:56 +0000
Subject: [PATCH 12/33] fix: don't space binary operators at the start of an
 expression

The test for a binary operator at the start of the string could never succeed,
the opening '$' of a math expression wasn't taken into account, and only
spaces, not the other blanks, were skipped when looking for the symbol
preceding an operator.
---
 mtex/parser.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mtex/parser.go b/mtex/parser.go
index bd7566b..78b9be9 100644
--- a/mtex/parser.go
+++ b/mtex/parser.go
@@ -209,14 +209,15 @@ func handleSymbol(p *parser, node ast.Node, state tex.State, math bool) tex.Node
 	switch {
 	case symbols.IsSpaced(sym):
 		i := strings.LastIndexFunc(p.expr[:pos], func(r rune) bool {
-			return r != ' '
+			return !strings.ContainsRune(" \t\r\n", r)
 		})
 		prev := ""
 		if i >= 0 {
 			prev = string(p.expr[i])
 		}
 		switch {
-		case symbols.BinaryOperators.Has(sym) && (len(strings.Split(p.expr[:pos], " ")) == 0 ||
+		case symbols.BinaryOperators.Has(sym) && (prev == "" ||
+			prev == "$" ||
 			prev == "{" ||
 			symbols.LeftDelim.Has(prev)):
 			// binary operators at start of string should not be spaced
-- 
2.43.0


From 5c0766e48164aaad7beeac72093a8d60f59564fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:58 +0000
Subject: [PATCH 13/33] fix: typeset the argument of function names

The argument of '\exp{...}' was parsed but dropped from the output.
---
 mtex/parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mtex/parser.go b/mtex/parser.go
index 78b9be9..022b68a 100644
--- a/mtex/parser.go
+++ b/mtex/parser.go
@@ -296,12 +296,16 @@ func handleCustomSpace(p *parser, node ast.Node, state tex.State, math bool) tex
 
 func handleFunction(p *parser, node ast.Node, state tex.State, math bool) tex.Node {
 	macro := node.(*ast.Macro)
+	args := state
 	state.Font.Type = "rm"
 	fun := macro.Name.Name[1:] // drop leading `\`
-	nodes := make([]tex.Node, 0, len(fun))
+	nodes := make([]tex.Node, 0, len(fun)+len(macro.Args))
 	for _, c := range fun {
 		nodes = append(nodes, tex.NewChar(string(c), state, math))
 	}
+	for _, arg := range macro.Args {
+		nodes = append(nodes, p.handleNode(arg.(*ast.Arg).List, args, math))
+	}
 	return tex.HListOf(nodes, true)
 }
 
-- 
2.43.0


From 0728c7c81a90de9590c22c738b0f98b4b3bbe96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:00 +0000
Subject: [PATCH 14/33] fix: display the glyph of a symbol macro outside of
 math expressions

Outside of a math expression '\alpha' or '\%' were displayed as a backslash.
---
 mtex/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mtex/parser.go b/mtex/parser.go
index 022b68a..aee75e1 100644
--- a/mtex/parser.go
+++ b/mtex/parser.go
@@ -196,6 +196,9 @@ func handleSymbol(p *parser, node ast.Node, state tex.State, math bool) tex.Node
 	switch node := node.(type) {
 	case *ast.Macro:
 		sym = node.Name.Name
+		// a symbol macro stands for the same glyph inside and outside
+		// of a math expression.
+		math = true
 	case *ast.Symbol:
 		sym = node.Text
 	case *ast.Word:
-- 
2.43.0


From 196563eea13debb8d2cc2cf3d5faebe4919f2ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 15/33] fix: correct the code points of leftbrace, lnapprox and
 gnapprox

'\leftbrace' was displayed as a vertical bar, '\lnapprox' and '\gnapprox' as
'\precnapprox' and '\succnapprox'.
---
 internal/tex2unicode/utf8.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/tex2unicode/utf8.go b/internal/tex2unicode/utf8.go
index 9ce7822..1f2b406 100644
--- a/internal/tex2unicode/utf8.go
+++ b/internal/tex2unicode/utf8.go
@@ -87,8 +87,8 @@ var (
 		`succnapprox`:              0x2aba,
 		`subsetneqq`:               0x2acb,
 		`supsetneqq`:               0x2acc,
-		`lnapprox`:                 0x2ab9,
-		`gnapprox`:                 0x2aba,
+		`lnapprox`:                 0x2a89,
+		`gnapprox`:                 0x2a8a,
 		`longleftarrow`:            0x27f5,
 		`longrightarrow`:           0x27f6,
 		`longleftrightarrow`:       0x27f7,
@@ -607,7 +607,7 @@ var (
 		`bigoplus`:                 10753,
 		`leftangle`:                10216,
 		`rightangle`:               10217,
-		`leftbrace`:                124,
+		`leftbrace`:                123,
 		`rightbrace`:               125,
 		`jmath`:                    567,
 		`bigodot`:                  10752,
-- 
2.43.0


From e768dcc15436d235d36e0333d5bdce725672cd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:40 +0000
Subject: [PATCH 16/33] fix: accept any single unicode character in math
 expressions

Index documents that it handles unicode letters, but letters outside of ASCII
were rejected in math mode because bytes were counted instead of runes.
---
 internal/tex2unicode/utf8.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tex2unicode/utf8.go b/internal/tex2unicode/utf8.go
index 1f2b406..df8fe87 100644
--- a/internal/tex2unicode/utf8.go
+++ b/internal/tex2unicode/utf8.go
@@ -29,7 +29,7 @@ func Index(v string, math bool) rune {
 		return 0x2212
 	}
 
-	if len(v) == 1 {
+	if utf8.RuneCountInString(v) == 1 {
 		r, _ := utf8.DecodeRune([]byte(v))
 		if r != utf8.RuneError {
 			return r
-- 
2.43.0


From 80fc76c884ffd7e9643d01b062857bafd23d0736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:49 +0000
Subject: [PATCH 17/33] fix: scale the advance of characters when they shrink
 or grow

The kerning of a character is computed from its advance and its width, but only
the latter was updated by Shrink and Grow.
---
 tex/box.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tex/box.go b/tex/box.go
index e433113..f8122a8 100644
--- a/tex/box.go
+++ b/tex/box.go
@@ -234,6 +234,7 @@ func (box *Char) Shrink() {
 	box.size--
 	if box.size < numSizeLevels {
 		box.font.Size *= shrinkFactor
+		box.metrics.Advance *= shrinkFactor
 		box.width *= shrinkFactor
 		box.height *= shrinkFactor
 		box.depth *= shrinkFactor
@@ -243,6 +244,7 @@ func (box *Char) Shrink() {
 func (box *Char) Grow() {
 	box.size++
 	box.font.Size *= growFactor
+	box.metrics.Advance *= growFactor
 	box.width *= growFactor
 	box.height *= growFactor
 	box.depth *= growFactor
-- 
2.43.0


From 435e7e87bd79699145dfdf11a80a646029963b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:51 +0000
Subject: [PATCH 18/33] fix: account for boxes and rules without depth in
 vertical lists

VPack gives boxes and rules without depth their own room, but Ship placed the
nodes following them as if they weren't there and didn't draw such rules.
---
 tex/box.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tex/box.go b/tex/box.go
index f8122a8..5999d64 100644
--- a/tex/box.go
+++ b/tex/box.go
@@ -1153,8 +1153,8 @@ func (ship *Ship) vlistOut(box Tree) {
 				ruleWidth = box.Width()
 			}
 			ruleHeight += ruleDepth
-			if ruleHeight > 0 && ruleDepth > 0 {
-				ship.cur.v += ruleHeight
+			ship.cur.v += ruleHeight
+			if ruleHeight > 0 {
 				type renderXYWH interface {
 					render(x, y, w, h float64)
 				}
-- 
2.43.0


From ea9be601a3ae9192cbc410b43252469a736e3a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:53 +0000
Subject: [PATCH 19/33] fix: draw the rules of horizontal lists across the
 baseline

A rule extends from its height above the baseline to its depth below it, but
was drawn entirely below the baseline, without accounting for its depth.
---
 tex/box.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tex/box.go b/tex/box.go
index 5999d64..c77e73e 100644
--- a/tex/box.go
+++ b/tex/box.go
@@ -1061,15 +1061,16 @@ func (ship *Ship) hlistOut(box Tree) {
 			if math.IsInf(ruleDepth, 0) {
 				ruleDepth = box.Depth()
 			}
-			if ruleHeight > 0 && ruleWidth > 0 {
-				ship.cur.v = baseLine + ruleDepth
+			ruleTotal := ruleHeight + ruleDepth
+			if ruleTotal > 0 && ruleWidth > 0 {
+				ship.cur.v = baseLine - ruleHeight
 				type renderXYWH interface {
 					render(x, y, w, h float64)
 				}
 				node.(renderXYWH).render(
 					ship.cur.h+ship.off.h,
 					ship.cur.v+ship.off.v,
-					ruleWidth, ruleHeight,
+					ruleWidth, ruleTotal,
 				)
 				ship.cur.v = baseLine
 			}
-- 
2.43.0


From f02e081e1e71060668eed5e43d768e6b11ba4418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:55 +0000
Subject: [PATCH 20/33] fix: scale kerning with the size of the font

Kern returned a distance in font units divided by 64 whatever the size of the
font, and looked glyphs of the second font up in the first one.
---
 font/ttf/ttf.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/font/ttf/ttf.go b/font/ttf/ttf.go
index ef16811..fb0a6eb 100644
--- a/font/ttf/ttf.go
+++ b/font/ttf/ttf.go
@@ -251,6 +251,10 @@ func (be *Backend) Kern(ft1 font.Font, sym1 string, ft2 font.Font, sym2 string,
 		const math = true
 		info1 := be.getInfo(sym1, ft1, dpi, math)
 		info2 := be.getInfo(sym2, ft2, dpi, math)
+		if info1.font != info2.font {
+			// glyph indices of different font files can't be mixed.
+			return 0
+		}
 		scale := fixed.Int26_6(info1.font.UnitsPerEm())
 		var buf sfnt.Buffer
 		k, err := info1.font.Kern(&buf, info1.glyph, info2.glyph, scale, hintingNone)
@@ -262,7 +266,7 @@ func (be *Backend) Kern(ft1 font.Font, sym1 string, ft2 font.Font, sym2 string,
 				sym1, sym2, err,
 			))
 		}
-		return float64(k) / 64
+		return float64(k) / float64(info1.font.UnitsPerEm()) * ft1.Size
 	}
 	return 0
 }
-- 
2.43.0


From 976bb2625f44f992dd36759600446cf48b5a5bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:20 +0000
Subject: [PATCH 21/33] fix: return an error instead of panicking on negative
 image sizes

An expression made of negative space, such as '$\!$', has a negative width.
---
 drawtex/drawimg/drawimg.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/drawtex/drawimg/drawimg.go b/drawtex/drawimg/drawimg.go
index ba57410..bc5ce73 100644
--- a/drawtex/drawimg/drawimg.go
+++ b/drawtex/drawimg/drawimg.go
@@ -31,10 +31,14 @@ func NewRenderer(w io.Writer) *Renderer {
 
 func (r *Renderer) Render(width, height, dpi float64, c *drawtex.Canvas) error {
 	var (
-		w   = width * dpi
-		h   = height * dpi
-		ctx = gg.NewContext(int(math.Ceil(w)), int(math.Ceil(h)))
+		w = width * dpi
+		h = height * dpi
 	)
+	if w < 0 || h < 0 {
+		return fmt.Errorf("drawimg: invalid image size (%g, %g)", w, h)
+	}
+
+	ctx := gg.NewContext(int(math.Ceil(w)), int(math.Ceil(h)))
 	// log.Printf("write: w=%g, h=%g", w, h)
 
 	if false {
-- 
2.43.0


From 9569ee5fc2b153b49405588ee065d76e6c6ce89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:41 +0000
Subject: [PATCH 22/33] fix: report a positive x-height for all fonts

The x-height was negative for all fonts with a recent OS/2 table, among which
the Go, Latin Modern and Liberation fonts.
---
 font/ttf/ttf.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/font/ttf/ttf.go b/font/ttf/ttf.go
index fb0a6eb..d66dbc5 100644
--- a/font/ttf/ttf.go
+++ b/font/ttf/ttf.go
@@ -8,6 +8,7 @@ package ttf // import "github.com/go-latex/latex/font/ttf"
 import (
 	"errors"
 	"fmt"
+	"math"
 	"unicode"
 
 	"github.com/go-latex/latex/drawtex"
@@ -188,7 +189,9 @@ func (be *Backend) XHeight(fnt font.Font, dpi float64) float64 {
 	}
 	defer face.Close()
 
-	return float64(-face.Metrics().XHeight) / 64
+	// the sign of the x-height reported by opentype depends on whether it was
+	// read from the OS/2 table or measured on the 'x' glyph.
+	return math.Abs(float64(face.Metrics().XHeight)) / 64
 }
 
 const (
-- 
2.43.0


From b97b45477cb1d185f4880edae50f554b73d3b954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:35 +0000
Subject: [PATCH 23/33] fix: accept the spacing commands \thinspace, \enspace,
 \/ and \>

The typesetter defines their width, but the parser rejected them as unknown
macros.
---
 macros.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/macros.go b/macros.go
index 82a7335..676c2f7 100644
--- a/macros.go
+++ b/macros.go
@@ -320,6 +320,11 @@ func (p *parser) addBuiltinMacros() {
 		`\vdots`:  builtinMacro(""),
 		`\hspace`: builtinMacro("A"),
 
+		`\/`:         builtinMacro(""),
+		`\>`:         builtinMacro(""),
+		`\thinspace`: builtinMacro(""),
+		`\enspace`:   builtinMacro(""),
+
 		// catch-all
 		//
 		`\overline`:     builtinMacro("A"),
-- 
2.43.0


From 3447abe98236f7bdeead3ab86a6334f6e163bd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:35 +0000
Subject: [PATCH 24/33] fix: space binary operators after a dollar sign

---
 mtex/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mtex/parser.go b/mtex/parser.go
index aee75e1..cdc22e9 100644
--- a/mtex/parser.go
+++ b/mtex/parser.go
@@ -218,6 +218,10 @@ func handleSymbol(p *parser, node ast.Node, state tex.State, math bool) tex.Node
 		if i >= 0 {
 			prev = string(p.expr[i])
 		}
+		if prev == "$" && i > 0 && p.expr[i-1] == '\\' {
+			// the dollar sign, not the start of a math expression.
+			prev = `\$`
+		}
 		switch {
 		case symbols.BinaryOperators.Has(sym) && (prev == "" ||
 			prev == "$" ||
-- 
2.43.0


From ac8ac302d150cb2efd166b5acd21ce1321dcda03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:22 +0000
Subject: [PATCH 25/33] fix: ignore comments when spacing binary operators

---
 mtex/parser.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/mtex/parser.go b/mtex/parser.go
index cdc22e9..e264dd7 100644
--- a/mtex/parser.go
+++ b/mtex/parser.go
@@ -52,7 +52,7 @@ func (p *parser) parse(x string, size, dpi float64) (box tex.Node, err error) {
 		}
 	}()
 
-	p.expr = x
+	p.expr = blankComments(x)
 	node, err := latex.ParseExpr(x)
 	if err != nil {
 		return nil, fmt.Errorf("could not parse latex expression %q: %w", x, err)
@@ -584,6 +584,22 @@ func rcparams(k string) interface{} {
 	}
 }
 
+// blankComments replaces the comments of a LaTeX expression with blanks.
+func blankComments(x string) string {
+	o := []byte(x)
+	for i := 0; i < len(o); i++ {
+		switch o[i] {
+		case '\\':
+			i++ // escaped character.
+		case '%':
+			for ; i < len(o) && o[i] != '\n'; i++ {
+				o[i] = ' '
+			}
+		}
+	}
+	return string(o)
+}
+
 func isdigit(v byte) bool {
 	switch v {
 	case '0', '1', '2', '3', '4', '5', '6', '7', '8', '9':
-- 
2.43.0


From 0c471ee45d8f08a5111d03d6601e15e19c3f12ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:18 +0000
Subject: [PATCH 26/33] fix: account for the finite dimension of a partly
 running rule

The height (depth) of a rule was ignored when packing a horizontal list
if its depth (height) was running.
---
 tex/box.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/tex/box.go b/tex/box.go
index c77e73e..bd6c52d 100644
--- a/tex/box.go
+++ b/tex/box.go
@@ -139,11 +139,12 @@ func (box *Box) Depth() float64 { return box.depth }
 
 func (box *Box) hpackDims(width, height, depth *float64, stretch, shrink []float64) {
 	*width += box.width
-	if math.IsInf(box.height, 0) || math.IsInf(box.depth, 0) {
-		return
+	if !math.IsInf(box.height, 0) {
+		*height = math.Max(*height, box.height)
+	}
+	if !math.IsInf(box.depth, 0) {
+		*depth = math.Max(*depth, box.depth)
 	}
-	*height = math.Max(*height, box.height)
-	*depth = math.Max(*depth, box.depth)
 }
 
 func (box *Box) vpackDims(width, height, depth *float64, stretch, shrink []float64) {
-- 
2.43.0


From 3592dbe31c6f3ae04749e0586e9464b02a292696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:03 +0000
Subject: [PATCH 27/33] fix: do not overflow when retrieving the advance of
 wide glyphs

---
 font/ttf/ttf.go | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/font/ttf/ttf.go b/font/ttf/ttf.go
index d66dbc5..fd0eadd 100644
--- a/font/ttf/ttf.go
+++ b/font/ttf/ttf.go
@@ -112,23 +112,19 @@ func (be *Backend) getInfo(symbol string, fnt font.Font, dpi float64, math bool)
 		panic(fmt.Errorf("could not retrieve glyph name of %q: %+v", rn, err))
 	}
 
-	var ppem = int(ft.UnitsPerEm() * 6)
-	_, err = ft.LoadGlyph(&buf, idx, fixed.I(ppem), nil)
+	// fupe is the size, in pixels per em, at which one pixel/64 is one font unit.
+	fupe := fixed.Int26_6(ft.UnitsPerEm())
+	_, err = ft.LoadGlyph(&buf, idx, fupe, nil)
 	if err != nil {
 		panic(fmt.Errorf("could not load glyph %q: %+v", rn, err))
 	}
 
-	adv, err := ft.GlyphAdvance(&buf, idx, fixed.I(ppem), hinting)
+	// adv is in font units.
+	adv, err := ft.GlyphAdvance(&buf, idx, fupe, hinting)
 	if err != nil {
 		panic(fmt.Errorf("could not retrieve glyph advance for %q: %+v", rn, err))
 	}
 
-	fupe := fixed.Int26_6(ft.UnitsPerEm())
-	_, err = ft.LoadGlyph(&buf, idx, fupe, nil)
-	if err != nil {
-		panic(fmt.Errorf("could not load glyph %q: %+v", rn, err))
-	}
-
 	bnds, _, err := ft.GlyphBounds(&buf, idx, fixed.I(12), hinting)
 	if err != nil {
 		panic(err)
@@ -150,7 +146,7 @@ func (be *Backend) getInfo(symbol string, fnt font.Font, dpi float64, math bool)
 	}
 
 	me := font.Metrics{
-		Advance: float64(adv) / 65536 * fnt.Size / 12,
+		Advance: float64(adv) * 6 * 64 / 65536 * fnt.Size / 12,
 		Height:  height,
 		Width:   width,
 		XMin:    xmin,
-- 
2.43.0


From 4491dfdb2d73652a3908ae48f57e502bd7c1aac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:36 +0000
Subject: [PATCH 28/33] fix: reject image sizes that are not finite or exceed
 those of PNG

---
 drawtex/drawimg/drawimg.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/drawtex/drawimg/drawimg.go b/drawtex/drawimg/drawimg.go
index bc5ce73..17fc1a1 100644
--- a/drawtex/drawimg/drawimg.go
+++ b/drawtex/drawimg/drawimg.go
@@ -34,7 +34,9 @@ func (r *Renderer) Render(width, height, dpi float64, c *drawtex.Canvas) error {
 		w = width * dpi
 		h = height * dpi
 	)
-	if w < 0 || h < 0 {
+	// PNG images have at most 2^31-1 pixels in each direction.
+	const max = math.MaxInt32
+	if !(0 <= w && w <= max && 0 <= h && h <= max) {
 		return fmt.Errorf("drawimg: invalid image size (%g, %g)", w, h)
 	}
 
-- 
2.43.0


From 1be947562df7fc29584eafe138dd0d368692d0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:44 +0000
Subject: [PATCH 29/33] fix: clip rectangles to the image before drawing them

---
 drawtex/drawimg/drawimg.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/drawtex/drawimg/drawimg.go b/drawtex/drawimg/drawimg.go
index 17fc1a1..24ae682 100644
--- a/drawtex/drawimg/drawimg.go
+++ b/drawtex/drawimg/drawimg.go
@@ -90,17 +90,28 @@ func drawGlyph(ctx *gg.Context, dpi float64, op drawtex.GlyphOp) {
 
 func drawRect(ctx *gg.Context, dpi float64, op drawtex.RectOp) {
 	dpi /= 72
+	// clip to the image: the rasterizer mishandles negative coordinates.
+	var (
+		x1 = clamp(op.X1*dpi, ctx.Width())
+		x2 = clamp(op.X2*dpi, ctx.Width())
+		y1 = clamp(op.Y1*dpi, ctx.Height())
+		y2 = clamp(op.Y2*dpi, ctx.Height())
+	)
 	ctx.NewSubPath()
-	ctx.MoveTo(op.X1*dpi, op.Y1*dpi)
-	ctx.LineTo(op.X2*dpi, op.Y1*dpi)
-	ctx.LineTo(op.X2*dpi, op.Y2*dpi)
-	ctx.LineTo(op.X1*dpi, op.Y2*dpi)
-	ctx.LineTo(op.X1*dpi, op.Y1*dpi)
+	ctx.MoveTo(x1, y1)
+	ctx.LineTo(x2, y1)
+	ctx.LineTo(x2, y2)
+	ctx.LineTo(x1, y2)
+	ctx.LineTo(x1, y1)
 	ctx.ClosePath()
 	ctx.Fill()
 	//	log.Printf("draw-rect: pt1=(%g, %g) -> (%g, %g)", op.X1, op.Y1, op.X2, op.Y2)
 }
 
+func clamp(v float64, max int) float64 {
+	return math.Min(math.Max(v, 0), float64(max))
+}
+
 var (
 	_ mtex.Renderer = (*Renderer)(nil)
 )
-- 
2.43.0


From 034a4071b3fbf683b383026b1a84d7e8252f224b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:53 +0000
Subject: [PATCH 30/33] fix: reject images that can't be allocated

---
 drawtex/drawimg/drawimg.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/drawtex/drawimg/drawimg.go b/drawtex/drawimg/drawimg.go
index 24ae682..44a6933 100644
--- a/drawtex/drawimg/drawimg.go
+++ b/drawtex/drawimg/drawimg.go
@@ -35,8 +35,12 @@ func (r *Renderer) Render(width, height, dpi float64, c *drawtex.Canvas) error {
 		h = height * dpi
 	)
 	// PNG images have at most 2^31-1 pixels in each direction.
-	const max = math.MaxInt32
-	if !(0 <= w && w <= max && 0 <= h && h <= max) {
+	// More than 2^32 pixels (16 GiB) can't reasonably be allocated.
+	const (
+		max       = math.MaxInt32
+		maxPixels = 1 << 32
+	)
+	if !(0 <= w && w <= max && 0 <= h && h <= max && w*h <= maxPixels) {
 		return fmt.Errorf("drawimg: invalid image size (%g, %g)", w, h)
 	}
 
-- 
2.43.0


From 8bd2f33953534da21ff5033792d140548dd6094b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:15 +0000
Subject: [PATCH 31/33] fix: return an error for expressions nested too deeply
 to be parsed

---
 parser.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/parser.go b/parser.go
index ed0a5f2..f8ef517 100644
--- a/parser.go
+++ b/parser.go
@@ -25,9 +25,13 @@ const (
 	mathState
 )
 
+// maxDepth is the deepest nesting of the nodes of an expression.
+const maxDepth = 10000
+
 type parser struct {
 	s     *texScanner
 	state state
+	depth int // depth is the nesting of the node being parsed.
 
 	macros map[string]macroParser
 }
@@ -86,6 +90,15 @@ func (p *parser) closed(tok token.Token) {
 }
 
 func (p *parser) parseNode(tok token.Token) ast.Node {
+	// don't exhaust the stack, which can't be recovered from.
+	p.depth++
+	defer func() {
+		p.depth--
+	}()
+	if p.depth > maxDepth {
+		panic(fmt.Errorf("nodes nested more than %d levels deep", maxDepth))
+	}
+
 	switch tok.Kind {
 	case token.Comment:
 		return nil
-- 
2.43.0


From 9c03f00676b036b86a840ec93d82246071be1b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:12 +0000
Subject: [PATCH 32/33] fix: return an error for font sizes that are not
 positive and finite

---
 mtex/render.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mtex/render.go b/mtex/render.go
index d4bc351..7ca0955 100644
--- a/mtex/render.go
+++ b/mtex/render.go
@@ -18,6 +18,11 @@ type Renderer interface {
 }
 
 func Render(dst Renderer, expr string, size, dpi float64, fonts *ttf.Fonts) error {
+	// delimiters are sized relatively to the font size.
+	if !(size > 0) || math.IsInf(size, +1) {
+		return fmt.Errorf("could not render math expression: invalid font size %v", size)
+	}
+
 	var (
 		canvas  = drawtex.New()
 		backend *ttf.Backend
-- 
2.43.0


From 9266cd9f7c92941a8cb3238171690965584e4125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:28 +0000
Subject: [PATCH 33/33] fix: ship the clusters of a list as the lists they are

A SubSuperCluster within a horizontal list made Ship panic, as it has no
render method, and nothing of one within a vertical list was drawn.
---
 tex/box.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tex/box.go b/tex/box.go
index bd6c52d..0953976 100644
--- a/tex/box.go
+++ b/tex/box.go
@@ -1001,6 +1001,9 @@ func (ship *Ship) hlistOut(box Tree) {
 	ship.maxPush = maxInt(ship.cur.s, ship.maxPush)
 
 	for _, node := range box.Nodes() {
+		if cluster, ok := node.(*SubSuperCluster); ok {
+			node = cluster.HList
+		}
 		switch node := node.(type) {
 		case *Char:
 			node.Render(ship.cur.h+ship.off.h, ship.cur.v+ship.off.v)
@@ -1095,6 +1098,9 @@ func (ship *Ship) vlistOut(box Tree) {
 	ship.cur.v -= box.Height()
 
 	for _, node := range box.Nodes() {
+		if cluster, ok := node.(*SubSuperCluster); ok {
+			node = cluster.HList
+		}
 		switch node := node.(type) {
 		case *Kern:
 			ship.cur.v += node.Width()
-- 
2.43.0

