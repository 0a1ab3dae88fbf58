import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,observe=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if observe: d["anchors"]["observe_at"]=observe
    P.append(d)

p("C01","Well-formed expressions parse to exactly the tree they denote",
"For every well-formed LaTeX expression (nested up to thousands of levels deep), ParseExpr succeeds and returns the tree of the words, decimal numbers, symbols, macros, mandatory and optional arguments, groups, subscripts, superscripts and math expressions written in the source, in source order: nothing is dropped, duplicated, split, merged, reordered or attached to another parent. A macro takes exactly the arguments its command defines (e.g. two for fractions, an optional and a mandatory one for roots), a script takes the next token or the next braced group, a word is a maximal run of letters and a number a maximal run of decimal digits with at most one point.",
["inputs","programs"],"all well-formed expressions of the supported grammar, any nesting and any token adjacency",
"parser_test.go samples ~30 fixed strings; the statement ranges over every nesting, adjacency and macro.",
["parser.go","scanner.go","macros.go","ast/ast.go"],
[("ParseExpr / parseNode dispatch","parser.go"),("tokenisation","scanner.go scan"),("macro arity table","macros.go addBuiltinMacros")])
p("C02","Node positions delimit the source text of each node",
"For every parsed expression, each node's Pos is the byte offset of the first character of its construct and End the offset just after its last one: the source between them reads back the word, number, symbol or macro name, and starts and ends with the delimiters of arguments, optional arguments and math expressions. Children lie within their parent (a macro's arguments within the macro, list items within their argument or math expression), and siblings are ordered without overlapping, also when the source contains multi-byte characters, blanks and comments.",
["inputs"],"all well-formed expressions, all nodes of their trees (lists standing for bare groups have no delimiters of their own and are exempt)",
"The existing tests check Pos/End on a handful of hand-built nodes, none on sources with comments, multi-byte letters or nesting.",
["ast/ast.go","parser.go","scanner.go"],
[("Pos/End methods","ast/ast.go"),("token positions","scanner.go pos")])
p("C03","Any input string is either parsed or rejected with an error",
"ParseExpr never panics or exhausts the stack and always terminates, whatever the input string and however deeply it is nested, and returns either a tree and no error, or no tree and an error. Malformed input (an unterminated math expression, group or argument, an unmatched closing brace, a missing mandatory argument, a script without operand, an unknown macro, an unsupported character) is always rejected with an error, never silently accepted or repaired.",
["inputs"],"all byte strings: random bytes, token soup, and well-formed expressions damaged by a known edit",
"No test feeds malformed input; totality ranges over all strings.",
["parser.go","scanner.go","macros.go"],
[("error reporting of ParseExpr","parser.go parse"),("closing-delimiter checks","parser.go closed"),("unknown tokens","scanner.go scan")])
p("C04","Comments and insignificant blanks never change the parsed tree",
"Inserting or removing tabs and line breaks between tokens, spaces between the tokens of a math expression, blanks before an argument or a script operand, or a comment running from % to the end of its line whatever the characters in it, changes nothing in the parsed tree but positions. Escaped percent signs do not start a comment, spaces in text and control spaces (backslash-space) are kept.",
["inputs"],"all well-formed expressions x all sets of token boundaries x all comment contents",
"One test has a comment and a few have blanks; the invariance ranges over all boundaries and comment texts.",
["scanner.go","parser.go"],
[("scanComment / skipBlanks","scanner.go"),("Space and Comment tokens","parser.go parseNode")])
p("C05","Walk and Inspect visit every node once, in source order",
"Walking a tree calls the visitor on each node exactly once, parents before children and siblings in source order, and after the children of a node calls the visitor returned for that node with nil. A nil visitor (or a false result of the inspected function) prunes exactly the subtree below that node, nil children are skipped, and the visitor returned for a node is the one used for its children.",
["inputs","programs"],"all trees (parsed or hand-built, including nil children) x all pruning decisions x visitors that change identity",
"walk_test.go covers five fixed trees with a visitor that never prunes.",
["ast/walk.go"],[("Walk","ast/walk.go"),("Inspect","ast/walk.go")])
p("C06","Printing a tree shows every node once, faithfully",
"Print writes, for any tree, each node exactly once in source order with its kind, its quoted text and its nesting (braces for arguments, brackets for optional arguments), so that two trees that differ in kind, text or nesting never print the same. It prints the same text for the same tree every time.",
["inputs"],"all trees built from the exported node types",
"ast_test.go prints a few fixed trees.",
["ast/ast.go"],[("Print","ast/ast.go")])
p("C07","Typesetting any string yields a box or an error, never a crash",
"For every string and every sane font size, mtex.Parse and mtex.Render never panic and always terminate; they return an error, and no box, exactly when the expression is malformed or uses a construct or symbol that is not supported, and a box otherwise. Render calls the destination renderer exactly once on success and not at all when the expression cannot be typeset, and an error of the renderer is returned to the caller. Render with a font size that is not positive and finite is an error, too.",
["inputs","fault_sequences"],"all strings (random, token soup, well-formed, damaged) x renderers that succeed or fail",
"Tests only typeset supported expressions with succeeding renderers.",
["mtex/parser.go","mtex/render.go","parser.go"],
[("mtex.Parse","mtex/parser.go parse"),("Render error paths","mtex/render.go")])
p("C08","Every visible symbol is drawn once, in order, in the right style",
"Typesetting an expression draws exactly one glyph per visible character or symbol written in it (letters, digits, operators, symbol macros, letters of function names and function arguments, fraction and root contents, root and binomial delimiters) in reading order, and nothing else but fraction, root and overline rules. Letters and symbols of math expressions are requested in the italic (math) style, text and function names in the upright style; each level of ordinary fraction or binomial scales its contents by 0.7, a root index by 0.49, and display fractions, root bodies and overlined material not at all.",
["inputs","programs"],"all typesettable expressions of the supported grammar",
"Golden images cover a dozen expressions; conservation ranges over every composition of constructs.",
["mtex/parser.go","tex/box.go"],
[("AST to box visitor","mtex/parser.go visitor.Visit / handleNode"),("genfrac, handleSqrt shrinking","mtex/parser.go"),("glyph emission","tex/box.go Ship")],"RenderGlyph/RenderRectFilled calls received by a recording font.Backend")
p("C09","Symbol macros denote the Unicode characters LaTeX gives them",
"Each supported symbol macro is drawn as the Unicode character LaTeX and the Unicode math tables assign to its name, the same inside and outside of math; in math a hyphen becomes the minus sign, and any single character stands for itself. Every name listed by the symbol table is known to it, is accepted as a macro by the parser and (but for the punctuation symbols, which are not supported yet) can be typeset, and names outside the table are reported as unknown.",
["inputs"],"all symbol names, all single runes, near-miss names",
"utf8_test.go checks a handful of the ~570 names.",
["internal/tex2unicode/utf8.go","macros.go","mtex/parser.go","font/ttf/ttf.go"],
[("symbol table and Index","internal/tex2unicode/utf8.go"),("macro registration","macros.go addBuiltinMacros")])
p("C10","Fractions and binomials are laid out around the math axis",
"In every fraction the numerator is wholly above and the denominator wholly below the fraction bar, with gaps that are fixed multiples of the rule thickness, both centred (to within the one-point glue rounding) in the width of the wider one, which is also the width of the bar; the bar has the rule thickness of the current font and its position relative to the baseline only depends on the font's equals sign and the rule thickness. A binomial has the same stacking without a bar, between two parentheses scaled to its total height, and both report a width, height and depth that account for all of this.",
["inputs","programs"],"all numerators and denominators, nested, at any script level, with any font metrics",
"Tests check the reported size of ~10 fixed fractions; golden images cover a few more.",
["mtex/parser.go","tex/box.go"],
[("genfrac","mtex/parser.go"),("autoSizedDelimiter","mtex/parser.go"),("vlistOut","tex/box.go")],"positions received by a recording backend, box dimensions")
p("C11","Roots and overlines cover their contents",
"A root draws a radical sign scaled to be tall enough for its body, a horizontal rule of the font's rule thickness above the body that starts where the sign ends and spans the body and its padding, and an optional index, twice shrunk, raised over the sign's tick; an overline draws a rule spanning exactly its body, above it. The body keeps its baseline to within the one-point glue rounding, its inner layout and size, and the reported width, height and depth of the construct account for sign, index, rule and body.",
["inputs","programs"],"all bodies and indices, nested, with any font metrics",
"Tests check the reported size of a few roots; nothing checks where the rule and the body go.",
["mtex/parser.go","tex/box.go"],
[("handleSqrt","mtex/parser.go"),("handleOverline","mtex/parser.go"),("VPack glue","tex/box.go")])
p("C12","Runs of text advance by the font's advances and kerning",
"In any sequence of words, numbers, symbols and function names, all glyphs sit on the same baseline and each starts where the previous one started plus its advance plus, between directly adjacent characters of the same run, the kerning the font defines for that pair. The width of the resulting box is the sum of those steps, its height and depth the largest of its members'.",
["inputs"],"all flat expressions, all fonts metrics and kerning tables",
"Tests check the total width of a few words with a kerning-free backend.",
["tex/box.go","mtex/parser.go"],
[("HList kern","tex/box.go"),("Char.Kerning","tex/box.go"),("hlistOut","tex/box.go")])
p("C13","Operators and spacing commands insert the documented space",
"In math, a binary operator, relation or arrow is surrounded by 0.2 em on each side, except that a binary operator that starts the expression, or follows an opening brace, parenthesis, square bracket or less-than sign (blanks and comments ignored), gets none; a full stop is followed by 0.2 em unless it stands between two digits. Explicit spacing commands insert exactly their documented fraction of the math em (thin 3/18, medium 4/18, thick 5/18, control space 6/18, en-space 1/2, quad 1, qquad 2, negative thin -3/18, and the given multiple for hspace), and no other symbol is surrounded by space.",
["inputs"],"all math expressions mixing operators, delimiters, numbers, blanks and spacing commands",
"Tests fix the width of ~8 expressions; the rule depends on every preceding context and each of ~150 symbols.",
["mtex/parser.go","mtex/symbols/symbols_gen.go","mtex/symbols/symbols.go"],
[("handleSymbol","mtex/parser.go"),("spaceWidth / makeSpace","mtex/parser.go"),("symbol classes","mtex/symbols/symbols_gen.go")])
p("C14","Packing boxes yields the specified dimensions and glue setting",
"A horizontal list packed to its natural size is as wide as the sum of its members and as high and deep as the highest and deepest of them after their shift; a vertical list stacks heights and depths, is as wide as its widest member, and moves any depth beyond the allowed maximum into its height. Packed to an exact or additional size it has exactly that size, and the missing or excess amount is assigned in proportion to the stretch or shrink of the highest order of glue present, and to that order only; without such glue the list keeps its natural spacing. Infinite (running) rule dimensions never contribute to a list's size. A list has its own copy of the members: the caller's slice of them is neither changed nor kept.",
["inputs","histories"],"all lists of chars, accents, kerns, glue, boxes, rules and nested lists, all target sizes, sequences of re-packing",
"box_test.go packs a few fixed lists.",
["tex/box.go"],[("HList.HPack","tex/box.go"),("VList.VPack","tex/box.go"),("setGlue / determineOrder","tex/box.go")])
p("C15","Shipping a box draws every member where packing put it",
"Shipping a box tree draws each character, accent and visible rule exactly once, in list order, at the position given by the origin, the box's own height, the sizes and shifts of the members before it and the glue setting (cumulatively rounded to whole units); running rule dimensions take the size of the enclosing box. Shipping at another origin only translates the output, and shipping the same box again draws the same output.",
["inputs","histories"],"all box trees, all origins, repeated shipping",
"Ship is only exercised through golden images of a dozen expressions.",
["tex/box.go"],[("Ship.Call","tex/box.go"),("hlistOut","tex/box.go"),("vlistOut","tex/box.go")],"RenderGlyph/RenderRectFilled calls received by a recording font.Backend")
p("C16","Shrinking and growing scale a box tree uniformly and invertibly",
"Shrinking any box tree multiplies every dimension, shift, kern, glue width, kerning amount and the font size of every character in it by 0.7, growing divides them by 0.7, at every nesting level, so that n shrinks followed by n grows restore dimensions and drawn output. The shrunk tree is laid out like the original scaled by the same factor, up to glue rounding.",
["inputs","histories"],"all box trees, all sequences of shrink and grow operations",
"tex tests shrink single nodes once.",
["tex/box.go"],[("Shrink/Grow of each node type","tex/box.go")])
p("C17","Layout is proportional to the font size",
"Typesetting the same expression at k times the font size produces a box whose width, height and depth are k times as large, drawing the same glyphs at k times the size and the same rules with k times the thickness. Positions scale by k as well, up to the rounding of centring glue.",
["inputs","configurations"],"all typesettable expressions x pairs of font sizes x fonts with size-linear metrics",
"Tests use a single font size of 10 or 12.",
["mtex/parser.go","tex/box.go","font/ttf/ttf.go"],[("metrics scaling","font/ttf/ttf.go getInfo"),("thickness and constants","mtex/parser.go")])
p("C18","Render hands over a canvas of the right size that holds the ink",
"Render passes the renderer, once, the width of the typeset box and its height plus depth rounded up to a whole point, both in inches, the requested resolution unchanged, and a canvas holding exactly the glyphs and rules of the expression at the requested font size with the given fonts. All rules and glyph bounding boxes lie vertically inside the box height and depth (up to rounding).",
["inputs","configurations"],"all typesettable expressions x sizes x resolutions x font sets",
"Tests only compare golden PNGs.",
["mtex/render.go","drawtex/canvas.go"],[("Render","mtex/render.go")],"arguments received by a recording mtex.Renderer")
p("C19","Backend metrics are those of the font's glyphs, at any size",
"For every symbol, style and size, the TrueType backend reports the width, height, bounding box and ink height of exactly the glyph the selected font file maps the symbol's character to, scaled linearly with the font size, with the advance in the same unit, and that letters in italics and the integral signs, and nothing else in those styles, are slanted; rule thickness is 1/16 of the size and the x-height is the positive x-height of the font. The answers do not depend on which other queries were made before.",
["inputs","histories"],"all characters x styles x sizes x font sets x query histories",
"ttf_test.go compares a fixed list of symbols at two sizes for one font family.",
["font/ttf/ttf.go"],[("getInfo / glyph cache","font/ttf/ttf.go"),("getGlyph font selection","font/ttf/ttf.go")])
p("C20","Kerning comes from the font's table, scaled to the font size",
"The kerning of a pair of symbols in the same font and size is the font file's kerning of the two glyphs, proportional to the font size, and zero when the font defines none. It is zero across different fonts, sizes or font files, and independent of previous queries.",
["inputs","histories"],"all pairs of characters x styles x sizes x font sets",
"ttf_test.go checks kerning only for pairs with zero kerning in one font.",
["font/ttf/ttf.go"],[("Kern","font/ttf/ttf.go")])
p("C21","PNG output has the requested size and the drawn content",
"The image renderer writes a decodable PNG of ceil(width x dpi) by ceil(height x dpi) pixels, transparent except for black ink; every filled rectangle covers exactly its area scaled by dpi/72, and glyphs are drawn at their position with their font and size. Operations drawn outside or far away do not touch other pixels, moving the drawing by whole pixels moves the ink by as many, output is the same for the same canvas, and impossible sizes or a failing writer yield an error instead of a crash.",
["inputs","fault_sequences"],"all canvases of glyphs and rectangles, sizes, resolutions, failing writers",
"Golden comparison of ~10 images at one resolution.",
["drawtex/drawimg/drawimg.go"],[("Renderer.Render","drawtex/drawimg/drawimg.go"),("drawGlyph / drawRect","drawtex/drawimg/drawimg.go")])
p("C22","Concurrent use from several goroutines is race-free and exact",
"Any number of goroutines may parse and render expressions at the same time, sharing the default or the packaged fonts, without data races, panics or deadlocks. Each gets exactly the result it would get alone.",
["schedules","inputs"],"all sets of expressions, font sets and goroutine counts; schedules sampled by the Go scheduler under the race detector",
"No test is concurrent.",
["font/ttf/ttf.go","font/lm/lm.go","font/liberation/liberation.go","parser.go","mtex/parser.go","internal/tex2unicode/utf8.go"],
[("shared font singletons","font/lm/lm.go, font/liberation/liberation.go, font/ttf defaultFonts"),("shared symbol tables","mtex/symbols, internal/tex2unicode")])
p("C23","Results depend only on the arguments, not on earlier calls",
"Parsing, typesetting or rendering an expression gives the same tree, box, canvas and image bytes every time, whatever other expressions, sizes or fonts were processed before in the same process, whether they succeeded or failed, and whether or not backend, renderer and fonts were used before. What a call returns belongs to the caller: later calls do not change it, and changing it does not change what later calls return. Inputs, fonts and canvases handed in are not modified by rendering.",
["histories","inputs"],"all histories of calls before a given call",
"Tests never repeat or interleave calls on shared objects.",
["parser.go","mtex/parser.go","mtex/render.go","font/ttf/ttf.go","mtex/symbols/symbols.go"],
[("glyph cache","font/ttf/ttf.go"),("package-level tables","macros.go, mtex/macros.go, mtex/symbols")])
p("C24","A canvas records drawing operations exactly, in order",
"A canvas returns the operations drawn on it in drawing order with unchanged operands, none added, lost or merged, and canvases are independent of each other. The TrueType backend adds exactly one operation per drawing call, at the given coordinates, carrying the font file, size, glyph index, character and metrics of the requested symbol.",
["histories"],"all sequences of drawing calls on several canvases and backends",
"No test looks at a canvas.",
["drawtex/canvas.go","font/ttf/ttf.go"],[("Canvas","drawtex/canvas.go"),("Backend.RenderGlyph","font/ttf/ttf.go")])
p("C25","PDF output is a one-page document of the requested size",
"Writing a canvas to a PDF file creates, at the given path, a valid single-page document whose page has the requested width and height in points, whatever operations the canvas holds. A path that cannot be written yields an error and nothing is written elsewhere.",
["inputs","fault_sequences"],"all sizes and canvases, writable and unwritable paths",
"No test covers the PDF writer.",
["drawtex/drawpdf/drawpdf.go"],[("Write","drawtex/drawpdf/drawpdf.go")])
p("C26","The command line tool writes what the library renders",
"mtex-render writes to the given output path the very image the library renders for the given expression, font size and resolution with its configured fonts, and exits with status zero. When the expression is missing or cannot be rendered, or the output cannot be created, it exits with a non-zero status and a message on standard error.",
["inputs","configurations","fault_sequences"],"all expressions x sizes x resolutions x output paths",
"No test runs the command.",
["cmd/mtex-render/main.go","cmd/mtex-render/fonts.go"],[("main","cmd/mtex-render/main.go")])
p("C27","Symbol classes behave as sets and partition as documented",
"Symbol sets implement set algebra: a set has exactly the members it was built from, its keys are all members, each once and sorted, and a union has exactly the members of its operands, which it leaves unchanged. The spaced symbols are exactly the binary operators, relations and arrows, and each predefined class holds the symbols LaTeX puts in that class.",
["inputs","histories"],"all families of string sets; all symbol names",
"symbols_test.go builds one set.",
["mtex/symbols/set.go","mtex/symbols/symbols.go","mtex/symbols/symbols_gen.go"],[("Set, NewSet, UnionOf","mtex/symbols/set.go"),("symbol classes","mtex/symbols/symbols_gen.go")])
p("C28","Auto-sized characters reach the requested height and depth",
"A character auto-sized to a height and depth is the same symbol scaled so that its total extent equals the requested one, shifted so that its bottom lies at the requested depth; with an explicit factor it is scaled by exactly that factor. Its width is that of the scaled glyph's advance, and the size and the rest of the caller's state are not affected.",
["inputs"],"all symbols, heights, depths, factors and font metrics",
"Only exercised through roots and binomials in golden images.",
["tex/box.go"],[("AutoHeightChar","tex/box.go")])
p("C29","Font packages and styles select the right font files",
"The packaged font sets (default Go fonts, Latin Modern, Liberation) each provide distinct, parseable regular, italic, bold and bold-italic fonts of their family, always the same objects. A backend draws the regular and upright styles with the regular font, the bold style with the bold font and the default style with the default font, and the italic style with the italic font for letters other than Greek capitals and the upright font for everything else.",
["inputs","configurations"],"all characters x styles x font sets, including custom ones",
"No test looks at lm or liberation fonts or the letter rule beyond a few symbols.",
["font/lm/lm.go","font/liberation/liberation.go","font/ttf/ttf.go"],[("Fonts","font/lm/lm.go, font/liberation/liberation.go"),("NewFrom, getGlyph","font/ttf/ttf.go")])
import sys
p("C30","The layout of every expression is composed from the layout of its parts",
"For any composition of the supported constructs, typesetting draws every glyph and rule where the TeX-like box rules put it when each part is laid out on its own, with its size, spacing, kerning and glue rounding, and then placed as a unit in the part that contains it, and the reported width, height and depth are those of the composition. Nothing outside an argument or group influences its inner layout but the font size and style it inherits.",
["inputs","programs"],"all typesettable expressions, with arbitrary nesting, blanks and comments x font metrics x sizes",
"Golden images cover a dozen expressions with the metrics of four fonts; constructs interact through dimensions, shifts, shrinking and glue.",
["mtex/parser.go","tex/box.go"],
[("AST to box visitor","mtex/parser.go"),("packing and shipping","tex/box.go")],"RenderGlyph/RenderRectFilled calls received by a recording font.Backend, box dimensions")
p("C31","Missing fonts and failing backends make typesetting fail cleanly",
"Typesetting with a font set that lacks some styles (missing or unusable fonts) yields an error, and draws nothing, when a glyph of the expression needs a missing font, and otherwise exactly what the complete set yields: text never needs the italic font, letters in math nothing but the italic one, and the default and bold fonts are not needed at all. When any single query of the typesetter to its font backend fails by panicking, Parse returns an error and no box and draws nothing, and the backend can be used again with the result it would have had.",
["inputs","fault_sequences","configurations"],"all typesettable expressions x subsets of the styles x font sets x failing queries",
"Tests use complete font sets and backends that never fail.",
["mtex/parser.go","mtex/render.go","font/ttf/ttf.go"],
[("getGlyph, NewFrom","font/ttf/ttf.go"),("recovery in parse","mtex/parser.go")],"errors returned by mtex.Render and mtex.Parse, canvas operations")
with open('/verif/properties.jsonl','w') as f:
    for d in P:
        assert len(d['title'])<=80,(d['id'],len(d['title']))
        f.write(json.dumps(d)+"\n")
print(len(P))
for d in P:
    n=d['statement'].count('. ')+1
    if n>3: print("sentences",d['id'],n)
