package main

// Reference tables. They are data of the oracles, written down from the LaTeX
// and Unicode mathematics tables and reviewed against HTML's entity names; they
// are not read from the code under test.

// texUnicode holds the Unicode character of each symbol macro.
var texUnicode = map[string]rune{
	`\#`:                        0x0023,
	`\$`:                        0x0024,
	`\%`:                        0x0025,
	`\(`:                        0x0028,
	`\)`:                        0x0029,
	`\AA`:                       0x00c5,
	`\AE`:                       0x00c6,
	`\BbbC`:                     0x2102,
	`\BbbN`:                     0x2115,
	`\BbbP`:                     0x2119,
	`\BbbQ`:                     0x211a,
	`\BbbR`:                     0x211d,
	`\BbbZ`:                     0x2124,
	`\Bumpeq`:                   0x224e,
	`\Cap`:                      0x22d2,
	`\Colon`:                    0x2237,
	`\Cup`:                      0x22d3,
	`\Delta`:                    0x0394,
	`\Doteq`:                    0x2251,
	`\Downarrow`:                0x21d3,
	`\Equiv`:                    0x2263,
	`\Finv`:                     0x2132,
	`\Game`:                     0x2141,
	`\Gamma`:                    0x0393,
	`\H`:                        0x030b,
	`\Im`:                       0x2111,
	`\Join`:                     0x2a1d,
	`\L`:                        0x0141,
	`\Lambda`:                   0x039b,
	`\Ldsh`:                     0x21b2,
	`\Leftarrow`:                0x21d0,
	`\Leftrightarrow`:           0x21d4,
	`\Lleftarrow`:               0x21da,
	`\Longleftarrow`:            0x27f8,
	`\Longleftrightarrow`:       0x27fa,
	`\Longrightarrow`:           0x27f9,
	`\Lsh`:                      0x21b0,
	`\Nearrow`:                  0x21d7,
	`\Nwarrow`:                  0x21d6,
	`\O`:                        0x00d8,
	`\OE`:                       0x0152,
	`\Omega`:                    0x03a9,
	`\P`:                        0x00b6,
	`\Phi`:                      0x03a6,
	`\Pi`:                       0x03a0,
	`\Psi`:                      0x03a8,
	`\Rdsh`:                     0x21b3,
	`\Re`:                       0x211c,
	`\Rightarrow`:               0x21d2,
	`\Rrightarrow`:              0x21db,
	`\Rsh`:                      0x21b1,
	`\S`:                        0x00a7,
	`\Searrow`:                  0x21d8,
	`\Sigma`:                    0x03a3,
	`\Subset`:                   0x22d0,
	`\Supset`:                   0x22d1,
	`\Swarrow`:                  0x21d9,
	`\Theta`:                    0x0398,
	`\Thorn`:                    0x00de,
	`\Uparrow`:                  0x21d1,
	`\Updownarrow`:              0x21d5,
	`\Upsilon`:                  0x03a5,
	`\Vdash`:                    0x22a9,
	`\Vert`:                     0x2016,
	`\Vvdash`:                   0x22aa,
	`\Xi`:                       0x039e,
	`\_`:                        0x005f,
	`\__sqrt__`:                 0x221a,
	`\ac`:                       0x223e,
	`\acute`:                    0x0301,
	`\acwopencirclearrow`:       0x21ba,
	`\adots`:                    0x22f0,
	`\ae`:                       0x00e6,
	`\aleph`:                    0x2135,
	`\alpha`:                    0x03b1,
	`\angle`:                    0x2220,
	`\approx`:                   0x2248,
	`\approxeq`:                 0x224a,
	`\approxident`:              0x224b,
	`\arceq`:                    0x2258,
	`\ast`:                      0x2217,
	`\asterisk`:                 0x002a,
	`\asymp`:                    0x224d,
	`\backcong`:                 0x224c,
	`\backepsilon`:              0x03f6,
	`\backprime`:                0x2035,
	`\backsim`:                  0x223d,
	`\backsimeq`:                0x22cd,
	`\backslash`:                0x005c,
	`\bar`:                      0x0304,
	`\barleftarrow`:             0x21e4,
	`\barwedge`:                 0x22bc,
	`\because`:                  0x2235,
	`\beta`:                     0x03b2,
	`\beth`:                     0x2136,
	`\between`:                  0x226c,
	`\bigcap`:                   0x22c2,
	`\bigcirc`:                  0x25cb,
	`\bigcup`:                   0x22c3,
	`\bigodot`:                  0x2a00,
	`\bigoplus`:                 0x2a01,
	`\bigotimes`:                0x2a02,
	`\bigstar`:                  0x2605,
	`\bigtriangledown`:          0x25bd,
	`\bigtriangleup`:            0x25b3,
	`\biguplus`:                 0x2a04,
	`\bigvee`:                   0x22c1,
	`\bigwedge`:                 0x22c0,
	`\blacksquare`:              0x25a0,
	`\blacktriangle`:            0x25b4,
	`\blacktriangledown`:        0x25be,
	`\blacktriangleleft`:        0x25c0,
	`\blacktriangleright`:       0x25b6,
	`\bot`:                      0x22a5,
	`\bowtie`:                   0x22c8,
	`\boxbar`:                   0x25eb,
	`\boxdot`:                   0x22a1,
	`\boxminus`:                 0x229f,
	`\boxplus`:                  0x229e,
	`\boxtimes`:                 0x22a0,
	`\breve`:                    0x0306,
	`\bullet`:                   0x2219,
	`\bumpeq`:                   0x224f,
	`\c`:                        0x0327,
	`\candra`:                   0x0310,
	`\cap`:                      0x2229,
	`\carriagereturn`:           0x21b5,
	`\cdot`:                     0x22c5,
	`\cdotp`:                    0x00b7,
	`\cdots`:                    0x22ef,
	`\cent`:                     0x00a2,
	`\check`:                    0x030c,
	`\checkmark`:                0x2713,
	`\chi`:                      0x03c7,
	`\circ`:                     0x2218,
	`\circeq`:                   0x2257,
	`\circlearrowleft`:          0x21ba,
	`\circlearrowright`:         0x21bb,
	`\circledR`:                 0x00ae,
	`\circledS`:                 0x24c8,
	`\circledast`:               0x229b,
	`\circledcirc`:              0x229a,
	`\circleddash`:              0x229d,
	`\circumflexaccent`:         0x0302,
	`\clubsuit`:                 0x2663,
	`\clubsuitopen`:             0x2667,
	`\colon`:                    0x003a,
	`\coloneq`:                  0x2254,
	`\combiningacuteaccent`:     0x0301,
	`\combiningbreve`:           0x0306,
	`\combiningdiaeresis`:       0x0308,
	`\combiningdotabove`:        0x0307,
	`\combininggraveaccent`:     0x0300,
	`\combiningoverline`:        0x0304,
	`\combiningrightarrowabove`: 0x20d7,
	`\combiningtilde`:           0x0303,
	`\complement`:               0x2201,
	`\cong`:                     0x2245,
	`\coprod`:                   0x2210,
	`\copyright`:                0x00a9,
	`\cup`:                      0x222a,
	`\cupdot`:                   0x228d,
	`\curlyeqprec`:              0x22de,
	`\curlyeqsucc`:              0x22df,
	`\curlyvee`:                 0x22ce,
	`\curlywedge`:               0x22cf,
	`\curvearrowleft`:           0x21b6,
	`\curvearrowright`:          0x21b7,
	`\cwopencirclearrow`:        0x21bb,
	`\d`:                        0x0323,
	`\dag`:                      0x2020,
	`\dagger`:                   0x2020,
	`\daleth`:                   0x2138,
	`\danger`:                   0x2621,
	`\dashleftarrow`:            0x290e,
	`\dashrightarrow`:           0x290f,
	`\dashv`:                    0x22a3,
	`\ddag`:                     0x2021,
	`\ddddot`:                   0x20dc,
	`\dddot`:                    0x20db,
	`\ddot`:                     0x0308,
	`\ddots`:                    0x22f1,
	`\degree`:                   0x00b0,
	`\delta`:                    0x03b4,
	`\diamond`:                  0x22c4,
	`\diamondsuit`:              0x2662,
	`\digamma`:                  0x03dd,
	`\div`:                      0x00f7,
	`\divideontimes`:            0x22c7,
	`\dot`:                      0x0307,
	`\doteq`:                    0x2250,
	`\doteqdot`:                 0x2251,
	`\dotminus`:                 0x2238,
	`\dotplus`:                  0x2214,
	`\dots`:                     0x2026,
	`\doublebarwedge`:           0x2306,
	`\downarrow`:                0x2193,
	`\downdownarrows`:           0x21ca,
	`\downharpoonleft`:          0x21c3,
	`\downharpoonright`:         0x21c2,
	`\downzigzagarrow`:          0x21af,
	`\ell`:                      0x2113,
	`\emdash`:                   0x2014,
	`\emptyset`:                 0x2205,
	`\endash`:                   0x2013,
	`\epsilon`:                  0x03b5,
	`\eqcirc`:                   0x2256,
	`\eqcolon`:                  0x2255,
	`\eqdef`:                    0x225d,
	`\eqgtr`:                    0x22dd,
	`\eqless`:                   0x22dc,
	`\eqsim`:                    0x2242,
	`\eqslantgtr`:               0x2a96,
	`\eqslantless`:              0x2a95,
	`\equal`:                    0x003d,
	`\equiv`:                    0x2261,
	`\eta`:                      0x03b7,
	`\eth`:                      0x00f0,
	`\exists`:                   0x2203,
	`\fallingdotseq`:            0x2252,
	`\flat`:                     0x266d,
	`\forall`:                   0x2200,
	`\frakC`:                    0x212d,
	`\frakZ`:                    0x2128,
	`\frown`:                    0x2322,
	`\gamma`:                    0x03b3,
	`\geq`:                      0x2265,
	`\geqq`:                     0x2267,
	`\geqslant`:                 0x2a7e,
	`\gg`:                       0x226b,
	`\ggg`:                      0x22d9,
	`\gimel`:                    0x2137,
	`\gnapprox`:                 0x2a8a,
	`\gneqq`:                    0x2269,
	`\gnsim`:                    0x22e7,
	`\grave`:                    0x0300,
	`\greater`:                  0x003e,
	`\gtrapprox`:                0x2a86,
	`\gtrdot`:                   0x22d7,
	`\gtreqless`:                0x22db,
	`\gtreqqless`:               0x2a8c,
	`\gtrless`:                  0x2277,
	`\gtrsim`:                   0x2273,
	`\guillemotleft`:            0x00ab,
	`\guillemotright`:           0x00bb,
	`\guilsinglleft`:            0x2039,
	`\guilsinglright`:           0x203a,
	`\hat`:                      0x0302,
	`\hbar`:                     0x0127,
	`\heartsuit`:                0x2661,
	`\hookleftarrow`:            0x21a9,
	`\hookrightarrow`:           0x21aa,
	`\hslash`:                   0x210f,
	`\i`:                        0x0131,
	`\iiint`:                    0x222d,
	`\iint`:                     0x222c,
	`\imageof`:                  0x22b7,
	`\imath`:                    0x0131,
	`\in`:                       0x2208,
	`\infty`:                    0x221e,
	`\int`:                      0x222b,
	`\intercal`:                 0x22ba,
	`\invnot`:                   0x2310,
	`\iota`:                     0x03b9,
	`\jmath`:                    0x0237,
	`\k`:                        0x0328,
	`\kappa`:                    0x03ba,
	`\kernelcontraction`:        0x223b,
	`\l`:                        0x0142,
	`\lambda`:                   0x03bb,
	`\lambdabar`:                0x019b,
	`\langle`:                   0x27e8,
	`\lasp`:                     0x02bd,
	`\lbrace`:                   0x007b,
	`\lbrack`:                   0x005b,
	`\lceil`:                    0x2308,
	`\ldots`:                    0x2026,
	`\leadsto`:                  0x21dd,
	`\leftangle`:                0x27e8,
	`\leftarrow`:                0x2190,
	`\leftarrowtail`:            0x21a2,
	`\leftbrace`:                0x007b,
	`\leftharpoonaccent`:        0x20d0,
	`\leftharpoondown`:          0x21bd,
	`\leftharpoonup`:            0x21bc,
	`\leftleftarrows`:           0x21c7,
	`\leftparen`:                0x0028,
	`\leftrightarrow`:           0x2194,
	`\leftrightarrows`:          0x21c6,
	`\leftrightharpoons`:        0x21cb,
	`\leftrightsquigarrow`:      0x21ad,
	`\leftsquigarrow`:           0x219c,
	`\leftthreetimes`:           0x22cb,
	`\leq`:                      0x2264,
	`\leqq`:                     0x2266,
	`\leqslant`:                 0x2a7d,
	`\less`:                     0x003c,
	`\lessapprox`:               0x2a85,
	`\lessdot`:                  0x22d6,
	`\lesseqgtr`:                0x22da,
	`\lesseqqgtr`:               0x2a8b,
	`\lessgtr`:                  0x2276,
	`\lesssim`:                  0x2272,
	`\lfloor`:                   0x230a,
	`\ll`:                       0x226a,
	`\llcorner`:                 0x231e,
	`\lll`:                      0x22d8,
	`\lnapprox`:                 0x2a89,
	`\lneqq`:                    0x2268,
	`\lnsim`:                    0x22e6,
	`\longleftarrow`:            0x27f5,
	`\longleftrightarrow`:       0x27f7,
	`\longmapsto`:               0x27fc,
	`\longrightarrow`:           0x27f6,
	`\looparrowleft`:            0x21ab,
	`\looparrowright`:           0x21ac,
	`\lq`:                       0x2018,
	`\lrcorner`:                 0x231f,
	`\ltimes`:                   0x22c9,
	`\macron`:                   0x00af,
	`\maltese`:                  0x2720,
	`\mapsdown`:                 0x21a7,
	`\mapsfrom`:                 0x21a4,
	`\mapsto`:                   0x21a6,
	`\mapsup`:                   0x21a5,
	`\measeq`:                   0x225e,
	`\measuredangle`:            0x2221,
	`\mho`:                      0x2127,
	`\mid`:                      0x2223,
	`\minus`:                    0x2212,
	`\models`:                   0x22a7,
	`\mp`:                       0x2213,
	`\mu`:                       0x03bc,
	`\multimap`:                 0x22b8,
	`\nLeftarrow`:               0x21cd,
	`\nLeftrightarrow`:          0x21ce,
	`\nRightarrow`:              0x21cf,
	`\nVDash`:                   0x22af,
	`\nVdash`:                   0x22ae,
	`\nabla`:                    0x2207,
	`\napprox`:                  0x2249,
	`\natural`:                  0x266e,
	`\ncong`:                    0x2247,
	`\ne`:                       0x2260,
	`\nearrow`:                  0x2197,
	`\neg`:                      0x00ac,
	`\neq`:                      0x2260,
	`\nequiv`:                   0x2262,
	`\nexists`:                  0x2204,
	`\ngeq`:                     0x2271,
	`\ngtr`:                     0x226f,
	`\ni`:                       0x220b,
	`\nleftarrow`:               0x219a,
	`\nleftrightarrow`:          0x21ae,
	`\nleq`:                     0x2270,
	`\nless`:                    0x226e,
	`\nmid`:                     0x2224,
	`\not`:                      0x0338,
	`\notin`:                    0x2209,
	`\nparallel`:                0x2226,
	`\nprec`:                    0x2280,
	`\nrightarrow`:              0x219b,
	`\nsim`:                     0x2241,
	`\nsime`:                    0x2244,
	`\nsubset`:                  0x2284,
	`\nsubseteq`:                0x2288,
	`\nsucc`:                    0x2281,
	`\nsupset`:                  0x2285,
	`\nsupseteq`:                0x2289,
	`\ntriangleleft`:            0x22ea,
	`\ntrianglelefteq`:          0x22ec,
	`\ntriangleright`:           0x22eb,
	`\ntrianglerighteq`:         0x22ed,
	`\nu`:                       0x03bd,
	`\nvDash`:                   0x22ad,
	`\nvdash`:                   0x22ac,
	`\nwarrow`:                  0x2196,
	`\o`:                        0x00f8,
	`\obar`:                     0x233d,
	`\ocirc`:                    0x030a,
	`\odot`:                     0x2299,
	`\oe`:                       0x0153,
	`\oiiint`:                   0x2230,
	`\oiint`:                    0x222f,
	`\oint`:                     0x222e,
	`\omega`:                    0x03c9,
	`\ominus`:                   0x2296,
	`\oplus`:                    0x2295,
	`\origof`:                   0x22b6,
	`\oslash`:                   0x2298,
	`\otimes`:                   0x2297,
	`\overarc`:                  0x0311,
	`\overleftarrow`:            0x20d6,
	`\overleftrightarrow`:       0x20e1,
	`\parallel`:                 0x2225,
	`\partial`:                  0x2202,
	`\perp`:                     0x27c2,
	`\perthousand`:              0x2030,
	`\phi`:                      0x03d5,
	`\pi`:                       0x03c0,
	`\pitchfork`:                0x22d4,
	`\plus`:                     0x002b,
	`\pm`:                       0x00b1,
	`\prec`:                     0x227a,
	`\precapprox`:               0x2ab7,
	`\preccurlyeq`:              0x227c,
	`\preceq`:                   0x227c,
	`\precnapprox`:              0x2ab9,
	`\precnsim`:                 0x22e8,
	`\precsim`:                  0x227e,
	`\prime`:                    0x2032,
	`\prod`:                     0x220f,
	`\propto`:                   0x221d,
	`\prurel`:                   0x22b0,
	`\psi`:                      0x03c8,
	`\quad`:                     0x2003,
	`\questeq`:                  0x225f,
	`\rangle`:                   0x27e9,
	`\rasp`:                     0x02bc,
	`\rbrace`:                   0x007d,
	`\rbrack`:                   0x005d,
	`\rceil`:                    0x2309,
	`\rfloor`:                   0x230b,
	`\rho`:                      0x03c1,
	`\rightangle`:               0x27e9,
	`\rightarrow`:               0x2192,
	`\rightarrowbar`:            0x21e5,
	`\rightarrowtail`:           0x21a3,
	`\rightbrace`:               0x007d,
	`\rightharpoonaccent`:       0x20d1,
	`\rightharpoondown`:         0x21c1,
	`\rightharpoonup`:           0x21c0,
	`\rightleftarrows`:          0x21c4,
	`\rightleftharpoons`:        0x21cc,
	`\rightparen`:               0x0029,
	`\rightrightarrows`:         0x21c9,
	`\rightsquigarrow`:          0x219d,
	`\rightthreetimes`:          0x22cc,
	`\rightzigzagarrow`:         0x21dd,
	`\ring`:                     0x02da,
	`\risingdotseq`:             0x2253,
	`\rq`:                       0x2019,
	`\rtimes`:                   0x22ca,
	`\scrB`:                     0x212c,
	`\scrE`:                     0x2130,
	`\scrF`:                     0x2131,
	`\scrH`:                     0x210b,
	`\scrI`:                     0x2110,
	`\scrL`:                     0x2112,
	`\scrM`:                     0x2133,
	`\scrR`:                     0x211b,
	`\scre`:                     0x212f,
	`\scrg`:                     0x210a,
	`\scro`:                     0x2134,
	`\scurel`:                   0x22b1,
	`\searrow`:                  0x2198,
	`\sharp`:                    0x266f,
	`\sigma`:                    0x03c3,
	`\sim`:                      0x223c,
	`\simeq`:                    0x2243,
	`\slash`:                    0x2215,
	`\smallsetminus`:            0x2216,
	`\smile`:                    0x2323,
	`\solbar`:                   0x233f,
	`\spadesuit`:                0x2660,
	`\spadesuitopen`:            0x2664,
	`\sphericalangle`:           0x2222,
	`\sqcap`:                    0x2293,
	`\sqcup`:                    0x2294,
	`\sqsubset`:                 0x228f,
	`\sqsubseteq`:               0x2291,
	`\sqsupset`:                 0x2290,
	`\sqsupseteq`:               0x2292,
	`\ss`:                       0x00df,
	`\star`:                     0x22c6,
	`\stareq`:                   0x225b,
	`\sterling`:                 0x00a3,
	`\subset`:                   0x2282,
	`\subseteq`:                 0x2286,
	`\subseteqq`:                0x2ac5,
	`\subsetneq`:                0x228a,
	`\subsetneqq`:               0x2acb,
	`\succ`:                     0x227b,
	`\succapprox`:               0x2ab8,
	`\succcurlyeq`:              0x227d,
	`\succeq`:                   0x227d,
	`\succnapprox`:              0x2aba,
	`\succnsim`:                 0x22e9,
	`\succsim`:                  0x227f,
	`\sum`:                      0x2211,
	`\supset`:                   0x2283,
	`\supseteq`:                 0x2287,
	`\supseteqq`:                0x2ac6,
	`\supsetneq`:                0x228b,
	`\supsetneqq`:               0x2acc,
	`\swarrow`:                  0x2199,
	`\t`:                        0x0361,
	`\tau`:                      0x03c4,
	`\textasciiacute`:           0x00b4,
	`\textasciicircum`:          0x005e,
	`\textasciigrave`:           0x0060,
	`\textasciitilde`:           0x007e,
	`\textexclamdown`:           0x00a1,
	`\textquestiondown`:         0x00bf,
	`\textquotedblleft`:         0x201c,
	`\textquotedblright`:        0x201d,
	`\therefore`:                0x2234,
	`\theta`:                    0x03b8,
	`\thickspace`:               0x2005,
	`\thorn`:                    0x00fe,
	`\tilde`:                    0x0303,
	`\times`:                    0x00d7,
	`\to`:                       0x2192,
	`\top`:                      0x22a4,
	`\triangledown`:             0x25bf,
	`\triangleeq`:               0x225c,
	`\triangleleft`:             0x25c1,
	`\trianglelefteq`:           0x22b4,
	`\triangleq`:                0x225c,
	`\triangleright`:            0x25b7,
	`\trianglerighteq`:          0x22b5,
	`\turnednot`:                0x2319,
	`\twoheaddownarrow`:         0x21a1,
	`\twoheadleftarrow`:         0x219e,
	`\twoheadrightarrow`:        0x21a0,
	`\twoheaduparrow`:           0x219f,
	`\ulcorner`:                 0x231c,
	`\underbar`:                 0x0331,
	`\uparrow`:                  0x2191,
	`\updownarrow`:              0x2195,
	`\updownarrowbar`:           0x21a8,
	`\updownarrows`:             0x21c5,
	`\upharpoonleft`:            0x21bf,
	`\upharpoonright`:           0x21be,
	`\uplus`:                    0x228e,
	`\upsilon`:                  0x03c5,
	`\upuparrows`:               0x21c8,
	`\urcorner`:                 0x231d,
	`\vDash`:                    0x22a8,
	`\varepsilon`:               0x03b5,
	`\varkappa`:                 0x03f0,
	`\varnothing`:               0x2205,
	`\varphi`:                   0x03c6,
	`\varpi`:                    0x03d6,
	`\varpropto`:                0x221d,
	`\varrho`:                   0x03f1,
	`\varsigma`:                 0x03c2,
	`\vartheta`:                 0x03d1,
	`\vartriangle`:              0x25b5,
	`\vartriangleleft`:          0x22b2,
	`\vartriangleright`:         0x22b3,
	`\vdash`:                    0x22a2,
	`\vdots`:                    0x22ee,
	`\vec`:                      0x20d7,
	`\vee`:                      0x2228,
	`\veebar`:                   0x22bb,
	`\veeeq`:                    0x225a,
	`\vert`:                     0x007c,
	`\wedge`:                    0x2227,
	`\wedgeq`:                   0x2259,
	`\widebar`:                  0x0305,
	`\widehat`:                  0x0302,
	`\widetilde`:                0x0303,
	`\wp`:                       0x2118,
	`\wr`:                       0x2240,
	`\xi`:                       0x03be,
	`\yen`:                      0x00a5,
	`\zeta`:                     0x03b6,
	`\{`:                        0x007b,
	`\|`:                        0x007c,
	`\}`:                        0x007d,
}

// macroArity holds the arguments (a: mandatory, o: optional) of the commands
// that are not in texUnicode, or take arguments.
var macroArity = map[string]string{
	`\ `:            "",
	`\!`:            "",
	`\,`:            "",
	`\/`:            "",
	`\:`:            "",
	`\;`:            "",
	`\>`:            "",
	`\Alpha`:        "",
	`\Beta`:         "",
	`\Chi`:          "",
	`\Epsilon`:      "",
	`\Eta`:          "",
	`\Iota`:         "",
	`\Kappa`:        "",
	`\Mu`:           "",
	`\Nu`:           "",
	`\Omicron`:      "",
	`\Pr`:           "",
	`\Rho`:          "",
	`\Tau`:          "",
	`\Zeta`:         "",
	`\amalg`:        "",
	`\arccos`:       "",
	`\arcsin`:       "",
	`\arctan`:       "",
	`\arg`:          "",
	`\bb`:           "",
	`\bf`:           "",
	`\bigsqcup`:     "",
	`\binom`:        "aa",
	`\cal`:          "",
	`\cos`:          "",
	`\cosh`:         "",
	`\cot`:          "",
	`\coth`:         "",
	`\csc`:          "",
	`\ddagger`:      "",
	`\default`:      "",
	`\deg`:          "",
	`\det`:          "",
	`\dfrac`:        "aa",
	`\dim`:          "",
	`\enspace`:      "",
	`\exp`:          "a",
	`\frac`:         "aa",
	`\frak`:         "",
	`\gcd`:          "",
	`\hom`:          "",
	`\hspace`:       "a",
	`\inf`:          "",
	`\it`:           "",
	`\ker`:          "",
	`\ldotp`:        "",
	`\lg`:           "",
	`\lhd`:          "",
	`\lim`:          "",
	`\liminf`:       "",
	`\limsup`:       "",
	`\ln`:           "",
	`\log`:          "",
	`\mathbb`:       "a",
	`\mathbf`:       "a",
	`\mathcal`:      "a",
	`\mathdefault`:  "a",
	`\mathfrak`:     "a",
	`\mathit`:       "a",
	`\mathregular`:  "a",
	`\mathscr`:      "a",
	`\mathsf`:       "a",
	`\mathtt`:       "a",
	`\max`:          "",
	`\min`:          "",
	`\omicron`:      "",
	`\operatorname`: "a",
	`\overline`:     "a",
	`\qquad`:        "",
	`\regular`:      "",
	`\rhd`:          "",
	`\rm`:           "",
	`\scr`:          "",
	`\sec`:          "",
	`\setminus`:     "",
	`\sf`:           "",
	`\sin`:          "",
	`\sinh`:         "",
	`\sqrt`:         "oa",
	`\stackrel`:     "aa",
	`\sup`:          "",
	`\tan`:          "",
	`\tanh`:         "",
	`\textbb`:       "a",
	`\textbf`:       "a",
	`\textcal`:      "a",
	`\textdefault`:  "a",
	`\textfrak`:     "a",
	`\textit`:       "a",
	`\textregular`:  "a",
	`\textscr`:      "a",
	`\textsf`:       "a",
	`\texttt`:       "a",
	`\tfrac`:        "aa",
	`\thinspace`:    "",
	`\tt`:           "",
	`\unlhd`:        "",
	`\unrhd`:        "",
}

// symbol classes.
var refClasses = map[string][]string{
	"AmbiDelim": {
		".",
		"/",
		"\\Downarrow",
		"\\Uparrow",
		"\\Updownarrow",
		"\\Vert",
		"\\\\|",
		"\\backslash",
		"\\downarrow",
		"\\uparrow",
		"\\updownarrow",
		"\\vert",
		"\\|",
		"|",
	},
	"ArrowSymbols": {
		"\\Downarrow",
		"\\Leftarrow",
		"\\Leftrightarrow",
		"\\Longleftarrow",
		"\\Longleftrightarrow",
		"\\Longrightarrow",
		"\\Rightarrow",
		"\\Uparrow",
		"\\Updownarrow",
		"\\downarrow",
		"\\hookleftarrow",
		"\\hookrightarrow",
		"\\leadsto",
		"\\leftarrow",
		"\\leftharpoondown",
		"\\leftharpoonup",
		"\\leftrightarrow",
		"\\longleftarrow",
		"\\longleftrightarrow",
		"\\longmapsto",
		"\\longrightarrow",
		"\\mapsto",
		"\\nearrow",
		"\\nwarrow",
		"\\rightarrow",
		"\\rightharpoondown",
		"\\rightharpoonup",
		"\\rightleftharpoons",
		"\\searrow",
		"\\swarrow",
		"\\uparrow",
		"\\updownarrow",
	},
	"BinaryOperators": {
		"*",
		"+",
		"-",
		"\\amalg",
		"\\ast",
		"\\bigcirc",
		"\\bigtriangledown",
		"\\bigtriangleup",
		"\\bullet",
		"\\cap",
		"\\cdot",
		"\\circ",
		"\\cup",
		"\\dagger",
		"\\ddagger",
		"\\diamond",
		"\\div",
		"\\lhd",
		"\\mp",
		"\\odot",
		"\\ominus",
		"\\oplus",
		"\\oslash",
		"\\otimes",
		"\\pm",
		"\\rhd",
		"\\setminus",
		"\\sqcap",
		"\\sqcup",
		"\\star",
		"\\times",
		"\\triangleleft",
		"\\triangleright",
		"\\unlhd",
		"\\unrhd",
		"\\uplus",
		"\\vee",
		"\\wedge",
		"\\wr",
	},
	"DropSubSymbols": {
		"\\int",
		"\\oint",
	},
	"FontNames": {
		"bb",
		"bf",
		"cal",
		"circled",
		"default",
		"frak",
		"it",
		"regular",
		"rm",
		"scr",
		"sf",
		"tt",
	},
	"FunctionNames": {
		"Pr",
		"arccos",
		"arcsin",
		"arctan",
		"arg",
		"cos",
		"cosh",
		"cot",
		"coth",
		"csc",
		"deg",
		"det",
		"dim",
		"exp",
		"gcd",
		"hom",
		"inf",
		"ker",
		"lg",
		"lim",
		"liminf",
		"limsup",
		"ln",
		"log",
		"max",
		"min",
		"sec",
		"sin",
		"sinh",
		"sup",
		"tan",
		"tanh",
	},
	"LeftDelim": {
		"(",
		"<",
		"[",
		"\\langle",
		"\\lceil",
		"\\lfloor",
		"\\{",
	},
	"OverUnderFunctions": {
		"lim",
		"liminf",
		"limsup",
		"max",
		"min",
		"sup",
	},
	"OverUnderSymbols": {
		"\\bigcap",
		"\\bigcup",
		"\\bigodot",
		"\\bigoplus",
		"\\bigotimes",
		"\\bigsqcup",
		"\\biguplus",
		"\\bigvee",
		"\\bigwedge",
		"\\coprod",
		"\\prod",
		"\\sum",
	},
	"PunctuationSymbols": {
		"!",
		",",
		".",
		";",
		"\\cdotp",
		"\\ldotp",
	},
	"RelationSymbols": {
		":",
		"<",
		"=",
		">",
		"\\Join",
		"\\approx",
		"\\asymp",
		"\\bowtie",
		"\\cong",
		"\\dashv",
		"\\doteq",
		"\\doteqdot",
		"\\dotplus",
		"\\dots",
		"\\equiv",
		"\\frown",
		"\\geq",
		"\\gg",
		"\\in",
		"\\leq",
		"\\ll",
		"\\mid",
		"\\models",
		"\\neq",
		"\\ni",
		"\\parallel",
		"\\perp",
		"\\prec",
		"\\preceq",
		"\\propto",
		"\\sim",
		"\\simeq",
		"\\smile",
		"\\sqsubset",
		"\\sqsubseteq",
		"\\sqsupset",
		"\\sqsupseteq",
		"\\subset",
		"\\subseteq",
		"\\succ",
		"\\succeq",
		"\\supset",
		"\\supseteq",
		"\\vdash",
	},
	"RightDelim": {
		")",
		">",
		"\\rangle",
		"\\rceil",
		"\\rfloor",
		"\\}",
		"]",
	},
}
