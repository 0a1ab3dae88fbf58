//go:build internals

package main

import "github.com/go-latex/latex/internal/tex2unicode"

// The symbol table of the code under test. It is internal: when its functions
// change, the checks are built without it, and only go by exported functions.
func init() {
	tableIndex = tex2unicode.Index
	tableHas = tex2unicode.HasSymbol
	tableNames = tex2unicode.Symbols
}
