module github.com/go-latex/latex/verifpbt

go 1.23

require github.com/go-latex/latex v0.0.0

replace github.com/go-latex/latex => /repo

require (
	gioui.org v0.0.0-20210822154628-43a7030f6e0b
	git.sr.ht/~sbinet/gg v0.5.0
	github.com/go-fonts/dejavu v0.3.4
	github.com/go-fonts/latin-modern v0.3.3
	github.com/go-fonts/liberation v0.3.3
	github.com/go-fonts/stix v0.2.2
	github.com/go-pdf/fpdf v0.9.0
	golang.org/x/image v0.18.0
)

require (
	gioui.org/cpu v0.0.0-20210817075930-8d6a761490d2 // indirect
	gioui.org/shader v1.0.0 // indirect
	github.com/campoy/embedmd v1.0.0 // indirect
	github.com/golang/freetype v0.0.0-20170609003504-e2365dfdc4a0 // indirect
	github.com/pmezard/go-difflib v1.0.0 // indirect
	golang.org/x/exp/shiny v0.0.0-20240707233637-46b078467d37 // indirect
	golang.org/x/sys v0.22.0 // indirect
	golang.org/x/text v0.16.0 // indirect
	pgregory.net/rapid v1.3.0
)
