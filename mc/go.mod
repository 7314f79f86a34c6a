module verifmc

go 1.25.0

require (
	github.com/fatih/color v1.19.0
	github.com/neilotoole/jsoncolor v0.0.0
	golang.org/x/sys v0.45.0
)

require (
	github.com/mattn/go-colorable v0.1.14 // indirect
	github.com/mattn/go-isatty v0.0.22 // indirect
	golang.org/x/term v0.43.0 // indirect
)

replace github.com/neilotoole/jsoncolor => /repo
