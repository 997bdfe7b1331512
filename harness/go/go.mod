module verif

go 1.22.0

require (
	github.com/kevmo314/appendable v0.0.0
	golang.org/x/sys v0.16.0
	golang.org/x/text v0.14.0
)

replace github.com/kevmo314/appendable => /repo
