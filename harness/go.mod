module github.com/stephen/cssc/verifharness

go 1.14

require (
	github.com/evanw/esbuild v0.8.6
	github.com/stephen/cssc v0.0.0
)

replace github.com/stephen/cssc => /repo
