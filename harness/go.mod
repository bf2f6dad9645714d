module gopdfverif

go 1.13

require (
	github.com/phpdave11/gofpdi v1.0.14-0.20211212211723-1f10f9844311
	github.com/signintech/gopdf v0.0.0
)

replace github.com/signintech/gopdf => /repo
