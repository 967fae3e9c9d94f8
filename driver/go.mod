module jdriver
go 1.16
require github.com/andygello555/json-dom v0.0.0
replace github.com/andygello555/json-dom => /repo
require (
	github.com/andygello555/gotils v1.2.1
	github.com/hjson/hjson-go v3.1.0+incompatible
	github.com/robertkrimen/otto v0.0.0-20200922221731-ef014fd054ac
	gopkg.in/sourcemap.v1 v1.0.5 // indirect
)
