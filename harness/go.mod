module verif

go 1.26.0

require (
	github.com/Redundancy/go-sync v0.0.0
	pgregory.net/rapid v1.3.0
)

require github.com/petar/GoLLRB v0.0.0-20190514000832-33fb24c13b99 // indirect

replace github.com/Redundancy/go-sync => /repo
