module verif/harness

go 1.23

require (
	github.com/google/btree v1.1.2
	github.com/leftmike/maho v0.0.0
)

replace github.com/leftmike/maho => /repo
