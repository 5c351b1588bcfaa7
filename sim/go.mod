module verifsim

go 1.25

require (
	github.com/anishathalye/porcupine v1.3.1
	github.com/ixtendio/gofre v0.0.0
)

replace github.com/ixtendio/gofre => /repo
