module vh

go 1.24

require (
	github.com/anishathalye/porcupine v1.3.1
	github.com/zenazn/goji v0.0.0
)

replace github.com/zenazn/goji => /repo
