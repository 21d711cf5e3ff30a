module verif

go 1.27

require (
	github.com/jsimonetti/go-artnet v0.0.0
	github.com/sirupsen/logrus v1.9.4
)

require golang.org/x/sys v0.13.0 // indirect

replace github.com/jsimonetti/go-artnet => /repo
