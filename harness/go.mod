module aqlverif

go 1.22

require (
	github.com/goccy/go-graphviz v0.1.0
	github.com/mna/pigeon v1.2.0
	go.uber.org/atomic v1.9.0
)

require (
	github.com/araddon/dateparse v0.0.0-20210429162001-6b43995a97de
	github.com/buger/jsonparser v1.1.1
	github.com/fogleman/gg v1.3.0 // indirect
	github.com/golang/freetype v0.0.0-20170609003504-e2365dfdc4a0 // indirect
	github.com/pkg/errors v0.9.1 // indirect
	golang.org/x/image v0.6.0 // indirect
	golang.org/x/mod v0.12.0 // indirect
	golang.org/x/sys v0.12.0 // indirect
	golang.org/x/text v0.8.0
	golang.org/x/tools v0.13.0 // indirect
)

require github.com/flowchartsman/aql v0.0.0

replace github.com/flowchartsman/aql => /repo
