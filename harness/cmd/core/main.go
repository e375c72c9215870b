// Command core runs the checks of everything but the graph package.
package main

import (
	"os"
	_ "time/tzdata" // zones, wherever this runs

	"aqlverif/fw"
	"aqlverif/props"
)

func main() {
	if os.Getenv("VERIF_PROBE") != "" {
		props.Probe(os.Args[1], os.Args[2], os.Args[3:])
		return
	}
	fw.Main()
}
