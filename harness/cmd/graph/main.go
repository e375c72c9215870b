// Command graph runs the checks of the graph package, which needs cgo.
package main

import (
	"aqlverif/fw"
	_ "aqlverif/graphprops"
)

func main() { fw.Main() }
