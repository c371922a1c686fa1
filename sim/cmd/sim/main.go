package main

import (
	_ "verifsim/async"
	"verifsim/core"
	_ "verifsim/es"
	_ "verifsim/gcl"
	_ "verifsim/prod"
	_ "verifsim/topics"
)

func main() { core.Main() }
