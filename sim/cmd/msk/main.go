package main

import (
	"verifsim/core"
	_ "verifsim/mskc"
)

func main() { core.Main() }
