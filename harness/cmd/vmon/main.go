package main

import (
	"verif/harness/mon"
	_ "verif/harness/props"
)

func main() { mon.Main() }
