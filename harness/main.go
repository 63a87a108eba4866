package main

import (
	"verif/mc"
	_ "verif/props"
)

func main() { mc.Main() }
