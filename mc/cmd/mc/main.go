package main

import (
	"verifmc/checks"
	"verifmc/kit"
)

func main() { kit.Main(checks.All()) }
