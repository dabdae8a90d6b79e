package main

import (
	"os"

	. "verif/harness/core"
)

func main() {
	if os.Getenv("VERIF_CHILD") == "p42" {
		childMain()
		return
	}
	Main([]Prop{p01, p02, p03, p04, p05, p06, p07, p08, p09, p15, p16, p17, p34, p35, p37, p39, p40, p42})
}
