package main

import (
	"os"

	"verif/harness/compound"
	"verif/harness/core"
	_ "verif/harness/enginecheck"
	_ "verif/harness/identcheck"
	_ "verif/harness/parsecheck"
	_ "verif/harness/sessioncheck"
	_ "verif/harness/storecheck"
)

func main() {
	compound.Setup()
	os.Exit(core.Main(os.Args[1:]))
}
