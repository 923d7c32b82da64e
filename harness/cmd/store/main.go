// Command store checks the persistent key-value stores
// (package github.com/go-ego/riot/store).
package main

import (
	"os"

	"verif/harness/internal/vp"
)

func main() {
	if len(os.Args) == 3 && os.Args[1] == "crash-child" {
		crashChild(os.Args[2])
		return
	}
	registerStores()
	vp.Main()
}
