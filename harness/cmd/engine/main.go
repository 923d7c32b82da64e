// Command engine checks the properties of the search engine
// (package github.com/go-ego/riot) through its public API.
package main

import (
	"encoding/gob"
	"os"

	"github.com/go-ego/riot/types"
	"verif/harness/internal/vp"
)

func main() {
	gob.Register(Fields{})
	gob.Register(types.Attri{})
	if len(os.Args) == 3 && os.Args[1] == "crash-child" {
		crashChild(os.Args[2])
		return
	}
	vp.Main()
}
