// Command core checks the properties of the in-memory index and ranker
// (package github.com/go-ego/riot/core) through their exported API.
package main

import "verif/harness/internal/vp"

func main() { vp.Main() }
