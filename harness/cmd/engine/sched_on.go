//go:build verifsched

package main

import "github.com/go-ego/riot/verifsched"

func schedSet(seed uint64) { verifsched.Set(seed) }
func schedHits() uint64    { return verifsched.Hits() }
