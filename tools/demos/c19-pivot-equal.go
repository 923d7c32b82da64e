package main

import (
	"math/rand"
	"github.com/go-ego/riot/core"
)

func main() {
	for n := 0; n < 20000; n++ {
		d := make([]uint64, 8+rand.Intn(60))
		for i := range d {
			d[i] = uint64(rand.Intn(3))
		}
		orig := append([]uint64{}, d...)
		core.Desc(d)
		if !core.IsSortedDesc(d) {
			fail("Desc(%v) gives %v", orig, d)
		}
	}
}
