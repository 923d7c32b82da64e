package main

import (
	"fmt"
	"github.com/go-ego/riot/types"
)

func main() {
	var docs []*types.DocIndex
	for i := 0; i < 300; i++ {
		d := docIndex(fmt.Sprintf("%03d", i), 1, kw("t", 1))
		if i == 5 || i == 295 {
			d.Keywords = append(d.Keywords, kw("rare", 2))
		}
		docs = append(docs, d)
	}
	x := indexer(types.DocIdsIndex, docs...)
	got, n := x.Lookup([]string{"rare", "t"}, nil, nil, false)
	if ids(got) != "295 005" || n != 2 {
		fail("found %q, %d", ids(got), n)
	}
}
