package main

import (
	"github.com/go-ego/riot/types"
)

func main() {
	x := indexer(types.FrequenciesIndex, docIndex("a", 2, kw("t", 1)), docIndex("b", 6, kw("t", 1, 2)))
	for i := 0; i < 3; i++ {
		x.AddDocToCache(docIndex("a", 2, kw("t", 1)), true)
	}
	got, _ := x.Lookup([]string{"t"}, nil, nil, false)
	want, _ := indexer(types.FrequenciesIndex, docIndex("a", 2, kw("t", 1)), docIndex("b", 6, kw("t", 1, 2))).Lookup([]string{"t"}, nil, nil, false)
	if bm25(got, "b") != bm25(want, "b") {
		fail("b scores %v, in a fresh index %v", bm25(got, "b"), bm25(want, "b"))
	}
}
