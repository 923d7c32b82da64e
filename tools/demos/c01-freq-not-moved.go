package main

import (
	"github.com/go-ego/riot/types"
)

func main() {
	x := indexer(types.FrequenciesIndex, docIndex("a", 5, kw("t", 1)), docIndex("b", 5, kw("t", 1, 2, 3, 4)), docIndex("c", 5, kw("t", 1)))
	x.RemoveDocToCache("a", false)
	x.RemoveDocToCache("c", false)
	x.AddDocToCache(nil, true)
	got, _ := x.Lookup([]string{"t"}, nil, nil, false)
	want, _ := indexer(types.FrequenciesIndex, docIndex("b", 5, kw("t", 1, 2, 3, 4))).Lookup([]string{"t"}, nil, nil, false)
	if bm25(got, "b") != bm25(want, "b") {
		fail("b scores %v, in a fresh index %v", bm25(got, "b"), bm25(want, "b"))
	}
}
