package main

import (
	"github.com/go-ego/riot/types"
)

func main() {
	x := indexer(types.FrequenciesIndex, docIndex("a", 2, kw("t", 1)), docIndex("b", 2, kw("u", 1)))
	x.Lookup([]string{"t"}, nil, nil, false)
	for _, id := range []string{"c", "d", "e", "f"} {
		x.AddDocToCache(docIndex(id, 2, kw("u", 1)), true)
	}
	got, _ := x.Lookup([]string{"t"}, nil, nil, false)
	want, _ := indexer(types.FrequenciesIndex, docIndex("a", 2, kw("t", 1)), docIndex("b", 2, kw("u", 1)), docIndex("c", 2, kw("u", 1)),
		docIndex("d", 2, kw("u", 1)), docIndex("e", 2, kw("u", 1)), docIndex("f", 2, kw("u", 1))).Lookup([]string{"t"}, nil, nil, false)
	if bm25(got, "a") != bm25(want, "a") {
		fail("a scores %v, in a fresh index %v", bm25(got, "a"), bm25(want, "a"))
	}
}
