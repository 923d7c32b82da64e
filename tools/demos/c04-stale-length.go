package main

import (
	"github.com/go-ego/riot/types"
)

func main() {
	docs := func() []*types.DocIndex {
		return []*types.DocIndex{docIndex("a", 2, kw("t", 1)), docIndex("b", 6, kw("t", 1, 2))}
	}
	x := indexer(types.FrequenciesIndex, append(docs(), docIndex("c", 40, kw("t", 1)))...)
	x.AddDocToCache(docIndex("c", 0, kw("label")), true)
	x.RemoveDocToCache("c", true)
	got, _ := x.Lookup([]string{"t"}, nil, nil, false)
	want, _ := indexer(types.FrequenciesIndex, docs()...).Lookup([]string{"t"}, nil, nil, false)
	if bm25(got, "a") != bm25(want, "a") {
		fail("a scores %v, in a fresh index %v", bm25(got, "a"), bm25(want, "a"))
	}
}
