package main

import (
	"github.com/go-ego/riot/types"
)

func main() {
	x := indexer(types.FrequenciesIndex, docIndex("a", 2, kw("t", 1, 2), kw("rare")), docIndex("b", 2, kw("t", 1)), docIndex("c", 2, kw("t", 1)))
	plain, _ := x.Lookup([]string{"t"}, nil, nil, false)
	label, _ := x.Lookup([]string{"t"}, []string{"rare"}, nil, false)
	if bm25(plain, "a") != bm25(label, "a") {
		fail("a scores %v, with a label as a filter %v", bm25(plain, "a"), bm25(label, "a"))
	}
}
