package main

import (
	"github.com/go-ego/riot/types"
)

func main() {
	var many []int
	for i := 0; i < 300; i++ {
		many = append(many, i*2)
	}
	got, _ := indexer(types.FrequenciesIndex, docIndex("a", 300, kw("t", 1)), docIndex("b", 300, kw("t", many...))).Lookup([]string{"t"}, nil, nil, false)
	less, _ := indexer(types.FrequenciesIndex, docIndex("a", 300, kw("t", 1)), docIndex("b", 300, kw("t", many[:200]...))).Lookup([]string{"t"}, nil, nil, false)
	if !(bm25(got, "b") > bm25(less, "b")) {
		fail("300 times scores %v, 200 times %v", bm25(got, "b"), bm25(less, "b"))
	}
}
