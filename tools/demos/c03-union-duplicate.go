package main

import (
	"github.com/go-ego/riot/types"
)

func main() {
	x := indexer(types.DocIdsIndex, docIndex("a", 1, kw("t"), kw("u")), docIndex("b", 1, kw("t")), docIndex("c", 1, kw("t"), kw("u")))
	docs, n := x.Lookup(nil, nil, nil, false, types.Logic{Expr: types.Expr{Should: []string{"t", "u"}}})
	seen := map[string]int{}
	for _, d := range docs {
		seen[d.DocId]++
	}
	if n != 3 || len(docs) != 3 || len(seen) != 3 {
		fail("found %q, %d", ids(docs), n)
	}
}
