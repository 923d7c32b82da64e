package main

import (
	"github.com/go-ego/riot/types"
)

func main() {
	x := indexer(types.DocIdsIndex, docIndex("a", 1, kw("m"), kw("n2")), docIndex("b", 1, kw("m"), kw("n1")), docIndex("c", 1, kw("m")))
	docs, _ := x.Lookup(nil, nil, nil, false, types.Logic{Expr: types.Expr{Must: []string{"m"}, NotIn: []string{"n1", "n2"}}})
	if ids(docs) != "c" {
		fail("found %q", ids(docs))
	}
}
