package main

import (
	"github.com/go-ego/riot/types"
)

func main() {
	x := indexer(types.LocsIndex, docIndex("a", 2, kw("t", 1), kw("u")), docIndex("b", 2, kw("t", 1), kw("u", 3)))
	docs, n := x.Lookup([]string{"t", "u"}, nil, nil, false)
	_, count := x.Lookup([]string{"t", "u"}, nil, nil, true)
	if ids(docs) != "b a" || n != 2 || count != 2 {
		fail("found %q, %d, counted %d", ids(docs), n, count)
	}
}
