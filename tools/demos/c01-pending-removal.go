package main

import (
	"github.com/go-ego/riot/core"
	"github.com/go-ego/riot/types"
)

func main() {
	x := &core.Indexer{}
	x.Init(types.IndexerOpts{IndexType: types.LocsIndex, DocCacheSize: 2})
	x.AddDocToCache(docIndex("a", 1, kw("t", 1)), true)
	x.RemoveDocToCache("a", false)
	x.AddDocToCache(docIndex("a", 1, kw("u", 1)), false)
	x.AddDocToCache(docIndex("b", 1, kw("u", 1)), false)
	x.AddDocToCache(nil, true)
	if docs, _ := x.Lookup([]string{"u"}, nil, nil, false); ids(docs) != "b a" || !x.HasDoc("a") {
		fail("the document that was added again is not found: %q", ids(docs))
	}
}
