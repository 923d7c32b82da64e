package main

import (
	"github.com/go-ego/riot/types"
)

func main() {
	x := indexer(types.LocsIndex, docIndex("a", 2, kw("世界", 0), kw("人口", 6)))
	docs, _ := x.Lookup([]string{"世界", "人口"}, nil, nil, false)
	if len(docs) != 1 || docs[0].TokenProximity != 0 {
		fail("%+v", docs)
	}
}
