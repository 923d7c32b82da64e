package main

import (
	"github.com/go-ego/riot/types"
)

func main() {
	x := indexer(types.LocsIndex, docIndex("a", 3, kw("aa", 10), kw("bb", 0, 5, 12), kw("cc", 14)))
	docs, _ := x.Lookup([]string{"aa", "bb", "cc"}, nil, nil, false)
	if d := docs[0]; d.TokenProximity != 0 || d.TokenSnippetLocs[1] != 12 {
		fail("three adjacent tokens: %+v", d)
	}
}
