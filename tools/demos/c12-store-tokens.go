package main

import (
	"github.com/go-ego/riot/types"
)

func main() {
	o := small(types.DocIdsIndex)
	o.UseStore, o.StoreFolder, o.StoreShards, o.StoreEngine = true, "db", 2, "ldb"
	o.Using = 0
	e := open(o)
	e.Index("1", types.DocData{Content: "some words", Tokens: []types.TokenData{tok("t", 0)}})
	e.Flush()
	e.Close()
	e = open(o)
	e.Flush()
	if r := e.Search(types.SearchReq{Tokens: []string{"t"}}); r.NumDocs != 1 {
		fail("%d documents after reopening: %q", r.NumDocs, found(r))
	}
}
