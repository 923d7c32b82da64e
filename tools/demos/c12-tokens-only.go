package main

import (
	"github.com/go-ego/riot/types"
)

func main() {
	o := small(types.DocIdsIndex)
	o.UseStore, o.StoreFolder, o.StoreShards, o.StoreEngine = true, "db", 2, "ldb"
	e := open(o)
	e.Index("1", types.DocData{Tokens: []types.TokenData{tok("t", 0)}})
	e.Index("2", types.DocData{Content: "x", Tokens: []types.TokenData{tok("t", 0)}})
	e.Flush()
	e.Close()
	e = open(o)
	e.Flush()
	if r := e.Search(types.SearchReq{Tokens: []string{"t"}}); r.NumDocs != 2 {
		fail("%d documents after reopening: %q", r.NumDocs, found(r))
	}
}
