package main

import (
	"github.com/go-ego/riot/types"
)

func main() {
	o := small(types.DocIdsIndex)
	o.UseStore, o.StoreFolder, o.StoreEngine, o.StoreShards = true, "db", "bolt", 1
	e := open(o)
	e.Index("1", types.DocData{Content: "content of 1", Labels: []string{"one"}})
	e.Index("2", types.DocData{Tokens: []types.TokenData{tok("two", 0)}})
	e.Close()
	e = open(o)
	e.Flush()
	r := e.SearchDoc(types.SearchReq{Tokens: []string{"two"}})
	if s := found(e.Search(types.SearchReq{Labels: []string{"one"}})); s != "1" || len(r.Docs) != 1 || r.Docs[0].Content != "" {
		fail("after a restart %q have the label of 1; 2: %+v", s, r.Docs)
	}
	e.Close()
}
