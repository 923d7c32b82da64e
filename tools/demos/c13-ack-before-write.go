package main

import (
	"fmt"
	"github.com/go-ego/riot/types"
	"os"
)

func main() {
	o := small(types.DocIdsIndex)
	o.UseStore, o.StoreFolder, o.StoreShards, o.StoreEngine = true, "db", 2, "bolt"
	if len(os.Args) > 1 {
		e := open(o)
		for i := 0; i < 60; i++ {
			e.Index(fmt.Sprint("d", i), types.DocData{Content: "x", Tokens: []types.TokenData{tok("t", 0)}})
		}
		e.Flush()
		ready()
	}
	for round := 0; round < 10; round++ {
		check(os.RemoveAll("db"))
		child("child")
		e := open(o)
		e.Flush()
		if r := e.Search(types.SearchReq{Tokens: []string{"t"}}); r.NumDocs != 60 {
			fail("%d of 60 flushed documents after the crash", r.NumDocs)
		}
		e.Close()
	}
}
