package main

import (
	"github.com/go-ego/riot/types"
)

func main() {
	e := open(small(types.DocIdsIndex))
	e.Index("1", types.DocData{Tokens: []types.TokenData{tok("t", 0)}})
	e.Index("2", types.DocData{Tokens: []types.TokenData{tok("t", 0)}})
	e.Flush()
	for i := 0; i < 3; i++ {
		r := e.SearchDoc(types.SearchReq{Tokens: []string{"t"}})
		if len(r.Docs) != 2 {
			fail("%d documents", len(r.Docs))
		}
		for j := range r.Docs {
			if id := r.Docs[j].DocId; id != "1" && id != "2" {
				fail("time %d: document %q", i, id)
			}
			r.Docs[j].DocId = "mine"
		}
	}
}
