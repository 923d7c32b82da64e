package main

import (
	"github.com/go-ego/riot/types"
	"time"
)

func main() {
	e := open(small(types.DocIdsIndex))
	e.Index("1", types.DocData{Tokens: []types.TokenData{tok("t", 0)}})
	e.Flush()
	e.Index("1", types.DocData{}, true)
	for i := 0; ; i++ {
		if r := e.Search(types.SearchReq{Tokens: []string{"t"}}); r.NumDocs == 0 {
			break
		}
		if i == 100 {
			fail("the former version is still found 5 s after the forced update")
		}
		time.Sleep(50 * time.Millisecond)
	}
}
