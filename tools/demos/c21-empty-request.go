package main

import (
	"github.com/go-ego/riot/types"
)

func main() {
	e := open(small(types.LocsIndex))
	e.Index("1", types.DocData{Tokens: []types.TokenData{tok("t", 0)}})
	e.Flush()
	if r := e.Search(types.SearchReq{}); r.NumDocs != 0 || found(r) != "" {
		fail("an empty request finds %q", found(r))
	}
	if s := found(e.Search(types.SearchReq{Tokens: []string{"t"}})); s != "1" {
		fail("the next request finds %q", s)
	}
}
