package main

import (
	"github.com/go-ego/riot/types"
)

func main() {
	e := open(small(types.LocsIndex))
	e.Index("1", types.DocData{Tokens: []types.TokenData{tok("t", 0), tok("u")}})
	e.Flush()
	if r := e.Search(types.SearchReq{Tokens: []string{"t", "u"}}); found(r) != "1" {
		fail("found %q", found(r))
	}
}
