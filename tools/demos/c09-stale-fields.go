package main

import (
	"github.com/go-ego/riot/types"
)

func main() {
	e := open(small(types.LocsIndex))
	e.Index("1", types.DocData{Tokens: []types.TokenData{tok("t", 0)}, Fields: float32(1)})
	e.Index("2", types.DocData{Tokens: []types.TokenData{tok("t", 0)}, Fields: float32(2)})
	e.Flush()
	e.Index("2", types.DocData{Tokens: []types.TokenData{tok("t", 0)}})
	e.Flush()
	r := e.Search(types.SearchReq{Tokens: []string{"t"}, RankOpts: &types.RankOpts{ScoringCriteria: byField{}}})
	if found(r) != "1" {
		fail("found %q", found(r))
	}
}
