package main

import (
	"github.com/go-ego/riot/types"
)

func main() {
	o := small(types.DocIdsIndex)
	o.DefRankOpts = &types.RankOpts{ScoringCriteria: byField{}}
	e := open(o)
	for i, id := range []string{"1", "2", "3"} {
		e.Index(id, types.DocData{Tokens: []types.TokenData{tok("t", 0)}, Fields: float32(5 - i)})
	}
	e.Flush()
	for _, r := range []*types.RankOpts{nil, {}, {MaxOutputs: 3}} {
		if got := found(e.Search(types.SearchReq{Tokens: []string{"t"}, RankOpts: r})); got != "1 2 3" {
			fail("rank options %v give the order %q", r, got)
		}
	}
}
