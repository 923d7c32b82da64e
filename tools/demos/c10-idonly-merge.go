package main

import (
	"fmt"
	"github.com/go-ego/riot/types"
	"strings"
)

func main() {
	for _, shards := range []int{1, 3, 8} {
		o := small(types.DocIdsIndex)
		o.NumShards, o.IDOnly = shards, true
		e := open(o)
		for i := 0; i < 29; i++ {
			e.Index(fmt.Sprint("d", i), types.DocData{Tokens: []types.TokenData{tok("t", 0)}, Fields: float32(i * 7 % 29)})
		}
		e.Flush()
		seen := map[string]bool{}
		for _, id := range strings.Fields(found(e.Search(types.SearchReq{Tokens: []string{"t"}, RankOpts: &types.RankOpts{ScoringCriteria: byField{}}}))) {
			seen[id] = true
		}
		if len(seen) != 29 {
			fail("%d shards: %d of 29 documents", shards, len(seen))
		}
	}
}
