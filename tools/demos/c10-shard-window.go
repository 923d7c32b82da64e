package main

import (
	"fmt"
	"github.com/go-ego/riot/types"
	"strings"
)

func main() {
	o := small(types.DocIdsIndex)
	o.NumShards = 4
	e := open(o)
	for i := 0; i < 37; i++ {
		e.Index(fmt.Sprint("d", i), types.DocData{Tokens: []types.TokenData{tok("t", 0)}, Fields: float32(i * 7 % 37)})
	}
	e.Flush()
	page := func(off, max int) string {
		return found(e.Search(types.SearchReq{Tokens: []string{"t"}, RankOpts: &types.RankOpts{ScoringCriteria: byField{}, OutputOffset: off, MaxOutputs: max}}))
	}
	all := strings.Fields(page(0, 0))
	for off := 0; off < 37; off++ {
		if want := strings.Join(all[off:off+1], " "); page(off, 1) != want {
			fail("rank %d is %q, alone %q", off, want, page(off, 1))
		}
	}
}
