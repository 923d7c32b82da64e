package main

import (
	"github.com/go-ego/riot/types"
)

func main() {
	scores := func(p *types.BM25Parameters) []float32 {
		o := small(types.LocsIndex)
		o.IndexerOpts.BM25Parameters = p
		e := open(o)
		e.Index("1", types.DocData{Tokens: []types.TokenData{tok("t", 0, 5), tok("u", 2)}})
		e.Index("2", types.DocData{Tokens: []types.TokenData{tok("u", 0)}})
		e.Flush()
		return e.Search(types.SearchReq{Tokens: []string{"t"}}).Docs.(types.ScoredDocs)[0].Scores
	}
	got, want := scores(nil), scores(&types.BM25Parameters{K1: 2, B: 0.75})
	if len(got) != 1 || got[0] != want[0] || want[0] == 0 {
		fail("score %v, with the default parameters %v", got, want)
	}
}
