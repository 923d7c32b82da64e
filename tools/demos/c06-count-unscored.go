package main

import (
	"github.com/go-ego/riot/core"
	"github.com/go-ego/riot/types"
)

func main() {
	var r core.Ranker
	r.Init(true)
	r.AddDoc("a", float32(1))
	r.AddDoc("b", nil)
	out, n := r.Rank([]types.IndexedDoc{{DocId: "a"}, {DocId: "b"}}, types.RankOpts{ScoringCriteria: byField{}}, false)
	if len(out.(types.ScoredIDs)) != 1 || n != 1 {
		fail("%v, %d", out, n)
	}
}
