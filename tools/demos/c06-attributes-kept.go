package main

import (
	"github.com/go-ego/riot/core"
	"github.com/go-ego/riot/types"
)

func main() {
	r := &core.Ranker{}
	r.Init()
	r.AddDoc("a", nil, "old", "attributes")
	r.RemoveDoc("a")
	r.AddDoc("a", nil, "new", nil)
	out, n := r.Rank([]types.IndexedDoc{{DocId: "a", BM25: 1}}, types.RankOpts{ScoringCriteria: types.RankByBM25{}}, false)
	docs := out.(types.ScoredDocs)
	if n != 1 || len(docs) != 1 || docs[0].Content != "new" || docs[0].Attri != nil {
		fail("%+v", docs)
	}
}
