package main

import (
	"github.com/go-ego/riot/core"
	"github.com/go-ego/riot/types"
	"sort"
)

type many struct{}

func (many) Score(d types.IndexedDoc, f interface{}) []float32 {
	return []float32{1, 1, 1, 1}[:f.(int)+1]
}

func main() {
	var r core.Ranker
	r.Init(true)
	for i, id := range []string{"a", "b", "c", "d"} {
		r.AddDoc(id, i)
	}
	out, _ := r.Rank([]types.IndexedDoc{{DocId: "a"}, {DocId: "b"}, {DocId: "c"}, {DocId: "d"}}, types.RankOpts{ScoringCriteria: many{}}, false)
	docs := out.(types.ScoredIDs)
	for i := range docs {
		if len(docs[i].Scores) != 4-i {
			fail("rank %d has the scores %v", i, docs[i].Scores)
		}
	}
	full := types.ScoredDocs{{ScoredID: types.ScoredID{DocId: "a", Scores: []float32{1}}}, {ScoredID: types.ScoredID{DocId: "b", Scores: []float32{1, 1}}}}
	sort.Sort(full)
	if full[0].DocId != "b" {
		fail("the document with more scores is not first")
	}
}
