package main

import (
	"github.com/go-ego/riot/types"
)

func main() {
	e := open(small(types.LocsIndex))
	e.Index("1", types.DocData{Tokens: []types.TokenData{tok("t", 0, 4), tok("u", 2)}, Labels: []string{"t"}})
	e.Index("2", types.DocData{Tokens: []types.TokenData{tok("x", 0)}})
	e.Flush()
	r := e.Search(types.SearchReq{Tokens: []string{"t"}})
	docs := r.Docs.(types.ScoredDocs)
	if len(docs) != 1 || len(docs[0].TokenLocs) != 1 || len(docs[0].TokenLocs[0]) != 2 || docs[0].Scores[0] == 0 {
		fail("%+v", docs)
	}
}
