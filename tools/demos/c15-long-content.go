package main

import (
	"strings"
	"os"
	"github.com/go-ego/riot"
	"github.com/go-ego/riot/types"
)


// bm scores a document with its BM25 value.
type bm struct{}

func (bm) Score(d types.IndexedDoc, f interface{}) []float32 { return []float32{d.BM25} }

// scores gives the score of every document of a search.
func scores(e *riot.Engine, text string, tokens ...string) map[string]float32 {
	out := map[string]float32{}
	r := e.SearchDoc(types.SearchReq{Text: text, Tokens: tokens, RankOpts: &types.RankOpts{ScoringCriteria: bm{}}})
	for _, d := range r.Docs {
		out[d.DocId] = d.Scores[0]
	}
	return out
}

// dict gives an engine with a segmenter of a few words.
func dict(o types.EngineOpts) types.EngineOpts {
	check(os.WriteFile("dict.txt", []byte("hello 100 n\nworld 100 n\n"), 0600))
	check(os.WriteFile("stop.txt", nil, 0600))
	o.GseDict, o.StopTokenFile, o.NotUseGse = "dict.txt", "stop.txt", false
	return o
}

func main() {
	o := dict(small(types.LocsIndex))
	o.Using = 0
	e := open(o)
	text := strings.Repeat("world ", 8000)
	e.Index("1", types.DocData{Content: text + "foo"})
	e.Flush()
	r := e.Search(types.SearchReq{Tokens: []string{"world"}})
	docs := r.Docs.(types.ScoredDocs)
	if len(docs) != 1 || len(docs[0].TokenLocs) != 1 || len(docs[0].TokenLocs[0]) != 8000 {
		fail("%d documents", len(docs))
	}
	for i, l := range docs[0].TokenLocs[0] {
		if l != i*6 {
			fail("occurrence %d is at %d", i, l)
		}
	}
	if s := found(e.Search(types.SearchReq{Tokens: []string{"foo"}})); s != "1" {
		fail("the last word finds %q", s)
	}
}
