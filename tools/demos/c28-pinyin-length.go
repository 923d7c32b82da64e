package main

import (
	"os"
	"github.com/go-ego/riot"
	"github.com/go-ego/riot/types"
)


// bm scores a document with its BM25 value.
type bm struct{}

func (bm) Score(d types.IndexedDoc, f interface{}) []float32 { return []float32{d.BM25} }

// scores gives the score of every document of a search.
func scores(e *riot.Engine, text string, tokens ...string) map[string]float32 {
	out := map[string]float32{}
	r := e.SearchDoc(types.SearchReq{Text: text, Tokens: tokens, RankOpts: &types.RankOpts{ScoringCriteria: bm{}}})
	for _, d := range r.Docs {
		out[d.DocId] = d.Scores[0]
	}
	return out
}

// dict gives an engine with a segmenter of a few words.
func dict(o types.EngineOpts) types.EngineOpts {
	check(os.WriteFile("dict.txt", []byte("hello 100 n\nworld 100 n\n"), 0600))
	check(os.WriteFile("stop.txt", nil, 0600))
	o.GseDict, o.StopTokenFile, o.NotUseGse = "dict.txt", "stop.txt", false
	return o
}

func main() {
	o := small(types.FrequenciesIndex)
	o.Using, o.PinYin = 4, true
	e := open(o)
	e.Index("1", types.DocData{Content: "西 x y z"})
	e.Index("2", types.DocData{Content: "西 西安西安 y z"})
	e.Flush()
	// the same frequency, but more pinyin keywords
	o.PinYin = false
	p := open(o)
	p.Index("1", types.DocData{Content: "西 x y z"})
	p.Index("2", types.DocData{Content: "西 西安西安 y z"})
	p.Flush()
	s, t := scores(e, "", "y"), scores(p, "", "y")
	if len(s) != 2 || len(t) != 2 || t["1"] != t["2"] || !(s["2"] < s["1"]) {
		fail("scores %v, without pinyin %v", s, t)
	}
}
