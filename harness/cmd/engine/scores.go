package main

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/go-ego/riot"
	"github.com/go-ego/riot/types"
	"pgregory.net/rapid"
	"verif/harness/internal/vp"
)

// --- C28: the scores of an engine -----------------------------------------------------

// ScoreCase is an engine with a history, and searches ranked by BM25.
type ScoreCase struct {
	Cfg     Cfg     `json:"cfg"`
	K1      float32 `json:"k1"`
	B       float32 `json:"b"`
	Ops     []EOp   `json:"ops"`
	Reopen  bool    `json:"reopen,omitempty"`
	Queries []Query `json:"queries"`
}

// pair scores documents by their BM25 twice.
type pair struct{}

func (pair) Score(d types.IndexedDoc, f interface{}) []float32 { return []float32{d.BM25, -d.BM25} }

func genScoreCase(t *rapid.T) ScoreCase {
	c := ScoreCase{Cfg: genCfg(t)}
	if rapid.IntRange(0, 4).Draw(t, "mode") > 0 {
		s := genSemantics(t)
		c.Cfg.Using, c.Cfg.NotGse, c.Cfg.GseMode, c.Cfg.PinYin, c.Cfg.Stop, c.Cfg.StopIn = s.Using, s.NotGse, s.GseMode, s.PinYin, s.Stop, s.StopIn
	}
	c.Cfg.Shards = rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(t, "shardsOf")
	c.Cfg.Type = rapid.SampledFrom([]int{types.FrequenciesIndex, types.FrequenciesIndex, types.LocsIndex}).Draw(t, "typeOf")
	c.K1 = float32(rapid.SampledFrom([]int{20, 20, 1, 12, 35}).Draw(t, "k1")) / 10
	c.B = float32(rapid.SampledFrom([]int{75, 75, 100, 0, 30}).Draw(t, "b")) / 100
	nID := rapid.SampledFrom([]int{3, 6, 12}).Draw(t, "nID")
	if c.Cfg.Shards > 1 {
		nID = 5
	}
	if rapid.IntRange(0, 5).Draw(t, "store") == 3 {
		c.Cfg.Store, c.Cfg.Stores = genStoreCfg(t)
		c.Reopen = true
	}
	last := drafts{}
	for n := rapid.IntRange(1, 14).Draw(t, "n"); n > 0; n-- {
		o := EOp{ID: rapid.SampledFrom(eids[:nID]).Draw(t, "id")}
		switch rapid.IntRange(0, 7).Draw(t, "kind") {
		case 6:
			o.K = "remove"
		case 7:
			o = EOp{K: "flush"}
		default:
			d := last.next(t, o.ID)
			if rapid.IntRange(0, 2).Draw(t, "text") > 0 {
				d.C = genContent(t, "content")
				sameWord(t, &d)
			}
			o.K, o.Doc = "index", &d
		}
		c.Ops = append(c.Ops, o)
	}
	c.Ops = lengthen(t, c.Cfg, c.Ops, 6000)
	key := rapid.SampledFrom([]string{"t1", "t2", "t3", "hello", "世界", "world", "foo", "a", "b", "中国", "人口", "世", "he", "x1", "l1", "zhong"})
	for n := rapid.IntRange(1, 6).Draw(t, "queries"); n > 0; n-- {
		q := Query{Crit: rapid.SampledFrom([]string{"bm25", "bm25", "explicit bm25", "pair"}).Draw(t, "crit")}
		if rapid.IntRange(0, 3).Draw(t, "asText") == 1 {
			q.Text = genContent(t, "qtext")
		} else {
			q.Tok = rapid.SliceOfN(key, 1, rapid.SampledFrom([]int{1, 2, 3}).Draw(t, "most")).Draw(t, "toks")
		}
		if rapid.IntRange(0, 4).Draw(t, "withLab") == 2 {
			q.Lab = []string{rapid.SampledFrom(elabs).Draw(t, "lab")}
		}
		q.Rev = rapid.IntRange(0, 4).Draw(t, "rev") == 2
		c.Queries = append(c.Queries, q)
	}
	return c
}

func (c ScoreCase) open(dir string) *riot.Engine {
	e := &riot.Engine{}
	if !c.Cfg.NotGse {
		e.WithGse(testSegmenter())
	}
	o := c.Cfg.opts(dir)
	o.IndexerOpts.BM25Parameters = &types.BM25Parameters{K1: c.K1, B: c.B}
	e.Init(o)
	return e
}

// judge asks the queries, and the keywords of the first documents, and compares the
// scores with the formula; it returns how many positive scores were compared.
func (c ScoreCase) judge(ctx *vp.Ctx, e *riot.Engine, m *model, asked []Query, most int) (int, error) {
	var ids []string
	docs := map[string]measure{}
	for id, d := range m.live {
		ids = append(ids, id)
		docs[id] = m.measure(d)
	}
	sort.Strings(ids)
	queries := append([]Query{}, asked...)
	// the keywords of the first documents, too
	for i, id := range ids {
		if i == most {
			break
		}
		var ks []string
		for k, n := range docs[id].freq {
			if n > 0 && k != "" {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		for j := 0; j < len(ks); j += len(ks)/4 + 1 {
			queries = append(queries, Query{Tok: []string{ks[j]}, Crit: "bm25"})
		}
		if len(ks) > 1 {
			queries = append(queries, Query{Tok: []string{ks[0], ks[len(ks)-1]}, Crit: "bm25"})
		}
	}
	// the answers
	type answer struct {
		q     Query
		toks  []string
		score map[string]float64
	}
	var answers []answer
	locs := c.Cfg.Type == types.LocsIndex
	scored := 0
	for _, q := range queries {
		r := q.req()
		if q.Crit == "pair" {
			r.RankOpts.ScoringCriteria = pair{}
		}
		g, err := normalise(c.Cfg, e.Search(r))
		if err != nil {
			return 0, fmt.Errorf("%s: %v", vp.JSON(q), err)
		}
		a := answer{q: q, toks: c.Cfg.tokens(q), score: map[string]float64{}}
		for i, d := range g.docs {
			if want := map[bool]int{true: 2, false: 1}[q.Crit == "pair"]; len(d.Scores) != want {
				return 0, fmt.Errorf("%s: document %q has scores %v, want %d", vp.JSON(q), d.DocId, d.Scores, want)
			}
			if x, ok := m.live[d.DocId]; !ok || !c.Cfg.matches(q, d.DocId, x) {
				return 0, fmt.Errorf("%s: document %q does not match", vp.JSON(q), d.DocId)
			}
			if q.Crit == "pair" && d.Scores[1] != -d.Scores[0] {
				return 0, fmt.Errorf("%s: document %q has scores %v, which the criteria did not give", vp.JSON(q), d.DocId, d.Scores)
			}
			if i > 0 {
				if p := g.docs[i-1].Scores[0]; q.Rev && p > d.Scores[0] || !q.Rev && p < d.Scores[0] {
					return 0, fmt.Errorf("%s: rank %d has score %v after %v", vp.JSON(q), i, d.Scores[0], p)
				}
			}
			a.score[d.DocId] = float64(d.Scores[0])
		}
		for id, d := range m.live {
			if _, ok := a.score[id]; !ok && c.Cfg.matches(q, id, d) {
				return 0, fmt.Errorf("%s: document %q is missing", vp.JSON(q), id)
			}
		}
		answers = append(answers, a)
	}
	// explain compares the answers with the formula, with the documents in these shards
	explain := func(shardOf map[string]int) error {
		shards := make([][]measure, c.Cfg.Shards)
		for _, id := range ids {
			shards[shardOf[id]] = append(shards[shardOf[id]], docs[id])
		}
		for _, a := range answers {
			for _, id := range ids {
				got, ok := a.score[id]
				if !ok {
					continue
				}
				sh := shards[shardOf[id]]
				want, ok := bm25(sh, a.toks, docs[id], locs, float64(c.K1), float64(c.B))
				if ok && math.Abs(got-want) > 2e-4*math.Abs(want)+1e-5 {
					return fmt.Errorf("%s: document %q (%d words) scores %v, the formula gives %v", vp.JSON(a.q), id, docs[id].length, got, want)
				}
				if ok && want > 0 {
					scored++
				}
			}
		}
		return nil
	}
	shardOf := map[string]int{}
	first := explain(shardOf)
	if c.Cfg.Shards == 1 {
		if first != nil {
			return 0, first
		}
	} else if first != nil {
		// any way of sharing out the documents that explains all scores will do
		found := false
		for n, all := 1, int(math.Pow(float64(c.Cfg.Shards), float64(len(ids)))); n < all && !found; n++ {
			x := n
			for _, id := range ids {
				shardOf[id] = x % c.Cfg.Shards
				x /= c.Cfg.Shards
			}
			found = explain(shardOf) == nil
		}
		if !found {
			return 0, fmt.Errorf("no way of sharing out the documents over %d shards explains the scores; on one: %v", c.Cfg.Shards, first)
		}
		ctx.Label("documents in several shards")
	}
	return scored, nil
}

func runScoreCase(ctx *vp.Ctx, c ScoreCase) error {
	dir := ctx.Dir()
	e := c.open(dir)
	m := newModel(c.Cfg)
	var st stats
	stages := 0
	var piece []EOp
	for _, o := range c.Ops {
		if piece = append(piece, o); o.K != "flush" {
			continue
		}
		if err := play(e, m, piece, &st); err != nil {
			return err
		}
		piece = nil
		// the scores at this point of the history
		few := c.Queries
		if len(few) > 2 {
			few = few[:2]
		}
		if _, err := c.judge(ctx, e, m, few, 2); err != nil {
			return fmt.Errorf("within the history, with %d documents: %v", len(m.live), err)
		}
		stages++
	}
	if err := play(e, m, append(piece, EOp{K: "flush"}), &st); err != nil {
		return err
	}
	if c.Reopen {
		e.Close()
		e = c.open(dir)
		e.Flush()
		ctx.Label("after a restart")
	}
	scored, err := c.judge(ctx, e, m, c.Queries, 3)
	if err != nil {
		return err
	}
	ctx.LabelIf(stages > 0, "scores within the history, too")
	ctx.NonTrivial(scored > 1 && len(m.live) > 1)
	ctx.Label("keyword source %d, segmenter %v", c.Cfg.Using, !c.Cfg.NotGse)
	ctx.LabelIf(c.Cfg.PinYin, "pinyin")
	ctx.LabelIf(c.Cfg.Stop != "", "stop tokens")
	ctx.LabelIf(strings.Contains(c.Cfg.Store, "b"), "with a store")
	ctx.LabelIf(st.updates+st.removals > 0, "updates or removals")
	return nil
}

func init() {
	vp.Register(vp.Prop{
		ID:   "C28",
		Rule: "A case is an engine in one tokenisation mode with a history of up to 14 calls and searches ranked by BM25, whose scores are compared with the documented formula; non-trivial if at least two documents are in the engine and two positive scores are compared.",
		Assumptions: []string{
			"the segmenter and pinyin libraries (gse, gpy) are the reference for the words of a text",
			"on a location index, documents that have a token without locations have no score",
		},
		Quick: vp.Budget{Shards: 8, Checks: 1500}, Thorough: vp.Budget{Shards: 8, Checks: 100000},
		Restart: 60,
	}, genScoreCase, runScoreCase)
}
