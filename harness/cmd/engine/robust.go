package main

import (
	"fmt"
	"math"
	"reflect"

	"github.com/go-ego/riot/types"
	"pgregory.net/rapid"
	"verif/harness/internal/vp"
)

// --- C21: no request stops the engine -------------------------------------------------

// RawReq is a search request with arbitrary members.
type RawReq struct {
	Text    string          `json:"text"`
	Tok     []string        `json:"tok"`
	Lab     []string        `json:"lab"`
	IDs     map[string]bool `json:"ids"`
	Flags   int             `json:"flags"` // bits: must, should, notin, count, orderless, reverse, no rank options, typed call
	Must    []string        `json:"must"`
	Should  []string        `json:"should"`
	NotIn   []string        `json:"notIn"`
	Off     int             `json:"off"`
	Max     int             `json:"max"`
	Timeout int             `json:"timeout"`
	Crit    string          `json:"crit"`
}

func (r RawReq) bit(i int) bool { return r.Flags>>i&1 == 1 }

func (r RawReq) req() types.SearchReq {
	s := types.SearchReq{Text: r.Text, Tokens: r.Tok, Labels: r.Lab, DocIds: r.IDs,
		CountDocsOnly: r.bit(3), Orderless: r.bit(4), Timeout: r.Timeout,
		Logic: types.Logic{Must: r.bit(0), Should: r.bit(1), NotIn: r.bit(2),
			Expr: types.Expr{Must: r.Must, Should: r.Should, NotIn: r.NotIn}}}
	if !r.bit(6) {
		ro := types.RankOpts{ReverseOrder: r.bit(5), OutputOffset: r.Off, MaxOutputs: r.Max}
		switch r.Crit {
		case "fields":
			ro.ScoringCriteria = byFields{}
		case "const":
			ro.ScoringCriteria = byConst{}
		}
		s.RankOpts = &ro
	}
	return s
}

// RawDoc is a document with arbitrary members.
type RawDoc struct {
	ID  string   `json:"id"`
	C   string   `json:"c"`
	Tok []Tok    `json:"tok"`
	Lab []string `json:"lab"`
	F   *Fields  `json:"f"`
}

func (d RawDoc) data() types.DocData {
	return EDoc{C: d.C, Tok: d.Tok, Lab: d.Lab, F: d.F}.data()
}

// RobustCase is an engine, documents and requests.
type RobustCase struct {
	Cfg  Cfg      `json:"cfg"`
	Docs []RawDoc `json:"docs"`
	Reqs []RawReq `json:"reqs"`
	// Known documents and their query afterwards
	Probe []EDoc `json:"probe"`
}

var oddStrings = []string{"", " ", "  ", "t1", "t2", "T1", "l1", "世界", "中国人", "\x00", "a\nb", "é", "İ", "😀", "t1 t1", " t1", "t1 ", "0", "\t", "。", "3.5", "‍", "𝔘"}

func oddString(t *rapid.T, label string) string {
	switch rapid.IntRange(0, 9).Draw(t, label+"k") {
	case 0:
		return rapid.StringN(0, 12, 40).Draw(t, label)
	case 1:
		s := ""
		for i := rapid.IntRange(0, 40).Draw(t, label+"n"); i > 0; i-- {
			s += rapid.SampledFrom(oddStrings).Draw(t, label)
		}
		return s
	default:
		return rapid.SampledFrom(oddStrings).Draw(t, label)
	}
}

func oddStringsN(t *rapid.T, label string, max int) []string {
	if rapid.IntRange(0, 2).Draw(t, label+"?") == 0 {
		return nil
	}
	out := []string{}
	for i := rapid.IntRange(0, max).Draw(t, label+"len"); i > 0; i-- {
		out = append(out, oddString(t, label))
	}
	return out
}

var oddInts = []int{0, 1, -1, 2, 3, 100, -100, math.MaxInt32, math.MinInt32, math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, math.MaxInt64 / 2}

func genRobustCase(t *rapid.T) RobustCase {
	c := RobustCase{Cfg: genSemantics(t)}
	c.Cfg.Shards = rapid.SampledFrom([]int{1, 2, 3}).Draw(t, "shards")
	c.Cfg.Type = rapid.SampledFrom([]int{types.LocsIndex, types.LocsIndex, types.FrequenciesIndex, types.DocIdsIndex}).Draw(t, "type")
	c.Cfg.IDOnly = rapid.Bool().Draw(t, "idOnly")
	c.Cfg.Cache = rapid.SampledFrom([]int{1, 3, 50}).Draw(t, "cache")
	c.Cfg.GseTh, c.Cfg.Buf, c.Cfg.IdxTh, c.Cfg.RankBuf, c.Cfg.RankTh = 1, 4, 2, 4, 2
	if rapid.IntRange(0, 5).Draw(t, "withStore") == 0 {
		c.Cfg.Store, c.Cfg.Stores = "ldb", 1
	}
	for i := rapid.IntRange(0, 6).Draw(t, "docs"); i > 0; i-- {
		d := RawDoc{ID: rapid.SampledFrom([]string{"1", "2", "3", "x", "é", "00"}).Draw(t, "id"), C: oddString(t, "content")}
		seen := map[string]bool{}
		for j := rapid.IntRange(0, 4).Draw(t, "toks"); j > 0; j-- {
			k := Tok{T: oddString(t, "tok")}
			if seen[k.T] {
				continue
			}
			seen[k.T] = true
			if rapid.Bool().Draw(t, "locs") {
				k.L = []int{rapid.IntRange(0, 9).Draw(t, "l0")}
				if rapid.Bool().Draw(t, "two") {
					k.L = append(k.L, k.L[0]+rapid.IntRange(1, 5).Draw(t, "l1"))
				}
			}
			d.Tok = append(d.Tok, k)
		}
		d.Lab = oddStringsN(t, "lab", 3)
		if rapid.Bool().Draw(t, "fields") {
			d.F = &Fields{1, 2}
		}
		c.Docs = append(c.Docs, d)
	}
	for i := rapid.IntRange(1, 6).Draw(t, "reqs"); i > 0; i-- {
		r := RawReq{Text: oddString(t, "text"), Tok: oddStringsN(t, "qtok", 4), Lab: oddStringsN(t, "qlab", 3),
			Flags: rapid.IntRange(0, 255).Draw(t, "flags"),
			Off:   rapid.SampledFrom(oddInts).Draw(t, "off"), Max: rapid.SampledFrom(oddInts).Draw(t, "max"),
			Timeout: rapid.SampledFrom([]int{0, 0, 0, 1, -1, 50, 1000000, math.MaxInt32, math.MinInt64}).Draw(t, "timeout"),
			Crit:    rapid.SampledFrom([]string{"", "fields", "const"}).Draw(t, "crit")}
		if rapid.Bool().Draw(t, "noText") {
			r.Text = ""
		}
		if rapid.Bool().Draw(t, "noLogic") {
			r.Flags &^= 7
		} else {
			r.Must, r.Should, r.NotIn = oddStringsN(t, "must", 3), oddStringsN(t, "should", 3), oddStringsN(t, "notIn", 3)
		}
		if rapid.IntRange(0, 2).Draw(t, "ids?") == 0 {
			r.IDs = map[string]bool{}
			for _, id := range oddStringsN(t, "ids", 4) {
				r.IDs[id] = true
			}
			if rapid.Bool().Draw(t, "realID") {
				r.IDs["1"] = false
			}
		}
		c.Reqs = append(c.Reqs, r)
	}
	return c
}

func runRobustCase(ctx *vp.Ctx, c RobustCase) error {
	e := c.Cfg.open(ctx.Dir())
	ids := map[string]bool{}
	for _, d := range c.Docs {
		// conflicting updates are ordered: one segmenter thread
		e.IndexDoc(d.ID, d.data())
		ids[d.ID] = true
	}
	// a document to check the engine with
	e.IndexDoc("probe", types.DocData{Tokens: []types.TokenData{{Text: "probetoken", Locations: []int{4}}}, Labels: []string{"probelabel"}, Fields: Fields{3, 4}})
	e.Flush()
	alive := func(when string) error {
		for _, q := range []types.SearchReq{{Tokens: []string{"probetoken"}, RankOpts: &types.RankOpts{ScoringCriteria: byFields{}}}, {Labels: []string{"probelabel"}, RankOpts: &types.RankOpts{ScoringCriteria: byFields{}}}} {
			g, err := normalise(c.Cfg, e.Search(q))
			if err != nil {
				return err
			}
			if len(g.docs) != 1 || g.docs[0].DocId != "probe" || g.NumDocs != 1 || !reflect.DeepEqual(g.docs[0].Scores, []float32{3, 4}) {
				return fmt.Errorf("%s an ordinary search %s returns %s", when, vp.JSON(q.Tokens), vp.JSON(g))
			}
		}
		return nil
	}
	if err := alive("before the requests"); err != nil {
		return err
	}
	hits := 0
	for i, r := range c.Reqs {
		where := fmt.Sprintf("request %d (%s)", i, vp.JSON(r))
		req := r.req()
		var g got
		var err error
		if r.bit(7) && c.Cfg.IDOnly {
			x := e.SearchID(req)
			g = got{BaseResp: x.BaseResp}
			for _, d := range x.Docs {
				g.docs = append(g.docs, types.ScoredDoc{ScoredID: d})
			}
		} else if r.bit(7) {
			x := e.SearchDoc(req)
			g = got{BaseResp: x.BaseResp, docs: x.Docs}
		} else if g, err = normalise(c.Cfg, e.Search(req)); err != nil {
			return fmt.Errorf("%s: %v", where, err)
		}
		if r.Timeout <= 0 && g.Timeout {
			return fmt.Errorf("%s reports a timeout", where)
		}
		if req.CountDocsOnly && len(g.docs) > 0 {
			return fmt.Errorf("%s returns documents although it only counts", where)
		}
		// the answer to a negation alone is left open
		onlyNot := r.bit(2) && !r.bit(0) && !r.bit(1) && len(r.Must)+len(r.Should) == 0
		if onlyNot {
			continue
		}
		if g.NumDocs < len(g.docs) || g.NumDocs > len(ids)+1 {
			return fmt.Errorf("%s: NumDocs %d with %d documents returned and %d indexed", where, g.NumDocs, len(g.docs), len(ids)+1)
		}
		seen := map[string]bool{}
		for _, d := range g.docs {
			if seen[d.DocId] || !ids[d.DocId] && d.DocId != "probe" {
				return fmt.Errorf("%s returns document %q twice or although it was never indexed", where, d.DocId)
			}
			seen[d.DocId] = true
		}
		if g.NumDocs > 0 {
			hits++
		}
	}
	if err := alive("after the requests"); err != nil {
		return err
	}
	e.IndexDoc("last", types.DocData{Tokens: []types.TokenData{{Text: "lasttoken", Locations: []int{1}}}})
	e.Flush()
	if !e.HasDoc("last") || !e.HasDoc("probe") {
		return fmt.Errorf("after the requests a document cannot be indexed any more")
	}
	if c.Cfg.Store != "" {
		e.Close()
	}
	ctx.NonTrivial(len(c.Docs) > 0)
	ctx.LabelIf(hits > 0, "a request finds documents")
	for _, r := range c.Reqs {
		ctx.LabelIf(r.bit(7) && r.bit(3), "typed counting request")
		ctx.LabelIf(r.Flags&7 != 0 || len(r.Must)+len(r.Should)+len(r.NotIn) > 0, "logic request")
		ctx.LabelIf(r.Off < 0 || r.Max < 0 || r.Off > 1000 || r.Max > 1000, "extreme window")
		ctx.LabelIf(r.Text == "" && len(r.Tok)+len(r.Lab) == 0, "request without keywords")
	}
	return nil
}

func init() {
	vp.Register(vp.Prop{
		ID:   "C21",
		Rule: "A case is an engine with documents made of odd strings and 1-6 arbitrary search requests (any text, keywords, logic, window, timeout, flags), after which the engine must still answer; non-trivial if documents are indexed.",
		Assumptions: []string{
			"a document's explicit tokens are distinct with ascending locations; typed calls match the engine's id-only setting",
		},
		Quick: vp.Budget{Shards: 8, Checks: 2500}, Thorough: vp.Budget{Shards: 8, Checks: 100000},
		Restart: 80,
	}, genRobustCase, runRobustCase)
}
