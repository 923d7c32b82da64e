package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/go-ego/riot"
	"github.com/go-ego/riot/types"
	"pgregory.net/rapid"
	"verif/harness/internal/vp"
)

// --- C10: the configuration of the machinery does not show in the results --------

// Variant is one way to run the same history: a configuration that agrees with
// the others in everything that defines what a document's keywords are, and
// its own choice of forced updates and additional flushes.
type Variant struct {
	Cfg    Cfg   `json:"cfg"`
	Force  []int `json:"force,omitempty"`  // indices of operations to force
	Flush  []int `json:"flush,omitempty"`  // additional flushes before these operations
	Reopen bool  `json:"reopen,omitempty"` // close and reopen (with a store) before the searches
}

// TransCase runs a history on every variant and compares the answers.
type TransCase struct {
	Base     Cfg       `json:"base"`
	Ops      []EOp     `json:"ops"`
	Variants []Variant `json:"variants"`
	Queries  []Query   `json:"queries"`
}

var textWords = []string{"hello", "world", "foo", "bar", "世界", "有", "七十亿", "人口", "中国", "中国人", "北京大学", "x1", "Hello", "WORLD", "a", "b"}

// genText draws a document text or a query text.
func genText(t *rapid.T, label string, min, max int) string {
	ws := rapid.SliceOfN(rapid.SampledFrom(textWords), min, max).Draw(t, label)
	return strings.Join(ws, rapid.SampledFrom([]string{" ", "", ", "}).Draw(t, label+"sep"))
}

func genTextDoc(t *rapid.T) EDoc {
	d := genDoc(t)
	d.C = genText(t, "text", 0, 6)
	return d
}

func genTextQuery(t *rapid.T, nID int) Query {
	q := genQuery(t, nID)
	if rapid.IntRange(0, 2).Draw(t, "textual") > 0 {
		q.Tok, q.Lab, q.Must, q.Should, q.NotIn, q.FMust, q.FShould = nil, nil, nil, nil, nil, false, false
		q.Text = genText(t, "qtext", 1, 2)
		if rapid.IntRange(0, 5).Draw(t, "extra") == 0 {
			q.Tok = []string{"t1"}
		}
	}
	q.Off, q.Max = 0, 0
	if rapid.IntRange(0, 2).Draw(t, "page") == 0 {
		q.Off, q.Max = rapid.IntRange(0, 4).Draw(t, "poff"), rapid.IntRange(0, 4).Draw(t, "pmax")
	}
	return q
}

func genSemantics(t *rapid.T) Cfg {
	c := Cfg{Using: rapid.SampledFrom([]int{0, 1, 2, 3, 4, 5, 6}).Draw(t, "using")}
	c.NotGse = c.Using != 1 && c.Using != 3 && rapid.Bool().Draw(t, "notGse")
	if !c.NotGse {
		c.GseMode = rapid.Bool().Draw(t, "gseMode")
		if rapid.IntRange(0, 3).Draw(t, "withStop") == 0 {
			c.Stop = rapid.SampledFrom([]string{"有 foo", "world 中国 l1", "t1 a"}).Draw(t, "stop")
			c.StopIn = genStopForm(t)
		}
	}
	c.PinYin = rapid.IntRange(0, 5).Draw(t, "pinyin") == 0
	return c
}

func genVariant(t *rapid.T, base Cfg, nOps int) Variant {
	c := genCfg(t)
	c.Using, c.NotGse, c.GseMode, c.Hmm, c.PinYin, c.Stop = base.Using, base.NotGse, base.GseMode, base.Hmm, base.PinYin, base.Stop
	if c.Stop != "" {
		c.StopIn = genStopForm(t)
	}
	c.GseTh = rapid.SampledFrom([]int{1, 2, 4}).Draw(t, "gseTh2")
	v := Variant{}
	if rapid.IntRange(0, 5).Draw(t, "withStore") == 0 {
		c.Store = rapid.SampledFrom([]string{"ldb", "bolt"}).Draw(t, "store")
		c.Stores = rapid.IntRange(1, 3).Draw(t, "stores")
		v.Reopen = rapid.Bool().Draw(t, "reopen")
	}
	v.Cfg = c
	if nOps > 0 {
		v.Force = rapid.SliceOfN(rapid.IntRange(0, nOps-1), 0, 3).Draw(t, "forced")
		v.Flush = rapid.SliceOfN(rapid.IntRange(0, nOps-1), 0, 2).Draw(t, "flushes")
	}
	return v
}

func genTransCase(t *rapid.T) TransCase {
	c := TransCase{Base: genSemantics(t)}
	nID := rapid.SampledFrom([]int{4, 11, 30}).Draw(t, "nID")
	n := rapid.IntRange(1, 25).Draw(t, "n")
	for i := 0; i < n; i++ {
		id := rapid.SampledFrom(eids[:nID]).Draw(t, "id")
		kind := "index"
		if rapid.IntRange(0, 4).Draw(t, "rm") == 0 {
			kind = "remove"
		}
		if kind == "remove" {
			c.Ops = append(c.Ops, EOp{K: "remove", ID: id})
		} else {
			d := genTextDoc(t)
			c.Ops = append(c.Ops, EOp{K: "index", ID: id, Doc: &d})
		}
	}
	for i := rapid.IntRange(2, 3).Draw(t, "variants"); i > 0; i-- {
		c.Variants = append(c.Variants, genVariant(t, c.Base, len(c.Ops)))
	}
	for i := rapid.IntRange(3, 6).Draw(t, "queries"); i > 0; i-- {
		c.Queries = append(c.Queries, genTextQuery(t, nID))
	}
	return c
}

func has(s []int, i int) bool {
	for _, x := range s {
		if x == i {
			return true
		}
	}
	return false
}

// answer is what two variants must agree on.
type answer struct {
	Tokens  []string
	NumDocs int
	NoDocs  bool
	IDs     []string // unless paged
	Scores  [][]float32
	Docs    map[string]string // content, fields and attribute by id
}

func (q Query) answer(c Cfg, r types.SearchResp) (answer, error) {
	g, err := normalise(c, r)
	if err != nil {
		return answer{}, err
	}
	if g.Timeout {
		return answer{}, fmt.Errorf("reports a timeout")
	}
	a := answer{Tokens: append([]string{}, g.Tokens...), NumDocs: g.NumDocs, NoDocs: g.noDocs, Docs: map[string]string{}}
	for _, d := range g.docs {
		a.IDs = append(a.IDs, d.DocId)
		if q.Crit != "bm25" {
			a.Scores = append(a.Scores, d.Scores)
		}
		if !c.IDOnly && !q.Free {
			a.Docs[d.DocId] = fmt.Sprintf("%q %v %v", d.Content, d.Fields, d.Attri)
		}
	}
	sort.Strings(a.IDs)
	return a, nil
}

func runTransCase(ctx *vp.Ctx, c TransCase) error {
	base := ctx.Dir()
	engines := make([]*riot.Engine, len(c.Variants))
	for vi, v := range c.Variants {
		dir := fmt.Sprintf("%s/%d", base, vi)
		e := v.Cfg.open(dir)
		for i, o := range c.Ops {
			if has(v.Flush, i) {
				e.Flush()
			}
			switch o.K {
			case "index":
				e.IndexDoc(o.ID, o.Doc.data(), has(v.Force, i))
			case "remove":
				e.RemoveDoc(o.ID, has(v.Force, i))
			case "flush":
				e.Flush()
			}
		}
		e.Flush()
		if v.Reopen && v.Cfg.Store != "" {
			e.Close()
			e = v.Cfg.open(dir)
			e.Flush()
		}
		engines[vi] = e
	}
	for _, id := range eids {
		h := engines[0].HasDoc(id)
		for vi := 1; vi < len(engines); vi++ {
			if engines[vi].HasDoc(id) != h {
				return fmt.Errorf("HasDoc(%q) is %v with configuration %s and %v with %s", id, h, vp.JSON(c.Variants[0]), !h, vp.JSON(c.Variants[vi]))
			}
		}
	}
	matched, paged := 0, 0
	content := map[string]string{}
	for qi, q := range c.Queries {
		var first answer
		var firstDocs map[string]string
		firstDocsBy := 0
		for vi, v := range c.Variants {
			a, err := q.answer(v.Cfg, engines[vi].Search(q.req()))
			if err != nil {
				return fmt.Errorf("query %d (%s), configuration %s: %v", qi, vp.JSON(q), vp.JSON(v), err)
			}
			// identical documents carry identical contents, whatever the query
			for id, d := range a.Docs {
				if old, ok := content[id]; ok && old != d {
					return fmt.Errorf("query %d (%s), configuration %s: document %q is %s, elsewhere %s", qi, vp.JSON(q), vp.JSON(v), id, d, old)
				}
				content[id] = d
			}
			isPaged := (q.Off > 0 || q.Max > 0) && !q.Free
			docs := a.Docs
			a.Docs = nil
			if isPaged {
				// which of several equally ranked documents is on the page is open
				a.IDs = make([]string, len(a.IDs))
			}
			if vi == 0 {
				first = a
			} else if !reflect.DeepEqual(first, a) {
				return fmt.Errorf("query %d (%s): with configuration %s the answer is %s, with %s it is %s", qi, vp.JSON(q), vp.JSON(c.Variants[0]), vp.JSON(first), vp.JSON(v), vp.JSON(a))
			}
			if !v.Cfg.IDOnly && !q.Free && !isPaged {
				if firstDocs != nil && !reflect.DeepEqual(firstDocs, docs) {
					return fmt.Errorf("query %d (%s): configuration %s returns %v, %s returns %v", qi, vp.JSON(q), vp.JSON(c.Variants[firstDocsBy]), firstDocs, vp.JSON(v), docs)
				}
				firstDocs, firstDocsBy = docs, vi
			}
			if a.NumDocs > 0 {
				matched++
				if isPaged {
					paged++
				}
			}
		}
	}
	differ := false
	for _, v := range c.Variants[1:] {
		differ = differ || v.Cfg != c.Variants[0].Cfg
	}
	ctx.NonTrivial(matched > 0 && differ)
	ctx.LabelIf(matched > 0, "a search matches")
	ctx.LabelIf(paged > 0, "a paged search matches")
	ctx.Label("keyword source %d, segmenter %v", c.Base.Using, !c.Base.NotGse)
	for _, v := range c.Variants {
		ctx.LabelIf(v.Reopen, "closed and reopened")
		ctx.LabelIf(v.Cfg.IDOnly, "id only")
		ctx.LabelIf(v.Cfg.Shards > 1, "several shards")
	}
	return nil
}

func init() {
	vp.Register(vp.Prop{
		ID:   "C10",
		Rule: "A case is a history of index/remove/flush calls run on 2-3 engines that differ in shards, threads, buffers, cache size, index type, id-only, store, forced updates and extra flushes, followed by queries whose answers are compared; non-trivial if the configurations differ and a query matches.",
		Assumptions: []string{
			"which of several documents with equal scores is on a page, and BM25 scores across different shard counts, are not compared",
		},
		Quick: vp.Budget{Shards: 8, Checks: 700}, Thorough: vp.Budget{Shards: 8, Checks: 28000},
		Restart: 20,
	}, genTransCase, runTransCase)
}
