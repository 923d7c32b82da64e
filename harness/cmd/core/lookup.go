package main

import (
	"fmt"
	"math"
	"reflect"
	"sort"

	"github.com/go-ego/riot/core"
	"github.com/go-ego/riot/types"
	"pgregory.net/rapid"
	"verif/harness/internal/vp"
)

// corpusGen draws documents with distinct ids.
func genDocs(t *rapid.T, maxDocs, nTok, maxKW, maxLoc, span int) []Doc {
	ids := rapid.SliceOfNDistinct(idsGen(len(idPool)), 0, maxDocs, rapid.ID[string]).Draw(t, "ids")
	var out []Doc
	for _, id := range ids {
		d := Doc{ID: id, KW: genKeywords(t, nTok, maxKW, maxLoc, span)}
		d.Len = float32(rapid.IntRange(0, 30).Draw(t, "len"))
		out = append(out, d)
	}
	return out
}

// build indexes docs in the given order, with a first version replaced and
// extra documents removed, and checks the lookups at every stage: on the first
// versions, on them and the documents, and on the documents alone. So what is
// checked is an index with a past, which was asked before.
func build(typ, cache int, bm *types.BM25Parameters, docs, past []Doc, check func(ix *core.Indexer, live []Doc) error) error {
	ix := &core.Indexer{}
	ix.Init(types.IndexerOpts{IndexType: typ, DocCacheSize: cache, BM25Parameters: bm})
	stage := func(what string, live []Doc) error {
		ix.AddDocToCache(nil, true)
		if err := check(ix, live); err != nil {
			return fmt.Errorf("%s%v", what, err)
		}
		return nil
	}
	for _, d := range past {
		ix.AddDocToCache(d.index(), false)
	}
	if len(past) > 0 {
		if err := stage("with the first versions only: ", past); err != nil {
			return err
		}
	}
	cur := map[string]bool{}
	for _, d := range docs {
		cur[d.ID] = true
		ix.AddDocToCache(d.index(), false)
	}
	both := append([]Doc{}, docs...)
	for _, d := range past {
		if !cur[d.ID] {
			both = append(both, d)
		}
	}
	if len(both) > len(docs) {
		if err := stage("before the other documents are removed: ", both); err != nil {
			return err
		}
		for _, d := range both[len(docs):] {
			ix.RemoveDocToCache(d.ID, false)
		}
	}
	return stage("", docs)
}

// genPast draws first versions of some of the documents and other documents;
// often it is all of the documents, or most of them.
func genPast(t *rapid.T, docs []Doc, max, nTok, maxLoc, span int) []Doc {
	past := genDocs(t, max, nTok, nTok, maxLoc, span)
	if len(past) == 0 || rapid.IntRange(0, 3).Draw(t, "sameDocs") != 2 {
		return past
	}
	var out []Doc
	for i, d := range docs {
		if rapid.IntRange(0, 7).Draw(t, "alone") == 5 {
			continue
		}
		n := past[i%len(past)]
		switch rapid.IntRange(0, 3).Draw(t, "was") {
		case 0:
			d.KW = n.KW
		case 1:
			d.Len = n.Len
		case 2:
			d.KW, d.Len = n.KW, n.Len
		}
		out = append(out, d)
	}
	return out
}

// genFill draws, rarely, a number of further documents.
func genFill(t *rapid.T) int {
	if rapid.IntRange(0, 255).Draw(t, "many") != 177 {
		return 0
	}
	return rapid.IntRange(200, 2500).Draw(t, "fill")
}

// filled appends n documents that are made by a rule.
func filled(docs []Doc, n int) []Doc {
	out := append([]Doc{}, docs...)
	for i := 0; i < n; i++ {
		d := bulk(i, n, 0)
		d.ID = fmt.Sprintf("fill%d", i*7%n)
		if n%7 == 0 {
			d.ID = fmt.Sprintf("fill%d", n-i)
		}
		out = append(out, d)
	}
	return out
}

// genKeys draws the keywords of a query: a few, rarely many.
func genKeys(t *rapid.T, key *rapid.Generator[string], most int, name string) []string {
	if rapid.IntRange(0, 63).Draw(t, name+"Many") == 29 {
		most = 12
	}
	return rapid.SliceOfN(key, 0, most).Draw(t, name)
}

// --- C02: conjunctive lookup ---------------------------------------------------

// LQuery is a conjunctive query.
type LQuery struct {
	Tokens []string        `json:"tokens,omitempty"`
	Labels []string        `json:"labels,omitempty"`
	DocIds map[string]bool `json:"docIds"`
}

// LookupCase is an index content and queries.
type LookupCase struct {
	Type    int      `json:"type"`
	Cache   int      `json:"cache"`
	Docs    []Doc    `json:"docs"`
	Past    []Doc    `json:"past,omitempty"`
	Fill    int      `json:"fill,omitempty"` // as many documents made by a rule are added to Docs
	Queries []LQuery `json:"queries"`
}

func genFilter(t *rapid.T, docs []Doc) map[string]bool {
	switch rapid.IntRange(0, 3).Draw(t, "filter") {
	case 0, 1:
		return nil
	}
	f := map[string]bool{}
	for _, d := range docs {
		if rapid.Bool().Draw(t, "in") {
			// the value is documented to be ignored
			f[d.ID] = rapid.Bool().Draw(t, "val")
		}
	}
	if rapid.Bool().Draw(t, "foreign") {
		f["not-there"] = true
	}
	return f
}

func genLookupCase(t *rapid.T) LookupCase {
	nTok := rapid.IntRange(1, 6).Draw(t, "nTok")
	if rapid.IntRange(0, 31).Draw(t, "allTok") == 13 {
		nTok = len(tokPool)
	}
	c := LookupCase{
		Type:  rapid.SampledFrom([]int{types.LocsIndex, types.FrequenciesIndex, types.DocIdsIndex}).Draw(t, "type"),
		Cache: rapid.SampledFrom([]int{100, 1, 3, 8}).Draw(t, "cache"),
	}
	maxDocs := rapid.SampledFrom([]int{6, 12, 30}).Draw(t, "maxDocs")
	c.Docs = genDocs(t, maxDocs, nTok, nTok, 3, 40)
	c.Past = genPast(t, c.Docs, 4, nTok, 2, 40)
	c.Fill = genFill(t)
	n := rapid.IntRange(1, 6).Draw(t, "nq")
	key := toksGen(min(nTok+1, len(tokPool)))
	for i := 0; i < n; i++ {
		q := LQuery{
			Tokens: genKeys(t, key, 3, "tokens"),
			Labels: genKeys(t, key, 2, "labels"),
			DocIds: genFilter(t, c.Docs),
		}
		c.Queries = append(c.Queries, q)
	}
	return c
}

func conj(docs []Doc, q LQuery) []string {
	var want []string
	keys := append(append([]string{}, q.Tokens...), q.Labels...)
	if len(keys) == 0 {
		return nil
	}
	for _, d := range docs {
		ok := true
		for _, k := range keys {
			ok = ok && d.kw(k) != nil
		}
		if q.DocIds != nil {
			_, in := q.DocIds[d.ID]
			ok = ok && in
		}
		if ok {
			want = append(want, d.ID)
		}
	}
	sort.Sort(sort.Reverse(sort.StringSlice(want)))
	return want
}

func idsOf(docs []types.IndexedDoc) []string {
	var out []string
	for _, d := range docs {
		out = append(out, d.DocId)
	}
	return out
}

// ask makes a lookup and checks that its arguments, and the room behind the
// lists, are as before.
func ask(ix *core.Indexer, tokens, labels []string, ids map[string]bool, count bool, logic ...types.Logic) ([]types.IndexedDoc, int, error) {
	spare := func(s []string) []string {
		if s == nil {
			return nil
		}
		return append(append([]string{}, s...), "behind 1", "behind 2", "behind 3", "behind 4")[: len(s) : len(s)+4]
	}
	lists := [][]string{tokens, labels}
	for i := range logic {
		e := &logic[i].Expr
		lists = append(lists, e.Must, e.Should, e.NotIn)
		e.Must, e.Should, e.NotIn = spare(e.Must), spare(e.Should), spare(e.NotIn)
	}
	given := [][]string{spare(tokens), spare(labels)}
	for _, l := range logic {
		given = append(given, l.Expr.Must, l.Expr.Should, l.Expr.NotIn)
	}
	var kept map[string]bool
	if ids != nil {
		kept = map[string]bool{}
		for k, v := range ids {
			kept[k] = v
		}
	}
	docs, n := ix.Lookup(given[0], given[1], ids, count, logic...)
	for i, l := range lists {
		if want := spare(l); !reflect.DeepEqual(given[i][:cap(given[i])], want[:cap(want)]) {
			return docs, n, fmt.Errorf("the lookup changes a list it was given from %q to %q", want[:cap(want)], given[i][:cap(given[i])])
		}
	}
	if !reflect.DeepEqual(kept, ids) {
		return docs, n, fmt.Errorf("the lookup changes the filter it was given from %v to %v", kept, ids)
	}
	return docs, n, nil
}

func runLookupCase(ctx *vp.Ctx, c LookupCase) error {
	c.Docs = filled(c.Docs, c.Fill)
	return build(c.Type, c.Cache, &types.BM25Parameters{K1: 2, B: 0.75}, c.Docs, c.Past, func(ix *core.Indexer, live []Doc) error {
		for i, q := range c.Queries {
			want := conj(live, q)
			docs, n, err := ask(ix, q.Tokens, q.Labels, q.DocIds, false)
			if err != nil {
				return fmt.Errorf("query %d %s: %v", i, vp.JSON(q), err)
			}
			if got := idsOf(docs); !reflect.DeepEqual(got, want) {
				return fmt.Errorf("query %d %s: got %v, want %v", i, vp.JSON(q), got, want)
			}
			if n != len(want) {
				return fmt.Errorf("query %d %s: count %d, want %d", i, vp.JSON(q), n, len(want))
			}
			// the zero value of the logic option asks for nothing
			docs, n, err = ask(ix, q.Tokens, q.Labels, q.DocIds, false, types.Logic{})
			if err != nil {
				return fmt.Errorf("query %d %s: %v", i, vp.JSON(q), err)
			}
			if got := idsOf(docs); !reflect.DeepEqual(got, want) || n != len(want) {
				return fmt.Errorf("query %d %s with an empty logic option: got %v (%d), want %v", i, vp.JSON(q), got, n, want)
			}
			docs, n, err = ask(ix, q.Tokens, q.Labels, q.DocIds, true)
			if err != nil {
				return fmt.Errorf("query %d %s: %v", i, vp.JSON(q), err)
			}
			if len(docs) != 0 || n != len(want) {
				return fmt.Errorf("query %d %s counting only: got %d documents and count %d, want 0 and %d", i, vp.JSON(q), len(docs), n, len(want))
			}
			ctx.NonTrivial(len(want) > 0 && len(q.Tokens)+len(q.Labels) > 1)
			ctx.LabelIf(len(want) > 0, "some query matches")
			ctx.LabelIf(len(want) > 2, "some query matches >2 documents")
			ctx.LabelIf(len(want) > 100, "some query matches >100 documents")
			ctx.LabelIf(len(want) > 0 && len(q.Tokens)+len(q.Labels) > 5, "some query of >5 keywords matches")
			ctx.LabelIf(len(want) > 0 && len(q.Labels) > 0 && len(q.Tokens) > 0, "tokens and labels match")
			ctx.LabelIf(len(want) > 0 && len(q.Tokens) == 0, "labels only match")
			ctx.LabelIf(len(want) > 0 && q.DocIds != nil, "document filter with matches")
		}
		return nil
	})
}

// --- C03: logic lookup -------------------------------------------------------

// LogicQuery is a query with a logic option.
type LogicQuery struct {
	Tokens []string        `json:"tokens,omitempty"`
	Labels []string        `json:"labels,omitempty"`
	DocIds map[string]bool `json:"docIds"`
	Must   bool            `json:"must,omitempty"`
	Should bool            `json:"should,omitempty"`
	NotIn  bool            `json:"notIn,omitempty"`
	EMust  []string        `json:"eMust,omitempty"`
	EShd   []string        `json:"eShould,omitempty"`
	ENot   []string        `json:"eNotIn,omitempty"`
}

func (q LogicQuery) logic() types.Logic {
	return types.Logic{Must: q.Must, Should: q.Should, NotIn: q.NotIn,
		Expr: types.Expr{Must: q.EMust, Should: q.EShd, NotIn: q.ENot}}
}

// lists gives the three keyword lists the option means: an explicit list wins,
// otherwise the flag applies to the request's own keywords.
func (q LogicQuery) lists() (must, should, not []string) {
	kw := append(append([]string{}, q.Tokens...), q.Labels...)
	pick := func(flag bool, e []string) []string {
		if len(e) > 0 {
			return e
		}
		if flag {
			return kw
		}
		return nil
	}
	return pick(q.Must, q.EMust), pick(q.Should, q.EShd), pick(q.NotIn, q.ENot)
}

// LogicCase is an index content and logic queries.
type LogicCase struct {
	Type    int          `json:"type"`
	Cache   int          `json:"cache"`
	Docs    []Doc        `json:"docs"`
	Past    []Doc        `json:"past,omitempty"`
	Fill    int          `json:"fill,omitempty"` // as many documents made by a rule are added to Docs
	Queries []LogicQuery `json:"queries"`
}

func genLogicCase(t *rapid.T) LogicCase {
	nTok := rapid.IntRange(2, 7).Draw(t, "nTok")
	c := LogicCase{
		Type:  rapid.SampledFrom([]int{types.LocsIndex, types.FrequenciesIndex, types.DocIdsIndex}).Draw(t, "type"),
		Cache: rapid.SampledFrom([]int{100, 1, 3, 8}).Draw(t, "cache"),
	}
	maxDocs := rapid.SampledFrom([]int{6, 12, 30}).Draw(t, "maxDocs")
	c.Docs = genDocs(t, maxDocs, nTok, nTok, 2, 40)
	c.Past = genPast(t, c.Docs, 4, nTok, 2, 40)
	c.Fill = genFill(t)
	n := rapid.IntRange(1, 6).Draw(t, "nq")
	key := toksGen(min(nTok+1, len(tokPool)))
	list := func(name string) []string {
		if !rapid.Bool().Draw(t, name+"?") {
			return nil
		}
		most := 3
		if rapid.IntRange(0, 63).Draw(t, name+"Many") == 29 {
			most = 12
		}
		return rapid.SliceOfN(key, 1, most).Draw(t, name)
	}
	for i := 0; i < n; i++ {
		q := LogicQuery{
			Tokens: rapid.SliceOfN(key, 0, 2).Draw(t, "tokens"),
			Labels: rapid.SliceOfN(key, 0, 1).Draw(t, "labels"),
			Must:   rapid.Bool().Draw(t, "must"), Should: rapid.Bool().Draw(t, "should"), NotIn: rapid.Bool().Draw(t, "notIn"),
			EMust: list("eMust"), EShd: list("eShould"), ENot: list("eNotIn"),
		}
		must, should, _ := q.lists()
		if len(must) == 0 && len(should) == 0 {
			// a logic query needs a positive part (the source: "must exist an
			// or-search when there is no and-search")
			q.EShd = rapid.SliceOfN(key, 1, 3).Draw(t, "shouldList")
		}
		must, _, _ = q.lists()
		if len(must) > 0 {
			// without a must part the document filter is a listed finding
			q.DocIds = genFilter(t, c.Docs)
		}
		c.Queries = append(c.Queries, q)
	}
	return c
}

func (q LogicQuery) matches(d Doc) bool {
	must, should, not := q.lists()
	for _, k := range must {
		if d.kw(k) == nil {
			return false
		}
	}
	if len(should) > 0 {
		any := false
		for _, k := range should {
			any = any || d.kw(k) != nil
		}
		if !any {
			return false
		}
	}
	for _, k := range not {
		if d.kw(k) != nil {
			return false
		}
	}
	if q.DocIds != nil {
		if _, in := q.DocIds[d.ID]; !in {
			return false
		}
	}
	return true
}

func runLogicCase(ctx *vp.Ctx, c LogicCase) error {
	c.Docs = filled(c.Docs, c.Fill)
	return build(c.Type, c.Cache, nil, c.Docs, c.Past, func(ix *core.Indexer, live []Doc) error {
		for i, q := range c.Queries {
			var want []string
			for _, d := range live {
				if q.matches(d) {
					want = append(want, d.ID)
				}
			}
			sort.Strings(want)
			docs, n, err := ask(ix, q.Tokens, q.Labels, q.DocIds, false, q.logic())
			if err != nil {
				return fmt.Errorf("query %d %s: %v", i, vp.JSON(q), err)
			}
			got := idsOf(docs)
			sort.Strings(got)
			if !reflect.DeepEqual(got, want) {
				return fmt.Errorf("logic query %d %s: got %v, want %v", i, vp.JSON(q), got, want)
			}
			if n != len(want) {
				return fmt.Errorf("logic query %d %s: count %d, want %d", i, vp.JSON(q), n, len(want))
			}
			docs, n, err = ask(ix, q.Tokens, q.Labels, q.DocIds, true, q.logic())
			if err != nil {
				return fmt.Errorf("query %d %s: %v", i, vp.JSON(q), err)
			}
			if len(docs) != 0 || n != len(want) {
				return fmt.Errorf("logic query %d %s counting only: got %d documents and count %d, want 0 and %d", i, vp.JSON(q), len(docs), n, len(want))
			}
			must, should, not := q.lists()
			parts := 0
			for _, l := range [][]string{must, should, not} {
				if len(l) > 0 {
					parts++
				}
			}
			ctx.NonTrivial(len(want) > 0 && parts > 1)
			ctx.LabelIf(len(want) > 0, "some query matches")
			ctx.LabelIf(len(want) > 100, "some query matches >100 documents")
			ctx.LabelIf(len(want) > 0 && len(not) > 0, "matches with an exclusion")
			ctx.LabelIf(len(want) > 0 && len(must) > 0 && len(should) > 0 && len(not) > 0, "matches with all three parts")
			ctx.LabelIf(len(want) > 0 && len(must) == 0 && len(should) > 1, "union of several keywords")
			ctx.LabelIf(q.DocIds != nil && len(want) > 0, "document filter with matches")
		}
		return nil
	})
}

// --- C04: BM25 -----------------------------------------------------------------

// BMCase checks scores.
type BMCase struct {
	Type    int        `json:"type"`
	Cache   int        `json:"cache"`
	K1      float32    `json:"k1"`
	B       float32    `json:"b"`
	Docs    []Doc      `json:"docs"`
	Past    []Doc      `json:"past,omitempty"`
	Fill    int        `json:"fill,omitempty"` // as many documents made by a rule are added to Docs
	Queries [][]string `json:"queries"`
	Labels  []string   `json:"labels,omitempty"`
}

func genBMCase(t *rapid.T) BMCase {
	nTok := rapid.IntRange(1, 5).Draw(t, "nTok")
	c := BMCase{
		Type:  rapid.SampledFrom([]int{types.FrequenciesIndex, types.LocsIndex}).Draw(t, "type"),
		Cache: rapid.SampledFrom([]int{100, 1, 3, 8}).Draw(t, "cache"),
		K1:    float32(rapid.IntRange(1, 40).Draw(t, "k1")) / 10,
		B:     float32(rapid.IntRange(0, 10).Draw(t, "b")) / 10,
	}
	c.Docs = genDocs(t, rapid.SampledFrom([]int{6, 16, 30}).Draw(t, "maxDocs"), nTok, nTok, 5, 60)
	c.Past = genPast(t, c.Docs, 6, nTok, 3, 40)
	if c.Type == types.FrequenciesIndex {
		for i := range c.Docs {
			for j := range c.Docs[i].KW {
				k := &c.Docs[i].KW[j]
				if k.F > 0 && rapid.IntRange(0, 3).Draw(t, "bigf") == 0 {
					k.F = float32(rapid.IntRange(1, 200).Draw(t, "f"))
					if rapid.IntRange(0, 7).Draw(t, "hugef") == 5 {
						k.F = float32(rapid.SampledFrom([]int{255, 256, 300, 1 << 12, 1 << 15, 1<<16 - 1, 1 << 16, 70000, 1 << 24}).Draw(t, "fOf"))
					}
				}
			}
		}
	}
	if len(c.Docs) > 0 && rapid.IntRange(0, 63).Draw(t, "everywhere") == 37 {
		// a keyword at many places
		d := &c.Docs[rapid.IntRange(0, len(c.Docs)-1).Draw(t, "everywhereIn")]
		for j := range d.KW {
			k := &d.KW[j]
			for n := rapid.SampledFrom([]int{100, 256, 300, 1000}).Draw(t, "places"); len(k.S) > 0 && len(k.S) < n; {
				k.S = append(k.S, k.S[len(k.S)-1]+2)
			}
			k.F = float32(len(k.S))
		}
	}
	if rapid.IntRange(0, 31).Draw(t, "long") == 11 {
		// documents of many tokens, as in large collections
		for _, ds := range [][]Doc{c.Docs, c.Past} {
			for i := range ds {
				if rapid.IntRange(0, 3).Draw(t, "longDoc") == 2 {
					ds[i].Len = float32(rapid.SampledFrom([]int{1 << 14, 1 << 22, 1<<24 - 3, 1 << 26}).Draw(t, "longLen"))
				}
			}
		}
	}
	c.Fill = genFill(t)
	n := rapid.IntRange(1, 5).Draw(t, "nq")
	for i := 0; i < n; i++ {
		c.Queries = append(c.Queries, rapid.SliceOfN(toksGen(nTok), 1, 4).Draw(t, "q"))
	}
	c.Labels = rapid.SliceOfN(toksGen(nTok), 0, 1).Draw(t, "labels")
	return c
}

func runBMCase(ctx *vp.Ctx, c BMCase) error {
	c.Docs = filled(c.Docs, c.Fill)
	return build(c.Type, c.Cache, &types.BM25Parameters{K1: c.K1, B: c.B}, c.Docs, c.Past, func(ix *core.Indexer, live []Doc) error {
		byID := map[string]Doc{}
		df := map[string]float64{}
		total := 0.0
		for _, d := range live {
			byID[d.ID] = d
			total += float64(d.Len)
			for _, k := range d.KW {
				df[k.T]++
			}
		}
		n := float64(len(live))
		avg := total / n
		for i, q := range c.Queries {
			docs, _ := ix.Lookup(q, c.Labels, nil, false)
			for _, d := range docs {
				md, ok := byID[d.DocId]
				if !ok {
					return fmt.Errorf("query %d returns unknown document %q", i, d.DocId)
				}
				want, bad, freqs := 0.0, false, 0
				for _, t := range q {
					k := md.kw(t)
					if k == nil {
						return fmt.Errorf("query %d %v returns %q, which lacks %q", i, q, d.DocId, t)
					}
					if k.F == 0 {
						bad = bad || c.Type == types.LocsIndex
						continue
					}
					freqs++
					if avg == 0 {
						continue
					}
					idf := math.Log2(n/df[t] + 1)
					f, k1, b := float64(k.F), float64(c.K1), float64(c.B)
					want += idf * f * (k1 + 1) / (f + k1*(1-b+b*float64(md.Len)/avg))
				}
				if bad {
					// a token without locations in a location index: no score is promised
					ctx.Label("skipped: token without locations")
					continue
				}
				if diff := math.Abs(want - float64(d.BM25)); diff > 1e-4*math.Abs(want)+1e-5 {
					return fmt.Errorf("query %d %v: document %q has BM25 %v, formula gives %v (N=%v avg=%v len=%v)", i, q, d.DocId, d.BM25, want, n, avg, md.Len)
				}
				ctx.NonTrivial(freqs > 0 && len(live) > 1 && avg > 0)
				ctx.LabelIf(freqs > 1, "several scored keywords")
				ctx.LabelIf(freqs > 0 && freqs < len(q), "scored keyword and label")
				ctx.LabelIf(len(c.Past) > 0, "index with a past")
			}
		}
		return nil
	})
}

// --- C05: token proximity --------------------------------------------------------

// ProxCase is one document with locations, and queries.
type ProxCase struct {
	Cache   int        `json:"cache"`
	Docs    []Doc      `json:"docs"`
	Past    []Doc      `json:"past,omitempty"`
	Fill    int        `json:"fill,omitempty"` // as many documents made by a rule are added to Docs
	Queries [][]string `json:"queries"`
	Labels  []string   `json:"labels,omitempty"`
}

func genProxCase(t *rapid.T) ProxCase {
	c := ProxCase{Cache: rapid.SampledFrom([]int{100, 1, 3}).Draw(t, "cache")}
	nTok := rapid.IntRange(1, 6).Draw(t, "nTok")
	span := rapid.SampledFrom([]int{8, 20, 60, 400}).Draw(t, "span")
	nLoc := rapid.SampledFrom([]int{2, 4, 8}).Draw(t, "nLoc")
	far := 0
	switch rapid.IntRange(0, 63).Draw(t, "wide") {
	case 23:
		nLoc, span = 300, 3000
	case 37:
		far = rapid.SampledFrom([]int{250, 32700, 65500, 1 << 24, 1 << 30}).Draw(t, "far")
	case 41:
		nTok = len(tokPool)
	}
	c.Docs = genDocs(t, 5, nTok, nTok, min(nLoc, span), span)
	for _, d := range c.Docs {
		for _, k := range d.KW {
			for i := range k.S {
				k.S[i] += far
			}
		}
	}
	c.Past = genPast(t, c.Docs, 3, nTok, 3, span)
	c.Fill = genFill(t)
	n := rapid.IntRange(1, 5).Draw(t, "nq")
	for i := 0; i < n; i++ {
		c.Queries = append(c.Queries, rapid.SliceOfN(toksGen(nTok), 1, rapid.SampledFrom([]int{5, 5, 5, 10}).Draw(t, "most")).Draw(t, "q"))
	}
	c.Labels = rapid.SliceOfN(toksGen(nTok), 0, 1).Draw(t, "labels")
	return c
}

func abs(a int) int {
	if a < 0 {
		return -a
	}
	return a
}

func runProxCase(ctx *vp.Ctx, c ProxCase) error {
	c.Docs = filled(c.Docs, c.Fill)
	return build(types.LocsIndex, c.Cache, &types.BM25Parameters{K1: 2, B: 0.75}, c.Docs, c.Past, func(ix *core.Indexer, live []Doc) error {
		byID := map[string]Doc{}
		for _, d := range live {
			byID[d.ID] = d
		}
		for i, q := range c.Queries {
			docs, _ := ix.Lookup(q, c.Labels, nil, false)
			for _, d := range docs {
				md := byID[d.DocId]
				locs := make([][]int, len(q))
				all := true
				for j, t := range q {
					k := md.kw(t)
					if k == nil {
						return fmt.Errorf("query %d %v returns %q, which lacks %q", i, q, d.DocId, t)
					}
					locs[j] = k.S
					all = all && len(k.S) > 0
				}
				if !all {
					ctx.Label("a token without locations")
					continue
				}
				// the optimum over all choices of one location per token
				best := make([]int, len(locs[0]))
				for j := 1; j < len(q); j++ {
					next := make([]int, len(locs[j]))
					for b, pb := range locs[j] {
						next[b] = math.MaxInt
						for a, pa := range locs[j-1] {
							if v := best[a] + abs(pb-pa-len(q[j-1])); v < next[b] {
								next[b] = v
							}
						}
					}
					best = next
				}
				want := math.MaxInt
				for _, v := range best {
					want = min(want, v)
				}
				if int(d.TokenProximity) != want {
					return fmt.Errorf("query %d %v: document %q (locations %v): proximity %d, the minimum is %d", i, q, d.DocId, locs, d.TokenProximity, want)
				}
				if len(d.TokenSnippetLocs) != len(q) {
					return fmt.Errorf("query %d %v: document %q: %d snippet locations for %d tokens", i, q, d.DocId, len(d.TokenSnippetLocs), len(q))
				}
				sum := 0
				for j, p := range d.TokenSnippetLocs {
					if x := sort.SearchInts(locs[j], p); x >= len(locs[j]) || locs[j][x] != p {
						return fmt.Errorf("query %d %v: document %q: snippet location %d of %q is not one of %v", i, q, d.DocId, p, q[j], locs[j])
					}
					if j > 0 {
						sum += abs(p - d.TokenSnippetLocs[j-1] - len(q[j-1]))
					}
				}
				if sum != want {
					return fmt.Errorf("query %d %v: document %q: snippet locations %v have distance %d, reported %d", i, q, d.DocId, d.TokenSnippetLocs, sum, want)
				}
				if len(d.TokenLocs) != len(q) {
					return fmt.Errorf("query %d %v: document %q: %d location lists for %d tokens", i, q, d.DocId, len(d.TokenLocs), len(q))
				}
				for j := range q {
					if !reflect.DeepEqual(d.TokenLocs[j], locs[j]) {
						return fmt.Errorf("query %d %v: document %q: locations of %q are %v, want %v", i, q, d.DocId, q[j], d.TokenLocs[j], locs[j])
					}
				}
				ctx.NonTrivial(len(q) > 1)
				ctx.LabelIf(len(q) > 2, "three or more tokens")
				ctx.LabelIf(len(q) > 1 && want == 0, "adjacent")
				ctx.LabelIf(len(q) > 1 && want > 0, "positive distance")
				rep := map[string]bool{}
				for _, t := range q {
					ctx.LabelIf(rep[t], "repeated token")
					rep[t] = true
				}
			}
		}
		return nil
	})
}

func init() {
	vp.Register(vp.Prop{
		ID:    "C02",
		Rule:  "A case is an index content (with overwritten and removed earlier documents) and 1-6 conjunctive queries; non-trivial if a query with at least two keywords matches.",
		Quick: vp.Budget{Shards: 8, Checks: 30000}, Thorough: vp.Budget{Shards: 8, Checks: 1200000}, Restart: 10000,
	}, genLookupCase, runLookupCase)
	vp.Register(vp.Prop{
		ID:          "C03",
		Rule:        "A case is an index content and 1-6 logic queries with a positive (must or should) part; non-trivial if a query combining at least two parts matches.",
		Assumptions: []string{"a logic query has a must or a should part; one with only an exclusion is not covered (its result is not defined by the documentation)"},
		Quick:       vp.Budget{Shards: 8, Checks: 30000}, Thorough: vp.Budget{Shards: 8, Checks: 1200000}, Restart: 10000,
	}, genLogicCase, runLogicCase)
	vp.Register(vp.Prop{
		ID:          "C04",
		Rule:        "A case is an index content with keyword frequencies and document lengths and 1-5 queries; non-trivial if a document of a multi-document index is scored.",
		Assumptions: []string{"scores compared with a float64 evaluation of the documented formula, relative tolerance 1e-4"},
		Quick:       vp.Budget{Shards: 8, Checks: 30000}, Thorough: vp.Budget{Shards: 8, Checks: 1200000}, Restart: 10000,
	}, genBMCase, runBMCase)
	vp.Register(vp.Prop{
		ID:    "C05",
		Rule:  "A case is a location index and 1-5 queries of up to 5 tokens (repetitions allowed); non-trivial if a document matches a query of at least two tokens.",
		Quick: vp.Budget{Shards: 8, Checks: 30000}, Thorough: vp.Budget{Shards: 8, Checks: 1200000}, Restart: 10000,
	}, genProxCase, runProxCase)
}
