package main

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"sync"
	"time"

	"github.com/go-ego/riot"
	"github.com/go-ego/riot/types"
	"pgregory.net/rapid"
	"verif/harness/internal/vp"
)

// --- C11: the options of a request select from one and the same result -----------

// longTimeouts are limits that no search here reaches.
var longTimeouts = []int{600000, 1 << 31, 9223372036854, 9223372036855, 1 << 53, math.MaxInt64 / 1000, math.MaxInt64}

// Page is an output window.
type Page struct {
	Off int `json:"off"`
	Max int `json:"max"`
}

// PageCase is a flushed engine and searches asked in several ways.
type PageCase struct {
	Cfg     Cfg             `json:"cfg"`
	IDs     []string        `json:"ids"`
	Docs    []EDoc          `json:"docs"`
	Queries []Query         `json:"queries"`
	Pages   []Page          `json:"pages"`
	Subset  map[string]bool `json:"subset"`
	// Stuck: the scoring of these documents does not return before the search
	// with a timeout of Wait milliseconds has.
	Stuck []string `json:"stuck,omitempty"`
	Wait  int      `json:"wait,omitempty"`
	Busy  int      `json:"busy,omitempty"` // further searches of this kind while it does not return
	// Limit: every document is stuck, and a search with a timeout of Limit
	// milliseconds must come back after about that time.
	Limit int `json:"limit,omitempty"`
}

var extremes = []int{0, 1, 1000, math.MaxInt32, math.MaxInt64, math.MaxInt64 - 1}

func genPageCase(t *rapid.T) PageCase {
	c := PageCase{Cfg: genMode(t)}
	n := rapid.IntRange(1, 40).Draw(t, "n")
	c.IDs = append([]string{}, eids[:n]...)
	distinct := rapid.Bool().Draw(t, "distinct")
	for i := 0; i < n; i++ {
		d := genDoc(t)
		// most documents carry t1, so that results are long
		if rapid.IntRange(0, 3).Draw(t, "common") > 0 {
			d.Tok = append([]Tok{{T: "t1", L: []int{rapid.IntRange(0, 9).Draw(t, "at")}}}, drop(d.Tok, "t1")...)
		}
		if distinct {
			d.F = &Fields{float32((i*29)%97 - 20), float32(i % 3)}
		}
		c.Docs = append(c.Docs, d)
	}
	for i := rapid.IntRange(1, 3).Draw(t, "queries"); i > 0; i-- {
		q := genQuery(t, n)
		if rapid.IntRange(0, 1).Draw(t, "simple") == 0 {
			q = Query{Tok: []string{"t1"}, Crit: q.Crit, Rev: q.Rev}
		}
		q.Off, q.Max, q.Count, q.Free, q.Timeout = 0, 0, false, false, 0
		c.Queries = append(c.Queries, q)
	}
	for i := rapid.IntRange(1, 4).Draw(t, "pages"); i > 0; i-- {
		if rapid.IntRange(0, 4).Draw(t, "extreme") == 0 {
			c.Pages = append(c.Pages, Page{rapid.SampledFrom(extremes).Draw(t, "xoff"), rapid.SampledFrom(extremes).Draw(t, "xmax")})
		} else {
			c.Pages = append(c.Pages, Page{rapid.IntRange(0, n+1).Draw(t, "off"), rapid.IntRange(0, n+1).Draw(t, "max")})
		}
	}
	c.Subset = map[string]bool{}
	for _, id := range rapid.SliceOfNDistinct(rapid.SampledFrom(eids[:n]), 0, 8, rapid.ID[string]).Draw(t, "subset") {
		c.Subset[id] = rapid.Bool().Draw(t, "v")
	}
	if rapid.IntRange(0, 3).Draw(t, "slow") == 0 {
		c.Stuck = rapid.SliceOfNDistinct(rapid.SampledFrom(c.IDs), 1, 3, rapid.ID[string]).Draw(t, "stuck")
		c.Wait = rapid.SampledFrom([]int{1, 5, 20}).Draw(t, "wait")
		c.Busy = rapid.SampledFrom([]int{0, 0, 2, 12, 40}).Draw(t, "busy")
	} else if rapid.IntRange(0, 127).Draw(t, "limited") == 77 {
		c.Limit = 1000
		c.Cfg.Shards = rapid.IntRange(10, 16).Draw(t, "manyShards")
	}
	return c
}

func drop(ts []Tok, name string) []Tok {
	var out []Tok
	for _, t := range ts {
		if t.T != name {
			out = append(out, t)
		}
	}
	return out
}

// gate is a scoring rule that does not return for some documents until opened.
type gate struct {
	stuck map[string]bool
	open  chan struct{}
	once  sync.Once
}

func (g *gate) Score(d types.IndexedDoc, f interface{}) []float32 {
	if g.stuck[d.DocId] {
		<-g.open
	}
	return byFields{}.Score(d, f)
}

func (g *gate) release() { g.once.Do(func() { close(g.open) }) }

type scoredList struct {
	ids    []string
	scores [][]float32
	raw    []types.ScoredDoc
	num    int
}

func list(c Cfg, r types.SearchResp) (scoredList, error) {
	g, err := normalise(c, r)
	if err != nil {
		return scoredList{}, err
	}
	if g.Timeout {
		return scoredList{}, fmt.Errorf("reports a timeout")
	}
	l := scoredList{num: g.NumDocs}
	for _, d := range g.docs {
		l.ids = append(l.ids, d.DocId)
		l.scores = append(l.scores, append([]float32{}, d.Scores...))
		l.raw = append(l.raw, d)
	}
	return l, nil
}

func sortedCopy(s []string) []string {
	o := append([]string{}, s...)
	sort.Strings(o)
	return o
}

func runPageCase(ctx *vp.Ctx, c PageCase) error {
	e := c.Cfg.open(ctx.Dir())
	m := newModel(c.Cfg)
	for i, id := range c.IDs {
		e.IndexDoc(id, c.Docs[i].data())
		m.live[id] = c.Docs[i]
	}
	e.Flush()
	longest, cuts := 0, 0
	for qi, q := range c.Queries {
		where := func(f string, a ...any) error {
			return fmt.Errorf("query %d (%s): %s", qi, vp.JSON(q), fmt.Sprintf(f, a...))
		}
		full, err := list(c.Cfg, e.Search(q.req()))
		if err != nil {
			return where("%v", err)
		}
		if full.num != len(full.ids) {
			return where("the unpaged search returns %d documents and NumDocs %d", len(full.ids), full.num)
		}
		if len(full.ids) > longest {
			longest = len(full.ids)
		}
		// the complete answer
		want := 0
		matched := map[string]bool{}
		for id, d := range m.live {
			if m.cfg.matches(q, id, d) {
				matched[id] = true
				if q.Crit != "fields" || d.F != nil {
					want++
				}
			}
		}
		if full.num != want {
			return where("%d documents found, want %d", full.num, want)
		}
		distinct := true
		for i := 1; i < len(full.scores); i++ {
			a, b := full.scores[i-1], full.scores[i]
			if q.Rev {
				a, b = b, a
			}
			if scoreMore(b, a) {
				return where("rank %d has scores %v after %v", i, full.scores[i], full.scores[i-1])
			}
			distinct = distinct && !reflect.DeepEqual(a, b)
		}
		raw := map[string]types.ScoredDoc{}
		for _, d := range full.raw {
			raw[d.DocId] = d
		}
		page := func(p Page, timeout int) error {
			x := q
			x.Off, x.Max, x.Timeout = p.Off, p.Max, timeout
			l, err := list(c.Cfg, e.Search(x.req()))
			if err != nil {
				return where("%v", err)
			}
			lo, hi := p.Off, full.num
			if lo > full.num {
				lo = full.num
			}
			if p.Max > 0 && p.Max < hi-lo {
				hi = lo + p.Max
			}
			if hi-lo < full.num {
				cuts++
			}
			if l.num != full.num {
				return where("with offset %d and limit %d NumDocs is %d, want %d", p.Off, p.Max, l.num, full.num)
			}
			if len(l.ids) != hi-lo {
				return where("offset %d and limit %d of %d documents return %d", p.Off, p.Max, full.num, len(l.ids))
			}
			seen := map[string]bool{}
			for i, id := range l.ids {
				f, ok := raw[id]
				if !ok || seen[id] {
					return where("offset %d and limit %d return document %q, which is not in the unpaged result, or return it twice", p.Off, p.Max, id)
				}
				seen[id] = true
				if !reflect.DeepEqual(f, l.raw[i]) {
					return where("offset %d and limit %d return %s, the unpaged search %s", p.Off, p.Max, vp.JSON(l.raw[i]), vp.JSON(f))
				}
				if !reflect.DeepEqual(l.scores[i], full.scores[lo+i]) {
					return where("offset %d and limit %d: position %d has scores %v, rank %d of the unpaged search has %v", p.Off, p.Max, i, l.scores[i], lo+i, full.scores[lo+i])
				}
				if distinct && id != full.ids[lo+i] {
					return where("offset %d and limit %d: position %d is %q, rank %d is %q", p.Off, p.Max, i, id, lo+i, full.ids[lo+i])
				}
			}
			return nil
		}
		for _, p := range c.Pages {
			if err := page(p, 0); err != nil {
				return err
			}
			if err := page(p, longTimeouts[uint32(p.Off+p.Max)%uint32(len(longTimeouts))]); err != nil {
				return err
			}
		}
		// consecutive pages
		size := 1 + len(c.IDs)/3
		for off := 0; off <= full.num; off += size {
			if err := page(Page{off, size}, 0); err != nil {
				return err
			}
		}
		// counting
		x := q
		x.Count = true
		for _, to := range append([]int{0, -1, math.MinInt64}, longTimeouts...) {
			x.Timeout = to
			g, err := normalise(c.Cfg, e.Search(x.req()))
			if err != nil {
				return where("%v", err)
			}
			if !g.noDocs || g.NumDocs != len(matched) || g.Timeout {
				return where("counting (timeout %d) returns %s, want %d documents counted", to, vp.JSON(g), len(matched))
			}
		}
		// orderless
		x = q
		x.Free = true
		x.Off, x.Max = 1, 1
		for _, to := range append([]int{0, -1, math.MinInt64}, longTimeouts...) {
			x.Timeout = to
			l, err := list(c.Cfg, e.Search(x.req()))
			if err != nil {
				return where("%v", err)
			}
			if l.num != len(matched) || len(l.ids) != len(matched) {
				return where("orderless (timeout %d) returns %d documents and NumDocs %d, want %d", to, len(l.ids), l.num, len(matched))
			}
			seen := map[string]bool{}
			for i, id := range l.ids {
				if !matched[id] || seen[id] {
					return where("orderless returns %q, which does not match or was returned before", id)
				}
				seen[id] = true
				if f, ok := raw[id]; ok && !(reflect.DeepEqual(f.TokenLocs, l.raw[i].TokenLocs) && reflect.DeepEqual(f.TokenSnippetLocs, l.raw[i].TokenSnippetLocs)) {
					return where("orderless gives document %q token locations %v/%v, the ordered search %v/%v", id, l.raw[i].TokenLocs, l.raw[i].TokenSnippetLocs, f.TokenLocs, f.TokenSnippetLocs)
				}
			}
		}
		// the other order
		x = q
		x.Rev = !q.Rev
		l, err := list(c.Cfg, e.Search(x.req()))
		if err != nil {
			return where("%v", err)
		}
		for i := range l.scores {
			j := len(full.scores) - 1 - i
			if len(l.scores) != len(full.scores) || !reflect.DeepEqual(l.scores[i], full.scores[j]) {
				return where("reversed, rank %d has scores %v, want %v", i, l.scores[i], full.scores)
			}
		}
		if !reflect.DeepEqual(sortedCopy(l.ids), sortedCopy(full.ids)) {
			return where("reversed, the documents are %v, want %v", l.ids, full.ids)
		}
		// a subset of the documents
		if !q.logic() {
			x = q
			x.IDs = map[string]bool{}
			for id, v := range c.Subset {
				if _, ok := q.IDs[id]; ok || q.IDs == nil {
					x.IDs[id] = v
				}
			}
			l, err := list(c.Cfg, e.Search(x.req()))
			if err != nil {
				return where("%v", err)
			}
			var wantIDs []string
			for _, id := range full.ids {
				if _, ok := x.IDs[id]; ok {
					wantIDs = append(wantIDs, id)
				}
			}
			if !reflect.DeepEqual(sortedCopy(l.ids), sortedCopy(wantIDs)) || l.num != len(wantIDs) {
				return where("restricted to %v returns %v (NumDocs %d), want %v", x.IDs, l.ids, l.num, wantIDs)
			}
			for i, id := range l.ids {
				if !reflect.DeepEqual(raw[id], l.raw[i]) {
					return where("restricted to %v, document %q is %s, unrestricted %s", x.IDs, id, vp.JSON(l.raw[i]), vp.JSON(raw[id]))
				}
			}
		}
		// the typed entry points
		for _, to := range []int{0, 600000} {
			x := q
			x.Count, x.Timeout = true, to
			var n, docs int
			if c.Cfg.IDOnly {
				r := e.SearchID(x.req())
				n, docs = r.NumDocs, len(r.Docs)
			} else {
				r := e.SearchDoc(x.req())
				n, docs = r.NumDocs, len(r.Docs)
			}
			if n != len(matched) || docs != 0 {
				return where("the typed call counts %d documents and returns %d, want %d counted", n, docs, len(matched))
			}
		}
		if c.Cfg.IDOnly {
			r := e.SearchID(q.req())
			if r.NumDocs != full.num || len(r.Docs) != full.num {
				return where("SearchID returns %d documents and NumDocs %d, Search %d", len(r.Docs), r.NumDocs, full.num)
			}
			for i, d := range r.Docs {
				if !reflect.DeepEqual(append([]float32{}, d.Scores...), full.scores[i]) || !reflect.DeepEqual(raw[d.DocId].ScoredID, d) {
					return where("SearchID: rank %d is %s", i, vp.JSON(d))
				}
			}
		} else {
			r := e.SearchDoc(q.req())
			if r.NumDocs != full.num || len(r.Docs) != full.num {
				return where("SearchDoc returns %d documents and NumDocs %d, Search %d", len(r.Docs), r.NumDocs, full.num)
			}
			for i, d := range r.Docs {
				if !reflect.DeepEqual(append([]float32{}, d.Scores...), full.scores[i]) || !reflect.DeepEqual(raw[d.DocId], d) {
					return where("SearchDoc: rank %d is %s", i, vp.JSON(d))
				}
			}
		}
	}
	timedOut, inTime := 0, 0
	if len(c.Stuck) > 0 {
		for qi, q := range c.Queries {
			if q.logic() || q.IDs != nil {
				continue
			}
			out, err := stuckSearch(e, m, c, q)
			if err != nil {
				return fmt.Errorf("query %d (%s), scoring of %v does not return for the duration of a search with a timeout of %d ms: %v", qi, vp.JSON(q), c.Stuck, c.Wait, err)
			}
			timedOut += out
			inTime += 1 - out
		}
	}
	if c.Limit > 0 {
		judged, err := limitedSearch(e, c)
		if err != nil {
			return err
		}
		ctx.LabelIf(judged, "the duration of a search that times out is judged")
	}
	ctx.NonTrivial(longest >= 3 && cuts > 0)
	ctx.LabelIf(longest >= 3, "a result of 3 or more documents")
	ctx.LabelIf(longest > 12, "a result of more than 12 documents")
	ctx.LabelIf(timedOut > 0, "a search times out")
	ctx.LabelIf(timedOut > 0 && c.Busy > 2, "many searches time out at once")
	ctx.LabelIf(inTime > 0, "a search with stuck documents elsewhere is in time")
	ctx.LabelIf(c.Cfg.Shards > 1, "several shards")
	ctx.LabelIf(c.Cfg.IDOnly, "id only")
	return nil
}

// limitedSearch measures a search that can only time out. It is not judged when
// the machine held up this process meanwhile.
func limitedSearch(e *riot.Engine, c PageCase) (judged bool, err error) {
	g := &gate{stuck: map[string]bool{}, open: make(chan struct{})}
	for _, id := range c.IDs {
		g.stuck[id] = true
	}
	defer g.release()
	q := Query{Tok: []string{"t1"}, Crit: "fields", Timeout: c.Limit}
	req := q.req()
	req.RankOpts.ScoringCriteria = g

	done, worst := make(chan struct{}), make(chan time.Duration)
	go func() {
		last, gap := time.Now(), time.Duration(0)
		for {
			select {
			case <-done:
				worst <- gap
				return
			case <-time.After(20 * time.Millisecond):
			}
			now := time.Now()
			if d := now.Sub(last); d > gap {
				gap = d
			}
			last = now
		}
	}()
	start := time.Now()
	r := e.Search(req)
	took := time.Since(start)
	close(done)
	if <-worst > 500*time.Millisecond {
		return false, nil
	}
	limit := time.Duration(c.Limit) * time.Millisecond
	if r.Timeout && took < limit-limit/10 {
		return true, fmt.Errorf("the search %s reports a timeout of %v after %v", vp.JSON(q), limit, took)
	}
	if took > limit+4*time.Second {
		return true, fmt.Errorf("the search %s on %d shards, scoring of every document being stuck, takes %v with a timeout of %v", vp.JSON(q), c.Cfg.Shards, took, limit)
	}
	return true, nil
}

// stuckSearch runs a search whose scoring is held up; it returns 1 if it timed out.
func stuckSearch(e *riot.Engine, m *model, c PageCase, q Query) (int, error) {
	g := &gate{stuck: map[string]bool{}, open: make(chan struct{})}
	for _, id := range c.Stuck {
		g.stuck[id] = true
	}
	defer g.release()
	q.Crit, q.Timeout = "fields", c.Wait
	req := q.req()
	req.RankOpts.ScoringCriteria = g
	r, err := normalise(c.Cfg, e.Search(req))
	if err != nil {
		return 0, err
	}
	// how the answer may look: complete, or cut short and marked so
	need, matches := map[string]bool{}, 0
	waits := false
	for id, d := range m.live {
		if m.cfg.matches(q, id, d) {
			waits = waits || g.stuck[id]
			if d.F != nil {
				need[id] = true
				matches++
			}
		}
	}
	if waits && !r.Timeout {
		return 0, fmt.Errorf("answered %d documents without reporting a timeout although a document was never scored", len(r.docs))
	}
	seen := map[string]bool{}
	for i, d := range r.docs {
		if !need[d.DocId] || seen[d.DocId] {
			return 0, fmt.Errorf("returns document %q, which does not match or was returned before", d.DocId)
		}
		seen[d.DocId] = true
		f := m.live[d.DocId].F
		if !reflect.DeepEqual(d.Scores, []float32{f.A, f.B}) {
			return 0, fmt.Errorf("document %q has scores %v, its fields are %v", d.DocId, d.Scores, f)
		}
		if i > 0 {
			a, b := r.docs[i-1].Scores, d.Scores
			if q.Rev {
				a, b = b, a
			}
			if scoreMore(b, a) {
				return 0, fmt.Errorf("rank %d has score %v after %v", i, d.Scores, r.docs[i-1].Scores)
			}
		}
	}
	if r.NumDocs != len(r.docs) {
		return 0, fmt.Errorf("NumDocs is %d with %d documents returned", r.NumDocs, len(r.docs))
	}
	if !r.Timeout && len(r.docs) != matches {
		return 0, fmt.Errorf("returns %d of %d documents and reports no timeout", len(r.docs), matches)
	}
	// searches keep their time limit when the engine cannot keep up
	for i := 0; i < c.Busy; i++ {
		if r := e.Search(req); !r.Timeout && waits {
			return 0, fmt.Errorf("later search %d answers %d documents without reporting a timeout although a document was never scored", i, r.NumDocs)
		}
	}
	g.release()
	// the engine goes on working
	for i := 0; i < 2*c.Cfg.Shards; i++ {
		q2 := q
		q2.Timeout = 0
		if err := m.exact(q2, e.Search(q2.req())); err != nil {
			return 0, fmt.Errorf("a later search: %v", err)
		}
	}
	if r.Timeout {
		return 1, nil
	}
	return 0, nil
}

func init() {
	vp.Register(vp.Prop{
		ID:   "C11",
		Rule: "A case is an engine with up to 40 documents and 1-3 searches, each asked unpaged, paged, counting, orderless, reversed, restricted to some documents, through the typed calls and with timeouts (scoring held up in a quarter of the cases); non-trivial if a result has 3 or more documents and a page cuts it.",
		Assumptions: []string{
			"the engine is flushed; documents with equal scores may appear in any order, so only pages of results without ties are compared by id",
		},
		Quick: vp.Budget{Shards: 8, Checks: 2000}, Thorough: vp.Budget{Shards: 8, Checks: 80000},
		Restart: 40,
	}, genPageCase, runPageCase)
}
