package main

import (
	"fmt"
	"reflect"
	"sync"
	"sync/atomic"

	"github.com/go-ego/riot/types"
	"pgregory.net/rapid"
	"verif/harness/internal/vp"
)

// --- C27: arguments and answers belong to the caller --------------------------------

// OwnOp is a call of one goroutine.
type OwnOp struct {
	K    string `json:"k"` // search, typed, segment, pinyin, ids, docs, index, flush
	Q    *Query `json:"q,omitempty"`
	Text string `json:"text,omitempty"`
	ID   string `json:"id,omitempty"`
	Doc  *EDoc  `json:"doc,omitempty"`
	Keep bool   `json:"keep,omitempty"` // the answer is kept, not written over
}

// OwnCase is a flushed engine that several goroutines ask; each writes over its
// request, and over some of its answers, as soon as the call has returned.
type OwnCase struct {
	Cfg    Cfg       `json:"cfg"`
	Docs   []EDoc    `json:"docs"`
	Gs     [][]OwnOp `json:"gs"`
	Stuck  []string  `json:"stuck,omitempty"` // scoring of these does not return until all calls have
	Probes []Query   `json:"probes"`
}

func genOwnCase(t *rapid.T) OwnCase {
	c := OwnCase{Cfg: genMode(t)}
	n := rapid.IntRange(1, 12).Draw(t, "n")
	for i := 0; i < n; i++ {
		d := genDoc(t)
		if rapid.IntRange(0, 2).Draw(t, "common") > 0 {
			d.Tok = append([]Tok{{T: "t1", L: []int{rapid.IntRange(0, 9).Draw(t, "at")}}}, drop(d.Tok, "t1")...)
		}
		c.Docs = append(c.Docs, d)
	}
	stuck := rapid.IntRange(0, 2).Draw(t, "stuck") == 0
	if stuck {
		c.Stuck = rapid.SliceOfNDistinct(rapid.SampledFrom(eids[:n]), 1, 3, rapid.ID[string]).Draw(t, "stuckIDs")
		c.Cfg.Buf = rapid.SampledFrom([]int{1, 1, 2, 4}).Draw(t, "buf2")
		c.Cfg.RankBuf = rapid.SampledFrom([]int{1, 1, 2}).Draw(t, "rankBuf2")
	} else if rapid.IntRange(0, 3).Draw(t, "store") == 0 {
		c.Cfg.Store, c.Cfg.Stores = "ldb", rapid.IntRange(1, 2).Draw(t, "stores")
	}
	var before asked
	for g := rapid.IntRange(1, 4).Draw(t, "goroutines"); g > 0; g-- {
		var ops []OwnOp
		for i := rapid.IntRange(1, 8).Draw(t, "calls"); i > 0; i-- {
			o := OwnOp{K: "search", Keep: rapid.Bool().Draw(t, "keep")}
			kind := rapid.IntRange(0, 13).Draw(t, "kind")
			switch {
			case stuck || kind < 6:
			case kind < 8:
				o.K = "typed"
			case kind == 8 && !c.Cfg.NotGse:
				o.K, o.Text = "segment", genText(t, "segment", 1, 4)
			case kind == 9 && c.Cfg.PinYin:
				o.K, o.Text = "pinyin", genText(t, "pinyin", 1, 3)
			case kind == 10 && c.Cfg.Store != "":
				o.K = rapid.SampledFrom([]string{"ids", "docs"}).Draw(t, "list")
			case kind == 11:
				o.K = "flush"
			case kind > 11:
				d := genDoc(t)
				o = OwnOp{K: "index", ID: fmt.Sprintf("g%d-%d", g, i), Doc: &d}
			}
			if o.K == "search" || o.K == "typed" {
				q := *before.next(t, n)
				if rapid.IntRange(0, 3).Draw(t, "one word") == 0 {
					q.Tok, q.Text, q.Must, q.Should, q.NotIn, q.FMust, q.FShould = []string{"t1"}, "", nil, nil, nil, false, false
				}
				if rapid.IntRange(0, 1).Draw(t, "restrict") == 0 && !q.logic() {
					q.IDs = map[string]bool{}
					for _, id := range rapid.SliceOfNDistinct(rapid.SampledFrom(eids[:n]), 0, 12, rapid.ID[string]).Draw(t, "ids") {
						q.IDs[id] = true
					}
				}
				if stuck {
					q.Plain, q.Crit, q.Timeout = false, "fields", rapid.SampledFrom([]int{1, 2, 5, 20}).Draw(t, "wait")
				}
				o.Q = &q
			}
			ops = append(ops, o)
		}
		c.Gs = append(c.Gs, ops)
	}
	for i := rapid.IntRange(1, 3).Draw(t, "probes"); i > 0; i-- {
		q := *before.next(t, n)
		q.Plain = q.Plain && len(c.Stuck) == 0
		q.Timeout = 0
		c.Probes = append(c.Probes, q)
	}
	return c
}

// spare gives a slice of the same elements and room behind them.
func spare(s []string) []string {
	if s == nil {
		return nil
	}
	x := append(append(make([]string, 0, len(s)+3), s...), "behind 1", "behind 2", "behind 3")
	return x[:len(s)]
}

func whole(s []string) []string { return s[:cap(s)] }

func copyReq(r types.SearchReq) types.SearchReq {
	x := r
	dup := func(s []string) []string {
		if s == nil {
			return nil
		}
		return append(make([]string, 0, cap(s)), whole(s)...)[:len(s)]
	}
	x.Tokens, x.Labels = dup(r.Tokens), dup(r.Labels)
	x.Logic.Expr = types.Expr{Must: dup(r.Logic.Expr.Must), Should: dup(r.Logic.Expr.Should), NotIn: dup(r.Logic.Expr.NotIn)}
	if r.DocIds != nil {
		x.DocIds = map[string]bool{}
		for k, v := range r.DocIds {
			x.DocIds[k] = v
		}
	}
	if r.RankOpts != nil {
		o := *r.RankOpts
		x.RankOpts = &o
	}
	return x
}

func diffReq(a, b types.SearchReq) error {
	for _, l := range []struct {
		what string
		a, b []string
	}{{"Tokens", a.Tokens, b.Tokens}, {"Labels", a.Labels, b.Labels}, {"Logic.Must", a.Logic.Expr.Must, b.Logic.Expr.Must}, {"Logic.Should", a.Logic.Expr.Should, b.Logic.Expr.Should}, {"Logic.NotIn", a.Logic.Expr.NotIn, b.Logic.Expr.NotIn}} {
		if !reflect.DeepEqual(l.a, l.b) || !reflect.DeepEqual(whole(l.a), whole(l.b)) {
			return fmt.Errorf("the call changes %s of its request from %q to %q", l.what, whole(l.b), whole(l.a))
		}
	}
	if !reflect.DeepEqual(a.DocIds, b.DocIds) {
		return fmt.Errorf("the call changes DocIds of its request from %v to %v", b.DocIds, a.DocIds)
	}
	if a.RankOpts == nil || b.RankOpts == nil {
		if a.RankOpts != b.RankOpts {
			return fmt.Errorf("the call changes RankOpts of its request from %v to %v", b.RankOpts, a.RankOpts)
		}
		return nil
	}
	if x, y := *a.RankOpts, *b.RankOpts; x.ReverseOrder != y.ReverseOrder || x.OutputOffset != y.OutputOffset || x.MaxOutputs != y.MaxOutputs || reflect.TypeOf(x.ScoringCriteria) != reflect.TypeOf(y.ScoringCriteria) {
		return fmt.Errorf("the call changes RankOpts of its request from %+v to %+v", y, x)
	}
	return nil
}

// writeOverReq reuses what a request was made of. Races with it count.
func writeOverReq(r types.SearchReq) {
	for _, l := range [][]string{r.Tokens, r.Labels, r.Logic.Expr.Must, r.Logic.Expr.Should, r.Logic.Expr.NotIn} {
		l = whole(l)
		for i := range l {
			l[i] = "written over"
		}
	}
	if r.DocIds != nil {
		for k := range r.DocIds {
			delete(r.DocIds, k)
		}
		r.DocIds["written over"] = true
	}
	if r.RankOpts == nil {
		return
	}
	*r.RankOpts = types.RankOpts{ScoringCriteria: byConst{}, ReverseOrder: !r.RankOpts.ReverseOrder, OutputOffset: r.RankOpts.OutputOffset + 1, MaxOutputs: 1}
}

// writeOverAnswer changes an answer. The location lists of a token are left
// alone, they may be the index's own.
func writeOverAnswer(docs interface{}, tokens []string) {
	writeOverStrings(tokens)
	id := func(d *types.ScoredID) {
		d.DocId = "written over"
		for i := range d.Scores {
			d.Scores[i] = -99
		}
		for i := range d.TokenSnippetLocs {
			d.TokenSnippetLocs[i] = -99
		}
		for i := range d.TokenLocs {
			d.TokenLocs[i] = nil
		}
	}
	switch x := docs.(type) {
	case types.ScoredDocs:
		x = x[:cap(x)]
		for i := range x {
			id(&x[i].ScoredID)
			x[i].Content, x[i].Attri, x[i].Fields = "written over", nil, nil
		}
	case types.ScoredIDs:
		x = x[:cap(x)]
		for i := range x {
			id(&x[i])
		}
	}
}

func writeOverStrings(s []string) {
	s = whole(s)
	for i := range s {
		s[i] = "written over"
	}
}

func copyID(d types.ScoredID) types.ScoredID {
	d.Scores = append([]float32(nil), d.Scores...)
	d.TokenSnippetLocs = append([]int(nil), d.TokenSnippetLocs...)
	var l [][]int
	for _, x := range d.TokenLocs {
		l = append(l, append([]int(nil), x...))
	}
	d.TokenLocs = l
	return d
}

// frozen is a copy of an answer, printed.
func frozen(docs interface{}, base types.BaseResp) string {
	switch x := docs.(type) {
	case types.ScoredDocs:
		var l types.ScoredDocs
		for _, d := range x {
			d.ScoredID = copyID(d.ScoredID)
			l = append(l, d)
		}
		docs = l
	case types.ScoredIDs:
		var l types.ScoredIDs
		for _, d := range x {
			l = append(l, copyID(d))
		}
		docs = l
	}
	return fmt.Sprintf("%#v %#v", docs, base)
}

// given is a document as it was handed to the engine.
type given struct {
	id  string
	doc EDoc
	d   types.DocData
}

func (d EDoc) spareData() types.DocData {
	x := d.data()
	x.Labels = spare(x.Labels)
	for i, t := range x.Tokens {
		x.Tokens[i].Locations = append(append(make([]int, 0, len(t.Locations)+2), t.Locations...), -7, -8)[:len(t.Locations)]
	}
	x.Tokens = append(append(make([]types.TokenData, 0, len(x.Tokens)+1), x.Tokens...), types.TokenData{Text: "behind"})[:len(x.Tokens)]
	return x
}

func (g given) check() error {
	want := g.doc.spareData()
	a, b := g.d, want
	if !reflect.DeepEqual(a, b) || !reflect.DeepEqual(whole(a.Labels), whole(b.Labels)) || !reflect.DeepEqual(a.Tokens[:cap(a.Tokens)], b.Tokens[:cap(b.Tokens)]) {
		return fmt.Errorf("document %q was changed by the engine from %+v to %+v", g.id, want, g.d)
	}
	for i := range a.Tokens {
		x, y := a.Tokens[i].Locations, b.Tokens[i].Locations
		if !reflect.DeepEqual(x[:cap(x)], y[:cap(y)]) {
			return fmt.Errorf("the locations of document %q were changed by the engine from %v to %v", g.id, y[:cap(y)], x[:cap(x)])
		}
	}
	return nil
}

func runOwnCase(ctx *vp.Ctx, c OwnCase) error {
	e := c.Cfg.open(ctx.Dir())
	m := newModel(c.Cfg)
	var gave []given
	var mu sync.Mutex
	index := func(id string, d EDoc) {
		x := d.spareData()
		e.IndexDoc(id, x)
		mu.Lock()
		gave = append(gave, given{id, d, x})
		m.live[id] = d
		mu.Unlock()
	}
	for i, d := range c.Docs {
		index(eids[i], d)
	}
	e.Flush()
	g := &gate{stuck: map[string]bool{}, open: make(chan struct{})}
	for _, id := range c.Stuck {
		g.stuck[id] = true
	}
	defer g.release()
	type held struct {
		what string
		now  func() string
		then string
	}
	holds := make([][]held, len(c.Gs))
	errs := make([]error, len(c.Gs))
	var timeouts, answered atomic.Int64
	run := func(n int, o OwnOp) error {
		hold := func(now func() string) { holds[n] = append(holds[n], held{vp.JSON(o), now, now()}) }
		switch o.K {
		case "flush":
			e.Flush()
		case "index":
			index(o.ID, *o.Doc)
		case "segment", "pinyin", "ids":
			var s []string
			switch o.K {
			case "segment":
				s = e.Segment(o.Text)
			case "pinyin":
				s = e.PinYin(o.Text)
			default:
				s = e.GetDBAllIds()
			}
			if o.Keep {
				hold(func() string { return fmt.Sprintf("%q", s) })
			} else {
				writeOverStrings(s)
			}
		case "docs":
			ids, docs := e.GetDBAllDocs()
			if o.Keep {
				hold(func() string { return fmt.Sprintf("%q %#v", ids, docs) })
			} else {
				writeOverStrings(ids)
				for i := range docs {
					writeOverStrings(docs[i].Labels)
					for j := range docs[i].Tokens {
						docs[i].Tokens[j].Text = "written over"
					}
					docs[i] = types.DocData{Content: "written over"}
				}
			}
		case "search", "typed":
			r := o.Q.req()
			r.Tokens, r.Labels = spare(r.Tokens), spare(r.Labels)
			r.Logic.Expr = types.Expr{Must: spare(r.Logic.Expr.Must), Should: spare(r.Logic.Expr.Should), NotIn: spare(r.Logic.Expr.NotIn)}
			if r.DocIds != nil {
				m := map[string]bool{}
				for k, v := range r.DocIds {
					m[k] = v
				}
				r.DocIds = m
			}
			if len(c.Stuck) > 0 {
				r.RankOpts.ScoringCriteria = g
			}
			was := copyReq(r)
			var docs interface{}
			var base types.BaseResp
			switch {
			case o.K == "search":
				a := e.Search(r)
				docs, base = a.Docs, a.BaseResp
			case c.Cfg.IDOnly:
				a := e.SearchID(r)
				docs, base = a.Docs, a.BaseResp
			default:
				a := e.SearchDoc(r)
				docs, base = a.Docs, a.BaseResp
			}
			if base.Timeout {
				timeouts.Add(1)
			}
			if base.NumDocs > 0 {
				answered.Add(1)
			}
			if err := diffReq(r, was); err != nil {
				return err
			}
			if o.Keep {
				hold(func() string { return frozen(docs, base) })
			} else {
				writeOverAnswer(docs, base.Tokens)
			}
			writeOverReq(r)
		}
		return nil
	}
	var wg sync.WaitGroup
	for n, ops := range c.Gs {
		wg.Add(1)
		go func(n int, ops []OwnOp) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					errs[n] = fmt.Errorf("goroutine %d: panic: %v\n%s", n, r, vp.Stack())
				}
			}()
			for i, o := range ops {
				if err := run(n, o); err != nil {
					errs[n] = fmt.Errorf("goroutine %d, call %d (%s): %w", n, i, vp.JSON(o), err)
					return
				}
			}
		}(n, ops)
	}
	wg.Wait()
	g.release()
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	e.Flush()
	// the engine is as if nothing was written over
	for i, q := range c.Probes {
		for j := 0; j <= 1+2*len(c.Stuck); j++ {
			a := e.Search(q.req())
			if err := m.exact(q, a); err != nil {
				return fmt.Errorf("afterwards, search %d (%s), time %d: %v", i, vp.JSON(q), j, err)
			}
			writeOverAnswer(a.Docs, a.Tokens)
		}
	}
	if err := m.probe(e); err != nil {
		return fmt.Errorf("afterwards: %v", err)
	}
	for _, g := range gave {
		if err := g.check(); err != nil {
			return err
		}
	}
	kept := 0
	for _, hs := range holds {
		for _, h := range hs {
			kept++
			if now := h.now(); now != h.then {
				return fmt.Errorf("the answer of %s has changed since it was returned, from %s to %s", h.what, h.then, now)
			}
		}
	}
	if c.Cfg.Store != "" {
		e.Close()
	}
	ctx.NonTrivial(answered.Load() > 0 || timeouts.Load() > 0)
	ctx.LabelIf(timeouts.Load() > 0, "a search times out")
	ctx.LabelIf(timeouts.Load() > int64(c.Cfg.Shards*(c.Cfg.Buf+c.Cfg.RankBuf+c.Cfg.RankTh+c.Cfg.IdxTh)), "more searches time out than the queues hold")
	ctx.LabelIf(kept > 0, "answers are kept")
	ctx.LabelIf(answered.Load() > 0, "documents are found")
	ctx.LabelIf(len(c.Gs) > 1, "several goroutines")
	ctx.LabelIf(c.Cfg.Store != "", "with a store")
	return nil
}

func init() {
	vp.Register(vp.Prop{
		ID:   "C27",
		Rule: "A case is a flushed engine and up to 4 goroutines with up to 8 calls each; requests, and answers that are not kept, are written over when a call returns, also when it timed out (scoring held up in a third of the cases); non-trivial if a search finds documents or times out.",
		Assumptions: []string{
			"the list of locations of one token in an answer is only read (it may be the index's own)",
			"documents handed to Index are left alone by the caller",
		},
		Quick: vp.Budget{Shards: 8, Checks: 900}, Thorough: vp.Budget{Shards: 8, Checks: 40000},
		Restart: 30, Race: true, Repeats: 20,
	}, genOwnCase, runOwnCase)
}
