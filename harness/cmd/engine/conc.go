package main

import (
	"fmt"
	"sort"
	"strings"
	"sync"

	"github.com/go-ego/riot"
	"github.com/go-ego/riot/types"
	"pgregory.net/rapid"
	"verif/harness/internal/vp"
)

// --- C14 and C16: one engine used by several goroutines ---------------------------

// ConcCase is an engine used by several goroutines, each with documents of its
// own, under a perturbed schedule.
type ConcCase struct {
	Cfg     Cfg     `json:"cfg"`
	Sched   uint64  `json:"sched"`
	Shared  []EDoc  `json:"shared"` // documents s0, s1, ... indexed before and left alone
	Workers [][]EOp `json:"workers"`
	Last    []*EDoc `json:"last,omitempty"` // what becomes of u0, u1, ... in the end
	Probe   []Query `json:"probe"`          // asked at the end
}

// unownedID names a document that any goroutine indexes and removes at any time.
func unownedID(i int) string { return fmt.Sprintf("u%d", i) }

func workerID(w, i int) string { return fmt.Sprintf("w%d-%d", w, i) }

func genConcOps(t *rapid.T, cfg Cfg, w int, barrier bool) []EOp {
	var ops []EOp
	flush := func() { ops = append(ops, EOp{K: "flush"}) }
	nID := rapid.IntRange(1, 4).Draw(t, "nID")
	n := rapid.IntRange(2, 14).Draw(t, "n")
	simple := func() *Query {
		q := genQuery(t, 1)
		q.IDs, q.Timeout = nil, 0
		if len(q.Tok)+len(q.Lab)+len(q.Must)+len(q.Should) == 0 {
			q.Tok, q.Text = []string{"t1"}, ""
		}
		if rapid.IntRange(0, 3).Draw(t, "unpaged") > 0 {
			q.Off, q.Max = 0, 0
		}
		return &q
	}
	// a goroutine that only indexes and flushes in turn, or only indexes
	style := 0
	last := drafts{}
	if barrier {
		style = rapid.IntRange(0, 3).Draw(t, "style")
	}
	for i := 0; i < n && style > 1; i++ {
		id := workerID(w, rapid.IntRange(0, nID-1).Draw(t, "id"))
		d := last.next(t, id)
		ops = append(ops, EOp{K: "index", ID: id, Doc: &d, Force: rapid.IntRange(0, 9).Draw(t, "force") == 4})
		if style == 2 {
			flush()
			ops = append(ops, EOp{K: "search", Q: simple()}, EOp{K: "has"})
		}
	}
	for i := 0; i < n && style < 2; i++ {
		id := workerID(w, rapid.IntRange(0, nID-1).Draw(t, "id"))
		switch k := rapid.IntRange(0, 20).Draw(t, "kind"); {
		case k < 6:
			d := last.next(t, id)
			ops = append(ops, EOp{K: "index", ID: id, Doc: &d, Force: rapid.IntRange(0, 5).Draw(t, "force") == 0})
		case k < 8:
			ops = append(ops, EOp{K: "remove", ID: id, Force: rapid.IntRange(0, 3).Draw(t, "force") == 0})
		case k < 10:
			flush()
			if barrier {
				ops = append(ops, EOp{K: "search", Q: simple()}, EOp{K: "has"})
			}
		case k < 13:
			ops = append(ops, EOp{K: "search", Q: simple()})
		case k < 14:
			ops = append(ops, EOp{K: "has"})
		case k < 17:
			id := unownedID(rapid.IntRange(0, 1).Draw(t, "unowned"))
			if rapid.IntRange(0, 2).Draw(t, "remove") == 0 {
				ops = append(ops, EOp{K: "remove", ID: id, Force: rapid.IntRange(0, 3).Draw(t, "force") == 0})
			} else {
				d := genDoc(t)
				ops = append(ops, EOp{K: "index", ID: id, Doc: &d, Force: rapid.IntRange(0, 5).Draw(t, "force") == 0})
			}
		case k < 19:
			id := rivalID(rapid.IntRange(0, 2).Draw(t, "rival"))
			// the first is not removed
			if id != rivalID(0) && rapid.IntRange(0, 2).Draw(t, "remove") == 0 {
				ops = append(ops, EOp{K: "remove", ID: id, Force: rapid.IntRange(0, 3).Draw(t, "force") == 0})
			} else {
				d := genDoc(t)
				ops = append(ops, EOp{K: "index", ID: id, Doc: &d, Force: rapid.IntRange(0, 5).Draw(t, "force") == 0})
			}
		default:
			ops = append(ops, EOp{K: rapid.SampledFrom([]string{"counters", "db", "segment"}).Draw(t, "misc")})
		}
	}
	ops = lengthen(t, cfg, ops, 3000)
	if barrier {
		flush()
		ops = append(ops, EOp{K: "search", Q: simple()}, EOp{K: "has"}, EOp{K: "db"})
	}
	return ops
}

func genConcCase(barrier bool) func(t *rapid.T) ConcCase {
	return func(t *rapid.T) ConcCase {
		cfg := genMode(t)
		cfg.Cache = rapid.SampledFrom([]int{1, 2, 3, 3, 8, 64}).Draw(t, "cache2")
		switch rapid.IntRange(0, 5).Draw(t, "withStore") {
		case 0:
			cfg.Store, cfg.Stores = "ldb", rapid.IntRange(1, 2).Draw(t, "stores")
		case 1:
			cfg.Store, cfg.Stores = "bolt", rapid.IntRange(1, 2).Draw(t, "stores")
		}
		if rapid.IntRange(0, 3).Draw(t, "withGse") == 0 {
			// keywords are still only the explicit ones
			cfg.NotGse = false
		}
		c := ConcCase{Cfg: cfg, Sched: rapid.Uint64Range(0, 1<<20).Draw(t, "sched")}
		for i := rapid.IntRange(0, 4).Draw(t, "shared"); i > 0; i-- {
			c.Shared = append(c.Shared, genDoc(t))
		}
		for w, n := 0, rapid.IntRange(2, 6).Draw(t, "workers"); w < n; w++ {
			c.Workers = append(c.Workers, genConcOps(t, cfg, w, barrier))
		}
		for i := 0; i < 2; i++ {
			var d *EDoc
			if rapid.Bool().Draw(t, "stays") {
				v := genDoc(t)
				d = &v
			}
			c.Last = append(c.Last, d)
		}
		for i := 0; i < 3; i++ {
			q := genQuery(t, 1)
			q.IDs = nil
			if len(q.Tok)+len(q.Lab)+len(q.Must)+len(q.Should) == 0 {
				q.Tok, q.Text = []string{"t1"}, ""
			}
			if !cfg.NotGse {
				q.Text = ""
				if len(q.Tok)+len(q.Lab)+len(q.Must)+len(q.Should) == 0 {
					q.Tok = []string{"t2"}
				}
			}
			c.Probe = append(c.Probe, q)
		}
		if !cfg.NotGse {
			for _, ops := range c.Workers {
				for i := range ops {
					if q := ops[i].Q; q != nil && q.Text != "" {
						q.Text, q.Tok = "", []string{"t1"}
					}
				}
			}
		}
		return c
	}
}

// worker is one goroutine's view of its own documents.
type worker struct {
	n     int
	live  map[string]EDoc   // as of its last flush
	dirty map[string][]EDoc // since
	pend  map[string]*EDoc
	done  int // index calls
	rmd   int
	busy  bool // called either since its last flush
}

func (w *worker) apply(o EOp) {
	w.busy = true
	if !strings.HasPrefix(o.ID, "w") {
		if o.K == "index" {
			w.done++
		} else {
			w.rmd++
		}
		return
	}
	if o.K == "index" {
		w.dirty[o.ID] = append(w.dirty[o.ID], *o.Doc)
		w.pend[o.ID] = o.Doc
		w.done++
	} else {
		w.dirty[o.ID] = append(w.dirty[o.ID], []EDoc{}...)
		w.pend[o.ID] = nil
		w.rmd++
	}
}

func (w *worker) settle() {
	for id, d := range w.pend {
		if d == nil {
			delete(w.live, id)
		} else {
			w.live[id] = *d
		}
	}
	w.busy = false
	w.pend, w.dirty = map[string]*EDoc{}, map[string][]EDoc{}
}

type conc struct {
	c        ConcCase
	e        *riot.Engine
	versions map[string][]EDoc // every version of every document in the case
	shared   map[string]EDoc
	total    uint64
	totalRm  uint64
	strict   bool
	removed  map[string]bool // documents that some goroutine removes
}

// search judges an answer from the point of view of one goroutine: its own
// flushed documents and the shared ones must be there if they match, nothing
// may be returned twice, and whatever is returned must match in some version.
func (x *conc) search(w *worker, q Query) error {
	r := x.e.Search(q.req())
	g, err := normalise(x.c.Cfg, r)
	if err != nil {
		return err
	}
	if g.Timeout {
		return fmt.Errorf("reports a timeout")
	}
	must := 0
	seen := map[string]bool{}
	need := func(id string, d EDoc) bool {
		return x.c.Cfg.matches(q, id, d) && (q.Free || q.Count || q.Crit != "fields" || d.F != nil)
	}
	unpaged := q.Free || q.Off == 0 && q.Max == 0
	for i, d := range g.docs {
		if seen[d.DocId] {
			return fmt.Errorf("document %q returned twice", d.DocId)
		}
		seen[d.DocId] = true
		if s, ok := x.shared[d.DocId]; ok {
			if !x.c.Cfg.matches(q, d.DocId, s) {
				return fmt.Errorf("returns document %q, which does not match", d.DocId)
			}
		} else {
			vs := x.versions[d.DocId]
			if own, ok := w.live[d.DocId]; x.strict && strings.HasPrefix(d.DocId, fmt.Sprintf("w%d-", w.n)) {
				vs = nil
				if ok {
					vs = append(vs, own)
				}
				vs = append(vs, w.dirty[d.DocId]...)
			}
			ok := false
			for _, v := range vs {
				ok = ok || x.c.Cfg.matches(q, d.DocId, v)
			}
			if !ok {
				return fmt.Errorf("returns document %q, no possible version of which matches", d.DocId)
			}
			if own, ok := w.live[d.DocId]; ok && x.strict && len(w.dirty[d.DocId]) == 0 && w.pend[d.DocId] == nil && !x.c.Cfg.IDOnly && !q.Free {
				if _, removed := w.pend[d.DocId]; !removed && d.Content != own.C {
					return fmt.Errorf("document %q has content %q, want %q", d.DocId, d.Content, own.C)
				}
			}
		}
		if i > 0 && !q.Free {
			a, b := g.docs[i-1].Scores, d.Scores
			if q.Rev {
				a, b = b, a
			}
			if scoreMore(b, a) {
				return fmt.Errorf("rank %d has score %v after %v", i, d.Scores, g.docs[i-1].Scores)
			}
		}
	}
	check := func(id string, d EDoc, what string) error {
		if !need(id, d) {
			return nil
		}
		must++
		if unpaged && !q.Count && !seen[id] {
			return fmt.Errorf("misses document %q, %s", id, what)
		}
		return nil
	}
	for id, d := range x.shared {
		if err := check(id, d, "indexed and flushed before"); err != nil {
			return err
		}
	}
	if x.strict {
		for id, d := range w.live {
			if _, dirty := w.pend[id]; dirty {
				continue
			}
			if err := check(id, d, "untouched since this goroutine flushed it"); err != nil {
				return err
			}
		}
	}
	if g.NumDocs < must {
		return fmt.Errorf("NumDocs is %d, at least %d documents match", g.NumDocs, must)
	}
	return nil
}

func (x *conc) has(w *worker) error {
	for id := range x.shared {
		if !x.e.HasDoc(id) {
			return fmt.Errorf("HasDoc(%q) is false, it was indexed and flushed before", id)
		}
	}
	for i := 0; i < 4; i++ {
		id := workerID(w.n, i)
		got := x.e.HasDoc(id)
		if _, dirty := w.pend[id]; dirty || !x.strict {
			continue
		}
		if _, ok := w.live[id]; ok != got {
			return fmt.Errorf("HasDoc(%q) is %v after this goroutine's flush, want %v", id, got, ok)
		}
	}
	return nil
}

func (x *conc) db(w *worker) error {
	if x.c.Cfg.Store == "" {
		return nil
	}
	ids := map[string]bool{}
	for _, id := range x.e.GetDBAllIds() {
		if ids[id] {
			return fmt.Errorf("GetDBAllIds returns %q twice", id)
		}
		ids[id] = true
	}
	for i := 0; i < 4; i++ {
		id := workerID(w.n, i)
		got := x.e.HasDocDB(id)
		if _, dirty := w.pend[id]; dirty || !x.strict {
			continue
		}
		_, ok := w.live[id]
		if ok != got || ids[id] != got {
			return fmt.Errorf("after this goroutine's flush HasDocDB(%q) is %v and GetDBAllIds says %v, want %v", id, got, ids[id], ok)
		}
	}
	return nil
}

func (x *conc) counters(w *worker) error {
	n, rm := x.e.NumIndexed(), x.e.NumRemoved()
	_ = x.e.NumTokenAdded()
	if n > x.total || rm > x.totalRm*uint64(x.c.Cfg.Shards) {
		return fmt.Errorf("%d documents indexed and %d removed, the whole case has %d and %d", n, rm, x.total, x.totalRm)
	}
	if !w.busy && x.strict {
		if n < uint64(w.done+len(x.shared)) || rm < uint64(w.rmd*x.c.Cfg.Shards) {
			return fmt.Errorf("%d documents counted as indexed and %d as removed after a goroutine flushed %d and %d", n, rm, w.done+len(x.shared), w.rmd*x.c.Cfg.Shards)
		}
	}
	return nil
}

func (x *conc) run(w *worker, ops []EOp) error {
	for i, o := range ops {
		var err error
		switch o.K {
		case "index":
			w.apply(o)
			x.e.IndexDoc(o.ID, o.Doc.data(), o.Force)
		case "remove":
			w.apply(o)
			x.e.RemoveDoc(o.ID, o.Force)
		case "flush":
			x.e.Flush()
			w.settle()
			if x.strict {
				err = x.counters(w)
			}
		case "search":
			err = x.search(w, *o.Q)
		case "has":
			err = x.has(w)
		case "db":
			err = x.db(w)
		case "counters":
			err = x.counters(w)
		case "segment":
			if !x.c.Cfg.NotGse {
				_ = x.e.Segment("世界有七十亿人口 hello world")
			}
		}
		if err != nil {
			return fmt.Errorf("goroutine %d, op %d (%s): %v", w.n, i, vp.JSON(o), err)
		}
	}
	return nil
}

// rivalID is a document that several goroutines index and remove.
func rivalID(i int) string { return fmt.Sprintf("r%d", i) }

// rival checks that a rival document is one of its versions in every part of
// the flushed engine, or absent from all of them.
func (x *conc) rival(id string) error {
	vs := x.versions[id]
	has := x.e.HasDoc(id)
	if has && len(vs) == 0 || !has && len(vs) > 0 && !x.removed[id] {
		return fmt.Errorf("HasDoc(%q) = %v", id, has)
	}
	found := map[string]bool{}
	content, shown := "", false
	for _, v := range vs {
		for k := range x.c.Cfg.keys(v) {
			if k == "" {
				continue
			}
			g, err := normalise(x.c.Cfg, x.e.Search(Query{Tok: []string{k}, Crit: "const"}.req()))
			if err != nil {
				return err
			}
			for _, d := range g.docs {
				if d.DocId == id {
					found[k] = true
					if !x.c.Cfg.IDOnly {
						if shown && d.Content != content {
							return fmt.Errorf("document %q has content %q and %q", id, d.Content, content)
						}
						content, shown = d.Content, true
					}
				}
			}
		}
	}
	var stored *types.DocData
	if x.c.Cfg.Store != "" {
		ids, docs := x.e.GetDBAllDocs()
		for i := range ids {
			if ids[i] == id {
				stored = &docs[i]
			}
		}
		if has != (stored != nil) {
			return fmt.Errorf("HasDoc(%q) is %v, and it is stored as %s", id, has, vp.JSON(stored))
		}
	}
	if !has {
		if len(found) > 0 {
			return fmt.Errorf("HasDoc(%q) is false, and it is found by %v", id, found)
		}
		return nil
	}
	for _, v := range vs {
		keys, n := x.c.Cfg.keys(v), 0
		ok := (!shown || content == v.C) && (stored == nil || sameData(*stored, v.data()))
		for k := range keys {
			if k != "" {
				n++
				ok = ok && found[k]
			}
		}
		if ok && n == len(found) {
			return nil
		}
	}
	return fmt.Errorf("document %q, indexed by several goroutines, is found by the keywords %v with content %q and stored as %s: no version of it", id, found, content, vp.JSON(stored))
}

func runConcCase(strict bool) func(ctx *vp.Ctx, c ConcCase) error {
	return func(ctx *vp.Ctx, c ConcCase) error {
		x := &conc{c: c, versions: map[string][]EDoc{}, removed: map[string]bool{}, shared: map[string]EDoc{}, strict: strict}
		x.e = c.Cfg.open(ctx.Dir())
		for i, d := range c.Shared {
			id := fmt.Sprintf("s%d", i)
			x.e.IndexDoc(id, d.data())
			x.shared[id] = d
		}
		// a document that comes and goes, so that every part of the engine was
		// reached before the schedule is drawn
		x.e.IndexDoc("warm", types.DocData{Content: "warm", Tokens: []types.TokenData{{Text: "warm"}}})
		x.e.Flush()
		x.e.Search(Query{Tok: []string{"warm"}, Crit: "const"}.req())
		x.e.RemoveDoc("warm")
		x.e.Flush()
		x.total, x.totalRm = uint64(len(c.Shared))+1, 1
		muts, flushes, searches := 0, 0, 0
		for _, ops := range c.Workers {
			for _, o := range ops {
				switch o.K {
				case "index":
					x.versions[o.ID] = append(x.versions[o.ID], *o.Doc)
					x.total++
					muts++
				case "remove":
					x.removed[o.ID] = true
					x.totalRm++
					muts++
				case "flush":
					flushes++
				case "search":
					searches++
				}
			}
		}
		schedSet(c.Sched)
		errs := make([]error, len(c.Workers))
		ws := make([]*worker, len(c.Workers))
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i, ops := range c.Workers {
			ws[i] = &worker{n: i, live: map[string]EDoc{}, dirty: map[string][]EDoc{}, pend: map[string]*EDoc{}}
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if r := recover(); r != nil {
						errs[i] = fmt.Errorf("goroutine %d: panic: %v\n%s", i, r, vp.Stack())
					}
				}()
				<-start
				errs[i] = x.run(ws[i], ops)
			}()
		}
		close(start)
		wg.Wait()
		for _, err := range errs {
			if err != nil {
				schedSet(0)
				return err
			}
		}
		x.e.Flush()
		hits := schedHits()
		schedSet(0)
		// nobody knows which version of the unowned documents is the last one,
		// but there is only one
		x.strict = false
		for _, q := range append([]Query{{Lab: []string{"t1"}, Crit: "const"}, {Lab: []string{"l1"}, Crit: "const"}, {Tok: []string{"t1"}, Free: true}}, c.Probe...) {
			if err := x.search(ws[0], q); err != nil {
				return fmt.Errorf("after the last Flush, search %s: %v", vp.JSON(q), err)
			}
		}
		for i := 0; i < 3; i++ {
			if err := x.rival(rivalID(i)); err != nil {
				return fmt.Errorf("after the last Flush, %v", err)
			}
			x.e.RemoveDoc(rivalID(i))
			x.totalRm++
		}
		for i := range c.Last {
			x.e.RemoveDoc(unownedID(i))
			x.totalRm++
		}
		x.e.Flush()
		// the final state is that of every goroutine's own history
		m := newModel(c.Cfg)
		for id, d := range x.shared {
			m.live[id] = d
		}
		all := map[string]bool{}
		for i, d := range c.Last {
			id := unownedID(i)
			if x.e.HasDoc(id) {
				return fmt.Errorf("at the end HasDoc(%q), it was removed", id)
			}
			all[id] = true
			if d != nil {
				x.e.IndexDoc(id, d.data())
				x.total++
				m.live[id] = *d
			}
		}
		x.e.Flush()
		for i, w := range ws {
			w.settle()
			for id, d := range w.live {
				m.live[id] = d
			}
			for j := 0; j < 4; j++ {
				all[workerID(i, j)] = true
			}
		}
		for id := range all {
			if _, ok := m.live[id]; x.e.HasDoc(id) != ok {
				return fmt.Errorf("at the end HasDoc(%q) = %v, want %v", id, !ok, ok)
			}
		}
		probes := append([]Query{{Tok: []string{"t1"}, Crit: "fields"}, {Tok: []string{"t2"}, Crit: "const"}, {Lab: []string{"l1"}, Crit: "bm25"}}, c.Probe...)
		for _, q := range probes {
			if err := m.exact(q, x.e.Search(q.req())); err != nil {
				return fmt.Errorf("at the end, search %s: %v", vp.JSON(q), err)
			}
		}
		if n := x.e.NumIndexed(); n != x.total {
			return fmt.Errorf("at the end %d documents are counted as indexed, want %d", n, x.total)
		}
		if n := x.e.NumRemoved(); n != x.totalRm*uint64(c.Cfg.Shards) {
			return fmt.Errorf("at the end %d documents are counted as removed, want %d on each of %d shards", n, x.totalRm, c.Cfg.Shards)
		}
		if c.Cfg.Store != "" {
			var want []string
			for id := range m.live {
				want = append(want, id)
			}
			sort.Strings(want)
			if got := sortedCopy(x.e.GetDBAllIds()); strings.Join(got, " ") != strings.Join(want, " ") {
				return fmt.Errorf("at the end the store holds %q, want %q", got, want)
			}
			x.e.Close()
		}
		ctx.NonTrivial(muts >= 3 && searches >= 2 && len(c.Workers) >= 2)
		ctx.LabelIf(flushes > 2, "several flushes")
		ctx.LabelIf(hits > 0, "the schedule was perturbed")
		ctx.LabelIf(c.Cfg.Store != "", "with a store")
		ctx.LabelIf(!c.Cfg.NotGse, "with the segmenter")
		ctx.LabelIf(c.Cfg.Shards > 1, "several shards")
		ctx.LabelIf(c.Cfg.GseTh > 1, "several segmenter threads")
		return nil
	}
}

func init() {
	assume := []string{
		"the order of calls of different goroutines on one document is not known: such a document ends as one of its versions or absent, the same in every part of the engine",
		"schedules are sampled: the engine's code is rebuilt with seeded yields and pauses before every statement",
	}
	vp.Register(vp.Prop{
		ID:          "C14",
		Rule:        "A case is 2-6 goroutines using one engine (index, remove, flush, search, HasDoc, counters, store queries) under a seeded perturbed schedule, built with the race detector; non-trivial if they make 3 or more changes and 2 or more searches.",
		Assumptions: append(assume, "races are reported when both accesses are made by the engine's own code"),
		Quick:       vp.Budget{Shards: 8, Checks: 900}, Thorough: vp.Budget{Shards: 8, Checks: 36000},
		Restart: 25, Race: true, Repeats: 10,
	}, genConcCase(false), runConcCase(false))
	vp.Register(vp.Prop{
		ID:          "C16",
		Rule:        "A case is 2-6 goroutines using one engine under a seeded perturbed schedule, each checking after its own Flush that its documents are visible in searches, HasDoc, counters and the store; non-trivial if they make 3 or more changes and 2 or more searches.",
		Assumptions: assume,
		Quick:       vp.Budget{Shards: 8, Checks: 1000}, Thorough: vp.Budget{Shards: 8, Checks: 40000},
		Restart: 40, Repeats: 10,
	}, genConcCase(true), runConcCase(true))
}
