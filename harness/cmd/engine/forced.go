package main

import (
	"fmt"
	"strings"
	"time"

	"pgregory.net/rapid"
	"verif/harness/internal/vp"
)

// --- C25: forced updates without Flush, and the counters ----------------------------

// ForceCase is a history in which forced calls are awaited instead of flushed.
type ForceCase struct {
	Cfg Cfg   `json:"cfg"`
	Ops []EOp `json:"ops"` // index, remove, flush, wait (for the forced calls before)
}

func genForceCase(t *rapid.T) ForceCase {
	c := ForceCase{Cfg: genMode(t)}
	c.Cfg.Cache = rapid.SampledFrom([]int{500, 64, 8, 3, 1}).Draw(t, "cache2")
	if rapid.IntRange(0, 5).Draw(t, "store") == 0 {
		c.Cfg.Store, c.Cfg.Stores = rapid.SampledFrom([]string{"ldb", "bolt"}).Draw(t, "engine"), 2
	}
	touched := map[string]bool{}
	last := drafts{}
	ids := rapid.SampledFrom(eids[:8])
	sync := func(k string) {
		c.Ops = append(c.Ops, EOp{K: k})
		touched = map[string]bool{}
	}
	for i, n := 0, rapid.IntRange(1, 16).Draw(t, "n"); i < n; i++ {
		id := ids.Draw(t, "id")
		op := EOp{K: "index", ID: id, Force: rapid.Bool().Draw(t, "force")}
		switch rapid.IntRange(0, 6).Draw(t, "kind") {
		case 0, 1, 2, 3:
			d := last.next(t, id)
			op.Doc = &d
		case 4:
			op.K = "remove"
		case 5:
			sync("wait")
			continue
		case 6:
			sync("flush")
			continue
		}
		if touched[id] && !op.Force {
			sync(rapid.SampledFrom([]string{"wait", "flush"}).Draw(t, "sync"))
		}
		touched[id] = true
		c.Ops = append(c.Ops, op)
	}
	sync("wait")
	sync("flush")
	return c
}

func runForceCase(ctx *vp.Ctx, c ForceCase) error {
	e := c.Cfg.open(ctx.Dir())
	m := newModel(c.Cfg)
	vers := map[string][]EDoc{} // versions a document may have, by document touched since the last flush
	docs, removals, keywords, waited := 0, 0, 0, 0
	type want struct {
		id string
		d  *EDoc
	}
	var forced []want  // since the last wait
	var earlier []want // index calls since the last flush
	forget := func(ws []want, id string) []want {
		keep := ws[:0:0]
		for _, w := range ws {
			if w.id != id {
				keep = append(keep, w)
			}
		}
		return keep
	}
	// seen says whether a document is visible in this version.
	seen := func(w want) error {
		if w.d == nil {
			if e.HasDoc(w.id) {
				return fmt.Errorf("HasDoc(%q) after its forced removal", w.id)
			}
			for _, k := range keysOf(c.Cfg, vers[w.id]) {
				r := e.Search(Query{Tok: []string{k}, Free: true}.req())
				g, err := normalise(c.Cfg, r)
				if err != nil {
					return err
				}
				for _, d := range g.docs {
					if d.DocId == w.id {
						return fmt.Errorf("searching %q finds document %q after its forced removal", k, w.id)
					}
				}
			}
			return nil
		}
		if !e.HasDoc(w.id) {
			return fmt.Errorf("HasDoc(%q) is false after its forced indexing", w.id)
		}
		for k := range c.Cfg.keys(*w.d) {
			if k == "" {
				continue
			}
			g, err := normalise(c.Cfg, e.Search(Query{Tok: []string{k}, Crit: "const"}.req()))
			if err != nil {
				return err
			}
			n := 0
			for _, d := range g.docs {
				if d.DocId == w.id {
					n++
					if !c.Cfg.IDOnly && d.Content != w.d.C {
						return fmt.Errorf("document %q has content %q after its forced indexing with %q", w.id, d.Content, w.d.C)
					}
				}
			}
			if n != 1 {
				return fmt.Errorf("searching %q finds document %q %d times after its forced indexing", k, w.id, n)
			}
		}
		return nil
	}
	await := func(ws []want) error {
		start := time.Now()
		for i := 0; ; i++ {
			var err error
			for _, w := range ws {
				if err = seen(w); err != nil {
					break
				}
			}
			if err == nil {
				return nil
			}
			if i > 20 && i%20 == 0 {
				idle, _ := vp.Stuck(func(fr []string) bool {
					for _, f := range fr {
						if strings.Contains(f, "vp.Stuck") || !strings.Contains(strings.Join(fr, " "), "go-ego/riot") {
							return true
						}
					}
					return false
				})
				if idle {
					// nothing is under way any more: what is not visible now never will be
					for _, w := range ws {
						if err := seen(w); err != nil {
							return fmt.Errorf("with the engine idle, %v", err)
						}
					}
					return nil
				}
			}
			if time.Since(start) > 60*time.Second {
				vp.Abort("not visible after 60 s: %v", err)
			}
			time.Sleep(time.Millisecond)
		}
	}
	for i, o := range c.Ops {
		step := fmt.Sprintf("op %d (%s)", i, vp.JSON(o))
		switch o.K {
		case "index":
			e.IndexDoc(o.ID, o.Doc.data(), o.Force)
			docs++
			keywords += len(c.Cfg.keys(*o.Doc))
			vers[o.ID] = append(vers[o.ID], *o.Doc)
			earlier = append(forget(earlier, o.ID), want{o.ID, o.Doc})
			forced = forget(forced, o.ID)
			m.live[o.ID] = *o.Doc
			if o.Force && c.Cfg.GseTh == 1 {
				// documents go through one queue: the ones before are in, too
				for _, w := range earlier {
					forced = append(forget(forced, w.id), w)
				}
			} else if o.Force {
				forced = append(forced, want{o.ID, o.Doc})
			}
		case "remove":
			if d, ok := m.live[o.ID]; ok {
				vers[o.ID] = append(vers[o.ID], d)
			}
			e.RemoveDoc(o.ID, o.Force)
			removals++
			delete(m.live, o.ID)
			// the document's earlier versions are not awaited any more
			earlier, forced = forget(earlier, o.ID), forget(forced, o.ID)
			if o.Force {
				forced = append(forced, want{o.ID, nil})
			}
		case "wait":
			if len(forced) > 0 {
				waited++
			}
			if err := await(forced); err != nil {
				return fmt.Errorf("%s: %v", step, err)
			}
			forced = nil
			// calls that were not forced are still on their way
			e.Flush()
			earlier = nil
		case "flush":
			e.Flush()
			forced, earlier = nil, nil
			if n := e.NumIndexed(); n != uint64(docs) || e.NumDocsIndexed() != n {
				return fmt.Errorf("%s: %d (%d) documents are counted as indexed, want %d", step, n, e.NumDocsIndexed(), docs)
			}
			if n := e.NumTokenAdded(); n != uint64(keywords) || e.NumTokenIndexAdded() != n {
				return fmt.Errorf("%s: %d (%d) keywords are counted, want %d", step, n, e.NumTokenIndexAdded(), keywords)
			}
			if n := e.NumRemoved(); n != uint64(removals*c.Cfg.Shards) || e.NumDocsRemoved() != n {
				return fmt.Errorf("%s: %d (%d) documents are counted as removed, want %d on each of %d shards", step, n, e.NumDocsRemoved(), removals, c.Cfg.Shards)
			}
			if err := m.probe(e); err != nil {
				return fmt.Errorf("%s: %v", step, err)
			}
		}
	}
	if c.Cfg.Store != "" {
		e.Close()
		e = c.Cfg.open(ctx.Dir())
		if n := e.NumIndexed(); n != uint64(len(m.live)) {
			return fmt.Errorf("opened again, %d documents are counted as indexed, the store has %d", n, len(m.live))
		}
		want := 0
		for _, d := range m.live {
			want += len(c.Cfg.keys(d))
		}
		if n := e.NumTokenAdded(); n != uint64(want) {
			return fmt.Errorf("opened again, %d keywords are counted, want %d", n, want)
		}
		e.Close()
	}
	ctx.NonTrivial(waited > 0 && docs > 1)
	ctx.LabelIf(waited > 0, "waits for forced calls")
	ctx.LabelIf(removals > 0, "removes documents")
	ctx.LabelIf(c.Cfg.GseTh == 1, "one segmenter thread")
	ctx.LabelIf(c.Cfg.Shards > 1, "several shards")
	ctx.LabelIf(c.Cfg.Store != "", "with a store")
	return nil
}

func keysOf(c Cfg, ds []EDoc) []string {
	seen := map[string]bool{}
	var out []string
	for _, d := range ds {
		for k := range c.keys(d) {
			if k != "" && !seen[k] {
				seen[k] = true
				out = append(out, k)
			}
		}
	}
	return out
}

func init() {
	vp.Register(vp.Prop{
		ID:   "C25",
		Rule: "A case is an engine and a history of forced and other index and remove calls; forced ones are waited for without Flush, until the engine is idle; non-trivial if it waits for a forced call and indexes at least two documents.",
		Assumptions: []string{
			"between a call on a document and a later call on it that is not forced the history waits or flushes",
			"with one segmenter thread a forced index call takes the index calls before it along",
		},
		Quick: vp.Budget{Shards: 8, Checks: 400}, Thorough: vp.Budget{Shards: 8, Checks: 16000},
		Restart: 60,
	}, genForceCase, runForceCase)
}
