package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/go-ego/riot"
	"github.com/go-ego/riot/types"
	"pgregory.net/rapid"
	"verif/harness/internal/vp"
)

// --- C12: a closed engine comes back with its documents ---------------------------

// Life is one opening of an engine on the store: the configuration (all but
// the store settings may change between lives) and a history.
type Life struct {
	Cfg Cfg   `json:"cfg"`
	Ops []EOp `json:"ops"`
}

// PersistCase is a sequence of lives on one store.
type PersistCase struct {
	Lives []Life `json:"lives"`
}

// genStoreCfg draws the store settings.
func genStoreCfg(t *rapid.T) (engine string, shards int) {
	return rapid.SampledFrom([]string{"ldb", "bolt", "ldb", "bg"}).Draw(t, "storeEngine"),
		rapid.SampledFrom([]int{1, 2, 3, 8}).Draw(t, "storeShards")
}

func genPersistCase(t *rapid.T) PersistCase {
	var c PersistCase
	eng, sh := genStoreCfg(t)
	nID := rapid.SampledFrom([]int{3, 8, 25}).Draw(t, "nID")
	last := drafts{}
	for i := rapid.IntRange(2, 4).Draw(t, "lives"); i > 0; i-- {
		cfg := genMode(t)
		cfg.Store, cfg.Stores = eng, sh
		l := Life{Cfg: cfg, Ops: lengthen(t, cfg, genOpsAfter(t, last, 14, nID), 150000)}
		if rapid.IntRange(0, 31).Draw(t, "many") == 17 {
			l.Ops = addBulk(t, l.Ops, rapid.SampledFrom([]int{150, 600, 1500}).Draw(t, "most"))
		}
		if rapid.IntRange(0, 7).Draw(t, "unstorable") == 5 {
			// documents that cannot be stored, under ids of their own
			for j := rapid.IntRange(1, 3).Draw(t, "some"); j > 0; j-- {
				o := EOp{K: "remove", ID: rapid.SampledFrom([]string{"mem1", "mem2"}).Draw(t, "mem")}
				if rapid.IntRange(0, 3).Draw(t, "index") > 0 {
					d := genDoc(t)
					d.At = "u:" + o.ID
					o.K, o.Doc = "index", &d
				}
				at := rapid.IntRange(0, len(l.Ops)-4).Draw(t, "memAt")
				l.Ops = append(l.Ops[:at], append([]EOp{o}, l.Ops[at:]...)...)
			}
		}
		c.Lives = append(c.Lives, l)
	}
	return c
}

// sameData compares a stored document with the one that was indexed.
func sameData(got, want types.DocData) bool {
	if got.Content != want.Content || !reflect.DeepEqual(got.Attri, want.Attri) || !reflect.DeepEqual(got.Fields, want.Fields) ||
		len(got.Tokens) != len(want.Tokens) || len(got.Labels) != len(want.Labels) {
		return false
	}
	for i, x := range want.Tokens {
		g := got.Tokens[i]
		if g.Text != x.Text || len(g.Locations) != len(x.Locations) {
			return false
		}
		for j := range x.Locations {
			if g.Locations[j] != x.Locations[j] {
				return false
			}
		}
	}
	for i := range want.Labels {
		if got.Labels[i] != want.Labels[i] {
			return false
		}
	}
	return true
}

// storable leaves out the documents that a store cannot hold.
func storable(live map[string]EDoc) map[string]EDoc {
	out := map[string]EDoc{}
	for id, d := range live {
		if !strings.HasPrefix(d.At, "u:") {
			out[id] = d
		}
	}
	return out
}

// storeAgrees compares what the engine reports about its store with the model.
func storeAgrees(e *riot.Engine, live map[string]EDoc) error {
	var want []string
	for id := range live {
		want = append(want, id)
	}
	sort.Strings(want)
	if got := sortedCopy(e.GetDBAllIds()); !reflect.DeepEqual(append([]string{}, want...), got) {
		return fmt.Errorf("the store holds the documents %q, want %q", got, want)
	}
	if got := sortedCopy(e.GetAllDocIds()); !reflect.DeepEqual(append([]string{}, want...), got) {
		return fmt.Errorf("GetAllDocIds returns %q, want %q", got, want)
	}
	ids, docs := e.GetDBAllDocs()
	if len(ids) != len(want) || len(docs) != len(want) {
		return fmt.Errorf("GetDBAllDocs returns %d ids and %d documents, want %d", len(ids), len(docs), len(want))
	}
	for i, id := range ids {
		d, ok := live[id]
		if !ok {
			return fmt.Errorf("GetDBAllDocs returns document %q, which is not indexed", id)
		}
		if !sameData(docs[i], d.data()) {
			return fmt.Errorf("document %q is stored as %s, want %s", id, vp.JSON(docs[i]), vp.JSON(d.data()))
		}
	}
	for _, id := range eids[:30] {
		if _, ok := live[id]; e.HasDocDB(id) != ok {
			return fmt.Errorf("HasDocDB(%q) = %v, want %v", id, !ok, ok)
		}
	}
	return nil
}

func runPersistCase(ctx *vp.Ctx, c PersistCase) error {
	dir := ctx.Dir()
	var live map[string]EDoc
	carried, removedCarried, memory := 0, 0, 0
	var st stats
	for li, l := range c.Lives {
		e := l.Cfg.open(dir)
		m := newModel(l.Cfg)
		if live != nil {
			m.live = live
		}
		e.Flush()
		if got := e.NumIndexed(); got != uint64(len(m.live)) {
			return fmt.Errorf("life %d: %d documents indexed from the store, want %d", li, got, len(m.live))
		}
		for _, id := range eids {
			if _, ok := m.live[id]; e.HasDoc(id) != ok {
				return fmt.Errorf("life %d, after opening: HasDoc(%q) = %v, want %v", li, id, !ok, ok)
			}
		}
		if err := storeAgrees(e, m.live); err != nil {
			return fmt.Errorf("life %d, after opening: %v", li, err)
		}
		for _, q := range []Query{{Tok: []string{"t1"}, Crit: "fields"}, {Lab: []string{"l1"}, Crit: "const"}, {Tok: []string{"t2"}, Crit: "bm25"}, {Must: []string{"x"}, Crit: "const"}} {
			if err := m.exact(q, e.Search(q.req())); err != nil {
				return fmt.Errorf("life %d, after opening: search %s: %v", li, vp.JSON(q), err)
			}
		}
		if err := m.probe(e); err != nil {
			return fmt.Errorf("life %d, after opening: %v", li, err)
		}
		if li > 0 {
			carried += len(m.live)
			for _, o := range l.Ops {
				if _, ok := m.live[o.ID]; ok && o.K == "remove" {
					removedCarried++
				}
			}
		}
		if err := play(e, m, expand(l.Ops), &st); err != nil {
			return fmt.Errorf("life %d: %v", li, err)
		}
		// the history ends with a flush: the store is up to date
		live = storable(m.live)
		if err := storeAgrees(e, live); err != nil {
			return fmt.Errorf("life %d, after a flush: %v", li, err)
		}
		memory += len(m.live) - len(live)
		// a last few operations without a flush: Close writes them out
		closing := tailOps(l, live)
		for _, o := range closing {
			if o.K == "index" {
				e.IndexDoc(o.ID, o.Doc.data())
				live[o.ID] = *o.Doc
			} else {
				e.RemoveDoc(o.ID)
				delete(live, o.ID)
			}
		}
		e.Close()
	}
	ctx.NonTrivial(carried > 0)
	ctx.Label("store %s", c.Lives[0].Cfg.Store)
	ctx.LabelIf(carried > 0, "documents survive a reopening")
	ctx.LabelIf(removedCarried > 0, "removes a document of an earlier life")
	ctx.LabelIf(st.updates > 0, "updates a document")
	ctx.LabelIf(memory > 0, "documents that cannot be stored")
	ctx.LabelIf(carried > 300, "more than 300 documents carried over")
	return nil
}

// tailOps derives unflushed closing operations.
func tailOps(l Life, live map[string]EDoc) []EOp {
	var ids []string
	for id := range live {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	var out []EOp
	if len(ids) > 0 && len(l.Ops)%2 == 0 {
		out = append(out, EOp{K: "remove", ID: ids[len(ids)/2]})
	}
	if len(l.Ops)%3 != 0 {
		d := EDoc{C: "last words", Tok: []Tok{{T: "t1", L: []int{3}}}, Lab: []string{"l1"}, F: &Fields{7, float32(len(l.Ops))}}
		id := "20closing"
		if len(ids) > 1 && len(l.Ops)%3 == 1 {
			id = ids[0]
			if len(out) > 0 && out[0].ID == id {
				id = "20closing"
			}
		}
		out = append(out, EOp{K: "index", ID: id, Doc: &d})
		// the same document goes, or comes back
		switch len(l.Ops) % 5 {
		case 0:
			out = append(out, EOp{K: "remove", ID: id})
		case 1:
			out = append(out, EOp{K: "remove", ID: id}, EOp{K: "index", ID: id, Doc: &d})
		}
	}
	return out
}

func init() {
	vp.Register(vp.Prop{
		ID:   "C12",
		Rule: "A case is 2-4 lives of an engine on one store (any engine, 1-8 store shards), each with its own in-memory configuration and history and ended by Close; non-trivial if documents are carried over a reopening.",
		Assumptions: []string{
			"the store engine and the number of store shards do not change between lives; types used as fields and attributes are registered with encoding/gob (documents of other types stay in memory)",
		},
		Quick: vp.Budget{Shards: 8, Checks: 120}, Thorough: vp.Budget{Shards: 8, Checks: 4800},
		Restart: 12,
	}, genPersistCase, runPersistCase)
}
