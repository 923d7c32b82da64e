package main

import (
	"fmt"

	"github.com/go-ego/riot"
	"pgregory.net/rapid"
	"verif/harness/internal/vp"
)

// EOp is one call on an engine.
type EOp struct {
	K     string `json:"k"` // index, remove, flush, search, bulk, unbulk
	ID    string `json:"id,omitempty"`
	Doc   *EDoc  `json:"doc,omitempty"`
	Force bool   `json:"force,omitempty"`
	Q     *Query `json:"q,omitempty"`
	// N documents are indexed (bulk), or every N-th of 1000 is removed (unbulk)
	N int `json:"n,omitempty"`
}

// bulkDoc is a document made by a rule.
func bulkDoc(i, v int) EDoc {
	d := EDoc{C: econts[(i+v)%len(econts)], At: []string{"", "s:x"}[i%2]}
	for k, t := range etoks {
		if (i+v)%(k+2) == 0 {
			d.Tok = append(d.Tok, Tok{T: t, L: []int{i % 20, i%20 + k + 1}})
		}
	}
	if i%5 == v%5 {
		d.Lab = []string{elabs[i%len(elabs)]}
	}
	if i%11 > 0 {
		d.F = &Fields{float32(i % 7), float32((i + v) % 13)}
	}
	return d
}

// addBulk adds bulk calls to a history.
func addBulk(t *rapid.T, ops []EOp, most int) []EOp {
	n := most*rapid.SampledFrom([]int{0, 3, 9}).Draw(t, "bulk")/10 + rapid.IntRange(most/10, most/5).Draw(t, "bulkN")
	last := len(ops) - 4 // before the last flush
	add := func(o EOp) {
		at := rapid.IntRange(0, last).Draw(t, "at")
		ops = append(ops[:at], append([]EOp{o}, ops[at:]...)...)
		last++
	}
	for i := rapid.IntRange(1, 3).Draw(t, "bulks"); i > 0; i-- {
		add(EOp{K: "bulk", N: n})
	}
	for i := rapid.IntRange(0, 2).Draw(t, "unbulks"); i > 0; i-- {
		add(EOp{K: "unbulk", N: rapid.IntRange(1, 9).Draw(t, "each")})
	}
	return ops
}

// expand writes bulk calls out.
func expand(ops []EOp) []EOp {
	var out []EOp
	for _, o := range ops {
		switch o.K {
		case "bulk":
			for i := 0; i < o.N; i++ {
				d := bulkDoc(i, len(out)%17)
				out = append(out, EOp{K: "index", ID: fmt.Sprintf("bulk%d", i), Doc: &d})
			}
		case "unbulk":
			for i := 0; i < 1000; i += max(o.N, 1) {
				out = append(out, EOp{K: "remove", ID: fmt.Sprintf("bulk%d", i)})
			}
		default:
			out = append(out, o)
		}
	}
	return out
}

// HistCase is a history of calls on one engine.
type HistCase struct {
	Cfg Cfg   `json:"cfg"`
	Ops []EOp `json:"ops"`
}

// genOps draws a history.
func genOps(t *rapid.T, cfg Cfg, maxOps, nID int) []EOp {
	return genOpsAfter(t, drafts{}, maxOps, nID)
}

// genOpsAfter goes on with the documents of earlier operations.
func genOpsAfter(t *rapid.T, last drafts, maxOps, nID int) []EOp {
	var ops []EOp
	var before asked
	n := rapid.IntRange(1, maxOps).Draw(t, "n")
	ids := rapid.SampledFrom(eids[:nID])
	for i := 0; i < n; i++ {
		switch k := rapid.IntRange(0, 19).Draw(t, "kind"); {
		case k < 9:
			id := ids.Draw(t, "id")
			d := last.next(t, id)
			ops = append(ops, EOp{K: "index", ID: id, Doc: &d, Force: rapid.IntRange(0, 7).Draw(t, "force") == 0})
			ops = bounce(t, ops)
		case k < 12:
			id := ids.Draw(t, "id")
			ops = append(ops, EOp{K: "remove", ID: id, Force: rapid.IntRange(0, 4).Draw(t, "force") == 0})
		case k < 14:
			ops = append(ops, EOp{K: "flush"})
		default:
			ops = append(ops, EOp{K: "search", Q: before.next(t, nID)})
		}
	}
	ops = append(ops, EOp{K: "flush"})
	for i := 0; i < 3; i++ {
		ops = append(ops, EOp{K: "search", Q: before.next(t, nID)})
	}
	return ops
}

func genHistCase(t *rapid.T) HistCase {
	cfg := genMode(t)
	maxOps, nID := 25, rapid.SampledFrom([]int{3, 6, 11, 17}).Draw(t, "nID")
	if rapid.IntRange(0, 5).Draw(t, "long") == 0 {
		maxOps, nID = 120, rapid.SampledFrom([]int{11, len(eids)}).Draw(t, "nIDlong")
	}
	c := HistCase{Cfg: cfg, Ops: lengthen(t, cfg, genOps(t, cfg, maxOps, nID), 6000)}
	if rapid.IntRange(0, 255).Draw(t, "many") == 177 {
		c.Ops = addBulk(t, c.Ops, 1000)
	}
	return c
}

type stats struct {
	updates, removals, matched, contentMoves, paged, weak, mixed int
}

// play runs a history against an engine and a model.
func play(e *riot.Engine, m *model, ops []EOp, st *stats) error {
	pend := map[string]*EDoc{} // nil: removed
	for i, o := range ops {
		step := fmt.Sprintf("op %d (%s)", i, vp.JSON(o))
		switch o.K {
		case "index":
			if old, ok := m.live[o.ID]; ok {
				st.updates++
				if old.C != o.Doc.C {
					st.contentMoves++
				}
			}
			if old, ok := pend[o.ID]; ok && old == nil {
				st.mixed++
			}
			e.IndexDoc(o.ID, o.Doc.data(), o.Force)
			m.dirty[o.ID] = append(m.dirty[o.ID], *o.Doc)
			pend[o.ID] = o.Doc
		case "remove":
			if _, ok := m.live[o.ID]; ok {
				st.removals++
			}
			if pend[o.ID] != nil {
				st.mixed++
			}
			e.RemoveDoc(o.ID, o.Force)
			m.dirty[o.ID] = append(m.dirty[o.ID], []EDoc{}...)
			pend[o.ID] = nil
		case "flush":
			e.Flush()
			for id, d := range pend {
				if d == nil {
					delete(m.live, id)
				} else {
					m.live[id] = *d
				}
			}
			pend, m.dirty = map[string]*EDoc{}, map[string][]EDoc{}
			has := func(id string) error {
				_, want := m.live[id]
				if e.HasDoc(id) != want {
					return fmt.Errorf("%s: HasDoc(%q) = %v, want %v", step, id, !want, want)
				}
				return nil
			}
			for _, id := range eids {
				if err := has(id); err != nil {
					return err
				}
			}
			for id := range m.live {
				if err := has(id); err != nil {
					return err
				}
			}
		case "search":
			r := e.Search(o.Q.req())
			if len(m.dirty) > 0 {
				st.weak++
				if err := m.weak(*o.Q, r); err != nil {
					return fmt.Errorf("%s (operations under way): %v", step, err)
				}
				continue
			}
			if err := m.exact(*o.Q, r); err != nil {
				return fmt.Errorf("%s: %v", step, err)
			}
			if r.NumDocs > 0 {
				st.matched++
				if o.Q.Off > 0 || o.Q.Max > 0 {
					st.paged++
				}
			}
		}
	}
	return nil
}

func runHistCase(ctx *vp.Ctx, c HistCase) error {
	e := c.Cfg.open(ctx.Dir())
	m := newModel(c.Cfg)
	var st stats
	if err := play(e, m, expand(c.Ops), &st); err != nil {
		return err
	}
	if err := m.probe(e); err != nil {
		return fmt.Errorf("after the history: %v", err)
	}
	ctx.NonTrivial(st.matched > 0 && st.updates+st.removals > 0)
	ctx.LabelIf(st.updates > 0, "updates a document")
	ctx.LabelIf(st.contentMoves > 0, "updates a document with other content")
	ctx.LabelIf(st.removals > 0, "removes a document")
	ctx.LabelIf(st.mixed > 0, "indexes and removes a document without a flush in between")
	ctx.LabelIf(st.matched > 0, "a search on the flushed engine matches")
	ctx.LabelIf(st.paged > 0, "a paged search matches")
	ctx.LabelIf(st.weak > 0, "searches while operations are under way")
	ctx.LabelIf(len(m.live) > 90, "more than 90 documents in the end")
	ctx.LabelIf(c.Cfg.Shards > 1, "several shards")
	ctx.Label("index type %d", c.Cfg.Type)
	ctx.LabelIf(c.Cfg.IDOnly, "id only")
	return nil
}

func init() {
	vp.Register(vp.Prop{
		ID:   "C09",
		Rule: "A case is an engine configuration and a history of up to 120 index/remove/flush/search calls, judged against a model; non-trivial if it updates or removes a document and a search on the flushed engine matches.",
		Assumptions: []string{
			"a document's tokens are distinct and their locations ascend; document id 0 is reserved",
		},
		Quick: vp.Budget{Shards: 8, Checks: 2500}, Thorough: vp.Budget{Shards: 8, Checks: 100000},
		Restart: 60,
	}, genHistCase, runHistCase)
}
