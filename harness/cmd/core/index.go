package main

import (
	"fmt"
	"math"
	"reflect"
	"sort"

	"github.com/go-ego/riot/core"
	"github.com/go-ego/riot/types"
	"pgregory.net/rapid"
	"verif/harness/internal/vp"
)

// KW is one keyword of a generated document.
type KW struct {
	T string  `json:"t"`
	F float32 `json:"f,omitempty"`
	S []int   `json:"s,omitempty"`
}

// Doc is a generated document as the indexer receives it.
type Doc struct {
	ID  string  `json:"id"`
	Len float32 `json:"len,omitempty"`
	KW  []KW    `json:"kw,omitempty"`
}

func (d Doc) index() *types.DocIndex {
	x := &types.DocIndex{DocId: d.ID, TokenLen: d.Len}
	for _, k := range d.KW {
		s := append([]int{}, k.S...)
		x.Keywords = append(x.Keywords, types.KeywordIndex{Text: k.T, Frequency: k.F, Starts: s})
	}
	return x
}

func (d Doc) kw(t string) *KW {
	for i := range d.KW {
		if d.KW[i].T == t {
			return &d.KW[i]
		}
	}
	return nil
}

var idPool = []string{"1", "2", "3", "10", "11", "9", "a", "ab", "b", "é", "00", "-1", "Z", "zz", "文", "a b", "~", "A", "01", "a\x00", "12", "13", "14", "15", "16", "17", "18", "19", "20", "21", "22", "23", "24"}

func init() {
	for i := 0; i < 170; i++ {
		idPool = append(idPool, fmt.Sprintf("d%d", i*7%170))
	}
}

var tokPool = []string{"t1", "t2", "t3", "word", "文", "文字", "a", "ab", "t9", "x"}

func idsGen(n int) *rapid.Generator[string]  { return rapid.SampledFrom(idPool[:n]) }
func toksGen(n int) *rapid.Generator[string] { return rapid.SampledFrom(tokPool[:n]) }

// genKeywords draws distinct keywords with consistent locations/frequencies.
// A keyword without locations is a label (frequency 0).
func genKeywords(t *rapid.T, nTok, maxKW, maxLoc, span int) []KW {
	toks := rapid.SliceOfNDistinct(toksGen(nTok), 0, maxKW, rapid.ID[string]).Draw(t, "toks")
	var out []KW
	for _, tok := range toks {
		k := KW{T: tok}
		if rapid.IntRange(0, 5).Draw(t, "label") > 0 {
			k.S = rapid.SliceOfNDistinct(rapid.IntRange(0, span), 1, maxLoc, rapid.ID[int]).Draw(t, "locs")
			sort.Ints(k.S)
			k.F = float32(len(k.S))
		}
		out = append(out, k)
	}
	return out
}

// --- C01 --------------------------------------------------------------------

// IOp is one call on the indexer.
type IOp struct {
	K     string `json:"k"` // add, rm, flush
	Doc   *Doc   `json:"doc,omitempty"`
	ID    string `json:"id,omitempty"`
	Force bool   `json:"force,omitempty"`
}

// IndexCase is a history of calls on one indexer.
type IndexCase struct {
	Type  int `json:"type"`
	Cache int `json:"cache"`
	// Bulk: before the calls, this many documents are added, some are updated
	// and every seventh is removed.
	Bulk int   `json:"bulk,omitempty"`
	Ops  []IOp `json:"ops"`
}

// bulk gives the i-th of n documents; v is its version.
func bulk(i, n, v int) Doc {
	// in an order that scatters the ids
	d := Doc{ID: fmt.Sprintf("bulk%d", i*7919%n), Len: float32(i % 23)}
	for k, t := range tokPool {
		if (i+v)*(k+3)%(k+2) == 0 || (i+v)%97 == k {
			n := (i+v+k)%3 + 1
			kw := KW{T: t, F: float32(n)}
			for j := 0; j < n; j++ {
				kw.S = append(kw.S, i%50+j*(k+1))
			}
			d.KW = append(d.KW, kw)
		}
	}
	return d
}

func genIndexCase(t *rapid.T) IndexCase {
	big := rapid.IntRange(0, 4).Draw(t, "big") == 0
	c := IndexCase{Type: rapid.SampledFrom([]int{types.LocsIndex, types.FrequenciesIndex, types.DocIdsIndex}).Draw(t, "type")}
	nDoc, nTok, nOps := rapid.IntRange(1, 8).Draw(t, "nDoc"), rapid.IntRange(1, 5).Draw(t, "nTok"), 40
	c.Cache = rapid.SampledFrom([]int{2, 1, 3, 4, 5, 7, 16, 64}).Draw(t, "cache")
	if big {
		nDoc, nOps = rapid.IntRange(8, 30).Draw(t, "nDocBig"), 120
		if rapid.IntRange(0, 9).Draw(t, "huge") == 0 {
			nDoc, nOps = rapid.IntRange(100, len(idPool)).Draw(t, "nDocHuge"), 400
		}
		c.Cache = rapid.SampledFrom([]int{16, 20, 32, 64, 200}).Draw(t, "cacheBig")
	} else if rapid.IntRange(0, 255).Draw(t, "many") == 99 {
		c.Bulk = rapid.IntRange(300, 3000).Draw(t, "bulk")
		c.Cache = rapid.SampledFrom([]int{7, 64, 500, 5000}).Draw(t, "cacheBulk")
		nOps = 6
	}
	n := rapid.IntRange(1, nOps).Draw(t, "nOps")
	for i := 0; i < n; i++ {
		k := rapid.IntRange(0, 19).Draw(t, "kind")
		flushAt := 17
		if big {
			flushAt = 19
		}
		switch {
		case k < 12 || (big && k < 14):
			d := Doc{ID: idsGen(nDoc).Draw(t, "id"), Len: float32(rapid.IntRange(0, 9).Draw(t, "len"))}
			d.KW = genKeywords(t, nTok, 4, 3, 30)
			op := IOp{K: "add", Doc: &d, Force: rapid.IntRange(0, 9).Draw(t, "force") == 0}
			c.Ops = append(c.Ops, op)
		case k < flushAt:
			id := idsGen(nDoc).Draw(t, "id")
			c.Ops = append(c.Ops, IOp{K: "rm", ID: id, Force: rapid.IntRange(0, 4).Draw(t, "force") == 0})
		default:
			c.Ops = append(c.Ops, IOp{K: "flush"})
		}
	}
	return c
}

type modelDoc struct {
	committed *Doc  // in the index as of the last flush
	pend      []Doc // versions added since, in order
	removed   bool  // last call on it was an accepted removal
}

func runIndexCase(ctx *vp.Ctx, c IndexCase) error {
	var ix core.Indexer
	ix.Init(types.IndexerOpts{IndexType: c.Type, DocCacheSize: c.Cache,
		BM25Parameters: &types.BM25Parameters{K1: 2}})
	m := map[string]*modelDoc{}
	get := func(id string) *modelDoc {
		if m[id] == nil {
			m[id] = &modelDoc{}
		}
		return m[id]
	}
	ids, toks := map[string]bool{}, map[string]bool{}
	for _, o := range c.Ops {
		if o.Doc != nil {
			ids[o.Doc.ID] = true
			for _, k := range o.Doc.KW {
				toks[k.T] = true
			}
		}
		if o.ID != "" {
			ids[o.ID] = true
		}
	}
	bulkN := c.Bulk
	for bulkN%7919 == 0 && bulkN > 0 {
		bulkN++
	}
	for i := 0; i < bulkN; i++ {
		ids[bulk(i, bulkN, 0).ID] = true
	}
	if bulkN > 0 {
		for _, t := range tokPool {
			toks[t] = true
		}
	}
	tokList := sortedKeys(toks)
	idList := sortedKeys(ids)

	settle := func() {
		for _, d := range m {
			if len(d.pend) > 0 {
				x := d.pend[len(d.pend)-1]
				d.committed, d.pend, d.removed = &x, nil, false
			} else if d.removed {
				d.committed, d.removed = nil, false
			}
		}
	}
	partial := func(step string) error {
		for _, t := range tokList {
			docs, n := ix.Lookup([]string{t}, nil, nil, false)
			if n != len(docs) {
				return fmt.Errorf("%s: token %q: count %d but %d documents", step, t, n, len(docs))
			}
			got := map[string]bool{}
			for _, d := range docs {
				if got[d.DocId] {
					return fmt.Errorf("%s: token %q: document %q returned twice", step, t, d.DocId)
				}
				got[d.DocId] = true
				md := m[d.DocId]
				ok := false
				if md != nil && !(md.removed && len(md.pend) == 0) {
					if md.committed != nil && !md.removed && md.committed.kw(t) != nil {
						ok = true
					}
					for _, p := range md.pend {
						ok = ok || p.kw(t) != nil
					}
				}
				if !ok {
					return fmt.Errorf("%s: token %q returns document %q, whose versions do not contain it or which was removed", step, t, d.DocId)
				}
			}
			for _, id := range idList {
				md := m[id]
				if md != nil && md.committed != nil && !md.removed && len(md.pend) == 0 && md.committed.kw(t) != nil && !got[id] {
					return fmt.Errorf("%s: token %q misses committed, untouched document %q", step, t, id)
				}
			}
		}
		for _, id := range idList {
			md := m[id]
			has := ix.HasDoc(id)
			if md == nil {
				if has {
					return fmt.Errorf("%s: HasDoc(%q) true for a document never added", step, id)
				}
				continue
			}
			if md.committed != nil && !md.removed && len(md.pend) == 0 && !has {
				return fmt.Errorf("%s: HasDoc(%q) false for a committed document", step, id)
			}
			if md.removed && len(md.pend) == 0 && has {
				return fmt.Errorf("%s: HasDoc(%q) true after its removal was accepted", step, id)
			}
		}
		return nil
	}
	exact := func(step string) error {
		for _, t := range append(append([]string{}, tokList...), "no-such-token") {
			docs, n := ix.Lookup([]string{t}, nil, nil, false)
			var want []string
			for _, id := range idList {
				if md := m[id]; md != nil && md.committed != nil && md.committed.kw(t) != nil {
					want = append(want, id)
				}
			}
			sort.Sort(sort.Reverse(sort.StringSlice(want)))
			var got []string
			for _, d := range docs {
				got = append(got, d.DocId)
			}
			if !reflect.DeepEqual(got, want) {
				return fmt.Errorf("%s: token %q: got documents %v, want %v", step, t, got, want)
			}
			if n != len(want) {
				return fmt.Errorf("%s: token %q: count %d, want %d", step, t, n, len(want))
			}
			if c.Type == types.FrequenciesIndex {
				// the score shows the frequency (its parameter B is 0)
				live, length := 0, float32(0)
				for _, md := range m {
					if md.committed != nil {
						live++
						length += md.committed.Len
					}
				}
				for _, d := range docs {
					f := float64(m[d.DocId].committed.kw(t).F)
					want := math.Log2(float64(live)/float64(len(docs))+1) * f * 3 / (f + 2)
					if length > 0 && math.Abs(float64(d.BM25)-want) > 1e-4*math.Max(1, want) {
						return fmt.Errorf("%s: token %q in document %q: score %v, want %v for frequency %v", step, t, d.DocId, d.BM25, want, f)
					}
				}
			}
			if c.Type == types.LocsIndex {
				for _, d := range docs {
					w := m[d.DocId].committed.kw(t).S
					var g []int
					if len(d.TokenLocs) > 0 {
						g = d.TokenLocs[0]
					}
					if len(w) != len(g) || (len(w) > 0 && !reflect.DeepEqual(w, g)) {
						return fmt.Errorf("%s: token %q in document %q: locations %v, want %v", step, t, d.DocId, g, w)
					}
				}
			}
		}
		for _, id := range idList {
			want := m[id] != nil && m[id].committed != nil
			if ix.HasDoc(id) != want {
				return fmt.Errorf("%s: HasDoc(%q) = %v, want %v", step, id, !want, want)
			}
		}
		return nil
	}

	if bulkN > 0 {
		add := func(i, v int) {
			d := bulk(i, bulkN, v)
			get(d.ID).pend = []Doc{d}
			ix.AddDocToCache(d.index(), false)
		}
		for i := 0; i < bulkN; i++ {
			add(i, 0)
		}
		ix.AddDocToCache(nil, true)
		settle()
		if err := exact("after many documents"); err != nil {
			return err
		}
		for i := 0; i < bulkN; i += 5 {
			add(i, 1)
		}
		ix.AddDocToCache(nil, true)
		settle()
		for i := 0; i < bulkN; i += 7 {
			id := bulk(i, bulkN, 0).ID
			get(id).removed = true
			ix.RemoveDocToCache(id, false)
		}
		ix.AddDocToCache(nil, true)
		settle()
		if err := exact("after many updates and removals"); err != nil {
			return err
		}
	}
	updates, removals, readds, drops := 0, 0, 0, 0
	batch, full, auto := 0, false, 0
	// pure: since the last forced update only documents unknown to the index
	// were added, so a full cache commits all of them
	pure := true
	for i, o := range c.Ops {
		step := fmt.Sprintf("after op %d (%s)", i, vp.JSON(o))
		switch o.K {
		case "add":
			md := get(o.Doc.ID)
			if md.committed != nil || len(md.pend) > 0 {
				updates++
			}
			if md.removed {
				readds++
			}
			if md.committed != nil || len(md.pend) > 0 || md.removed {
				pure = false
			}
			md.pend = append(md.pend, *o.Doc)
			batch++
			ix.AddDocToCache(o.Doc.index(), o.Force)
			if batch >= c.Cache {
				full, batch = true, 0
				if pure {
					auto++
					for _, d := range m {
						if len(d.pend) > 0 {
							x := d.pend[0]
							d.committed, d.pend = &x, nil
						}
					}
				}
			}
			if o.Force {
				batch, pure = 0, true
				settle()
				if err := exact(step); err != nil {
					return err
				}
				continue
			}
		case "rm":
			md := get(o.ID)
			if len(md.pend) > 0 {
				// they may have been added to the index since
				drops++
				batch -= len(md.pend)
				md.pend, md.removed = nil, true
			} else if md.committed != nil {
				removals++
				md.removed = true
			}
			ix.RemoveDocToCache(o.ID, o.Force)
		case "flush":
			batch, pure = 0, true
			ix.AddDocToCache(nil, true)
			settle()
			if err := exact(step); err != nil {
				return err
			}
			continue
		}
		if err := partial(step); err != nil {
			return err
		}
	}
	ix.AddDocToCache(nil, true)
	settle()
	if err := exact("after final flush"); err != nil {
		return err
	}
	ctx.NonTrivial(updates > 0 || removals > 0)
	ctx.LabelIf(updates > 0, "overwrites a document")
	ctx.LabelIf(removals > 0, "removes a committed document")
	ctx.LabelIf(drops > 0, "removes a document that was added since the last flush")
	ctx.LabelIf(readds > 0, "re-adds while the removal is pending")
	ctx.LabelIf(full, "cache fills up without a forced update")
	ctx.LabelIf(auto > 0, "full cache of new documents commits them")
	ctx.LabelIf(bulkN > 0, "hundreds or thousands of documents")
	ctx.LabelIf(len(c.Ops) > 40, "more than 40 calls")
	ctx.Label("index type %d", c.Type)
	return nil
}

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func init() {
	vp.Register(vp.Prop{
		ID:   "C01",
		Rule: "A case is a history of up to 120 add/remove/flush calls on one indexer with a generated cache size and index type; it is non-trivial if it overwrites a document or removes a committed one.",
		Assumptions: []string{
			"keywords of a document are distinct and their locations ascend, as the engine produces them",
		},
		Quick: vp.Budget{Shards: 8, Checks: 20000}, Thorough: vp.Budget{Shards: 8, Checks: 800000},
		Restart: 5000,
	}, genIndexCase, runIndexCase)
}
