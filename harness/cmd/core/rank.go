package main

import (
	"fmt"
	"math"
	"reflect"
	"sort"

	"github.com/go-ego/riot/core"
	"github.com/go-ego/riot/types"
	"pgregory.net/rapid"
	"verif/harness/internal/vp"
)

// --- C06: ranker --------------------------------------------------------------

// ROp is one call on the ranker.
type ROp struct {
	K  string    `json:"k"` // add, rm, rank
	ID string    `json:"id,omitempty"`
	S  []float32 `json:"s,omitempty"` // scores the document's fields give it
	// NoFields: the document is added with nil fields
	NoFields bool   `json:"nf,omitempty"`
	Content  string `json:"c,omitempty"`
	Attri    string `json:"a,omitempty"`

	Docs    []string `json:"docs,omitempty"`
	Crit    string   `json:"crit,omitempty"` // fields, bm25
	Reverse bool     `json:"rev,omitempty"`
	Offset  int      `json:"off,omitempty"`
	Max     int      `json:"max,omitempty"`
	Count   bool     `json:"count,omitempty"`
}

// RankCase is a history of calls on one ranker.
type RankCase struct {
	IDOnly bool  `json:"idOnly"`
	Ops    []ROp `json:"ops"`
}

type rankFields struct{ S []float32 }

type byFields struct{}

func (byFields) Score(d types.IndexedDoc, f interface{}) []float32 {
	if x, ok := f.(rankFields); ok {
		return x.S
	}
	return nil
}

func genRankCase(t *rapid.T) RankCase {
	c := RankCase{IDOnly: rapid.Bool().Draw(t, "idOnly")}
	nDoc := rapid.IntRange(1, 30).Draw(t, "nDoc")
	maxOps, span := 25, 4
	if rapid.IntRange(0, 3).Draw(t, "big") == 0 {
		nDoc, maxOps = 190, 160
		span = rapid.SampledFrom([]int{2, 100}).Draw(t, "span")
	}
	score := rapid.Custom(func(t *rapid.T) []float32 {
		return rapid.SliceOfN(rapid.Custom(func(t *rapid.T) float32 {
			x := float32(rapid.IntRange(-1, span).Draw(t, "x"))
			switch rapid.IntRange(0, 63).Draw(t, "frac") {
			case 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11:
				x += 0.5
			case 29:
				x *= math.MaxFloat32 / 101
			case 30:
				x *= math.SmallestNonzeroFloat32
			case 31:
				x = 1<<24 - x
			}
			return x
		}), 0, 3).Draw(t, "scores")
	})
	add := func(id string) ROp {
		o := ROp{K: "add", ID: id, S: score.Draw(t, "s")}
		o.NoFields = rapid.IntRange(0, 9).Draw(t, "nf") == 0
		o.Content = rapid.SampledFrom([]string{"", "x", "yy", "zzz"}).Draw(t, "content")
		o.Attri = rapid.SampledFrom([]string{"", "p", "q"}).Draw(t, "attri")
		return o
	}
	n := rapid.IntRange(1, maxOps).Draw(t, "n")
	for i := 0; i < n; i++ {
		switch rapid.IntRange(0, 5).Draw(t, "kind") {
		case 0, 1, 2, 3:
			c.Ops = append(c.Ops, add(idsGen(nDoc).Draw(t, "id")))
		case 4:
			c.Ops = append(c.Ops, ROp{K: "rm", ID: idsGen(nDoc).Draw(t, "id")})
		default:
			c.Ops = append(c.Ops, genRankOp(t, nDoc))
		}
	}
	for i := 0; i < 3; i++ {
		c.Ops = append(c.Ops, genRankOp(t, nDoc))
	}
	return c
}

func genRankOp(t *rapid.T, nDoc int) ROp {
	o := ROp{K: "rank"}
	o.Docs = rapid.SliceOfNDistinct(idsGen(nDoc), 0, nDoc, rapid.ID[string]).Draw(t, "docs")
	if rapid.IntRange(0, 2).Draw(t, "all") > 0 {
		o.Docs = append([]string{}, idPool[:nDoc]...)
	}
	o.Crit = rapid.SampledFrom([]string{"fields", "fields", "bm25"}).Draw(t, "crit")
	o.Reverse = rapid.Bool().Draw(t, "rev")
	o.Count = rapid.IntRange(0, 6).Draw(t, "count") == 0
	if rapid.Bool().Draw(t, "paged") {
		o.Offset = rapid.IntRange(0, nDoc+2).Draw(t, "off")
		o.Max = rapid.IntRange(0, nDoc+2).Draw(t, "max")
		switch rapid.IntRange(0, 15).Draw(t, "extreme") {
		case 0:
			o.Max = math.MaxInt
		case 1:
			o.Offset = math.MaxInt
		case 2:
			o.Offset, o.Max = math.MaxInt-1, math.MaxInt
		}
	}
	return o
}

// scoreLess is the documented order: first score, then second, ...; a document
// with further scores comes before one that ran out of them.
func scoreMore(a, b []float32) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return a[i] > b[i]
		}
	}
	return len(a) > len(b)
}

func runRankCase(ctx *vp.Ctx, c RankCase) error {
	var r core.Ranker
	r.Init(c.IDOnly)
	m := map[string]ROp{}
	for i, o := range c.Ops {
		step := fmt.Sprintf("op %d (%s)", i, vp.JSON(o))
		switch o.K {
		case "add":
			m[o.ID] = o
			var f interface{}
			if !o.NoFields {
				f = rankFields{o.S}
			}
			if c.IDOnly {
				r.AddDoc(o.ID, f)
			} else {
				r.AddDoc(o.ID, f, o.Content, attri(o.Attri))
			}
		case "rm":
			delete(m, o.ID)
			r.RemoveDoc(o.ID)
		case "rank":
			var in []types.IndexedDoc
			for j, id := range o.Docs {
				in = append(in, types.IndexedDoc{DocId: id, BM25: float32(j % 5),
					TokenSnippetLocs: []int{j}, TokenLocs: [][]int{{j, j + 1}}})
			}
			opts := types.RankOpts{ReverseOrder: o.Reverse, OutputOffset: o.Offset, MaxOutputs: o.Max}
			if o.Crit == "bm25" {
				opts.ScoringCriteria = types.RankByBM25{}
			} else {
				opts.ScoringCriteria = byFields{}
			}
			want := map[string][]float32{}
			pos := map[string]int{}
			var order [][]float32
			for j, id := range o.Docs {
				d, ok := m[id]
				if !ok {
					continue
				}
				s := []float32{float32(j % 5)}
				if o.Crit != "bm25" {
					s = d.S
					if d.NoFields {
						s = nil
					}
				}
				if len(s) == 0 {
					continue
				}
				want[id], pos[id] = s, j
				order = append(order, s)
			}
			sort.SliceStable(order, func(a, b int) bool {
				if o.Reverse {
					return scoreMore(order[b], order[a])
				}
				return scoreMore(order[a], order[b])
			})
			out, n := r.Rank(in, opts, o.Count)
			if n != len(want) {
				return fmt.Errorf("%s: reports %d documents, want %d", step, n, len(want))
			}
			var got []types.ScoredDoc
			if c.IDOnly {
				ids, ok := out.(types.ScoredIDs)
				if !ok {
					return fmt.Errorf("%s: an id-only ranker returned %T", step, out)
				}
				for _, d := range ids {
					got = append(got, types.ScoredDoc{ScoredID: d})
				}
			} else {
				docs, ok := out.(types.ScoredDocs)
				if !ok {
					return fmt.Errorf("%s: a ranker returned %T", step, out)
				}
				got = docs
			}
			lo, hi := o.Offset, len(order)
			if lo > hi {
				lo = hi
			}
			if o.Max != 0 && o.Max < hi-lo {
				hi = lo + o.Max
			}
			if o.Count {
				lo, hi = 0, 0
			}
			if len(got) != hi-lo {
				return fmt.Errorf("%s: %d documents, want ranks %d to %d of %d", step, len(got), lo, hi, len(order))
			}
			seen := map[string]bool{}
			for j, d := range got {
				w, ok := want[d.DocId]
				if !ok || seen[d.DocId] {
					return fmt.Errorf("%s: result %d is %q, which is not eligible or already returned", step, j, d.DocId)
				}
				seen[d.DocId] = true
				if !reflect.DeepEqual(d.Scores, w) {
					return fmt.Errorf("%s: %q has scores %v, want %v", step, d.DocId, d.Scores, w)
				}
				if !reflect.DeepEqual(d.Scores, order[lo+j]) {
					return fmt.Errorf("%s: result %d has scores %v, the document of that rank has %v", step, j, d.Scores, order[lo+j])
				}
				p := pos[d.DocId]
				if !reflect.DeepEqual(d.TokenSnippetLocs, []int{p}) || !reflect.DeepEqual(d.TokenLocs, [][]int{{p, p + 1}}) {
					return fmt.Errorf("%s: %q has the locations of another document", step, d.DocId)
				}
				if c.IDOnly {
					continue
				}
				md := m[d.DocId]
				var f interface{}
				if !md.NoFields {
					f = rankFields{md.S}
				}
				if !reflect.DeepEqual(d.Fields, f) || d.Content != md.Content || !reflect.DeepEqual(d.Attri, attri(md.Attri)) {
					return fmt.Errorf("%s: %q has fields %v, content %q, attri %v; last added with %v %q %v", step, d.DocId,
						d.Fields, d.Content, d.Attri, f, md.Content, attri(md.Attri))
				}
			}
			ctx.NonTrivial(len(got) >= 2)
			ctx.LabelIf(o.Count, "count only")
			ctx.LabelIf(len(got) > 12, "more than 12 results")
			ctx.LabelIf(len(got) > 0 && lo > 0, "page with an offset")
			ctx.LabelIf(len(got) > 0 && hi < len(order), "page cut at the maximum")
			ctx.LabelIf(o.Reverse && len(got) > 1, "reverse order")
			ctx.LabelIf(len(want) < len(o.Docs), "drops a removed or scoreless document")
		}
	}
	return nil
}

func attri(s string) interface{} {
	if s == "" {
		return nil
	}
	return s
}

// --- C19: sorting helpers -----------------------------------------------------

// SortCase is a slice, given by a pattern so that long ones stay small.
type SortCase struct {
	Pat string   `json:"pat"` // list, perm, organ, saw, few, killer, shifted
	N   int      `json:"n,omitempty"`
	K   uint64   `json:"k,omitempty"`
	L   []uint64 `json:"l,omitempty"`
}

func genSortCase(t *rapid.T) SortCase {
	c := SortCase{Pat: rapid.SampledFrom([]string{"list", "list", "perm", "organ", "saw", "few", "killer", "shifted", "desc", "asc"}).Draw(t, "pat")}
	if c.Pat == "list" {
		hi := rapid.SampledFrom([]uint64{1, 3, 20, 1000, math.MaxUint64}).Draw(t, "hi")
		n := rapid.SampledFrom([]int{6, 9, 25, 60, 300}).Draw(t, "n")
		c.L = rapid.SliceOfN(rapid.Uint64Range(0, hi), 0, n).Draw(t, "l")
		return c
	}
	c.N = rapid.IntRange(0, rapid.SampledFrom([]int{50, 200, 2500}).Draw(t, "max")).Draw(t, "n")
	c.K = rapid.Uint64Range(0, 1000).Draw(t, "k")
	return c
}

func (c SortCase) data() []uint64 {
	if c.Pat == "list" {
		return append([]uint64{}, c.L...)
	}
	n, k := uint64(c.N), c.K
	out := make([]uint64, c.N)
	x := k*2654435761 + 1
	for i := uint64(0); i < n; i++ {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		switch c.Pat {
		case "perm":
			out[i] = x
		case "organ":
			if i < n/2 {
				out[i] = i
			} else {
				out[i] = n - i
			}
		case "saw":
			out[i] = i % (k%50 + 1)
		case "few":
			out[i] = x % (k%5 + 1)
		case "killer": // alternating ends: bad pivots
			if i%2 == 0 {
				out[i] = i
			} else {
				out[i] = n*2 - i
			}
		case "shifted":
			if n > 0 {
				out[i] = (i + k) % n
			}
		case "desc":
			out[i] = n - i
			if k > 0 && x%k == 0 {
				out[i] = x % n
			}
		case "asc":
			out[i] = i
			if k > 0 && x%k == 0 {
				out[i] = x % n
			}
		}
	}
	if c.Pat == "killer" && k%2 == 1 {
		adversary(out)
	}
	return out
}

// adversary fills data with McIlroy's killer sequence: it runs a median-of-nine
// quicksort whose comparisons are answered so that every pivot is as bad as
// possible, which drives a quicksort of that shape to its heapsort fallback.
func adversary(d []uint64) {
	n := len(d)
	const gas = math.MaxUint64
	val := make([]uint64, n)
	ptr := make([]int, n)
	for i := range val {
		val[i], ptr[i] = gas, i
	}
	solid, cand := uint64(0), 0
	cmp := func(x, y int) int { // compares items x and y
		if val[x] == gas && val[y] == gas {
			if x == cand {
				val[x] = solid
			} else {
				val[y] = solid
			}
			solid++
		}
		if val[x] == gas {
			cand = x
		} else if val[y] == gas {
			cand = y
		}
		switch {
		case val[x] < val[y]:
			return -1
		case val[x] > val[y]:
			return 1
		}
		return 0
	}
	less := func(i, j int) bool { return cmp(ptr[i], ptr[j]) < 0 }
	swap := func(i, j int) { ptr[i], ptr[j] = ptr[j], ptr[i] }
	med := func(m1, m0, m2 int) {
		if less(m1, m0) {
			swap(m1, m0)
		}
		if less(m2, m1) {
			swap(m2, m1)
		}
		if less(m1, m0) {
			swap(m1, m0)
		}
	}
	var qs func(lo, hi int)
	qs = func(lo, hi int) {
		for hi-lo > 7 {
			m := lo + (hi-lo)/2
			if hi-lo > 40 {
				s := (hi - lo) / 8
				med(lo, lo+s, lo+2*s)
				med(m, m-s, m+s)
				med(hi-1, hi-1-s, hi-1-2*s)
			}
			med(lo, m, hi-1)
			i := lo + 1
			for j := lo + 1; j < hi; j++ {
				if less(j, lo) {
					swap(i, j)
					i++
				}
			}
			swap(lo, i-1)
			qs(lo, i-1)
			lo = i
		}
		for i := lo + 1; i < hi; i++ {
			for j := i; j > lo && less(j, j-1); j-- {
				swap(j, j-1)
			}
		}
	}
	qs(0, n)
	for i := range d {
		d[i] = val[i]
		if d[i] == gas {
			d[i] = uint64(n)
		}
	}
}

func runSortCase(ctx *vp.Ctx, c SortCase) error {
	in := c.data()
	asc := append([]uint64{}, in...)
	sort.Slice(asc, func(a, b int) bool { return asc[a] < asc[b] })
	desc := append([]uint64{}, in...)
	sort.Slice(desc, func(a, b int) bool { return desc[a] > desc[b] })
	for _, f := range []struct {
		name string
		fn   func([]uint64)
		want []uint64
	}{{"Asc", core.Asc, asc}, {"Desc", core.Desc, desc}, {"StableAsc", core.StableAsc, asc}, {"StableDesc", core.StableDesc, desc}} {
		// guard bands: the helpers may not touch anything around the slice
		buf := make([]uint64, len(in)+4)
		for i := range buf {
			buf[i] = 0xdeadbeef
		}
		d := buf[2 : 2+len(in)]
		copy(d, in)
		f.fn(d)
		if len(d) > 0 && !reflect.DeepEqual(d, f.want) {
			for i := range d {
				if d[i] != f.want[i] {
					return fmt.Errorf("%s on %d values: element %d is %d, want %d", f.name, len(in), i, d[i], f.want[i])
				}
			}
		}
		for _, i := range []int{0, 1, len(buf) - 2, len(buf) - 1} {
			if buf[i] != 0xdeadbeef {
				return fmt.Errorf("%s writes outside its slice", f.name)
			}
		}
	}
	wantAsc, wantDesc := sort.SliceIsSorted(in, func(a, b int) bool { return in[a] < in[b] }), sort.SliceIsSorted(in, func(a, b int) bool { return in[a] > in[b] })
	if g := core.IsSortedAsc(in); g != wantAsc {
		return fmt.Errorf("IsSortedAsc = %v for %d values, want %v", g, len(in), wantAsc)
	}
	if g := core.IsSortedDesc(in); g != wantDesc {
		return fmt.Errorf("IsSortedDesc = %v for %d values, want %v", g, len(in), wantDesc)
	}
	if !core.IsSortedAsc(asc) || !core.IsSortedDesc(desc) {
		return fmt.Errorf("IsSortedAsc/IsSortedDesc false for a sorted slice of %d", len(in))
	}
	ctx.NonTrivial(len(in) > 7)
	ctx.Label("pattern %s", c.Pat)
	ctx.LabelIf(len(in) > 40, "more than 40 values")
	ctx.LabelIf(len(in) > 1000, "more than 1000 values")
	return nil
}

func init() {
	vp.Register(vp.Prop{
		ID:          "C06",
		Rule:        "A case is a history of up to 160 AddDoc/RemoveDoc/Rank calls on one ranker; non-trivial if a Rank call returns at least two documents.",
		Assumptions: []string{"scores are not NaN; ties may come in any order", "a document is always added with its content and attribute, as the engine does"},
		Quick:       vp.Budget{Shards: 8, Checks: 8000}, Thorough: vp.Budget{Shards: 8, Checks: 320000}, Restart: 5000,
	}, genRankCase, runRankCase)
	vp.Register(vp.Prop{
		ID:    "C19",
		Rule:  "A case is one slice of up to 2500 uint64 values, sorted by all four helpers; non-trivial if it has more than 7 values.",
		Quick: vp.Budget{Shards: 8, Checks: 40000}, Thorough: vp.Budget{Shards: 8, Checks: 1600000}, Restart: 20000,
	}, genSortCase, runSortCase)
}
