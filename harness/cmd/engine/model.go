package main

import (
	"fmt"
	"math"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"

	"github.com/go-ego/gse"
	"github.com/go-ego/riot"
	"github.com/go-ego/riot/types"
	"pgregory.net/rapid"
	"verif/harness/internal/vp"
)

// Fields are the scoring fields of generated documents.
type Fields struct{ A, B float32 }

// Tok is an explicit token of a document.
type Tok struct {
	T string `json:"t"`
	L []int  `json:"l,omitempty"`
}

// EDoc is a generated document.
type EDoc struct {
	C   string   `json:"c,omitempty"`
	Tok []Tok    `json:"tok,omitempty"`
	Lab []string `json:"lab,omitempty"`
	F   *Fields  `json:"f,omitempty"`
	At  string   `json:"at,omitempty"` // attribute: "" none, "s:..." string, "t:..." types.Attri, "u:..." unstorable
}

func (d EDoc) attri() interface{} {
	switch {
	case strings.HasPrefix(d.At, "s:"):
		return d.At[2:]
	case strings.HasPrefix(d.At, "t:"):
		return types.Attri{Title: d.At[2:], Ts: int64(len(d.At))}
	case strings.HasPrefix(d.At, "u:"):
		return unstorable{d.At[2:]}
	}
	return nil
}

// unstorable is an attribute whose type is not registered with encoding/gob: a
// store cannot hold its document.
type unstorable struct{ Text string }

func (d EDoc) fields() interface{} {
	if d.F == nil {
		return nil
	}
	return *d.F
}

func (d EDoc) data() types.DocData {
	x := types.DocData{Content: d.C, Attri: d.attri(), Fields: d.fields()}
	for _, t := range d.Tok {
		x.Tokens = append(x.Tokens, types.TokenData{Text: t.T, Locations: append([]int(nil), t.L...)})
	}
	x.Labels = append(x.Labels, d.Lab...)
	return x
}

// keys gives the locations of every search key of a document whose keywords
// are only its tokens and labels.
func (d EDoc) keys() map[string][]int {
	m := map[string][]int{}
	for _, t := range d.Tok {
		m[t.T] = t.L
	}
	for _, l := range d.Lab {
		if _, ok := m[l]; !ok {
			m[l] = nil
		}
	}
	return m
}

// explicit says whether the keywords of a document are its tokens and labels only.
func (c Cfg) explicit() bool { return c.Using == 2 && c.NotGse && !c.PinYin }

// keys gives the locations of every search key of a document; located lists
// the keys whose locations are defined.
func (c Cfg) keys(d EDoc) map[string][]int {
	k, _ := c.located(d)
	return k
}

func (c Cfg) located(d EDoc) (map[string][]int, map[string]bool) {
	if c.explicit() {
		return d.keys(), nil
	}
	if len(d.C) < 400 {
		seg := testSegmenter()
		return KeyCase{Cfg: c}.keywords(&seg, d)
	}
	// the words of long texts are kept
	key := fmt.Sprintf("%v %v %v %v %q %q %q %q", c.Using, c.NotGse, c.GseMode, c.PinYin, c.Stop, d.C, d.Tok, d.Lab)
	type words struct {
		keys    map[string][]int
		located map[string]bool
	}
	if w, ok := longWords.Load(key); ok {
		return w.(words).keys, w.(words).located
	}
	seg := testSegmenter()
	k, l := KeyCase{Cfg: c}.keywords(&seg, d)
	longWords.Store(key, words{k, l})
	return k, l
}

var longWords sync.Map

// longContent is a long text, which ends in words of its own.
func longContent(t *rapid.T, c Cfg, head string, most int) string {
	// joined words and characters would make it longer still
	if c.Using == 6 {
		most = 60
	} else if c.PinYin || c.Using == 3 || c.Using == 5 {
		most = 300
	} else if c.Hmm {
		most = min(most, 3000) // the HMM takes its time on what it does not know
	} else if c.NotGse || c.Using == 4 {
		most = min(most, 6000)
	}
	word := rapid.SampledFrom([]string{"world ", "t1 ", "hello foo ", "世界 ", "中国人 有 "}).Draw(t, "pad")
	if n := rapid.SampledFrom([]int{2600, most, 300, 1300, most, 6000, most}).Draw(t, "len"); n < most {
		most = n
	}
	return head + " " + strings.Repeat(word, most/len(word)+1) + rapid.SampledFrom([]string{"bar", "人口 t2", "a b"}).Draw(t, "end")
}

// lengthen makes the content of a document of a history long, at times; the
// short version may follow at once.
func lengthen(t *rapid.T, c Cfg, ops []EOp, most int) []EOp {
	if rapid.IntRange(0, 31).Draw(t, "lengthen") != 17 {
		return ops
	}
	var at []int
	for i, o := range ops {
		if o.K == "index" {
			at = append(at, i)
		}
	}
	if len(at) == 0 {
		return ops
	}
	i := rapid.SampledFrom(at).Draw(t, "lengthenAt")
	o, d := ops[i], *ops[i].Doc
	d.C = longContent(t, c, d.C, most)
	o.Doc = &d
	if rapid.Bool().Draw(t, "both") {
		return append(append(append([]EOp{}, ops[:i]...), o), ops[i:]...)
	}
	ops[i] = o
	return ops
}

// tokens are the query tokens of a search.
func (c Cfg) tokens(q Query) []string {
	if c.NotGse {
		return q.tokens()
	}
	var out []string
	if q.Text != "" {
		seg := testSegmenter()
		out = KeyCase{Cfg: c}.segment(&seg, strings.ToLower(q.Text))
	}
	return append(out, q.Tok...)
}

// matches says whether a document satisfies the query.
func (c Cfg) matches(q Query, id string, d EDoc) bool {
	return q.matches(id, c.keys(d), append(c.tokens(q), q.Lab...))
}

// Cfg is a generated engine configuration; 0 means the engine's default.
type Cfg struct {
	Shards  int    `json:"shards"`
	Type    int    `json:"type"` // index type
	Cache   int    `json:"cache"`
	Buf     int    `json:"buf"`
	IdxTh   int    `json:"idxTh"`
	RankBuf int    `json:"rankBuf"`
	RankTh  int    `json:"rankTh"`
	GseTh   int    `json:"gseTh"`
	IDOnly  bool   `json:"idOnly,omitempty"`
	Using   int    `json:"using"`
	NotGse  bool   `json:"notGse"`
	GseMode bool   `json:"gseMode,omitempty"`
	Hmm     bool   `json:"hmm,omitempty"`
	PinYin  bool   `json:"pinyin,omitempty"`
	Stop    string `json:"stop,omitempty"`   // stop tokens, space separated
	StopIn  int    `json:"stopIn,omitempty"` // how the file of stop tokens is written
	Store   string `json:"store,omitempty"`
	Stores  int    `json:"stores,omitempty"`
}

func genCfg(t *rapid.T) Cfg {
	return Cfg{
		Shards:  rapid.SampledFrom([]int{1, 2, 3, 1, 5}).Draw(t, "shards"),
		Type:    rapid.SampledFrom([]int{types.LocsIndex, types.FrequenciesIndex, types.DocIdsIndex}).Draw(t, "type"),
		Cache:   rapid.SampledFrom([]int{3, 2, 1, 8, 64, 500}).Draw(t, "cache"),
		Buf:     rapid.SampledFrom([]int{4, 1, 16}).Draw(t, "buf"),
		IdxTh:   rapid.SampledFrom([]int{1, 2, 4}).Draw(t, "idxTh"),
		RankBuf: rapid.SampledFrom([]int{4, 1, 16}).Draw(t, "rankBuf"),
		RankTh:  rapid.SampledFrom([]int{1, 2, 4}).Draw(t, "rankTh"),
		GseTh:   rapid.SampledFrom([]int{1, 1, 2, 4}).Draw(t, "gseTh"),
		IDOnly:  rapid.IntRange(0, 3).Draw(t, "idOnly") == 0,
		Using:   2, NotGse: true,
	}
}

// genMode draws a configuration that takes keywords from the content as well
// in one of three cases.
func genMode(t *rapid.T) Cfg {
	c := genCfg(t)
	if rapid.IntRange(0, 2).Draw(t, "mode") == 0 {
		s := genSemantics(t)
		c.Using, c.NotGse, c.GseMode, c.PinYin, c.Stop, c.StopIn = s.Using, s.NotGse, s.GseMode, s.PinYin, s.Stop, s.StopIn
	}
	return c
}

var smallDict = []string{"世界", "有", "七", "亿", "人", "口", "七十", "七十亿", "人口", "世", "界", "十", "中国", "中", "国", "中国人", "北京", "大学", "北京大学", "学"}

var segmenter gse.Segmenter
var segLoaded bool
var segMu sync.Mutex

func testSegmenter() gse.Segmenter {
	segMu.Lock()
	defer segMu.Unlock()
	if !segLoaded {
		dir, err := scratchFile("dict.txt", func() string {
			var b strings.Builder
			for i, w := range smallDict {
				fmt.Fprintf(&b, "%s %d n\n", w, 20+i*3)
			}
			for _, w := range []string{"hello", "world", "foo"} {
				fmt.Fprintf(&b, "%s 10 n\n", w)
			}
			return b.String()
		}())
		if err != nil {
			vp.Abort("%v", err)
		}
		if err := segmenter.LoadDict(dir); err != nil {
			vp.Abort("dictionary: %v", err)
		}
		segLoaded = true
	}
	return segmenter
}

// stopFile is a file of stop tokens, one on each line.
func stopFile(form int, words []string) string {
	switch form {
	case 1: // lines end as on Windows
		return strings.Join(words, "\r\n") + "\r\n"
	case 2: // no line end after the last word
		return strings.Join(words, "\n")
	case 3: // empty lines and words listed twice
		return "\n" + strings.Join(words, "\n\n") + "\n" + strings.Join(words, "\n") + "\n\n"
	case 4: // a long list, of which little ever occurs in a text
		var b strings.Builder
		for i := 0; i < 2000; i++ {
			fmt.Fprintf(&b, "neverused%d\n", i)
		}
		return b.String() + strings.Join(words, "\n") + "\n"
	}
	return strings.Join(words, "\n") + "\n"
}

// genStopForm draws how the file of stop tokens is written.
func genStopForm(t *rapid.T) int {
	return rapid.SampledFrom([]int{0, 0, 1, 2, 3, 4}).Draw(t, "stopIn")
}

// opts turns the configuration into engine options.
func (c Cfg) opts(dir string) types.EngineOpts {
	o := types.EngineOpts{
		NotUseGse: c.NotGse, Using: c.Using, GseMode: c.GseMode, Hmm: c.Hmm, PinYin: c.PinYin,
		NumGseThreads: c.GseTh, NumShards: c.Shards,
		IndexerBufLen: c.Buf, NumIndexerThreads: c.IdxTh,
		RankerBufLen: c.RankBuf, NumRankerThreads: c.RankTh,
		IndexerOpts: &types.IndexerOpts{IndexType: c.Type, DocCacheSize: c.Cache,
			BM25Parameters: &types.BM25Parameters{K1: 2, B: 0.75}},
		IDOnly: c.IDOnly,
	}
	if c.Stop != "" && !c.NotGse {
		f, err := scratchFile(fmt.Sprintf("stop-%d-%x.txt", c.StopIn, c.Stop), stopFile(c.StopIn, strings.Fields(c.Stop)))
		if err != nil {
			vp.Abort("%v", err)
		}
		o.StopTokenFile = f
	}
	if c.Store != "" {
		o.UseStore, o.StoreEngine, o.StoreShards = true, c.Store, c.Stores
		o.StoreFolder = filepath.Join(dir, "store")
	}
	return o
}

func (c Cfg) open(dir string) *riot.Engine {
	e := &riot.Engine{}
	if !c.NotGse {
		e.WithGse(testSegmenter())
	}
	e.Init(c.opts(dir))
	return e
}

// Query is a generated search request.
type Query struct {
	Text    string          `json:"text,omitempty"`
	Tok     []string        `json:"tok,omitempty"`
	Lab     []string        `json:"lab,omitempty"`
	IDs     map[string]bool `json:"ids,omitempty"`
	FMust   bool            `json:"fMust,omitempty"`
	FShould bool            `json:"fShould,omitempty"`
	Must    []string        `json:"must,omitempty"`
	Should  []string        `json:"should,omitempty"`
	NotIn   []string        `json:"notIn,omitempty"`
	Crit    string          `json:"crit,omitempty"` // fields, const, bm25 (none), explicit bm25
	Rev     bool            `json:"rev,omitempty"`
	Off     int             `json:"off,omitempty"`
	Max     int             `json:"max,omitempty"`
	Count   bool            `json:"count,omitempty"`
	Free    bool            `json:"free,omitempty"` // orderless
	Timeout int             `json:"timeout,omitempty"`
	Plain   bool            `json:"plain,omitempty"` // the request has no rank options
}

func (q Query) logic() bool {
	return q.FMust || q.FShould || len(q.Must)+len(q.Should)+len(q.NotIn) > 0
}

type byFields struct{}

func (byFields) Score(d types.IndexedDoc, f interface{}) []float32 {
	if x, ok := f.(Fields); ok {
		return []float32{x.A, x.B}
	}
	return nil
}

type byConst struct{}

func (byConst) Score(types.IndexedDoc, interface{}) []float32 { return []float32{1} }

func (q Query) req() types.SearchReq {
	r := types.SearchReq{Text: q.Text, Tokens: append([]string(nil), q.Tok...), Labels: append([]string(nil), q.Lab...),
		DocIds: q.IDs, CountDocsOnly: q.Count, Orderless: q.Free, Timeout: q.Timeout}
	r.Logic = types.Logic{Must: q.FMust, Should: q.FShould, Expr: types.Expr{Must: q.Must, Should: q.Should, NotIn: q.NotIn}}
	ro := types.RankOpts{ReverseOrder: q.Rev, OutputOffset: q.Off, MaxOutputs: q.Max}
	switch q.Crit {
	case "fields":
		ro.ScoringCriteria = byFields{}
	case "const":
		ro.ScoringCriteria = byConst{}
	case "explicit bm25":
		ro.ScoringCriteria = types.RankByBM25{}
	}
	if r.RankOpts = &ro; q.Plain {
		r.RankOpts = nil
	}
	return r
}

// plain drops the rank options of a query that needs none, at times.
func plain(t *rapid.T, q *Query) {
	if q.Crit == "bm25" && !q.Rev && q.Off == 0 && q.Max == 0 {
		q.Plain = rapid.Bool().Draw(t, "plain")
	}
}

// asked repeats a query of the same history, at times.
type asked []Query

func (a *asked) next(t *rapid.T, nID int) *Query {
	if len(*a) > 0 && rapid.IntRange(0, 3).Draw(t, "repeat") == 2 {
		q := rapid.SampledFrom(*a).Draw(t, "asked")
		return &q
	}
	q := genQuery(t, nID)
	plain(t, &q)
	*a = append(*a, q)
	return &q
}

// tokens are the query tokens of a configuration without segmenter.
func (q Query) tokens() []string {
	var out []string
	if q.Text != "" {
		out = strings.Split(strings.ToLower(q.Text), " ")
	}
	return append(out, q.Tok...)
}

func contains(m map[string][]int, k string) bool { _, ok := m[k]; return ok }

// matches says whether a document satisfies the query.
func (q Query) matches(id string, keys map[string][]int, kws []string) bool {
	if q.logic() {
		must, should := q.Must, q.Should
		if q.FMust && len(must) == 0 {
			must = kws
		}
		if q.FShould && len(should) == 0 {
			should = kws
		}
		for _, k := range must {
			if !contains(keys, k) {
				return false
			}
		}
		if len(should) > 0 {
			any := false
			for _, k := range should {
				any = any || contains(keys, k)
			}
			if !any {
				return false
			}
		}
		for _, k := range q.NotIn {
			if contains(keys, k) {
				return false
			}
		}
		return true
	}
	if len(kws) == 0 {
		return false
	}
	if q.IDs != nil {
		if _, ok := q.IDs[id]; !ok {
			return false
		}
	}
	for _, k := range kws {
		if !contains(keys, k) {
			return false
		}
	}
	return true
}

func scoreMore(a, b []float32) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return a[i] > b[i]
		}
	}
	return len(a) > len(b)
}

// got normalises a search response.
type got struct {
	types.BaseResp
	docs   []types.ScoredDoc
	noDocs bool
}

func normalise(c Cfg, r types.SearchResp) (got, error) {
	g := got{BaseResp: r.BaseResp}
	switch x := r.Docs.(type) {
	case nil:
		g.noDocs = true
	case types.ScoredDocs:
		if c.IDOnly {
			return g, fmt.Errorf("an id-only engine returns %T", x)
		}
		g.docs = x
	case types.ScoredIDs:
		if !c.IDOnly {
			return g, fmt.Errorf("an engine with contents returns %T", x)
		}
		for _, d := range x {
			g.docs = append(g.docs, types.ScoredDoc{ScoredID: d})
		}
	default:
		return g, fmt.Errorf("unexpected result type %T", x)
	}
	return g, nil
}

// model is the expected content of an engine whose keywords are only explicit.
type model struct {
	cfg   Cfg
	live  map[string]EDoc   // as of the last flush
	dirty map[string][]EDoc // versions indexed since, by document touched since

	measures map[string]measure
}

func newModel(c Cfg) *model {
	return &model{cfg: c, live: map[string]EDoc{}, dirty: map[string][]EDoc{}}
}

// weak judges a search made while operations are under way.
func (m *model) weak(q Query, r types.SearchResp) error {
	g, err := normalise(m.cfg, r)
	if err != nil {
		return err
	}
	seen := map[string]bool{}
	for _, d := range g.docs {
		if seen[d.DocId] {
			return fmt.Errorf("document %q returned twice", d.DocId)
		}
		seen[d.DocId] = true
		ok := false
		if x, is := m.live[d.DocId]; is {
			ok = m.cfg.matches(q, d.DocId, x)
		}
		for _, x := range m.dirty[d.DocId] {
			ok = ok || m.cfg.matches(q, d.DocId, x)
		}
		if !ok {
			return fmt.Errorf("returns document %q, no version of which matches", d.DocId)
		}
	}
	if q.Off == 0 && q.Max == 0 && !q.Count {
		for id, d := range m.live {
			if _, dirty := m.dirty[id]; dirty {
				continue
			}
			if m.cfg.matches(q, id, d) && (q.Free || q.Crit != "fields" || d.F != nil) && !seen[id] {
				return fmt.Errorf("misses document %q, untouched since it was flushed", id)
			}
		}
	}
	return nil
}

// exact judges a search made on a flushed engine.
func (m *model) exact(q Query, r types.SearchResp) error {
	g, err := normalise(m.cfg, r)
	if err != nil {
		return err
	}
	if g.Timeout {
		return fmt.Errorf("reports a timeout")
	}
	if want := m.cfg.tokens(q); !reflect.DeepEqual(append([]string{}, g.Tokens...), append([]string{}, want...)) {
		return fmt.Errorf("reports tokens %q, want %q", g.Tokens, want)
	}
	match := map[string]bool{}
	ranked := 0
	for id, d := range m.live {
		if m.cfg.matches(q, id, d) {
			match[id] = true
			if q.Crit != "fields" || d.F != nil {
				ranked++
			}
		}
	}
	if q.Count {
		if !g.noDocs || len(g.docs) > 0 {
			return fmt.Errorf("a counting search returns documents")
		}
		if g.NumDocs != len(match) {
			return fmt.Errorf("counts %d documents, want %d", g.NumDocs, len(match))
		}
		return nil
	}
	seen := map[string]bool{}
	for _, d := range g.docs {
		if seen[d.DocId] {
			return fmt.Errorf("document %q returned twice", d.DocId)
		}
		seen[d.DocId] = true
		if !match[d.DocId] {
			return fmt.Errorf("returns document %q, which does not match", d.DocId)
		}
	}
	if q.Free {
		if len(g.docs) != len(match) || g.NumDocs != len(match) {
			return fmt.Errorf("orderless: %d documents, NumDocs %d, want %d", len(g.docs), g.NumDocs, len(match))
		}
		return nil
	}
	if g.NumDocs != ranked {
		return fmt.Errorf("NumDocs %d, want %d", g.NumDocs, ranked)
	}
	lo := q.Off
	if lo > ranked {
		lo = ranked
	}
	hi := ranked
	if q.Max > 0 && q.Max < hi-lo {
		hi = lo + q.Max
	}
	if len(g.docs) != hi-lo {
		return fmt.Errorf("%d documents returned, want ranks %d to %d of %d", len(g.docs), lo, hi, ranked)
	}
	var order [][]float32
	switch q.Crit {
	case "fields", "const":
		for id := range match {
			s := []float32{1}
			if q.Crit == "fields" {
				f := m.live[id].F
				if f == nil {
					continue
				}
				s = []float32{f.A, f.B}
			}
			order = append(order, s)
		}
		sort.Slice(order, func(a, b int) bool {
			if q.Rev {
				return scoreMore(order[b], order[a])
			}
			return scoreMore(order[a], order[b])
		})
	}
	for i, d := range g.docs {
		x := m.live[d.DocId]
		switch q.Crit {
		case "fields":
			if x.F == nil || !reflect.DeepEqual(d.Scores, []float32{x.F.A, x.F.B}) {
				return fmt.Errorf("document %q has scores %v, its fields are %v", d.DocId, d.Scores, x.F)
			}
			if !reflect.DeepEqual(d.Scores, order[lo+i]) {
				return fmt.Errorf("rank %d has scores %v, want %v", lo+i, d.Scores, order[lo+i])
			}
		case "const":
			if !reflect.DeepEqual(d.Scores, []float32{1}) {
				return fmt.Errorf("document %q has scores %v, want [1]", d.DocId, d.Scores)
			}
		default:
			if len(d.Scores) != 1 {
				return fmt.Errorf("document %q has BM25 scores %v", d.DocId, d.Scores)
			}
			if i > 0 {
				a, b := g.docs[i-1].Scores, d.Scores
				if q.Rev {
					a, b = b, a
				}
				if scoreMore(b, a) {
					return fmt.Errorf("rank %d has score %v after %v", lo+i, d.Scores, g.docs[i-1].Scores)
				}
			}
			if m.cfg.Shards == 1 && !q.logic() && m.cfg.Type != types.DocIdsIndex {
				if want, ok := m.bm25(q, x); ok && math.Abs(float64(d.Scores[0])-want) > 1e-3*math.Max(1, math.Abs(want)) {
					return fmt.Errorf("document %q has BM25 score %v, want %v", d.DocId, d.Scores[0], want)
				}
			}
		}
		if !m.cfg.IDOnly {
			if d.Content != x.C {
				return fmt.Errorf("document %q has content %q, want %q", d.DocId, d.Content, x.C)
			}
			if !reflect.DeepEqual(d.Fields, x.fields()) {
				return fmt.Errorf("document %q has fields %v, want %v", d.DocId, d.Fields, x.fields())
			}
			if !reflect.DeepEqual(d.Attri, x.attri()) {
				return fmt.Errorf("document %q has attribute %v, want %v", d.DocId, d.Attri, x.attri())
			}
		}
		if m.cfg.Type == types.LocsIndex && !q.logic() {
			if err := m.locations(q, d, x); err != nil {
				return err
			}
		}
	}
	return nil
}

// probe searches every keyword of the indexed documents (at most 60 of them).
func (m *model) probe(e *riot.Engine) error {
	all := map[string]bool{}
	for _, d := range m.live {
		for k := range m.cfg.keys(d) {
			if k != "" {
				all[k] = true
			}
		}
	}
	var keys []string
	for k := range all {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	step := len(keys)/60 + 1
	for i := 0; i < len(keys); i += step {
		q := Query{Tok: []string{keys[i]}, Crit: "const"}
		if err := m.exact(q, e.Search(q.req())); err != nil {
			return fmt.Errorf("keyword %q: %v", keys[i], err)
		}
	}
	return nil
}

func (m *model) locations(q Query, d types.ScoredDoc, x EDoc) error {
	keys, located := m.cfg.located(x)
	toks := m.cfg.tokens(q)
	for _, t := range toks {
		if len(keys[t]) == 0 || located != nil && !located[t] {
			return nil // no position data for this document
		}
	}
	if len(toks) == 0 {
		return nil
	}
	if len(d.TokenLocs) != len(toks) || len(d.TokenSnippetLocs) != len(toks) {
		return fmt.Errorf("document %q has %d token locations and %d snippet locations for %d tokens", d.DocId, len(d.TokenLocs), len(d.TokenSnippetLocs), len(toks))
	}
	for i, t := range toks {
		if !reflect.DeepEqual(d.TokenLocs[i], keys[t]) {
			return fmt.Errorf("document %q: locations of %q are %v, want %v", d.DocId, t, d.TokenLocs[i], keys[t])
		}
		in := false
		for _, l := range keys[t] {
			in = in || l == d.TokenSnippetLocs[i]
		}
		if !in {
			return fmt.Errorf("document %q: snippet location %d of %q is not one of %v", d.DocId, d.TokenSnippetLocs[i], t, keys[t])
		}
	}
	return nil
}

// measure gives the frequencies and the length of a document.
func (m *model) measure(d EDoc) measure {
	key := fmt.Sprintf("%q %q %q", d.C, d.Tok, d.Lab)
	if x, ok := m.measures[key]; ok {
		return x
	}
	if m.measures == nil {
		m.measures = map[string]measure{}
	}
	seg := testSegmenter()
	_, _, x := KeyCase{Cfg: m.cfg}.measured(&seg, d)
	m.measures[key] = x
	return x
}

// bm25 evaluates the documented formula on a single shard.
func (m *model) bm25(q Query, x EDoc) (float64, bool) {
	var docs []measure
	for _, d := range m.live {
		docs = append(docs, m.measure(d))
	}
	return bm25(docs, m.cfg.tokens(q), m.measure(x), m.cfg.Type == types.LocsIndex, 2, 0.75)
}

// bm25 evaluates the documented formula for a document of a shard. On a
// location index a token that has no location leaves the score open.
func bm25(shard []measure, tokens []string, x measure, locs bool, k1, b float64) (float64, bool) {
	n, total := float64(len(shard)), 0.0
	for _, d := range shard {
		total += float64(d.length)
	}
	avg := total / n
	score := 0.0
	for _, t := range tokens {
		f := float64(x.freq[t])
		if f == 0 {
			if locs {
				return 0, false
			}
			continue
		}
		if avg == 0 {
			continue
		}
		df := 0.0
		for _, d := range shard {
			if _, ok := d.freq[t]; ok {
				df++
			}
		}
		score += math.Log2(n/df+1) * f * (k1 + 1) / (f + k1*(1-b+b*float64(x.length)/avg))
	}
	return score, true
}

// --- generators ------------------------------------------------------------------

var eids = func() []string {
	out := []string{"1", "2", "3", "10", "a", "ab", "é", "文", "00", "-1", "B", "A", "01", "a ", strings.Repeat("长", 100), "a\x00b"}
	for i := 0; i < 60; i++ {
		out = append(out, fmt.Sprintf("d%d", i*13%60))
	}
	return out
}()

var etoks = []string{"t1", "t2", "t3", "文字", "x", "yy", "t7"}
var elabs = []string{"l1", "l2", "t1", "标签"}
var econts = []string{"", "alpha", "beta", "gamma", "delta", "文", "eps"}

func genDoc(t *rapid.T) EDoc {
	d := EDoc{C: rapid.SampledFrom(econts).Draw(t, "content")}
	if rapid.IntRange(0, 2).Draw(t, "text") == 0 {
		d.C = genText(t, "words", 1, 4)
	}
	for _, k := range rapid.SliceOfNDistinct(rapid.SampledFrom(etoks), 0, 4, rapid.ID[string]).Draw(t, "toks") {
		tk := Tok{T: k}
		if rapid.IntRange(0, 9).Draw(t, "noloc") > 0 {
			tk.L = rapid.SliceOfNDistinct(rapid.IntRange(0, 30), 1, 3, rapid.ID[int]).Draw(t, "locs")
			sort.Ints(tk.L)
		}
		d.Tok = append(d.Tok, tk)
	}
	d.Lab = rapid.SliceOfNDistinct(rapid.SampledFrom(elabs), 0, 2, rapid.ID[string]).Draw(t, "labs")
	if rapid.IntRange(0, 5).Draw(t, "nofields") > 0 {
		d.F = &Fields{float32(rapid.IntRange(0, 5).Draw(t, "A")), float32(rapid.IntRange(0, 5).Draw(t, "B"))}
	}
	d.At = rapid.SampledFrom([]string{"", "s:x", "s:yy", "t:title"}).Draw(t, "attri")
	sameWord(t, &d)
	if rapid.IntRange(0, 15).Draw(t, "upper") == 9 {
		d.Tok = append(drop(d.Tok, "T1"), Tok{T: "T1", L: []int{2, 31}})
	}
	return d
}

// sameWord makes some documents say a word of their content again, as a token
// or as a label.
func sameWord(t *rapid.T, d *EDoc) {
	words := strings.Fields(d.C)
	if len(words) == 0 || rapid.IntRange(0, 5).Draw(t, "again") != 3 {
		return
	}
	w := rapid.SampledFrom(words).Draw(t, "same")
	if rapid.Bool().Draw(t, "lower") {
		w = strings.ToLower(w)
	}
	if rapid.IntRange(0, 3).Draw(t, "asLabel") == 1 {
		d.Lab = append(drops(d.Lab, w), w)
		return
	}
	k := Tok{T: w}
	for i := rapid.IntRange(0, 3).Draw(t, "times"); i > 0; i-- {
		k.L = append(k.L, len(k.L)*7+rapid.IntRange(0, 6).Draw(t, "at"))
	}
	d.Tok = append(drop(d.Tok, w), k)
}

// bounce removes a document that was just indexed and indexes it again.
func bounce(t *rapid.T, ops []EOp) []EOp {
	if rapid.IntRange(0, 15).Draw(t, "bounce") != 9 {
		return ops
	}
	o := ops[len(ops)-1]
	flush := rapid.IntRange(0, 3).Draw(t, "flushes")
	if flush&1 != 0 {
		ops = append(ops, EOp{K: "flush"})
	}
	ops = append(ops, EOp{K: "remove", ID: o.ID})
	if flush&2 != 0 {
		ops = append(ops, EOp{K: "flush"})
	}
	return append(ops, o)
}

// drops leaves a string out of a list.
func drops(list []string, w string) []string {
	var out []string
	for _, x := range list {
		if x != w {
			out = append(out, x)
		}
	}
	return out
}

// drafts knows the last version of every document.
type drafts map[string]EDoc

// next draws the next version of a document: a new one, or the last one once
// more, as it was or with a single change.
func (v drafts) next(t *rapid.T, id string) EDoc {
	d, ok := v[id]
	if !ok || rapid.IntRange(0, 3).Draw(t, "version") != 2 {
		d = genDoc(t)
		v[id] = d
		return d
	}
	if rapid.Bool().Draw(t, "changed") {
		n := genDoc(t)
		switch rapid.IntRange(0, 7).Draw(t, "change") {
		case 0:
			d.C = n.C
		case 1:
			d.C = ""
		case 2:
			d.Tok = n.Tok
		case 3:
			d.Lab = n.Lab
		case 4:
			d.F = n.F
		case 5:
			d.F = nil
		case 6:
			d.At = n.At
		case 7:
			d.At = ""
		}
	}
	v[id] = d
	return d
}

func genQuery(t *rapid.T, nID int) Query {
	q := Query{Crit: rapid.SampledFrom([]string{"fields", "const", "bm25"}).Draw(t, "crit")}
	key := rapid.SampledFrom(etoks[:4])
	if rapid.IntRange(0, 3).Draw(t, "contentKey") == 0 {
		key = rapid.SampledFrom([]string{"t1", "alpha", "hello", "世界", "world", "a"})
	}
	switch rapid.IntRange(0, 9).Draw(t, "qkind") {
	case 0, 1, 2, 3, 4:
		q.Tok = rapid.SliceOfNDistinct(key, 1, 2, rapid.ID[string]).Draw(t, "qtok")
		if rapid.IntRange(0, 3).Draw(t, "withLab") == 0 {
			q.Lab = []string{rapid.SampledFrom(elabs).Draw(t, "qlab")}
		}
	case 5:
		q.Lab = rapid.SliceOfNDistinct(rapid.SampledFrom(elabs), 1, 2, rapid.ID[string]).Draw(t, "qlabs")
	case 6:
		q.Text = strings.Join(rapid.SliceOfN(rapid.SampledFrom([]string{"t1", "T1", "t2", "x", "hello", "世界", "人口", "b"}), 1, 2).Draw(t, "text"), " ")
		if rapid.IntRange(0, 2).Draw(t, "and") == 1 {
			q.Tok = []string{rapid.SampledFrom([]string{"t1", "T1", "Hello", "t2"}).Draw(t, "andTok")}
		}
	case 7:
		q.Must = rapid.SliceOfNDistinct(key, 0, 2, rapid.ID[string]).Draw(t, "must")
		q.Should = rapid.SliceOfNDistinct(key, 0, 2, rapid.ID[string]).Draw(t, "should")
		if len(q.Must)+len(q.Should) == 0 {
			q.Must = []string{"t1"}
		}
		q.NotIn = rapid.SliceOfNDistinct(key, 0, 2, rapid.ID[string]).Draw(t, "notin")
	case 8:
		q.Tok = rapid.SliceOfNDistinct(key, 1, 3, rapid.ID[string]).Draw(t, "qtok")
		if rapid.Bool().Draw(t, "flag") {
			q.FShould = true
		} else {
			q.FMust = true
		}
		q.NotIn = rapid.SliceOfNDistinct(key, 0, 1, rapid.ID[string]).Draw(t, "notin")
	default:
		q.Tok = []string{key.Draw(t, "one")}
		q.IDs = map[string]bool{}
		for _, id := range rapid.SliceOfNDistinct(rapid.SampledFrom(eids[:nID]), 0, 5, rapid.ID[string]).Draw(t, "ids") {
			q.IDs[id] = rapid.Bool().Draw(t, "v")
		}
	}
	q.Rev = rapid.IntRange(0, 3).Draw(t, "rev") == 0
	switch rapid.IntRange(0, 7).Draw(t, "mode") {
	case 0:
		q.Count = true
	case 1:
		q.Free = true
	case 2, 3:
		q.Off, q.Max = rapid.IntRange(0, 6).Draw(t, "off"), rapid.IntRange(0, 6).Draw(t, "max")
	case 4:
		q.Timeout = 600000
	}
	return q
}
