package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"sync"

	"github.com/go-ego/gpy"
	"github.com/go-ego/gpy/phrase"
	"github.com/go-ego/gse"
	"github.com/go-ego/riot"
	"github.com/go-ego/riot/types"
	"pgregory.net/rapid"
	"verif/harness/internal/vp"
)

// --- C15: where a document's keywords come from -------------------------------------

// KeyCase is an engine with a tokenisation mode and a few documents.
type KeyCase struct {
	Cfg    Cfg      `json:"cfg"`
	Docs   []EDoc   `json:"docs"`
	Texts  []string `json:"texts"`            // query texts
	Find   []int    `json:"find,omitempty"`   // documents whose own content must find them
	Phrase bool     `json:"phrase,omitempty"` // C20: phrase mode
	Other  bool     `json:"other,omitempty"`  // C20: a second engine with another dictionary at work
}

func (c KeyCase) stop() map[string]bool {
	m := map[string]bool{}
	if !c.Cfg.NotGse {
		for _, s := range strings.Fields(c.Cfg.Stop) {
			m[s] = true
		}
	}
	return m
}

// words and joined words, as documented for the space and "" splits, with the
// number of times each is made
func splitKeys(parts []string, all bool) map[string]int {
	out := map[string]int{}
	prefix := ""
	for i, p := range parts {
		if p == "" {
			continue
		}
		out[p]++
		prefix += p
		out[prefix]++
		if all {
			sub := ""
			for _, q := range parts[i+1:] {
				sub += q
				out[sub]++
			}
		}
	}
	return out
}

// measure is what scores depend on: how often a document has each keyword, and
// how many words it has.
type measure struct {
	freq   map[string]int
	length int
}

// keywords is the set of keywords a document must have by the segmenter rules
// of the documentation, with their locations where these are defined (byte
// offsets of segmented words, the given locations of explicit tokens).
func (c KeyCase) keywords(seg *gse.Segmenter, d EDoc) (keys map[string][]int, located map[string]bool) {
	keys, located, _ = c.measured(seg, d)
	return
}

// measured gives the frequencies and the length as well. The length counts the
// words the content is cut into (those of a split without stop words), the
// explicit tokens and the pinyin keywords.
func (c KeyCase) measured(seg *gse.Segmenter, d EDoc) (keys map[string][]int, located map[string]bool, m measure) {
	keys, located, m.freq = map[string][]int{}, map[string]bool{}, map[string]int{}
	stop := c.stop()
	put := func(k string, loc []int, ok bool, n int) {
		if !stop[k] {
			keys[k], located[k], m.freq[k] = loc, ok, n
		}
	}
	explicit := func() {
		for _, t := range d.Tok {
			put(t.T, t.L, true, len(t.L))
		}
		m.length += len(d.Tok)
	}
	segment := func(text string) {
		pos := map[string][]int{}
		for _, s := range seg.ModeSegment([]byte(text), c.Cfg.GseMode) {
			w := s.Token().Text()
			pos[w] = append(pos[w], s.Start())
			m.length++
		}
		for w, l := range pos {
			put(w, l, true, len(l))
		}
	}
	split := func(parts []string, all bool) {
		for k, n := range splitKeys(parts, all) {
			put(k, nil, false, n)
			if !stop[k] {
				m.length += n
			}
		}
	}
	lower := strings.ToLower(d.C)
	switch {
	case c.Cfg.NotGse && c.Cfg.Using == 0:
		if d.C != "" {
			split(strings.Split(lower, " "), false)
		}
		explicit()
	case c.Cfg.Using == 0:
		if d.C != "" {
			segment(d.C)
		}
		explicit()
	case c.Cfg.Using == 1:
		if d.C != "" {
			segment(d.C)
		} else {
			explicit()
		}
	case c.Cfg.Using == 2:
		explicit()
	case c.Cfg.Using == 3:
		if d.C != "" {
			segment(lower)
			split(strings.Split(lower, ""), false)
		}
		explicit()
	case c.Cfg.Using == 4:
		if d.C != "" {
			split(strings.Split(lower, " "), false)
		}
		explicit()
	default:
		if d.C != "" {
			split(strings.Split(lower, ""), c.Cfg.Using == 6)
		}
		explicit()
	}
	if c.Cfg.PinYin {
		for _, k := range c.pinyin(seg, d.C) {
			put(k, nil, false, 1)
			if c.Phrase || !stop[k] {
				m.length++
			}
		}
	}
	for _, l := range d.Lab {
		if _, ok := keys[l]; !ok {
			put(l, nil, true, 0)
		}
	}
	return keys, located, m
}

// pinyin lists the pinyin keywords of a text: each character and each leading
// run of characters, the words of the text, and the growing pinyin and
// growing initials of its syllables; in phrase mode the syllables.
func (c KeyCase) pinyin(seg *gse.Segmenter, text string) []string {
	if c.Phrase {
		if c.Cfg.NotGse {
			return phrase.Pinyin(text)
		}
		return phrase.Pinyin(text, *seg)
	}
	var out []string
	run := ""
	for _, r := range strings.Split(text, "") {
		run += r
		out = append(out, r, run)
	}
	if !c.Cfg.NotGse {
		out = append(out, c.segment(seg, text)...)
	}
	full, initials := "", ""
	for _, py := range gpy.LazyConvert(text, nil) {
		full += py
		out = append(out, full)
		if py != "" {
			initials += py[:1]
			out = append(out, initials)
		}
	}
	return out
}

// segment is the segmentation of a query text.
func (c KeyCase) segment(seg *gse.Segmenter, text string) (out []string) {
	var ws []string
	if c.Cfg.GseMode {
		ws = seg.CutSearch(text, c.Cfg.Hmm)
	} else {
		ws = seg.Cut(text, c.Cfg.Hmm)
	}
	stop := c.stop()
	for _, w := range ws {
		if !stop[w] {
			out = append(out, w)
		}
	}
	return out
}

var contentWords = []string{"hello", "world", "foo", "bar", "x1", "Hello", "FOO", "世界", "有", "七十亿", "人口", "中国", "中国人", "北京大学", "北京", "a", "b", "12", "。", "，", "-", "é", "ж", "Ж"}

func genContent(t *rapid.T, label string) string {
	var b strings.Builder
	n := rapid.IntRange(0, 6).Draw(t, label+"n")
	if rapid.IntRange(0, 127).Draw(t, label+"long") == 77 {
		n = rapid.IntRange(7, 60).Draw(t, label+"many")
	}
	sep := rapid.SampledFrom([]string{" ", " ", "", "  ", ",", "\n"}).Draw(t, label+"sep")
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteString(sep)
		}
		b.WriteString(rapid.SampledFrom(contentWords).Draw(t, label))
	}
	if rapid.IntRange(0, 7).Draw(t, label+"edge") == 0 {
		return " " + b.String() + " "
	}
	return b.String()
}

// findable texts: dictionary words and plain lower or upper case words, apart
var findWords = []string{"hello", "world", "foo", "bar", "Hello", "FOO", "世界", "七十亿", "人口", "中国人", "北京大学", "12", "abc"}

func genKeyCase(t *rapid.T) KeyCase {
	c := KeyCase{Cfg: genSemantics(t)}
	c.Cfg.PinYin = false
	c.Cfg.GseTh, c.Cfg.Cache = rapid.SampledFrom([]int{1, 2}).Draw(t, "gseTh"), 3
	c.Cfg.Shards = rapid.SampledFrom([]int{1, 2, 1}).Draw(t, "shards")
	c.Cfg.Type = rapid.SampledFrom([]int{types.LocsIndex, types.LocsIndex, types.FrequenciesIndex, types.DocIdsIndex}).Draw(t, "type")
	c.Cfg.IDOnly = rapid.Bool().Draw(t, "idOnly")
	c.Cfg.Buf, c.Cfg.IdxTh, c.Cfg.RankBuf, c.Cfg.RankTh = 4, 1, 4, 1
	if !c.Cfg.NotGse {
		c.Cfg.Hmm = rapid.IntRange(0, 4).Draw(t, "hmm") == 0
	}
	for i := rapid.IntRange(1, 4).Draw(t, "docs"); i > 0; i-- {
		d := genDoc(t)
		d.C = genContent(t, "content")
		if rapid.IntRange(0, 2).Draw(t, "find") == 0 && !c.Cfg.GseMode && !c.Cfg.Hmm && c.Cfg.Using != 2 && !(c.Cfg.Using >= 4 && !c.Cfg.NotGse) && !(c.Cfg.NotGse && c.Cfg.Using > 4) {
			ws := rapid.SliceOfN(rapid.SampledFrom(findWords), 1, 4).Draw(t, "findWords")
			d.C = strings.Join(ws, " ")
			c.Find = append(c.Find, len(c.Docs))
		}
		if rapid.IntRange(0, 4).Draw(t, "stopTok") == 0 {
			d.Tok = append(drop(d.Tok, "foo"), Tok{T: "foo", L: []int{1}})
		}
		sameWord(t, &d)
		c.Docs = append(c.Docs, d)
	}
	if rapid.IntRange(0, 15).Draw(t, "lengthen") == 9 {
		if d := &c.Docs[0]; len(c.Find) == 0 || c.Find[0] > 0 {
			d.C = longContent(t, c.Cfg, d.C, 150000)
		}
	}
	for i := rapid.IntRange(0, 2).Draw(t, "texts"); i > 0; i-- {
		c.Texts = append(c.Texts, genContent(t, "qtext"))
	}
	return c
}

// universe lists the keys that are probed: everything a document could
// plausibly be found by, right or wrong.
func (c KeyCase) universe(seg *gse.Segmenter, expected []map[string][]int) []string {
	u := map[string]bool{}
	for _, e := range expected {
		for k := range e {
			u[k] = true
		}
	}
	for _, d := range c.Docs {
		for _, text := range []string{d.C, strings.ToLower(d.C)} {
			rs := strings.Split(text, "")
			for i := range rs {
				if i > 60 && i < len(rs)-60 {
					continue // the middle of a long text
				}
				for j := i + 1; j <= len(rs) && j <= i+8; j++ {
					u[strings.Join(rs[i:j], "")] = true
				}
			}
			for _, w := range strings.Fields(text) {
				u[w] = true
			}
			u[text] = true
			u[strings.ReplaceAll(text, " ", "")] = true
		}
		for _, t := range d.Tok {
			u[t.T] = true
		}
		for _, l := range d.Lab {
			u[l] = true
		}
		for _, w := range gpy.LazyConvert(d.C, nil) {
			u[w] = true
		}
	}
	for s := range c.stop() {
		u[s] = true
	}
	var out []string
	for k := range u {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (c KeyCase) open(dir string, seg *gse.Segmenter) *riot.Engine {
	e := &riot.Engine{}
	o := c.Cfg.opts(dir)
	o.UsePhrase = c.Phrase
	if !c.Cfg.NotGse {
		e.WithGse(*seg)
	}
	e.Init(o)
	return e
}

func docKey(i int) string { return fmt.Sprintf("doc%d", i) }

func runKeyCase(ctx *vp.Ctx, c KeyCase) error {
	seg := testSegmenter()
	e := c.open(ctx.Dir(), &seg)
	stopOther := func() {}
	if c.Other {
		stopOther = otherEngine(c, ctx)
	}
	for i, d := range c.Docs {
		e.IndexDoc(docKey(i), d.data())
	}
	e.Flush()
	stopOther()
	expected := make([]map[string][]int, len(c.Docs))
	located := make([]map[string]bool, len(c.Docs))
	fromContent := 0
	for i, d := range c.Docs {
		expected[i], located[i] = c.keywords(&seg, d)
		fromContent += len(expected[i]) - len(d.Tok) - len(d.Lab)
	}
	probes := c.universe(&seg, expected)
	for _, k := range probes {
		if k == "" {
			continue
		}
		q := Query{Tok: []string{k}, Crit: "const"}
		l, err := list(c.Cfg, e.Search(q.req()))
		if err != nil {
			return fmt.Errorf("searching %q: %v", k, err)
		}
		var want []string
		for i := range c.Docs {
			if _, ok := expected[i][k]; ok {
				want = append(want, docKey(i))
			}
		}
		if got := sortedCopy(l.ids); !reflect.DeepEqual(got, sortedCopy(want)) {
			return fmt.Errorf("keyword %q finds %q, want %q", k, got, want)
		}
		if c.Cfg.Type != types.LocsIndex {
			continue
		}
		for _, r := range l.raw {
			for i := range c.Docs {
				if r.DocId != docKey(i) || !located[i][k] {
					continue
				}
				loc := expected[i][k]
				if len(loc) == 0 {
					continue
				}
				if len(r.TokenLocs) != 1 || !reflect.DeepEqual(r.TokenLocs[0], loc) || len(r.TokenSnippetLocs) != 1 || !hasInt(loc, r.TokenSnippetLocs[0]) {
					return fmt.Errorf("keyword %q in document %q is at %v (snippet %v), want %v", k, r.DocId, r.TokenLocs, r.TokenSnippetLocs, loc)
				}
			}
		}
	}
	// query texts
	asked := 0
	texts := append([]string{}, c.Texts...)
	for _, d := range c.Docs {
		texts = append(texts, d.C)
	}
	for _, text := range texts {
		if text == "" {
			continue
		}
		var want []string
		if c.Cfg.NotGse {
			want = strings.Split(strings.ToLower(text), " ")
		} else {
			want = c.segment(&seg, strings.ToLower(text))
			if got := e.Segment(text); !reflect.DeepEqual(append([]string{}, got...), append([]string{}, c.segment(&seg, text)...)) {
				return fmt.Errorf("Segment(%q) = %q, want %q", text, got, c.segment(&seg, text))
			}
		}
		if len(text) > 3000 {
			continue
		}
		want = append(append([]string{}, want...), "T1")
		req := types.SearchReq{Text: text, Tokens: []string{"T1"}}
		if got := e.Tokens(req); !reflect.DeepEqual(append([]string{}, got...), want) {
			return fmt.Errorf("Tokens of text %q with token T1 are %q, want %q", text, got, want)
		}
		if got := e.Search(req).Tokens; !reflect.DeepEqual(append([]string{}, got...), want) {
			return fmt.Errorf("a search for text %q with token T1 reports the tokens %q, want %q", text, got, want)
		}
		asked++
	}
	// a document is found by its own text
	for _, i := range c.Find {
		text := c.Docs[i].C
		l, err := list(c.Cfg, e.Search(Query{Text: text, Crit: "const"}.req()))
		if err != nil {
			return fmt.Errorf("searching the text %q: %v", text, err)
		}
		found := false
		for _, id := range l.ids {
			found = found || id == docKey(i)
		}
		if len(e.Tokens(types.SearchReq{Text: text})) > 0 && !found {
			return fmt.Errorf("the text %q does not find document %q, which has exactly this content", text, docKey(i))
		}
	}
	ctx.NonTrivial(fromContent > 2)
	if c.Cfg.PinYin {
		ctx.LabelIf(c.Phrase, "phrase mode")
		ctx.LabelIf(c.Other, "another engine at work")
		ctx.LabelIf(c.Cfg.NotGse, "without segmenter")
	} else {
		ctx.Label("keyword source %d, segmenter %v", c.Cfg.Using, !c.Cfg.NotGse)
		ctx.LabelIf(c.Cfg.Stop != "", "stop tokens")
		ctx.LabelIf(c.Cfg.GseMode, "search mode segmentation")
		ctx.LabelIf(len(c.Find) > 0, "documents searched by their own text")
	}
	long := 0
	for _, d := range c.Docs {
		long = max(long, len(d.C))
	}
	ctx.LabelIf(long > 2000, "a long text")
	ctx.LabelIf(long > 65536, "a text of more than 64 KiB")
	ctx.LabelIf(asked > 0, "query texts")
	return nil
}

func hasInt(s []int, x int) bool {
	for _, v := range s {
		if v == x {
			return true
		}
	}
	return false
}

// --- C20: pinyin ---------------------------------------------------------------------

var hanWords = []string{"世界", "银行", "行", "长", "长城", "重庆", "重", "在路上", "中国", "音乐", "北京大学", "hello", "A", " ", "，", "3", "é", "〇", "乐", "啊", "鹅", "哦", "阿姨", "二", "額"}

func genPinyinCase(t *rapid.T) KeyCase {
	c := KeyCase{Cfg: Cfg{Using: rapid.SampledFrom([]int{0, 1, 2, 3, 4, 5}).Draw(t, "using"), PinYin: true, Type: types.FrequenciesIndex,
		Shards: rapid.SampledFrom([]int{1, 2}).Draw(t, "shards"), GseTh: rapid.SampledFrom([]int{1, 4}).Draw(t, "gseTh"), Cache: 3,
		Buf: 4, IdxTh: 1, RankBuf: 4, RankTh: 1, IDOnly: true}}
	c.Cfg.NotGse = c.Cfg.Using != 1 && c.Cfg.Using != 3 && rapid.Bool().Draw(t, "notGse")
	c.Phrase = !c.Cfg.NotGse && rapid.IntRange(0, 2).Draw(t, "phrase") == 0
	c.Other = c.Phrase && rapid.Bool().Draw(t, "other")
	if !c.Cfg.NotGse && rapid.IntRange(0, 3).Draw(t, "stop") == 0 {
		c.Cfg.Stop = "行 yin zh A"
		c.Cfg.StopIn = genStopForm(t)
	}
	n := rapid.IntRange(1, 4).Draw(t, "docs")
	if c.Other {
		n = 12
	}
	for ; n > 0; n-- {
		d := EDoc{}
		for i := rapid.IntRange(0, 5).Draw(t, "words"); i > 0; i-- {
			if rapid.IntRange(0, 5).Draw(t, "anyHan") == 0 {
				d.C += string(rapid.Int32Range(0x4e00, 0x9fa5).Draw(t, "han"))
				continue
			}
			d.C += rapid.SampledFrom(hanWords).Draw(t, "word")
		}
		if rapid.IntRange(0, 2).Draw(t, "tok") == 0 {
			d.Tok = []Tok{{T: "t1", L: []int{1}}}
		}
		if rapid.IntRange(0, 2).Draw(t, "lab") == 0 {
			d.Lab = []string{"l1"}
		}
		c.Docs = append(c.Docs, d)
	}
	return c
}

var (
	otherSeg    gse.Segmenter
	otherLoaded bool
)

// otherEngine keeps another engine, with a dictionary of single characters,
// indexing until the returned function is called.
func otherEngine(c KeyCase, ctx *vp.Ctx) func() {
	if !otherLoaded {
		f, err := scratchFile("other.txt", "世 5 n\n界 5 n\n银 5 n\n行 5 n\n长 5 n\n城 5 n\n重 5 n\n庆 5 n\n音 5 n\n乐 5 n\n")
		if err != nil {
			vp.Abort("%v", err)
		}
		if err := otherSeg.LoadDict(f); err != nil {
			vp.Abort("%v", err)
		}
		otherLoaded = true
	}
	x := c
	x.Cfg.Store = ""
	e := x.open(ctx.Dir(), &otherSeg)
	stop := make(chan struct{})
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		for i := 0; ; i++ {
			select {
			case <-stop:
				e.Flush()
				return
			default:
				e.IndexDoc(fmt.Sprint("o", i%7), types.DocData{Content: "银行长城重庆音乐"})
			}
		}
	}()
	return func() {
		close(stop)
		wg.Wait()
	}
}

func init() {
	smallDict = append(smallDict, "银行", "长城", "重庆", "音乐", "路上", "在")
	vp.Register(vp.Prop{
		ID:   "C15",
		Rule: "A case is an engine in one tokenisation mode with 1-4 documents, probed with every keyword the documents should have and with substrings, words and case variants they should not; non-trivial if content contributes more than two keywords.",
		Assumptions: []string{
			"the segmenter library (gse) is the reference for the words of a text and their offsets",
			"locations are compared for segmented words and explicit tokens, not for split characters",
			"that a text finds the document with this content is required of dictionary words and ASCII words separated by spaces, without search mode and HMM",
		},
		Quick: vp.Budget{Shards: 8, Checks: 2500}, Thorough: vp.Budget{Shards: 8, Checks: 100000},
		Restart: 60,
	}, genKeyCase, runKeyCase)
	vp.Register(vp.Prop{
		ID:   "C20",
		Rule: "A case is a pinyin engine with documents of Chinese and other text, probed with all keywords the documents should and some they should not have; non-trivial if content contributes more than two keywords.",
		Assumptions: []string{
			"the pinyin library (gpy) is the reference for the reading of a text",
		},
		Quick: vp.Budget{Shards: 8, Checks: 3000}, Thorough: vp.Budget{Shards: 8, Checks: 120000},
		Restart: 60,
	}, genPinyinCase, runKeyCase)
}
