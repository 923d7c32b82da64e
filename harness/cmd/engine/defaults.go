package main

import (
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/go-ego/riot"
	"github.com/go-ego/riot/types"
	"pgregory.net/rapid"
	"verif/harness/internal/vp"
)

// --- C24: defaults and constructors ------------------------------------------------

// Rank is a generated set of rank options.
type Rank struct {
	Crit string `json:"crit,omitempty"` // "": none given
	Rev  bool   `json:"rev,omitempty"`
	Off  int    `json:"off,omitempty"`
	Max  int    `json:"max,omitempty"`
}

func (r *Rank) opts() *types.RankOpts {
	if r == nil {
		return nil
	}
	q := Query{Crit: r.Crit, Rev: r.Rev, Off: r.Off, Max: r.Max}
	return q.req().RankOpts
}

func genRank(t *rapid.T) *Rank {
	if rapid.IntRange(0, 2).Draw(t, "noRank") == 0 {
		return nil
	}
	return &Rank{Crit: rapid.SampledFrom([]string{"", "fields", "const", "fields"}).Draw(t, "rcrit"), Rev: rapid.Bool().Draw(t, "rrev"),
		Off: rapid.SampledFrom([]int{0, 0, 1, 2, 5}).Draw(t, "roff"), Max: rapid.SampledFrom([]int{0, 0, 1, 2, 3}).Draw(t, "rmax")}
}

// resolve gives the options a search has by the documented rule.
func resolve(def, own *Rank) Rank {
	var d, r Rank
	if def != nil {
		d = *def
	}
	if d.Crit == "" {
		d.Crit = "bm25"
	}
	if own == nil {
		return d
	}
	r = *own
	if r.Crit == "" {
		r.Crit = d.Crit
	}
	return r
}

// Ask is a search that may leave its rank options to the engine.
type Ask struct {
	Q    Query `json:"q"`
	Rank *Rank `json:"rank,omitempty"`
}

// DefCase is an engine built from incomplete options or by a constructor.
type DefCase struct {
	How    string   `json:"how"` // init, new, toml
	Cfg    Cfg      `json:"cfg"`
	Zero   []string `json:"zero,omitempty"` // options that are left out
	Def    *Rank    `json:"def,omitempty"`
	Args   int      `json:"args,omitempty"` // of New
	Rel    bool     `json:"rel,omitempty"`  // New with a relative folder
	Reopen bool     `json:"reopen,omitempty"`
	Given  bool     `json:"given,omitempty"` // opened again with every option given
	Ops    []EOp    `json:"ops"`
	Asks   []Ask    `json:"asks"`
	Other  *DefCase `json:"other,omitempty"` // another engine in use at the same time
	Share  bool     `json:"share,omitempty"` // built from the same options value
}

var zeroable = []string{"shards", "gseTh", "buf", "idxTh", "rankBuf", "rankTh", "indexer", "bm25", "cache", "type"}

func genDefCase(t *rapid.T) DefCase {
	c := genDefOne(t, rapid.SampledFrom([]string{"init", "init", "init", "init", "init", "new", "new", "toml"}).Draw(t, "how"))
	if c.How == "init" && rapid.IntRange(0, 3).Draw(t, "two") == 0 {
		c.Share = rapid.Bool().Draw(t, "share")
		o := c
		if c.Share {
			o.content(t)
		} else {
			o = genDefOne(t, "init")
		}
		c.Other = &o
	}
	return c
}

func genDefOne(t *rapid.T, how string) DefCase {
	c := DefCase{How: how}
	switch how {
	case "init":
		c.Cfg = genMode(t)
		c.Zero = rapid.SliceOfDistinct(rapid.SampledFrom(zeroable), rapid.ID[string]).Draw(t, "zero")
		c.Def = genRank(t)
		if rapid.IntRange(0, 5).Draw(t, "store") == 0 {
			c.Cfg.Store, c.Cfg.Stores = rapid.SampledFrom([]string{"ldb", "bolt"}).Draw(t, "storeEngine"), 2
			if rapid.Bool().Draw(t, "zeroStore") {
				c.Zero = append(c.Zero, "store")
			}
			c.Reopen = rapid.Bool().Draw(t, "reopen")
		}
	case "new":
		c.Cfg = Cfg{Shards: rapid.SampledFrom([]int{1, 2, 3, 10}).Draw(t, "n"), Store: "ldb"}
		c.Args = rapid.SampledFrom([]int{3, 3, 2, 1}).Draw(t, "args")
		c.Rel = c.Args == 1 || rapid.IntRange(0, 3).Draw(t, "rel") == 0
		c.Reopen = rapid.IntRange(0, 2).Draw(t, "reopen") > 0
	case "toml":
		c.Cfg = genMode(t)
		if !c.Cfg.explicit() || rapid.Bool().Draw(t, "tomlGse") {
			c.Cfg.NotGse = false
		}
		c.Cfg.Cache, c.Cfg.Type = 0, types.FrequenciesIndex
		c.Zero = []string{"indexer"}
		for _, z := range []string{"shards", "gseTh"} {
			if rapid.Bool().Draw(t, "zero"+z) {
				c.Zero = append(c.Zero, z)
			}
		}
		if rapid.Bool().Draw(t, "store") {
			c.Cfg.Store, c.Cfg.Stores = rapid.SampledFrom([]string{"ldb", "bolt"}).Draw(t, "storeEngine"), 2
			c.Reopen = rapid.Bool().Draw(t, "reopen")
		}
	}
	c.Given = c.Reopen && rapid.Bool().Draw(t, "given")
	c.content(t)
	return c
}

// content draws what the engine is used for.
func (c *DefCase) content(t *rapid.T) {
	c.Ops, c.Asks = genOps(t, c.full(), 20, 6), nil
	for _, o := range c.Ops {
		if o.Q != nil {
			o.Q.Plain = false
		}
		if o.Q != nil && o.Q.Crit == "bm25" {
			o.Q.Crit = "explicit bm25"
		}
	}
	for i := 0; i < 6; i++ {
		q := genQuery(t, 6)
		q.Crit = ""
		q.Rev, q.Off, q.Max = false, 0, 0
		c.Asks = append(c.Asks, Ask{Q: q, Rank: genRank(t)})
	}
}

func (c DefCase) left(what string) bool {
	for _, z := range c.Zero {
		if z == what || z == "indexer" && (what == "bm25" || what == "cache" || what == "type") {
			return true
		}
	}
	return false
}

// full is the configuration with the documented defaults filled in.
func (c DefCase) full() Cfg {
	f := c.Cfg
	switch c.How {
	case "new":
		f.Type, f.Using, f.NotGse = types.DocIdsIndex, 0, false
		if c.Args < 3 {
			f.Shards = 10
		}
		f.GseTh, f.Stores = 4, f.Shards
		return f
	}
	if c.left("shards") {
		f.Shards = 8
	}
	if c.left("gseTh") {
		f.GseTh = 4 // any number but one
	}
	if c.left("indexer") {
		f.Type = types.FrequenciesIndex
	} else if c.left("type") {
		f.Type = types.DocIdsIndex
	}
	return f
}

func dictFile() string {
	testSegmenter()
	d := os.Getenv("VP_SCRATCH")
	if d == "" {
		d = os.TempDir()
	}
	return filepath.Join(d, "dict.txt")
}

// opts gives the incomplete options.
func (c DefCase) opts(dir string) types.EngineOpts {
	o := c.Cfg.opts(dir)
	for _, z := range c.Zero {
		switch z {
		case "shards":
			o.NumShards = 0
		case "gseTh":
			o.NumGseThreads = 0
		case "buf":
			o.IndexerBufLen = 0
		case "idxTh":
			o.NumIndexerThreads = 0
		case "rankBuf":
			o.RankerBufLen = 0
		case "rankTh":
			o.NumRankerThreads = 0
		case "indexer":
			o.IndexerOpts = nil
		case "store":
			o.StoreShards = 0
		}
	}
	if o.IndexerOpts != nil {
		if c.left("bm25") {
			o.IndexerOpts.BM25Parameters = nil
		}
		if c.left("cache") {
			o.IndexerOpts.DocCacheSize = 0
		}
		if c.left("type") {
			o.IndexerOpts.IndexType = 0
		}
	}
	o.DefRankOpts = c.Def.opts()
	return o
}

func (c DefCase) open(dir string, opts *types.EngineOpts) *riot.Engine {
	switch c.How {
	case "new":
		path := filepath.Join(dir, "new")
		if c.Rel {
			if err := os.Chdir(dir); err != nil {
				vp.Abort("%v", err)
			}
			path = "new/deep"
		}
		args := []interface{}{dictFile(), path, c.Cfg.Shards}[:c.Args]
		return riot.New(args...)
	case "toml":
		var b strings.Builder
		str := func(k, v string) {
			if v != "" {
				fmt.Fprintf(&b, "%s = %q\n", k, v)
			}
		}
		flag := func(k string, v bool) {
			if v {
				fmt.Fprintf(&b, "%s = true\n", k)
			}
		}
		fmt.Fprintf(&b, "using = %d\n", opts.Using)
		if opts.NumShards > 0 {
			fmt.Fprintf(&b, "NumShards = %d\n", opts.NumShards)
		}
		if opts.NumGseThreads > 0 {
			fmt.Fprintf(&b, "NumGseThreads = %d\n", opts.NumGseThreads)
		}
		flag("not_use_gse", opts.NotUseGse)
		flag("pin_yin", opts.PinYin)
		flag("gse_mode", opts.GseMode)
		flag("id_only", opts.IDOnly)
		str("stop_file", opts.StopTokenFile)
		if !opts.NotUseGse {
			str("gse_dict", dictFile())
		}
		flag("use_store", opts.UseStore)
		str("store_folder", opts.StoreFolder)
		str("store_engine", opts.StoreEngine)
		if opts.StoreShards > 0 {
			fmt.Fprintf(&b, "store_shards = %d\n", opts.StoreShards)
		}
		f, err := scratchFile(fmt.Sprintf("conf-%d.toml", time.Now().UnixNano()), b.String())
		if err != nil {
			vp.Abort("%v", err)
		}
		return riot.New(f)
	}
	e := &riot.Engine{}
	if !c.Cfg.NotGse {
		e.WithGse(testSegmenter())
	}
	e.Init(*opts)
	return e
}

// answers judges searches that leave options to the engine.
func (c DefCase) answers(m *model, e *riot.Engine) (int, error) {
	matched := 0
	for _, a := range c.Asks {
		r := resolve(c.Def, a.Rank)
		q := a.Q
		q.Crit, q.Rev, q.Off, q.Max = r.Crit, r.Rev, r.Off, r.Max
		req := q.req()
		req.RankOpts = a.Rank.opts()
		resp := e.Search(req)
		if err := m.exact(q, resp); err != nil {
			return matched, fmt.Errorf("search %s with rank options %s on an engine with default options %s: %v", vp.JSON(a.Q), vp.JSON(a.Rank), vp.JSON(c.Def), err)
		}
		if resp.NumDocs > 0 {
			matched++
		}
		if a.Rank != nil && !reflect.DeepEqual(req.RankOpts, a.Rank.opts()) {
			return matched, fmt.Errorf("search %s changes its request's rank options to %v", vp.JSON(a), *req.RankOpts)
		}
	}
	return matched, nil
}

// like compares the answers of two engines with the same content.
func (c DefCase) like(a, b *riot.Engine) error {
	list := func(e *riot.Engine, q Query) (string, error) {
		g, err := normalise(c.full(), e.Search(q.req()))
		if err != nil {
			return "", err
		}
		var out []string
		for _, d := range g.docs {
			out = append(out, fmt.Sprintf("%s %v %v", d.DocId, d.Scores, d.TokenLocs))
		}
		sort.Strings(out)
		return strings.Join(out, "; "), nil
	}
	for _, x := range c.Asks {
		q := x.Q
		q.Crit, q.Count, q.Free = "explicit bm25", false, false
		x, err := list(a, q)
		if err != nil {
			return err
		}
		y, err := list(b, q)
		if err != nil {
			return err
		}
		if x != y {
			return fmt.Errorf("search %s answers %s, with the documented defaults given explicitly %s", vp.JSON(q), x, y)
		}
	}
	return nil
}

func (c DefCase) run(dir string, opts *types.EngineOpts) (int, error) {
	full := c.full()
	e := c.open(dir, opts)
	m := newModel(full)
	var st stats
	if err := play(e, m, c.Ops, &st); err != nil {
		return 0, err
	}
	if err := m.probe(e); err != nil {
		return 0, err
	}
	matched, err := c.answers(m, e)
	if err != nil {
		return 0, err
	}
	if full.explicit() && len(c.Zero) > 0 {
		// the same documents in an engine with everything given
		x := full
		x.Store = ""
		y := x.open(dir)
		for _, o := range c.Ops {
			switch o.K {
			case "index":
				y.IndexDoc(o.ID, o.Doc.data())
			case "remove":
				y.RemoveDoc(o.ID)
			case "flush":
				y.Flush()
			}
		}
		if err := c.like(e, y); err != nil {
			return 0, err
		}
	}
	n, rm := e.NumIndexed(), e.NumRemoved()
	wantN, wantRm := 0, 0
	for _, o := range c.Ops {
		switch o.K {
		case "index":
			wantN++
		case "remove":
			wantRm++
		}
	}
	if int(n) != wantN || int(rm) != wantRm*full.Shards {
		return 0, fmt.Errorf("%d documents counted as indexed and %d as removed, want %d and %d on each of %d shards", n, rm, wantN, wantRm, full.Shards)
	}
	if full.Store == "" {
		return matched, nil
	}
	var want []string
	for id := range m.live {
		want = append(want, id)
	}
	sort.Strings(want)
	if got := sortedCopy(e.GetDBAllIds()); strings.Join(got, " ") != strings.Join(want, " ") {
		return 0, fmt.Errorf("the store holds %q, want %q", got, want)
	}
	e.Close()
	if !c.Reopen {
		return matched, nil
	}
	// opened again in the same way, or with everything given
	o2 := c.opts(dir)
	if c.Given {
		x := c
		x.How, x.Zero = "init", nil
		x.Cfg = full
		if c.left("store") {
			x.Cfg.Stores = 8
		}
		o2 = x.opts(dir)
		if c.How == "new" {
			o2.StoreFolder = "new/deep"
			if !c.Rel {
				o2.StoreFolder = filepath.Join(dir, "new")
			}
			if c.Args == 1 {
				o2.StoreFolder = "./riot-index"
			}
		}
		e = x.open(dir, &o2)
	} else {
		e = c.open(dir, &o2)
	}
	e.Flush()
	if err := m.probe(e); err != nil {
		return 0, fmt.Errorf("opened again: %v", err)
	}
	if _, err := c.answers(m, e); err != nil {
		return 0, fmt.Errorf("opened again: %v", err)
	}
	e.Close()
	return matched, nil
}

func runDefCase(ctx *vp.Ctx, c DefCase) error {
	home, err := os.Getwd()
	if err != nil {
		vp.Abort("%v", err)
	}
	defer func() { _ = os.Chdir(home) }()
	if c.How == "toml" {
		// the file is watched; the kernel may have no watcher left to give
		fd, err := syscall.InotifyInit()
		if err != nil {
			ctx.Label("no file watcher available")
			return nil
		}
		_ = syscall.Close(fd)
	}
	opts := c.opts(ctx.Dir())
	matched := 0
	if c.Other == nil {
		if matched, err = c.run(ctx.Dir(), &opts); err != nil {
			return err
		}
	} else {
		o := *c.Other
		dirs := []string{filepath.Join(ctx.Dir(), "a"), filepath.Join(ctx.Dir(), "b")}
		oOpts := o.opts(dirs[1])
		if c.Share {
			// the pointers inside are shared
			oOpts = opts
			oOpts.StoreFolder = filepath.Join(dirs[1], "store")
		}
		opts.StoreFolder = filepath.Join(dirs[0], "store")
		for _, d := range dirs {
			_ = os.MkdirAll(d, 0o755)
		}
		var wg sync.WaitGroup
		var errs [2]error
		var ms [2]int
		for i, x := range []DefCase{c, o} {
			op := []*types.EngineOpts{&opts, &oOpts}[i]
			// the engines are built one after the other and used together
			x := x
			x.Other = nil
			built := make(chan struct{})
			wg.Add(1)
			go func() {
				defer wg.Done()
				ms[i], errs[i] = x.runBuilt(dirs[i], op, built)
			}()
			<-built
		}
		wg.Wait()
		for i, err := range errs {
			if err != nil {
				return fmt.Errorf("engine %d of two: %v", i, err)
			}
		}
		matched = ms[0] + ms[1]
	}
	left := 0
	for _, a := range c.Asks {
		if a.Rank == nil || a.Rank.Crit == "" {
			left++
		}
	}
	ctx.NonTrivial(matched > 0 && (left > 0 || len(c.Zero) > 0 || c.How != "init"))
	ctx.Label("built by %s", c.How)
	ctx.LabelIf(c.Other != nil, "two engines at once")
	ctx.LabelIf(c.Share && c.Other != nil, "two engines from one options value")
	ctx.LabelIf(c.Def != nil, "with default rank options")
	ctx.LabelIf(c.left("shards"), "default number of shards")
	ctx.LabelIf(c.left("indexer"), "default indexer options")
	ctx.LabelIf(c.Reopen, "opened again")
	return nil
}

func (c DefCase) runBuilt(dir string, opts *types.EngineOpts, built chan struct{}) (n int, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v\n%s", r, vp.Stack())
		}
	}()
	close(built)
	return c.run(dir, opts)
}

func init() {
	vp.Register(vp.Prop{
		ID:   "C24",
		Rule: "A case is an engine built from options with parts left out, by New or from a configuration file, alone or next to a second one, with a history and searches that leave rank options to the engine; non-trivial if something is left out and a search matches.",
		Assumptions: []string{
			"the defaults are those of types/engine_init_options.go: 8 shards, FrequenciesIndex, BM25 with K1=2 and B=0.75, 8 store shards; New without a number uses 10 shards",
			"New is not called without a dictionary (it would load the full one)",
		},
		Quick: vp.Budget{Shards: 8, Checks: 150}, Thorough: vp.Budget{Shards: 8, Checks: 6000},
		Restart: 30,
	}, genDefCase, runDefCase)
}
