#!/usr/bin/env python3
"""Writes the demonstrations of the planted bugs."""
import os
D=os.path.join(os.path.dirname(os.path.abspath(__file__)),'demos','')
def w(id, imports, body, extra='', head=''):
    imp=''.join('\t%s\n'%(('"%s"'%i) if ' ' not in i else i) for i in imports)
    open(D+id+'.go','w').write('%spackage main\n\nimport (\n%s)\n\n%sfunc main() {\n%s}\n'%(head,imp,extra,body))
R='github.com/go-ego/riot'; T=R+'/types'; C=R+'/core'; S=R+'/store'
w('c01-freq-not-moved',[T],'''	x := indexer(types.FrequenciesIndex, docIndex("a", 5, kw("t", 1)), docIndex("b", 5, kw("t", 1, 2, 3, 4)), docIndex("c", 5, kw("t", 1)))
	x.RemoveDocToCache("a", false)
	x.RemoveDocToCache("c", false)
	x.AddDocToCache(nil, true)
	got, _ := x.Lookup([]string{"t"}, nil, nil, false)
	want, _ := indexer(types.FrequenciesIndex, docIndex("b", 5, kw("t", 1, 2, 3, 4))).Lookup([]string{"t"}, nil, nil, false)
	if bm25(got, "b") != bm25(want, "b") {
		fail("b scores %v, in a fresh index %v", bm25(got, "b"), bm25(want, "b"))
	}
''')
w('c01-pending-removal',[C,T],'''	x := &core.Indexer{}
	x.Init(types.IndexerOpts{IndexType: types.LocsIndex, DocCacheSize: 2})
	x.AddDocToCache(docIndex("a", 1, kw("t", 1)), true)
	x.RemoveDocToCache("a", false)
	x.AddDocToCache(docIndex("a", 1, kw("u", 1)), false)
	x.AddDocToCache(docIndex("b", 1, kw("u", 1)), false)
	x.AddDocToCache(nil, true)
	if docs, _ := x.Lookup([]string{"u"}, nil, nil, false); ids(docs) != "b a" || !x.HasDoc("a") {
		fail("the document that was added again is not found: %q", ids(docs))
	}
''')
w('c02-locations-break',[T],'''	x := indexer(types.LocsIndex, docIndex("a", 2, kw("t", 1), kw("u")), docIndex("b", 2, kw("t", 1), kw("u", 3)))
	docs, n := x.Lookup([]string{"t", "u"}, nil, nil, false)
	_, count := x.Lookup([]string{"t", "u"}, nil, nil, true)
	if ids(docs) != "b a" || n != 2 || count != 2 {
		fail("found %q, %d, counted %d", ids(docs), n, count)
	}
''')
w('c03-union-duplicate',[T],'''	x := indexer(types.DocIdsIndex, docIndex("a", 1, kw("t"), kw("u")), docIndex("b", 1, kw("t")), docIndex("c", 1, kw("t"), kw("u")))
	docs, n := x.Lookup(nil, nil, nil, false, types.Logic{Expr: types.Expr{Should: []string{"t", "u"}}})
	seen := map[string]int{}
	for _, d := range docs {
		seen[d.DocId]++
	}
	if n != 3 || len(docs) != 3 || len(seen) != 3 {
		fail("found %q, %d", ids(docs), n)
	}
''')
w('c03-notin-early-exit',[T],'''	x := indexer(types.DocIdsIndex, docIndex("a", 1, kw("m"), kw("n2")), docIndex("b", 1, kw("m"), kw("n1")), docIndex("c", 1, kw("m")))
	docs, _ := x.Lookup(nil, nil, nil, false, types.Logic{Expr: types.Expr{Must: []string{"m"}, NotIn: []string{"n1", "n2"}}})
	if ids(docs) != "c" {
		fail("found %q", ids(docs))
	}
''')
w('c04-stale-length',[T],'''	docs := func() []*types.DocIndex {
		return []*types.DocIndex{docIndex("a", 2, kw("t", 1)), docIndex("b", 6, kw("t", 1, 2))}
	}
	x := indexer(types.FrequenciesIndex, append(docs(), docIndex("c", 40, kw("t", 1)))...)
	x.AddDocToCache(docIndex("c", 0, kw("label")), true)
	x.RemoveDocToCache("c", true)
	got, _ := x.Lookup([]string{"t"}, nil, nil, false)
	want, _ := indexer(types.FrequenciesIndex, docs()...).Lookup([]string{"t"}, nil, nil, false)
	if bm25(got, "a") != bm25(want, "a") {
		fail("a scores %v, in a fresh index %v", bm25(got, "a"), bm25(want, "a"))
	}
''')
w('c04-update-count',[T],'''	x := indexer(types.FrequenciesIndex, docIndex("a", 2, kw("t", 1)), docIndex("b", 6, kw("t", 1, 2)))
	for i := 0; i < 3; i++ {
		x.AddDocToCache(docIndex("a", 2, kw("t", 1)), true)
	}
	got, _ := x.Lookup([]string{"t"}, nil, nil, false)
	want, _ := indexer(types.FrequenciesIndex, docIndex("a", 2, kw("t", 1)), docIndex("b", 6, kw("t", 1, 2))).Lookup([]string{"t"}, nil, nil, false)
	if bm25(got, "b") != bm25(want, "b") {
		fail("b scores %v, in a fresh index %v", bm25(got, "b"), bm25(want, "b"))
	}
''')
w('c04-shortest-first',[T],'''	x := indexer(types.FrequenciesIndex, docIndex("a", 2, kw("t", 1, 2), kw("rare")), docIndex("b", 2, kw("t", 1)), docIndex("c", 2, kw("t", 1)))
	plain, _ := x.Lookup([]string{"t"}, nil, nil, false)
	label, _ := x.Lookup([]string{"t"}, []string{"rare"}, nil, false)
	if bm25(plain, "a") != bm25(label, "a") {
		fail("a scores %v, with a label as a filter %v", bm25(plain, "a"), bm25(label, "a"))
	}
''')
w('c06-score-prefix',['sort',C,T],'''	var r core.Ranker
	r.Init(true)
	for i, id := range []string{"a", "b", "c", "d"} {
		r.AddDoc(id, i)
	}
	out, _ := r.Rank([]types.IndexedDoc{{DocId: "a"}, {DocId: "b"}, {DocId: "c"}, {DocId: "d"}}, types.RankOpts{ScoringCriteria: many{}}, false)
	docs := out.(types.ScoredIDs)
	for i := range docs {
		if len(docs[i].Scores) != 4-i {
			fail("rank %d has the scores %v", i, docs[i].Scores)
		}
	}
	full := types.ScoredDocs{{ScoredID: types.ScoredID{DocId: "a", Scores: []float32{1}}}, {ScoredID: types.ScoredID{DocId: "b", Scores: []float32{1, 1}}}}
	sort.Sort(full)
	if full[0].DocId != "b" {
		fail("the document with more scores is not first")
	}
''',extra='''type many struct{}

func (many) Score(d types.IndexedDoc, f interface{}) []float32 {
	return []float32{1, 1, 1, 1}[:f.(int)+1]
}

''')
w('c06-count-unscored',[C,T],'''	var r core.Ranker
	r.Init(true)
	r.AddDoc("a", float32(1))
	r.AddDoc("b", nil)
	out, n := r.Rank([]types.IndexedDoc{{DocId: "a"}, {DocId: "b"}}, types.RankOpts{ScoringCriteria: byField{}}, false)
	if len(out.(types.ScoredIDs)) != 1 || n != 1 {
		fail("%v, %d", out, n)
	}
''')
w('c07-badger-empty',[S],'''	s, err := store.OpenStore("db", "bg")
	check(err)
	check(s.Set([]byte("k"), []byte{}))
	has, err := s.Has([]byte("k"))
	if !has || err != nil {
		fail("Has: %v, %v", has, err)
	}
	check(s.Close())
''')
w('c07-ldb-foreach-empty',[S],'''	s, err := store.OpenStore("db", "ldb")
	check(err)
	check(s.Set([]byte("k"), []byte{}))
	n := 0
	check(s.ForEach(func(k, v []byte) error { n++; return nil }))
	if n != 1 {
		fail("ForEach visits %d keys", n)
	}
	check(s.Close())
''')
w('c08-ldb-write-buffer',['os',S],'''	if len(os.Args) > 1 {
		s, err := store.OpenStore("db", "ldb")
		check(err)
		check(s.Set([]byte("a"), []byte("1")))
		check(s.Set([]byte("b"), []byte("2")))
		ready()
	}
	child("child")
	s, err := store.OpenStore("db", "ldb")
	check(err)
	for _, k := range []string{"a", "b"} {
		if _, err := s.Get([]byte(k)); err != nil {
			fail("the acknowledged key %s is lost: %v", k, err)
		}
	}
''')
w('c09-label-locations',[T],'''	e := open(small(types.LocsIndex))
	e.Index("1", types.DocData{Tokens: []types.TokenData{tok("t", 0, 4), tok("u", 2)}, Labels: []string{"t"}})
	e.Index("2", types.DocData{Tokens: []types.TokenData{tok("x", 0)}})
	e.Flush()
	r := e.Search(types.SearchReq{Tokens: []string{"t"}})
	docs := r.Docs.(types.ScoredDocs)
	if len(docs) != 1 || len(docs[0].TokenLocs) != 1 || len(docs[0].TokenLocs[0]) != 2 || docs[0].Scores[0] == 0 {
		fail("%+v", docs)
	}
''')
w('c09-stale-fields',[T],'''	e := open(small(types.LocsIndex))
	e.Index("1", types.DocData{Tokens: []types.TokenData{tok("t", 0)}, Fields: float32(1)})
	e.Index("2", types.DocData{Tokens: []types.TokenData{tok("t", 0)}, Fields: float32(2)})
	e.Flush()
	e.Index("2", types.DocData{Tokens: []types.TokenData{tok("t", 0)}})
	e.Flush()
	r := e.Search(types.SearchReq{Tokens: []string{"t"}, RankOpts: &types.RankOpts{ScoringCriteria: byField{}}})
	if found(r) != "1" {
		fail("found %q", found(r))
	}
''')
w('c09-rank-order',['fmt',T],'''	o := small(types.DocIdsIndex)
	o.RankerBufLen = 1
	e := open(o)
	for round := 0; round < 20; round++ {
		for i := 0; i < 500; i++ {
			for v := 0; v < 3; v++ {
				e.Index(fmt.Sprint("d", i), types.DocData{Content: fmt.Sprint(round, v), Tokens: []types.TokenData{tok("t", 0)}})
			}
		}
		e.Flush()
		for _, d := range e.SearchDoc(types.SearchReq{Tokens: []string{"t"}}).Docs {
			if d.Content != fmt.Sprint(round, 2) {
				fail("document %s has content %q, its last was %q", d.DocId, d.Content, fmt.Sprint(round, 2))
			}
		}
	}
''')
w('c10-shard-window',['fmt','strings',T],'''	o := small(types.DocIdsIndex)
	o.NumShards = 4
	e := open(o)
	for i := 0; i < 37; i++ {
		e.Index(fmt.Sprint("d", i), types.DocData{Tokens: []types.TokenData{tok("t", 0)}, Fields: float32(i * 7 % 37)})
	}
	e.Flush()
	page := func(off, max int) string {
		return found(e.Search(types.SearchReq{Tokens: []string{"t"}, RankOpts: &types.RankOpts{ScoringCriteria: byField{}, OutputOffset: off, MaxOutputs: max}}))
	}
	all := strings.Fields(page(0, 0))
	for off := 0; off < 37; off++ {
		if want := strings.Join(all[off:off+1], " "); page(off, 1) != want {
			fail("rank %d is %q, alone %q", off, want, page(off, 1))
		}
	}
''')
w('c11-timeout-count',[T],'''	e := open(small(types.DocIdsIndex))
	e.Index("1", types.DocData{Tokens: []types.TokenData{tok("t", 0)}})
	e.Flush()
	r := e.Search(types.SearchReq{Tokens: []string{"t"}, CountDocsOnly: true, Timeout: 60000})
	if r.NumDocs != 1 || r.Timeout {
		fail("%d documents, timeout %v", r.NumDocs, r.Timeout)
	}
''')
w('c11-shard-deadline',['fmt','time',T],'''	o := small(types.DocIdsIndex)
	o.NumShards = 16
	e := open(o)
	for i := 0; i < 200; i++ {
		e.Index(fmt.Sprint("d", i), types.DocData{Tokens: []types.TokenData{tok("t", 0)}})
	}
	e.Flush()
	for try := 0; ; try++ {
		open := make(chan bool)
		start := time.Now()
		r := e.Search(types.SearchReq{Tokens: []string{"t"}, Timeout: 1000, RankOpts: &types.RankOpts{ScoringCriteria: late{open}}})
		took := time.Since(start)
		close(open)
		if !r.Timeout {
			fail("no timeout although no document was scored")
		}
		if took < 5*time.Second {
			return
		}
		if try == 3 {
			fail("a search with a timeout of 1 s took %v", took)
		}
	}
''','''
// late gives no score until it is told to.
type late struct{ open chan bool }

func (l late) Score(d types.IndexedDoc, f interface{}) []float32 {
	<-l.open
	return []float32{1}
}

''')
persist='''	o := small(types.DocIdsIndex)
	o.UseStore, o.StoreFolder, o.StoreShards, o.StoreEngine = true, "db", 2, "ldb"
%s	e := open(o)
%s	e.Flush()
	e.Close()
	e = open(o)
	e.Flush()
%s'''
w('c12-tokens-only',[T],persist%('','''	e.Index("1", types.DocData{Tokens: []types.TokenData{tok("t", 0)}})
	e.Index("2", types.DocData{Content: "x", Tokens: []types.TokenData{tok("t", 0)}})
''','''	if r := e.Search(types.SearchReq{Tokens: []string{"t"}}); r.NumDocs != 2 {
		fail("%d documents after reopening: %q", r.NumDocs, found(r))
	}
'''))
w('c12-store-tokens',[T],persist%('	o.Using = 0\n','''	e.Index("1", types.DocData{Content: "some words", Tokens: []types.TokenData{tok("t", 0)}})
''','''	if r := e.Search(types.SearchReq{Tokens: []string{"t"}}); r.NumDocs != 1 {
		fail("%d documents after reopening: %q", r.NumDocs, found(r))
	}
'''))
w('c13-ack-before-write',['fmt','os',T],'''	o := small(types.DocIdsIndex)
	o.UseStore, o.StoreFolder, o.StoreShards, o.StoreEngine = true, "db", 2, "bolt"
	if len(os.Args) > 1 {
		e := open(o)
		for i := 0; i < 60; i++ {
			e.Index(fmt.Sprint("d", i), types.DocData{Content: "x", Tokens: []types.TokenData{tok("t", 0)}})
		}
		e.Flush()
		ready()
	}
	for round := 0; round < 10; round++ {
		check(os.RemoveAll("db"))
		child("child")
		e := open(o)
		e.Flush()
		if r := e.Search(types.SearchReq{Tokens: []string{"t"}}); r.NumDocs != 60 {
			fail("%d of 60 flushed documents after the crash", r.NumDocs)
		}
		e.Close()
	}
''')
w('c14-ranker-unlock',['sync',T,C],'''	var r core.Ranker
	r.Init()
	r.AddDoc("a", float32(1), "x", nil)
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		for i := 0; i < 3000; i++ {
			r.AddDoc("b", float32(1), "x", nil)
		}
	}()
	go func() {
		defer wg.Done()
		for i := 0; i < 3000; i++ {
			r.Rank([]types.IndexedDoc{{DocId: "a"}, {DocId: "a"}}, types.RankOpts{ScoringCriteria: byField{}}, false)
		}
	}()
	wg.Wait()
''',head='// run with -race\n')
w('c14-recursive-lock',['fmt','sync','time',T],'''	x := indexer(types.DocIdsIndex)
	for i := 0; i < 200; i++ {
		x.AddDocToCache(docIndex(fmt.Sprint("d", i), 1, kw("t")), false)
	}
	x.AddDocToCache(nil, true)
	done := make(chan bool)
	go func() {
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for i := 0; i < 3000; i++ {
					if g < 2 {
						x.AddDocToCache(docIndex(fmt.Sprint("w", g), 1, kw("u")), true)
					} else {
						x.Lookup([]string{"t"}, nil, nil, false)
					}
				}
			}(g)
		}
		wg.Wait()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(120 * time.Second):
		fail("searches and updates wait for each other")
	}
''')
w('c15-stop-split',['io/ioutil',T],'''	check(ioutil.WriteFile("dict.txt", []byte("abc 10 n\\n"), 0600))
	check(ioutil.WriteFile("stop.txt", []byte("b\\n"), 0600))
	o := small(types.DocIdsIndex)
	o.NotUseGse, o.Using, o.GseDict, o.StopTokenFile = false, 5, "dict.txt", "stop.txt"
	e := open(o)
	e.Index("1", types.DocData{Content: "abc"})
	e.Flush()
	for k, want := range map[string]string{"a": "1", "c": "1", "ab": "1", "abc": "1", "b": ""} {
		if r := e.Search(types.SearchReq{Tokens: []string{k}}); found(r) != want {
			fail("%q finds %q", k, found(r))
		}
	}
''')
w('c16-request-late',['strings',T],'''	o := small(types.DocIdsIndex)
	o.Using, o.NotUseGse, o.NumGseThreads = 6, true, 8
	for i := 0; i < 3; i++ {
		func() {
			e := open(o)
			done := make(chan bool)
			e.Index("1", types.DocData{Content: strings.Repeat("a", 1500), Tokens: []types.TokenData{tok("t", 0)}})
			for _, id := range []string{"2", "3", "4"} {
				id := id
				go func() {
					e.Index(id, types.DocData{Tokens: []types.TokenData{tok("u", 0)}})
					done <- true
				}()
			}
			e.Flush()
			if r := e.Search(types.SearchReq{Tokens: []string{"t"}}); found(r) != "1" {
				fail("a document that was indexed before Flush is not found after it: %q", found(r))
			}
			for i := 0; i < 3; i++ {
				<-done
			}
		}()
	}
''',head='// delay-at engine.go 50 atomic.AddUint64(&engine.numIndexingReqs\n')
w('c16-force-late',['time',T],'''	for i := 0; i < 3; i++ {
		o := small(types.DocIdsIndex)
		o.NumShards, o.IndexerOpts.DocCacheSize = 2, 100
		e := open(o)
		e.Index("1", types.DocData{Tokens: []types.TokenData{tok("t", 0)}})
		done := make(chan bool)
		go func() {
			time.Sleep(30 * time.Millisecond)
			e.Flush()
			done <- true
		}()
		e.Flush()
		if r := e.Search(types.SearchReq{Tokens: []string{"t"}}); found(r) != "1" {
			fail("a document that was indexed before Flush is not found after it: %q", found(r))
		}
		<-done
	}
''',head='// delay-at engine.go 60 atomic.AddUint64(&engine.numForceUpdatingReqs\n// delay-at core/indexer.go 200 indexer.uncache(docIndex.DocId)\n')
net='''func serve(o func(*com.Config)) {
	check(ioutil.WriteFile("dict.txt", []byte("hello 10 n\\nworld 10 n\\n"), 0600))
	var c com.Config
	c.Engine = com.Engine{StoreShards: 1, StoreEngine: "ldb", StoreFolder: "db", NumShards: 1, GseDict: "dict.txt", MaxOutputs: 3}
	if o != nil {
		o(&c)
	}
	rpc.InitEngine(c)
}

func add(id string, ts int64) {
	com.AddDocInx(id, types.DocData{Content: "hello", Attri: types.Attri{Title: "title " + id, Ts: ts}}, false)
}

'''
N=[ 'io/ioutil', R+'/net/com', 'rpc "%s/net/grpc"'%R, T]
w('c17-window',['encoding/json','fmt','net/http/httptest','rhttp "%s/net/http"'%R]+N,'''	serve(nil)
	for i := 0; i < 9; i++ {
		add(fmt.Sprint("d", i), int64(i))
	}
	com.Flush()
	for _, off := range []int{0, 1, 4} {
		w := httptest.NewRecorder()
		rhttp.Search(w, httptest.NewRequest("GET", fmt.Sprintf("/search?query=hello&outputOffset=%d", off), nil))
		var r struct {
			Len  int
			Docs []struct{ Id string }
		}
		check(json.Unmarshal(w.Body.Bytes(), &r))
		if len(r.Docs) != 3 {
			fail("offset %d without a limit: %d documents, the configured limit is 3", off, len(r.Docs))
		}
	}
''',extra=net)
w('c17-config-key',['encoding/json','fmt','net/http/httptest','rhttp "%s/net/http"'%R,'os','toml "github.com/go-vgo/gt/conf"']+N,'''	check(os.WriteFile("riot.toml", []byte("[engine]\\nusing = 3\\noutput_offset = 2\\nmax_outputs = 4\\n"), 0644))
	var read com.Config
	toml.Init("riot.toml", &read)
	serve(func(c *com.Config) { c.Engine.OutputOffset, c.Engine.MaxOutputs = read.Engine.OutputOffset, read.Engine.MaxOutputs })
	for i := 0; i < 9; i++ {
		add(fmt.Sprint("d", i), int64(i))
	}
	com.Flush()
	w := httptest.NewRecorder()
	rhttp.Search(w, httptest.NewRequest("GET", "/search?query=hello", nil))
	var r struct{ Docs []struct{ Id string } }
	check(json.Unmarshal(w.Body.Bytes(), &r))
	if len(r.Docs) != 4 || r.Docs[0].Id != "d6" {
		fail("the configured window is 2, 4: %s", w.Body.Bytes())
	}
''',extra=net)
grpcs='''	go rpc.InitGrpc(port)
	var r *pb.SearchReply
	for i := 0; i < 200; i++ {
		var err error
		if r, err = rpc.InitSearchRpc("127.0.0.1"+port, %s); err == nil && r != nil {
			break
		}
		time.Sleep(50 * time.Millisecond)
	}
	if r == nil {
		fail("no answer")
	}
'''
port='''	l, err := net.Listen("tcp", "127.0.0.1:0")
	check(err)
	port := l.Addr().String()[9:]
	l.Close()
'''
G=['net','time','pb "%s/net/grpc/riot-pb"'%R]+N
w('c18-tie-order',G,port+'''	serve(func(c *com.Config) { c.Engine.MaxOutputs = 10 })
	for _, id := range []string{"b", "a", "d", "c"} {
		add(id, 5)
	}
	com.Flush()
'''+grpcs%'com.SearchArgs{Query: "hello", MaxOutputs: 10}'+'''	s := ""
	for _, d := range r.Docs {
		s += d.Id
	}
	if s != "dcba" {
		fail("documents of the same time come in the order %s", s)
	}
''',extra=net)
w('c18-reply-length',G,port+'''	serve(nil)
	for _, id := range []string{"b", "a", "d", "c"} {
		add(id, 5)
	}
	com.Flush()
'''+grpcs%'com.SearchArgs{Query: "hello", MaxOutputs: 2}'+'''	if len(r.Docs) != 2 || r.Len != 2 {
		fail("%d documents, Len %d", len(r.Docs), r.Len)
	}
''',extra=net)
w('c19-heap',['math',C],'''	for n := 16; n < 600; n++ {
		data := make([]uint64, n)
		adversary(data)
		core.Asc(data)
		if !core.IsSortedAsc(data) {
			fail("not sorted: %v", data)
		}
	}
''',extra='''// adversary fills data with McIlroy's killer sequence: it runs a median-of-nine
// quicksort whose comparisons are answered so that every pivot is as bad as
// possible, which drives a quicksort of that shape to its heapsort fallback.
func adversary(d []uint64) {
	n := len(d)
	const gas = math.MaxUint64
	val := make([]uint64, n)
	ptr := make([]int, n)
	for i := range val {
		val[i], ptr[i] = gas, i
	}
	solid, cand := uint64(0), 0
	cmp := func(x, y int) int { // compares items x and y
		if val[x] == gas && val[y] == gas {
			if x == cand {
				val[x] = solid
			} else {
				val[y] = solid
			}
			solid++
		}
		if val[x] == gas {
			cand = x
		} else if val[y] == gas {
			cand = y
		}
		switch {
		case val[x] < val[y]:
			return -1
		case val[x] > val[y]:
			return 1
		}
		return 0
	}
	less := func(i, j int) bool { return cmp(ptr[i], ptr[j]) < 0 }
	swap := func(i, j int) { ptr[i], ptr[j] = ptr[j], ptr[i] }
	med := func(m1, m0, m2 int) {
		if less(m1, m0) {
			swap(m1, m0)
		}
		if less(m2, m1) {
			swap(m2, m1)
		}
		if less(m1, m0) {
			swap(m1, m0)
		}
	}
	var qs func(lo, hi int)
	qs = func(lo, hi int) {
		for hi-lo > 7 {
			m := lo + (hi-lo)/2
			if hi-lo > 40 {
				s := (hi - lo) / 8
				med(lo, lo+s, lo+2*s)
				med(m, m-s, m+s)
				med(hi-1, hi-1-s, hi-1-2*s)
			}
			med(lo, m, hi-1)
			i := lo + 1
			for j := lo + 1; j < hi; j++ {
				if less(j, lo) {
					swap(i, j)
					i++
				}
			}
			swap(lo, i-1)
			qs(lo, i-1)
			lo = i
		}
		for i := lo + 1; i < hi; i++ {
			for j := i; j > lo && less(j, j-1); j-- {
				swap(j, j-1)
			}
		}
	}
	qs(0, n)
	for i := range d {
		d[i] = val[i]
		if d[i] == gas {
			d[i] = uint64(n)
		}
	}
}

''')
w('c20-initials',['io/ioutil',T],'''	check(ioutil.WriteFile("dict.txt", []byte("世界 10 n\\n"), 0600))
	o := small(types.DocIdsIndex)
	o.NotUseGse, o.Using, o.GseDict, o.PinYin = false, 1, "dict.txt", true
	e := open(o)
	e.Index("1", types.DocData{Content: "阿世界"})
	e.Flush()
	for _, k := range []string{"a", "as", "asj", "ashijie"} {
		if r := e.Search(types.SearchReq{Tokens: []string{k}}); found(r) != "1" {
			fail("%q finds %q", k, found(r))
		}
	}
''')
w('c21-missing-locations',[T],'''	e := open(small(types.LocsIndex))
	e.Index("1", types.DocData{Tokens: []types.TokenData{tok("t", 0), tok("u")}})
	e.Flush()
	if r := e.Search(types.SearchReq{Tokens: []string{"t", "u"}}); found(r) != "1" {
		fail("found %q", found(r))
	}
''')
w('c22-negative-offset',['pb "%s/net/grpc/riot-pb"'%R],'''	m := pb.SearchReq{Query: "q", OutputOffset: -5, MaxOutputs: 7}
	b, err := m.Marshal()
	check(err)
	var x pb.SearchReq
	check(x.Unmarshal(b))
	if x.OutputOffset != -5 || x.MaxOutputs != 7 || x.Query != "q" {
		fail("%v", x)
	}
''')
w('c23-shared-reply',['encoding/json','fmt','net/http','net/http/httptest','strings',R+'/net/com','rhttp "%s/net/http"'%R],'''	for _, s := range []float32{1, 2} {
		s := s
		n := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			fmt.Fprintf(w, `{"code":0,"len":1,"timestamp":1,"docs":[{"id":"n%v","score":[%v],"content":"","attri":{}}]}`, s, s)
		}))
		defer n.Close()
		com.Conf.Url = append(com.Conf.Url, n.URL)
	}
	w := httptest.NewRecorder()
	rhttp.WgDist(w, httptest.NewRequest("GET", "/dist?query=hello&maxOutputs=10", nil))
	var r struct {
		Docs []struct {
			Id    string
			Score []float32
		}
	}
	check(json.Unmarshal(w.Body.Bytes(), &r))
	if len(r.Docs) != 2 {
		fail("%s", w.Body.String())
	}
	for _, d := range r.Docs {
		if len(d.Score) != 1 || !strings.HasSuffix(d.Id, fmt.Sprint(d.Score[0])) {
			fail("document %q comes with the scores %v", d.Id, d.Score)
		}
	}
''')
w('c05-unreachable-break',[T],'''	x := indexer(types.LocsIndex, docIndex("a", 3, kw("aa", 10), kw("bb", 0, 5, 12), kw("cc", 14)))
	docs, _ := x.Lookup([]string{"aa", "bb", "cc"}, nil, nil, false)
	if d := docs[0]; d.TokenProximity != 0 || d.TokenSnippetLocs[1] != 12 {
		fail("three adjacent tokens: %+v", d)
	}
''')
w('c24-request-criteria',[T],'''	o := small(types.DocIdsIndex)
	o.DefRankOpts = &types.RankOpts{ScoringCriteria: byField{}}
	e := open(o)
	for i, id := range []string{"1", "2", "3"} {
		e.Index(id, types.DocData{Tokens: []types.TokenData{tok("t", 0)}, Fields: float32(5 - i)})
	}
	e.Flush()
	for _, r := range []*types.RankOpts{nil, {}, {MaxOutputs: 3}} {
		if got := found(e.Search(types.SearchReq{Tokens: []string{"t"}, RankOpts: r})); got != "1 2 3" {
			fail("rank options %v give the order %q", r, got)
		}
	}
''')
w('c24-bm25-only-frequencies',[T],'''	scores := func(p *types.BM25Parameters) []float32 {
		o := small(types.LocsIndex)
		o.IndexerOpts.BM25Parameters = p
		e := open(o)
		e.Index("1", types.DocData{Tokens: []types.TokenData{tok("t", 0, 5), tok("u", 2)}})
		e.Index("2", types.DocData{Tokens: []types.TokenData{tok("u", 0)}})
		e.Flush()
		return e.Search(types.SearchReq{Tokens: []string{"t"}}).Docs.(types.ScoredDocs)[0].Scores
	}
	got, want := scores(nil), scores(&types.BM25Parameters{K1: 2, B: 0.75})
	if len(got) != 1 || got[0] != want[0] || want[0] == 0 {
		fail("score %v, with the default parameters %v", got, want)
	}
''')
w('c25-forced-no-keywords',['time',T],'''	e := open(small(types.DocIdsIndex))
	e.Index("1", types.DocData{Tokens: []types.TokenData{tok("t", 0)}})
	e.Flush()
	e.Index("1", types.DocData{}, true)
	for i := 0; ; i++ {
		if r := e.Search(types.SearchReq{Tokens: []string{"t"}}); r.NumDocs == 0 {
			break
		}
		if i == 100 {
			fail("the former version is still found 5 s after the forced update")
		}
		time.Sleep(50 * time.Millisecond)
	}
''')
w('c25-token-count',[T],'''	e := open(small(types.DocIdsIndex))
	e.Index("1", types.DocData{Tokens: []types.TokenData{tok("t", 0), tok("u", 1)}, Labels: []string{"l", "m"}})
	e.Flush()
	if n := e.NumTokenAdded(); n != 4 {
		fail("%d keywords are counted", n)
	}
''')
w('c16-rank-ack',['fmt',T],'''	e := open(small(types.DocIdsIndex))
	for i := 1; i < 6; i++ {
		e.Index(fmt.Sprint(i), types.DocData{Tokens: []types.TokenData{tok("t"+fmt.Sprint(i), 0)}})
		e.Flush()
		if r := e.Search(types.SearchReq{Tokens: []string{"t" + fmt.Sprint(i)}}); found(r) != fmt.Sprint(i) {
			fail("document %d is not found after Flush: %q", i, found(r))
		}
	}
''',head='// delay-at ranker_worker.go 20 engine.rankers[shard].AddDoc(\n')

w('c10-idonly-merge',['fmt','strings',T],'''	for _, shards := range []int{1, 3, 8} {
		o := small(types.DocIdsIndex)
		o.NumShards, o.IDOnly = shards, true
		e := open(o)
		for i := 0; i < 29; i++ {
			e.Index(fmt.Sprint("d", i), types.DocData{Tokens: []types.TokenData{tok("t", 0)}, Fields: float32(i * 7 % 29)})
		}
		e.Flush()
		seen := map[string]bool{}
		for _, id := range strings.Fields(found(e.Search(types.SearchReq{Tokens: []string{"t"}, RankOpts: &types.RankOpts{ScoringCriteria: byField{}}}))) {
			seen[id] = true
		}
		if len(seen) != 29 {
			fail("%d shards: %d of 29 documents", shards, len(seen))
		}
	}
''')
w('c20-position',['io/ioutil',T],'''	check(ioutil.WriteFile("dict.txt", []byte("世界 10 n\\n"), 0600))
	check(ioutil.WriteFile("stop.txt", []byte("的\\n"), 0600))
	o := small(types.DocIdsIndex)
	o.NotUseGse, o.Using, o.GseDict, o.PinYin, o.StopTokenFile = false, 1, "dict.txt", true, "stop.txt"
	e := open(o)
	e.Index("1", types.DocData{Content: "我的世界"})
	e.Flush()
	for _, k := range []string{"我", "我的", "我的世", "我的世界", "w", "wdsj"} {
		if r := e.Search(types.SearchReq{Tokens: []string{k}}); found(r) != "1" {
			fail("%q finds %q", k, found(r))
		}
	}
''')
w('c17-docid-number',['encoding/json','net/http/httptest','rhttp "%s/net/http"'%R]+[x for x in N if x!=T],'''	serve(nil)
	for _, id := range []string{"7", "007", "x1", "0x1"} {
		rhttp.AddIndex(httptest.NewRecorder(), httptest.NewRequest("GET", "/add?query=hello&docid="+id, nil))
		com.Flush()
		w := httptest.NewRecorder()
		rhttp.Search(w, httptest.NewRequest("GET", "/search?query=hello", nil))
		var r struct {
			Docs []struct{ Id string }
		}
		check(json.Unmarshal(w.Body.Bytes(), &r))
		if len(r.Docs) != 1 || r.Docs[0].Id != id {
			fail("document %q is found as %v", id, r.Docs)
		}
		rhttp.DelIndex(httptest.NewRecorder(), httptest.NewRequest("GET", "/delete?docid="+id, nil))
		com.Flush()
		if com.Searcher.HasDoc(id) {
			fail("document %q is still there", id)
		}
	}
''',extra=net.replace(net[net.index('func add'):],''))
w('c18-bare-tokens',['net','time','context','grpc "google.golang.org/grpc"','pb "%s/net/grpc/riot-pb"'%R]+[x for x in N if x!=T],port+'''	serve(nil)
	go rpc.InitGrpc(port)
	conn, err := grpc.Dial("127.0.0.1"+port, grpc.WithInsecure())
	check(err)
	c := pb.NewGreeterClient(conn)
	for i := 0; ; i++ {
		_, err := c.DocInx(context.Background(), &pb.DocReq{DocId: "1", Tokens: []*pb.TokenData{{Text: "bare"}, {Text: "placed", Locations: []int32{3}}}})
		if err == nil {
			break
		}
		if i == 200 {
			fail("%v", err)
		}
		time.Sleep(50 * time.Millisecond)
	}
	com.Flush()
	for _, q := range []string{"placed", "bare"} {
		r, err := c.Search(context.Background(), &pb.SearchReq{Logic: &pb.Logic{Expr: &pb.Expr{Must: []string{q}}}})
		check(err)
		if len(r.Docs) != 1 {
			fail("token %q finds %v", q, r.Docs)
		}
	}
''',extra=net.replace(net[net.index('func add'):],''))
w('c23-one-per-id',['encoding/json','fmt','net/http','net/http/httptest',R+'/net/com','rhttp "%s/net/http"'%R],'''	for _, ts := range []int{1, 2, 3} {
		ts := ts
		n := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			fmt.Fprintf(w, `{"code":0,"len":2,"timestamp":1,"docs":[{"id":"n%d","attri":{"ts":1}},{"id":"same","attri":{"ts":%d}}]}`, ts, 10+ts)
		}))
		defer n.Close()
		com.Conf.Url = append(com.Conf.Url, n.URL)
	}
	w := httptest.NewRecorder()
	rhttp.WgDist(w, httptest.NewRequest("GET", "/dist?query=hello&maxOutputs=10", nil))
	var r struct {
		Docs []struct {
			Id    string
			Attri struct{ Ts int }
		}
	}
	check(json.Unmarshal(w.Body.Bytes(), &r))
	if len(r.Docs) != 6 || r.Docs[0].Attri.Ts != 13 {
		fail("%s", w.Body.String())
	}
''')
import subprocess
subprocess.run(['gofmt','-w']+[D+f for f in os.listdir(D) if f.endswith('.go')],check=True)
hbs='''type server struct {
	pb.GreeterServer
	beat func(i int) int32
	i    int
}

func (s *server) HeartBeat(context.Context, *pb.HeartReq) (*pb.Reply, error) {
	s.i++
	return &pb.Reply{Result: s.beat(s.i)}, nil
}

// monitor starts a server and its monitor.
func monitor(cmd string, beat func(i int) int32) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	check(err)
	g := grpc.NewServer()
	pb.RegisterGreeterServer(g, &server{beat: beat})
	go g.Serve(l)
	go hb.Grpcc(l.Addr().String(), ".", cmd)
}

'''
HN=['context','net','time','grpc "google.golang.org/grpc"','pb "%s/net/grpc/riot-pb"'%R,'hb "%s/net/heartb"'%R]
w('c26-restart-wait',HN+['io/ioutil'],'''	done := make(chan string, 1)
	monitor("echo start > log; sleep 2.5; echo end >> log", func(i int) int32 {
		if i == 5 {
			b, _ := ioutil.ReadFile("log")
			done <- string(b)
		}
		return 0
	})
	select {
	case s := <-done:
		if s != "start\\nend\\n" {
			fail("the fifth heartbeat comes when the restart command has written %q", s)
		}
	case <-time.After(60 * time.Second):
		fail("no fifth heartbeat")
	}
''',extra=hbs)
w('c26-other-results',HN+['io/ioutil'],'''	done := make(chan string, 1)
	monitor("echo start > log", func(i int) int32 {
		if i == 5 {
			b, _ := ioutil.ReadFile("log")
			done <- string(b)
		}
		return 2
	})
	select {
	case s := <-done:
		if s != "start\\n" {
			fail("after four failed heartbeats the restart command has written %q", s)
		}
	case <-time.After(60 * time.Second):
		fail("no fifth heartbeat")
	}
''',extra=hbs)
w('c27-shared-tokens',['strings',T],'''	e := open(small(types.DocIdsIndex))
	e.Index("1", types.DocData{Tokens: []types.TokenData{tok("t", 0), tok("u", 1)}})
	e.Flush()
	tokens := []string{"t", "u"}
	r := e.Search(types.SearchReq{Tokens: tokens})
	tokens[0], tokens[1] = "next", "words"
	e.Search(types.SearchReq{Tokens: tokens})
	if s := strings.Join(r.Tokens, " "); found(r) != "1" || s != "t u" {
		fail("the answer of the first search has the tokens %q", s)
	}
''')
w('c11-return-chan',['time',T],'''	e := open(small(types.DocIdsIndex))
	e.Index("1", types.DocData{Tokens: []types.TokenData{tok("t", 0)}, Fields: float32(1)})
	e.Flush()
	s := slow{make(chan bool)}
	r := e.Search(types.SearchReq{Tokens: []string{"t"}, Timeout: 5, RankOpts: &types.RankOpts{ScoringCriteria: s}})
	if !r.Timeout {
		fail("the search does not time out")
	}
	close(s.c)
	done := make(chan string, 1)
	go func() {
		for i := 0; i < 5; i++ {
			found(e.Search(types.SearchReq{Tokens: []string{"t"}}))
		}
		done <- found(e.Search(types.SearchReq{Tokens: []string{"t"}}))
	}()
	select {
	case s := <-done:
		if s != "1" {
			fail("after a search that timed out, %q is found", s)
		}
	case <-time.After(30 * time.Second):
		fail("after a search that timed out, searches do not return")
	}
''',extra='''type slow struct{ c chan bool }

func (s slow) Score(types.IndexedDoc, interface{}) []float32 { <-s.c; return []float32{1} }

''')
bmk='''
// bm scores a document with its BM25 value.
type bm struct{}

func (bm) Score(d types.IndexedDoc, f interface{}) []float32 { return []float32{d.BM25} }

// scores gives the score of every document of a search.
func scores(e *riot.Engine, text string, tokens ...string) map[string]float32 {
	out := map[string]float32{}
	r := e.SearchDoc(types.SearchReq{Text: text, Tokens: tokens, RankOpts: &types.RankOpts{ScoringCriteria: bm{}}})
	for _, d := range r.Docs {
		out[d.DocId] = d.Scores[0]
	}
	return out
}

// dict gives an engine with a segmenter of a few words.
func dict(o types.EngineOpts) types.EngineOpts {
	check(os.WriteFile("dict.txt", []byte("hello 100 n\\nworld 100 n\\n"), 0600))
	check(os.WriteFile("stop.txt", nil, 0600))
	o.GseDict, o.StopTokenFile, o.NotUseGse = "dict.txt", "stop.txt", false
	return o
}

'''
w('c28-content-tokens',['os',R,T],'''	o := dict(small(types.FrequenciesIndex))
	o.Using = 0
	e := open(o)
	e.Index("1", types.DocData{Content: "hello world"})
	e.Index("2", types.DocData{Content: "hello world", Tokens: []types.TokenData{tok("x", 0), tok("y", 1), tok("z", 2)}})
	e.Flush()
	s := scores(e, "", "hello")
	if len(s) != 2 || !(s["2"] < s["1"]) {
		fail("scores %v: the longer document 2 is not behind", s)
	}
''',extra=bmk)
w('c28-pinyin-length',['os',R,T],'''	o := small(types.FrequenciesIndex)
	o.Using, o.PinYin = 4, true
	e := open(o)
	e.Index("1", types.DocData{Content: "西 x y z"})
	e.Index("2", types.DocData{Content: "西 西安西安 y z"})
	e.Flush()
	// the same frequency, but more pinyin keywords
	o.PinYin = false
	p := open(o)
	p.Index("1", types.DocData{Content: "西 x y z"})
	p.Index("2", types.DocData{Content: "西 西安西安 y z"})
	p.Flush()
	s, t := scores(e, "", "y"), scores(p, "", "y")
	if len(s) != 2 || len(t) != 2 || t["1"] != t["2"] || !(s["2"] < s["1"]) {
		fail("scores %v, without pinyin %v", s, t)
	}
''',extra=bmk)
w('c28-token-append',['os',R,T],'''	o := dict(small(types.FrequenciesIndex))
	o.Using = 0
	e := open(o)
	e.Index("1", types.DocData{Content: "hello world", Tokens: []types.TokenData{tok("world", 6)}})
	e.Index("2", types.DocData{Content: "hello world", Tokens: []types.TokenData{tok("x", 6)}})
	e.Flush()
	s := scores(e, "", "world")
	if len(s) != 2 || s["1"] != s["2"] {
		fail("scores %v: one occurrence each, at 6", s)
	}
''',extra=bmk)
w('c05-rune-length',[T],'''	x := indexer(types.LocsIndex, docIndex("a", 2, kw("世界", 0), kw("人口", 6)))
	docs, _ := x.Lookup([]string{"世界", "人口"}, nil, nil, false)
	if len(docs) != 1 || docs[0].TokenProximity != 0 {
		fail("%+v", docs)
	}
''')
w('c08-bolt-pending-delete',['os','fmt','time',S],'''	if len(os.Args) > 1 {
		s, err := store.OpenStore("db", "bolt")
		check(err)
		check(s.Set([]byte("a"), []byte("1")))
		check(s.Set([]byte("b"), []byte("2")))
		check(s.Delete([]byte("a")))
		fmt.Println("ready")
		time.Sleep(time.Hour)
	}
	child("writer")
	s, err := store.OpenStore("db", "bolt")
	check(err)
	defer s.Close()
	keys := ""
	check(s.ForEach(func(k, v []byte) error { keys += string(k); return nil }))
	if keys != "b" {
		fail("after the death of the process the store holds the keys %q", keys)
	}
''')
w('c12-unordered-writes',['fmt','strings',T],'''	o := small(types.DocIdsIndex)
	o.UseStore, o.StoreFolder, o.StoreEngine, o.StoreShards = true, "db", "bolt", 1
	e := open(o)
	for i := 0; i < 100; i++ {
		id := fmt.Sprint("d", i)
		e.Index(id, types.DocData{Content: strings.Repeat("old ", 10000), Labels: []string{"old"}})
		e.Index(id, types.DocData{Content: "newer", Labels: []string{"new"}})
		e.Index(id, types.DocData{Content: "last", Labels: []string{"last"}})
	}
	e.Flush()
	ids, docs := e.GetDBAllDocs()
	if len(ids) != 100 || len(docs) != 100 {
		fail("%d documents, %d", len(ids), len(docs))
	}
	for i, d := range docs {
		if d.Content != "last" {
			fail("document %s is stored as %.20q...", ids[i], d.Content)
		}
	}
	e.Close()
''')
w('c13-skip-unchanged',['os','fmt','time',T],'''	o := small(types.DocIdsIndex)
	o.UseStore, o.StoreFolder, o.StoreEngine, o.StoreShards = true, "db", "bolt", 1
	if len(os.Args) > 1 {
		e := open(o)
		d := types.DocData{Labels: []string{"l"}}
		e.Index("a", d)
		e.Flush()
		e.RemoveDoc("a")
		e.Flush()
		e.Index("a", d)
		e.Flush()
		fmt.Println("ready")
		time.Sleep(time.Hour)
	}
	child("writer")
	e := open(o)
	e.Flush()
	if s := found(e.Search(types.SearchReq{Labels: []string{"l"}})); s != "a" {
		fail("after the death of the process %q is found", s)
	}
	e.Close()
''')
w('c12-decode-reuse',[T],'''	o := small(types.DocIdsIndex)
	o.UseStore, o.StoreFolder, o.StoreEngine, o.StoreShards = true, "db", "bolt", 1
	e := open(o)
	e.Index("1", types.DocData{Content: "content of 1", Labels: []string{"one"}})
	e.Index("2", types.DocData{Tokens: []types.TokenData{tok("two", 0)}})
	e.Close()
	e = open(o)
	e.Flush()
	r := e.SearchDoc(types.SearchReq{Tokens: []string{"two"}})
	if s := found(e.Search(types.SearchReq{Labels: []string{"one"}})); s != "1" || len(r.Docs) != 1 || r.Docs[0].Content != "" {
		fail("after a restart %q have the label of 1; 2: %+v", s, r.Docs)
	}
	e.Close()
''')
w('c19-pivot-equal',['math/rand',C],'''	for n := 0; n < 20000; n++ {
		d := make([]uint64, 8+rand.Intn(60))
		for i := range d {
			d[i] = uint64(rand.Intn(3))
		}
		orig := append([]uint64{}, d...)
		core.Desc(d)
		if !core.IsSortedDesc(d) {
			fail("Desc(%v) gives %v", orig, d)
		}
	}
''')
w('c21-empty-request',[T],'''	e := open(small(types.LocsIndex))
	e.Index("1", types.DocData{Tokens: []types.TokenData{tok("t", 0)}})
	e.Flush()
	if r := e.Search(types.SearchReq{}); r.NumDocs != 0 || found(r) != "" {
		fail("an empty request finds %q", found(r))
	}
	if s := found(e.Search(types.SearchReq{Tokens: []string{"t"}})); s != "1" {
		fail("the next request finds %q", s)
	}
''')
w('c22-long-id',['strings','pb "%s/net/grpc/riot-pb"'%R],'''	id := strings.Repeat("d", 200)
	m := &pb.SearchReq{Query: "q", DocIds: map[string]bool{id: true}}
	b, err := m.Marshal()
	check(err)
	var got pb.SearchReq
	check(got.Unmarshal(b))
	if len(b) != m.Size() || got.Query != "q" || len(got.DocIds) != 1 || !got.DocIds[id] {
		fail("%d bytes, size %d: %+v", len(b), m.Size(), got)
	}
''')
w('c22-locations-chunks',['fmt','pb "%s/net/grpc/riot-pb"'%R],'''	a, err := (&pb.TokenData{Text: "t", Locations: []int32{1, 2}}).Marshal()
	check(err)
	b, err := (&pb.TokenData{Locations: []int32{3}}).Marshal()
	check(err)
	var got pb.TokenData
	check(got.Unmarshal(append(a, b...)))
	if s := fmt.Sprint(got.Locations); got.Text != "t" || s != "[1 2 3]" {
		fail("%q %s", got.Text, s)
	}
''')
w('c14-rank-pool',['fmt','sync',T],'''	o := small(types.DocIdsIndex)
	o.IDOnly, o.NumRankerThreads, o.NumIndexerThreads = true, 4, 4
	e := open(o)
	for i := 0; i < 40; i++ {
		e.Index(fmt.Sprint("a", i), types.DocData{Labels: []string{"a"}, Fields: float32(1)})
		e.Index(fmt.Sprint("b", i), types.DocData{Labels: []string{"b"}, Fields: float32(1)})
	}
	e.Flush()
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		label := "ab"[g%2 : g%2+1]
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 3000; i++ {
				r := e.SearchID(types.SearchReq{Labels: []string{label}, RankOpts: &types.RankOpts{ScoringCriteria: byField{}}})
				if len(r.Docs) != 40 {
					fail("%d documents with label %s", len(r.Docs), label)
				}
				for _, d := range r.Docs {
					if d.DocId[:1] != label {
						fail("a search for label %s finds document %s", label, d.DocId)
					}
				}
			}
		}()
	}
	wg.Wait()
''')
w('c02-search-window',['fmt',T],'''	var docs []*types.DocIndex
	for i := 0; i < 300; i++ {
		d := docIndex(fmt.Sprintf("%03d", i), 1, kw("t", 1))
		if i == 5 || i == 295 {
			d.Keywords = append(d.Keywords, kw("rare", 2))
		}
		docs = append(docs, d)
	}
	x := indexer(types.DocIdsIndex, docs...)
	got, n := x.Lookup([]string{"rare", "t"}, nil, nil, false)
	if ids(got) != "295 005" || n != 2 {
		fail("found %q, %d", ids(got), n)
	}
''')
w('c04-cached-idf',[T],'''	x := indexer(types.FrequenciesIndex, docIndex("a", 2, kw("t", 1)), docIndex("b", 2, kw("u", 1)))
	x.Lookup([]string{"t"}, nil, nil, false)
	for _, id := range []string{"c", "d", "e", "f"} {
		x.AddDocToCache(docIndex(id, 2, kw("u", 1)), true)
	}
	got, _ := x.Lookup([]string{"t"}, nil, nil, false)
	want, _ := indexer(types.FrequenciesIndex, docIndex("a", 2, kw("t", 1)), docIndex("b", 2, kw("u", 1)), docIndex("c", 2, kw("u", 1)),
		docIndex("d", 2, kw("u", 1)), docIndex("e", 2, kw("u", 1)), docIndex("f", 2, kw("u", 1))).Lookup([]string{"t"}, nil, nil, false)
	if bm25(got, "a") != bm25(want, "a") {
		fail("a scores %v, in a fresh index %v", bm25(got, "a"), bm25(want, "a"))
	}
''')
w('c04-narrow-frequency',[T],'''	var many []int
	for i := 0; i < 300; i++ {
		many = append(many, i*2)
	}
	got, _ := indexer(types.FrequenciesIndex, docIndex("a", 300, kw("t", 1)), docIndex("b", 300, kw("t", many...))).Lookup([]string{"t"}, nil, nil, false)
	less, _ := indexer(types.FrequenciesIndex, docIndex("a", 300, kw("t", 1)), docIndex("b", 300, kw("t", many[:200]...))).Lookup([]string{"t"}, nil, nil, false)
	if !(bm25(got, "b") > bm25(less, "b")) {
		fail("300 times scores %v, 200 times %v", bm25(got, "b"), bm25(less, "b"))
	}
''')
w('c06-attributes-kept',[C,T],'''	r := &core.Ranker{}
	r.Init()
	r.AddDoc("a", nil, "old", "attributes")
	r.RemoveDoc("a")
	r.AddDoc("a", nil, "new", nil)
	out, n := r.Rank([]types.IndexedDoc{{DocId: "a", BM25: 1}}, types.RankOpts{ScoringCriteria: types.RankByBM25{}}, false)
	docs := out.(types.ScoredDocs)
	if n != 1 || len(docs) != 1 || docs[0].Content != "new" || docs[0].Attri != nil {
		fail("%+v", docs)
	}
''')
w('c15-long-content',['strings','os',R,T],'''	o := dict(small(types.LocsIndex))
	o.Using = 0
	e := open(o)
	text := strings.Repeat("world ", 8000)
	e.Index("1", types.DocData{Content: text + "foo"})
	e.Flush()
	r := e.Search(types.SearchReq{Tokens: []string{"world"}})
	docs := r.Docs.(types.ScoredDocs)
	if len(docs) != 1 || len(docs[0].TokenLocs) != 1 || len(docs[0].TokenLocs[0]) != 8000 {
		fail("%d documents", len(docs))
	}
	for i, l := range docs[0].TokenLocs[0] {
		if l != i*6 {
			fail("occurrence %d is at %d", i, l)
		}
	}
	if s := found(e.Search(types.SearchReq{Tokens: []string{"foo"}})); s != "1" {
		fail("the last word finds %q", s)
	}
''',extra=bmk)
w('c15-token-case',[T],'''	e := open(small(types.DocIdsIndex))
	e.Index("1", types.DocData{Tokens: []types.TokenData{tok("hello", 0), tok("iPhone", 1)}})
	e.Flush()
	if s := found(e.Search(types.SearchReq{Tokens: []string{"iPhone"}})); s != "1" {
		fail("the token finds %q", s)
	}
	if s := found(e.Search(types.SearchReq{Text: "Hello", Tokens: []string{"iPhone"}})); s != "1" {
		fail("the text and the token find %q", s)
	}
''')
w('c27-search-cache',[T],'''	e := open(small(types.DocIdsIndex))
	e.Index("1", types.DocData{Tokens: []types.TokenData{tok("t", 0)}})
	e.Index("2", types.DocData{Tokens: []types.TokenData{tok("t", 0)}})
	e.Flush()
	for i := 0; i < 3; i++ {
		r := e.SearchDoc(types.SearchReq{Tokens: []string{"t"}})
		if len(r.Docs) != 2 {
			fail("%d documents", len(r.Docs))
		}
		for j := range r.Docs {
			if id := r.Docs[j].DocId; id != "1" && id != "2" {
				fail("time %d: document %q", i, id)
			}
			r.Docs[j].DocId = "mine"
		}
	}
''')
