package main

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	pb "github.com/go-ego/riot/net/grpc/riot-pb"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"pgregory.net/rapid"
	"verif/harness/internal/vp"
)

// --- C23: distributed searches --------------------------------------------------------

// NDoc is a document a node answers with.
type NDoc struct {
	ID    string    `json:"id"`
	Ts    int64     `json:"ts"`
	Title string    `json:"title,omitempty"`
	Score []float32 `json:"score,omitempty"`
}

// Node is a node of a distributed search.
type Node struct {
	State string         `json:"state"` // up, down, fail (answers with an error), slow (never answers; HTTP only)
	Code  int            `json:"code,omitempty"`
	Docs  map[int][]NDoc `json:"docs,omitempty"` // by query
}

// DReq is a distributed search.
type DReq struct {
	Rpc  bool     `json:"rpc,omitempty"`
	Q    int      `json:"q"`
	Off  string   `json:"off,omitempty"`
	Max  string   `json:"max,omitempty"`
	Time string   `json:"time,omitempty"`
	IDs  []string `json:"ids,omitempty"`
	L    *GLogic  `json:"l,omitempty"`
}

// DCase is a set of nodes and searches of them.
type DCase struct {
	Conf  Conf     `json:"conf"`
	Http  []Node   `json:"http"`
	Rpc   []Node   `json:"rpc"`
	Waves [][]DReq `json:"waves"` // the searches of a wave run at the same time
}

const dqueries = 4

func genNode(t *rapid.T, http bool) Node {
	states := []string{"up", "up", "up", "up", "up", "up", "down", "fail"}
	if http && rapid.IntRange(0, 15).Draw(t, "slow") == 0 {
		states = []string{"slow"}
	}
	n := Node{State: rapid.SampledFrom(states).Draw(t, "state"), Code: rapid.SampledFrom([]int{0, 0, 1}).Draw(t, "code"), Docs: map[int][]NDoc{}}
	if n.State != "up" {
		return n
	}
	for q := 0; q < dqueries; q++ {
		for i := rapid.SampledFrom([]int{0, 1, 2, 3, 7}).Draw(t, "docs"); i > 0; i-- {
			n.Docs[q] = append(n.Docs[q], NDoc{
				ID:    rapid.SampledFrom([]string{"1", "2", "10", "9", "a", "文", "b\"<", ""}).Draw(t, "id"),
				Ts:    rapid.SampledFrom([]int64{0, 1, 2, 3, -1, 1 << 62, -1 << 62}).Draw(t, "ts"),
				Title: rapid.SampledFrom([]string{"", "题"}).Draw(t, "title"),
				Score: rapid.SampledFrom([][]float32{nil, {1}, {0.5, 2}}).Draw(t, "score")})
		}
	}
	return n
}

func genDCase(t *rapid.T) DCase {
	c := DCase{Conf: genConf(t)}
	for i := rapid.IntRange(0, 3).Draw(t, "nHttp"); i > 0; i-- {
		c.Http = append(c.Http, genNode(t, true))
	}
	for i := rapid.IntRange(1, 3).Draw(t, "nRpc"); i > 0; i-- {
		c.Rpc = append(c.Rpc, genNode(t, false))
	}
	for i := rapid.IntRange(1, 3).Draw(t, "waves"); i > 0; i-- {
		var w []DReq
		for j := rapid.IntRange(1, 6).Draw(t, "reqs"); j > 0; j-- {
			r := DReq{Rpc: rapid.Bool().Draw(t, "rpc"), Q: rapid.IntRange(0, dqueries-1).Draw(t, "q"),
				Off:  rapid.SampledFrom([]string{"", "0", "1", "5"}).Draw(t, "off"),
				Max:  rapid.SampledFrom([]string{"", "0", "1", "2", "3", "50", "-1", "-7", "2147483647"}).Draw(t, "max"),
				Time: rapid.SampledFrom([]string{"", "t"}).Draw(t, "time")}
			if !r.Rpc && rapid.IntRange(0, 7).Draw(t, "odd") == 0 {
				r.Max = "x"
			}
			if r.Rpc {
				r.IDs = rapid.SliceOfNDistinct(rapid.SampledFrom(gids), 0, 3, rapid.ID[string]).Draw(t, "ids")
				if rapid.Bool().Draw(t, "logic") {
					r.L = &GLogic{Must: rapid.Bool().Draw(t, "must"), Should: rapid.Bool().Draw(t, "should"), NoExpr: rapid.IntRange(0, 3).Draw(t, "noExpr") == 0,
						EMust: genWords(t, "emust", 0, 2), EShould: genWords(t, "eshould", 0, 2), ENot: genWords(t, "enot", 0, 2)}
				}
			}
			w = append(w, r)
		}
		c.Waves = append(c.Waves, w)
	}
	return c
}

func (r DReq) query() string { return fmt.Sprintf("q %d 世", r.Q) }

// qnum is the query a node was sent.
func qnum(q string) int {
	f := strings.Fields(q)
	if len(f) == 3 {
		n, _ := strconv.Atoi(f[1])
		return n
	}
	return -1
}

// content tells where a document comes from.
func content(node, q, i int) string { return fmt.Sprintf("node %d query %d document %d", node, q, i) }

type dnodes struct {
	c      DCase
	mu     sync.Mutex
	http   map[string][]string        // by userid: the node and form of every request
	rpc    map[string][]*pb.SearchReq // by id
	urls   []string
	addrs  []string
	closer []func()
	stop   chan struct{}
}

// free is an address nobody listens on.
func free() string { return fmt.Sprintf("127.0.0.1:%d", freePort()) }

type fakeGreeter struct {
	pb.GreeterServer
	d *dnodes
	i int
}

func (f *fakeGreeter) Search(_ context.Context, in *pb.SearchReq) (*pb.SearchReply, error) {
	f.d.mu.Lock()
	f.d.rpc[in.Id] = append(f.d.rpc[in.Id], in)
	f.d.mu.Unlock()
	n := f.d.c.Rpc[f.i]
	if n.State == "fail" {
		return nil, status.Error(codes.Internal, "no")
	}
	return f.d.rpcReply(f.i, qnum(in.Query)), nil
}

func (d *dnodes) rpcReply(i, q int) *pb.SearchReply {
	n := d.c.Rpc[i]
	r := &pb.SearchReply{Code: int32(n.Code), Len: int32(len(n.Docs[q])), Timestamp: 1000 + int64(i)}
	for j, x := range n.Docs[q] {
		r.Docs = append(r.Docs, &pb.Text{Id: x.ID, Content: content(i, q, j), Attri: &pb.Attri{Title: x.Title, Ts: x.Ts, Time: "then", Author: "me"}})
	}
	return r
}

func (d *dnodes) httpReply(i, q int) []byte {
	n := d.c.Http[i]
	docs := []map[string]any{}
	for j, x := range n.Docs[q] {
		docs = append(docs, map[string]any{"id": x.ID, "content": content(i, q, j), "score": x.Score,
			"attri": map[string]any{"title": x.Title, "author": "me", "time": "then", "ts": x.Ts}})
	}
	b, _ := json.Marshal(map[string]any{"code": n.Code, "len": len(docs), "timestamp": 1000 + i, "docs": docs})
	return append(b, '\n') // whatever a node sends
}

func (d *dnodes) start() {
	d.stop = make(chan struct{})
	d.closer = append(d.closer, func() { close(d.stop) })
	for i, n := range d.c.Http {
		if n.State == "down" {
			d.urls = append(d.urls, "http://"+free())
			continue
		}
		i, n := i, n
		s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			r.ParseForm()
			d.mu.Lock()
			u := r.PostForm.Get("userid")
			d.http[u] = append(d.http[u], fmt.Sprintf("%d %s %s", i, r.URL.Path, r.PostForm.Encode()))
			d.mu.Unlock()
			switch n.State {
			case "fail":
				w.WriteHeader(500)
			case "slow":
				select {
				case <-d.stop:
				case <-r.Context().Done():
				}
			default:
				w.Write(d.httpReply(i, qnum(r.PostForm.Get("query"))))
			}
		}))
		d.urls = append(d.urls, s.URL)
		d.closer = append(d.closer, s.Close)
	}
	for i, n := range d.c.Rpc {
		if n.State == "down" {
			d.addrs = append(d.addrs, free())
			continue
		}
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			vp.Abort("%v", err)
		}
		s := grpc.NewServer()
		pb.RegisterGreeterServer(s, &fakeGreeter{d: d, i: i})
		go s.Serve(l)
		d.addrs = append(d.addrs, l.Addr().String())
		d.closer = append(d.closer, s.Stop)
	}
}

type dtext struct {
	id, content, title, author, time string
	ts                               int64
	score                            string
}

type danswer struct {
	code, len int
	stamp     int64
	docs      []dtext
}

func httpAnswer(b []byte) (a danswer, err error) {
	var r HReply
	if err := json.Unmarshal(b, &r); err != nil {
		return a, fmt.Errorf("the answer %q is not JSON: %v", b, err)
	}
	if r.Code == nil || r.Len == nil || r.Timestamp == nil {
		return a, fmt.Errorf("the answer %q lacks a member", b)
	}
	a = danswer{code: int(*r.Code), len: *r.Len, stamp: *r.Timestamp}
	for _, x := range r.Docs {
		a.docs = append(a.docs, dtext{x.ID, x.Content, x.Attri.Title, x.Attri.Author, x.Attri.Time, x.Attri.Ts, fmt.Sprint(x.Score)})
	}
	return a, nil
}

func rpcAnswer(r *pb.SearchReply) (a danswer) {
	a = danswer{code: int(r.Code), len: int(r.Len), stamp: r.Timestamp}
	for _, x := range r.Docs {
		a.docs = append(a.docs, dtext{x.Id, x.Content, x.Attri.GetTitle(), x.Attri.GetAuthor(), x.Attri.GetTime(), x.Attri.GetTs(), ""})
	}
	return a
}

type drun struct {
	*dnodes
	srv              *server
	conn             *grpc.ClientConn
	mu               sync.Mutex
	merges, single   int
	cuts, unanswered int
}

// limits are the offset and limit the nodes are sent.
func (r *drun) limits(q DReq) (off, max string, n int) {
	n, _ = strconv.Atoi(q.Max)
	if n == 0 {
		n = r.c.Conf.Max
		return strconv.Itoa(r.c.Conf.Off), strconv.Itoa(n), n
	}
	return q.Off, q.Max, n
}

func (r *drun) exec(q DReq, user string) error {
	started := time.Now()
	late := func(err error) error {
		if time.Since(started) > 600*time.Millisecond && err != nil && !q.Rpc {
			for _, n := range r.c.Http {
				if n.State == "slow" { // a second is part of it
					if time.Since(started) < 1500*time.Millisecond {
						return err
					}
				}
			}
			vp.Abort("a busy machine: %v", err) // a node may have been given up
		}
		return err
	}
	nodes := r.c.Http
	if q.Rpc {
		nodes = r.c.Rpc
	}
	var up []int
	for i, n := range nodes {
		if n.State == "up" {
			up = append(up, i)
		}
	}
	off, max, limit := r.limits(q)
	var got, only danswer
	if !q.Rpc {
		v := url.Values{"userid": {user}, "query": {q.query()}, "outputOffset": {q.Off}, "maxOutputs": {q.Max}, "time": {q.Time}}
		cl := http.Client{Timeout: patience}
		resp, err := cl.Get(r.srv.HTTP + "/dist?" + v.Encode())
		if err != nil {
			if e, ok := err.(net.Error); ok && e.Timeout() {
				return errPatience
			}
			if r.srv.gone() {
				return r.srv.died()
			}
			return late(fmt.Errorf("the request fails: %v", err))
		}
		b, err := io.ReadAll(resp.Body)
		resp.Body.Close()
		if err != nil {
			return late(fmt.Errorf("reading the answer: %v", err))
		}
		if resp.StatusCode != 200 {
			return fmt.Errorf("status %d", resp.StatusCode)
		}
		if len(up) == 1 && string(b) != string(r.httpReply(up[0], q.Q)) {
			return late(fmt.Errorf("the only answer %q is not forwarded, but %q", r.httpReply(up[0], q.Q), b))
		}
		if got, err = httpAnswer(b); err != nil {
			return err
		}
		if len(up) == 1 {
			only, _ = httpAnswer(r.httpReply(up[0], q.Q))
		}
		v.Set("outputOffset", off)
		v.Set("maxOutputs", max)
		var want []string
		for i, n := range nodes {
			if n.State != "down" {
				want = append(want, fmt.Sprintf("%d /search %s", i, v.Encode()))
			}
		}
		r.dnodes.mu.Lock()
		sent := append([]string{}, r.http[user]...)
		r.dnodes.mu.Unlock()
		sort.Strings(want)
		sort.Strings(sent)
		if !(len(want) == 0 && len(sent) == 0) && !reflect.DeepEqual(sent, want) {
			return late(fmt.Errorf("the nodes are asked %q, want %q", sent, want))
		}
	} else {
		ctx, cancel := context.WithTimeout(context.Background(), patience)
		defer cancel()
		o, _ := strconv.Atoi(q.Off)
		m, _ := strconv.Atoi(q.Max)
		req := &pb.SearchReq{Id: user, Query: q.query(), OutputOffset: int32(o), MaxOutputs: int32(m), Time: q.Time}
		for i, id := range q.IDs {
			if req.DocIds == nil {
				req.DocIds = map[string]bool{}
			}
			req.DocIds[id] = i%2 == 0
		}
		wantLogic := &pb.Logic{Expr: &pb.Expr{}}
		if q.L != nil {
			req.Logic = &pb.Logic{Must: q.L.Must, Should: q.L.Should}
			wantLogic.Must, wantLogic.Should = q.L.Must, q.L.Should
			if !q.L.NoExpr {
				req.Logic.Expr = &pb.Expr{Must: q.L.EMust, Should: q.L.EShould, NotIn: q.L.ENot}
				wantLogic.Expr = req.Logic.Expr
			}
		}
		rep, err := pb.NewGreeterClient(r.conn).Search(ctx, req)
		if err != nil {
			if status.Code(err) == codes.DeadlineExceeded {
				return errPatience
			}
			if r.srv.gone() {
				return r.srv.died()
			}
			return fmt.Errorf("Search fails: %v", err)
		}
		got = rpcAnswer(rep)
		if len(up) == 1 {
			only = rpcAnswer(r.rpcReply(up[0], q.Q))
			if !reflect.DeepEqual(got, only) {
				return fmt.Errorf("the only answer %+v is not forwarded, but %+v", only, got)
			}
		}
		wo, _ := strconv.Atoi(off)
		wm, _ := strconv.Atoi(max)
		asked := 0
		for _, n := range nodes {
			if n.State != "down" {
				asked++
			}
		}
		r.dnodes.mu.Lock()
		sent := r.rpc[user]
		r.dnodes.mu.Unlock()
		if len(sent) != asked {
			return fmt.Errorf("%d nodes are asked, want %d", len(sent), asked)
		}
		for _, s := range sent {
			if s.Query != req.Query || int(s.OutputOffset) != wo || int(s.MaxOutputs) != wm || s.Time != q.Time || len(s.DocIds) != len(req.DocIds) ||
				show(s.Logic) != show(wantLogic) {
				return fmt.Errorf("a node is asked %s, want offset %d and limit %d of %s with logic %s", show(s), wo, wm, show(req), show(wantLogic))
			}
			for id, v := range req.DocIds {
				if w, ok := s.DocIds[id]; !ok || w != v {
					return fmt.Errorf("a node is asked %s for %s", show(s), show(req))
				}
			}
		}
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	r.unanswered += len(nodes) - len(up)
	if len(up) == 1 {
		r.single++
		return nil
	}
	// the merged answer
	var pool []dtext
	for _, i := range up {
		var a danswer
		if q.Rpc {
			a = rpcAnswer(r.rpcReply(i, q.Q))
		} else {
			a, _ = httpAnswer(r.httpReply(i, q.Q))
		}
		pool = append(pool, a.docs...)
	}
	sort.SliceStable(pool, func(i, j int) bool {
		if pool[i].ts != pool[j].ts {
			return pool[i].ts > pool[j].ts
		}
		return pool[i].id > pool[j].id
	})
	want := len(pool)
	if limit >= 0 && limit < want {
		want = limit
		r.cuts++
	}
	if len(pool) > 1 {
		r.merges++
	}
	if got.code != 0 || got.len != len(got.docs) {
		return fmt.Errorf("code %d and length %d with %d documents", got.code, got.len, len(got.docs))
	}
	if dt := time.Now().Unix() - got.stamp; dt < -2 || dt > 100 {
		return fmt.Errorf("time stamp %d", got.stamp)
	}
	if len(got.docs) != want {
		return late(fmt.Errorf("%d documents of %d, limit %d", len(got.docs), len(pool), limit))
	}
	left := map[dtext]int{}
	for _, x := range pool {
		left[x]++
	}
	for i, x := range got.docs {
		if left[x] == 0 {
			return late(fmt.Errorf("document %+v is not in the answers of the nodes, or only once", x))
		}
		left[x]--
		if x.id != pool[i].id || x.ts != pool[i].ts {
			return late(fmt.Errorf("document %d is %q (%d), want %q (%d)", i, x.id, x.ts, pool[i].id, pool[i].ts))
		}
	}
	return nil
}

func runDCase(ctx *vp.Ctx, c DCase) error {
	r := &drun{dnodes: &dnodes{c: c, http: map[string][]string{}, rpc: map[string][]*pb.SearchReq{}}}
	r.dnodes.start()
	defer func() {
		for _, f := range r.closer {
			f()
		}
	}()
	var err error
	if r.srv, err = startServer(ServerConf{Conf: c.Conf, Dir: ctx.Dir(), Nodes: r.urls, Dist: r.addrs}); err != nil {
		return err
	}
	ctx.Cleanup(func() { r.srv.cmd.Process.Kill() })
	if r.conn, err = grpc.Dial(r.srv.Dist, grpc.WithInsecure()); err != nil {
		vp.Abort("%v", err)
	}
	defer r.conn.Close()
	par := 0
	for w, wave := range c.Waves {
		errs := make([]error, len(wave))
		aborted := make([]any, len(wave))
		var wg sync.WaitGroup
		for i := range wave {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				defer func() { aborted[i] = recover() }()
				errs[i] = r.exec(wave[i], fmt.Sprintf("u%d-%d", w, i))
			}(i)
		}
		wg.Wait()
		for i, err := range errs {
			if aborted[i] != nil {
				panic(aborted[i])
			}
			if err == errPatience {
				err = r.srv.late("the distributed search")
			}
			if err != nil {
				return fmt.Errorf("search %d of wave %d (%s): %v", i, w, vp.JSON(wave[i]), err)
			}
		}
		if len(wave) > 1 {
			par++
		}
	}
	if err := r.srv.stop(true); err != nil {
		return err
	}
	ctx.NonTrivial(r.merges > 0)
	ctx.LabelIf(r.merges > 0, "answers merged")
	ctx.LabelIf(r.single > 0, "only one node answers")
	ctx.LabelIf(r.cuts > 0, "merged answer cut")
	ctx.LabelIf(r.unanswered > 0, "node without answer")
	ctx.LabelIf(par > 0, "searches at the same time")
	return nil
}

func init() {
	vp.Register(vp.Prop{
		ID:   "C23",
		Rule: "A case is a set of HTTP and gRPC nodes (answering with their own documents per query, refusing connections, failing, or never answering) and waves of concurrent distributed searches; non-trivial if the documents of several nodes are merged.",
		Assumptions: []string{
			"nodes answer with well-formed replies whose documents have attributes, or not at all; the nodes are stand-ins in the harness, which record what they are asked",
			"a mismatch on a machine so busy that a node may have been given up by the front end's time limit of one second is not judged",
		},
		Quick: vp.Budget{Shards: 8, Checks: 60}, Thorough: vp.Budget{Shards: 8, Checks: 2400},
		Restart: 25, Race: true,
	}, genDCase, runDCase)
}
