package main

import (
	"context"
	"fmt"
	"reflect"
	"strings"
	"sync"
	"time"

	"github.com/go-ego/riot/net/com"
	rpc "github.com/go-ego/riot/net/grpc"
	pb "github.com/go-ego/riot/net/grpc/riot-pb"
	"github.com/go-ego/riot/types"
	"google.golang.org/grpc"
	"pgregory.net/rapid"
	"verif/harness/internal/vp"
)

// --- C18: the gRPC front end ----------------------------------------------------------

// GAttr is the attribute of a document.
type GAttr struct {
	Title, Author, Time string
	Ts                  int64
}

// GDoc is a document sent over gRPC.
type GDoc struct {
	W     []string `json:"w"`
	Tok   []string `json:"tok,omitempty"`
	Loc   []int32  `json:"loc,omitempty"`
	Lab   []string `json:"lab,omitempty"`
	At    *GAttr   `json:"at,omitempty"`
	Force bool     `json:"force,omitempty"`
}

// GLogic is the logic of a search.
type GLogic struct {
	Must, Should bool
	NoExpr       bool
	EMust        []string
	EShould      []string
	ENot         []string
}

// GOp is a call.
type GOp struct {
	K      string   `json:"k"` // add, del, search, beat
	ID     string   `json:"id,omitempty"`
	Doc    *GDoc    `json:"doc,omitempty"`
	Client bool     `json:"client,omitempty"` // through the package's own client function
	W      []string `json:"w,omitempty"`
	Off    int32    `json:"off,omitempty"`
	Max    int32    `json:"max,omitempty"`
	IDs    []string `json:"ids,omitempty"`
	L      *GLogic  `json:"l,omitempty"`
	Msg    int32    `json:"msg,omitempty"`
}

// GPhase is a group of calls followed by a flush.
type GPhase struct {
	Ops      []GOp `json:"ops"`
	Parallel bool  `json:"parallel,omitempty"`
	Restart  bool  `json:"restart,omitempty"`
}

// GCase is a history of the gRPC front end.
type GCase struct {
	Conf   Conf     `json:"conf"`
	Phases []GPhase `json:"phases"`
}

var gids = []string{"1", "01", "2", "3", "10", "a", "A", "文", "x y", " x", "18446744073709551615"}
var glabels = []string{"l1", "l2", "标签"}

func genGSearch(t *rapid.T, using int) GOp {
	o := GOp{K: "search", W: genWords(t, "query", 0, 2),
		Off:    rapid.SampledFrom([]int32{0, 0, 1, 2, 9, -1}).Draw(t, "off"),
		Max:    rapid.SampledFrom([]int32{0, 1, 2, 3, 50, -1, -7, 2147483647}).Draw(t, "max"),
		Client: rapid.Bool().Draw(t, "client")}
	switch rapid.IntRange(0, 5).Draw(t, "qkind") {
	case 0:
		o.L = &GLogic{NoExpr: rapid.Bool().Draw(t, "noExpr")}
	case 1:
		o.L = &GLogic{Must: true, NoExpr: rapid.Bool().Draw(t, "noExpr")}
	case 2:
		o.L = &GLogic{Should: true, ENot: genWords(t, "not", 0, 1)}
	case 3, 4:
		key := rapid.SampledFrom(append(append([]string{}, words...), glabels...))
		o.L = &GLogic{EMust: rapid.SliceOfNDistinct(key, 0, 2, rapid.ID[string]).Draw(t, "must"),
			EShould: rapid.SliceOfNDistinct(key, 0, 2, rapid.ID[string]).Draw(t, "should"),
			ENot:    rapid.SliceOfNDistinct(key, 0, 2, rapid.ID[string]).Draw(t, "not")}
		if len(o.L.EMust)+len(o.L.EShould) == 0 {
			o.L.EMust = []string{"l1"}
		}
	default:
		o.IDs = rapid.SliceOfNDistinct(rapid.SampledFrom(gids), 0, 3, rapid.ID[string]).Draw(t, "ids")
	}
	// the blank between two words is a keyword of the query as well (see match)
	if len(o.W) > 1 && (using == 2 || o.L != nil && (o.L.Must || o.L.Should)) {
		o.W = o.W[:1]
	}
	return o
}

func genGCase(t *rapid.T) GCase {
	c := GCase{Conf: genConf(t)}
	c.Conf.Using = rapid.SampledFrom([]int{0, 1, 2, 3}).Draw(t, "gusing")
	for i := rapid.IntRange(1, 3).Draw(t, "phases"); i > 0; i-- {
		p := GPhase{Parallel: rapid.Bool().Draw(t, "parallel"), Restart: rapid.IntRange(0, 4).Draw(t, "restart") == 0}
		for _, id := range drawIDs(t, gids, p.Parallel) {
			if rapid.IntRange(0, 3).Draw(t, "del") == 0 {
				p.Ops = append(p.Ops, GOp{K: "del", ID: id, Client: rapid.Bool().Draw(t, "client")})
				continue
			}
			d := &GDoc{W: genWords(t, "content", 0, 3), Lab: rapid.SliceOfNDistinct(rapid.SampledFrom(glabels), 0, 2, rapid.ID[string]).Draw(t, "labels"),
				Force: rapid.Bool().Draw(t, "force")}
			for _, w := range genWords(t, "tokens", 0, 2) {
				if !in(w, d.W) {
					d.Tok = append(d.Tok, w)
				}
			}
			d.Loc = rapid.SampledFrom([][]int32{nil, {0}, {1, 5}}).Draw(t, "locs")
			if rapid.IntRange(0, 3).Draw(t, "attri") > 0 {
				d.At = &GAttr{Title: rapid.SampledFrom([]string{"", "题"}).Draw(t, "title"), Author: rapid.SampledFrom([]string{"", "me"}).Draw(t, "author"),
					Time: rapid.SampledFrom([]string{"", "now"}).Draw(t, "time"), Ts: rapid.SampledFrom([]int64{0, 1, 2, 3, -5, 1 << 60}).Draw(t, "ts")}
			}
			o := GOp{K: "add", ID: id, Doc: d}
			if id == "1" || id == "10" || id == "18446744073709551615" {
				o.Client = rapid.Bool().Draw(t, "client")
			}
			p.Ops = append(p.Ops, o)
		}
		for j := rapid.IntRange(0, 3).Draw(t, "searches"); j > 0; j-- {
			at := rapid.IntRange(0, len(p.Ops)).Draw(t, "at")
			o := genGSearch(t, c.Conf.Using)
			if rapid.IntRange(0, 3).Draw(t, "beat") == 0 {
				o = GOp{K: "beat", Msg: rapid.SampledFrom([]int32{0, 1, -1, 2147483647}).Draw(t, "msg")}
			}
			p.Ops = append(p.Ops[:at], append([]GOp{o}, p.Ops[at:]...)...)
		}
		c.Phases = append(c.Phases, p)
		q := GPhase{Parallel: rapid.Bool().Draw(t, "qparallel")}
		for j := rapid.IntRange(1, 5).Draw(t, "queries"); j > 0; j-- {
			q.Ops = append(q.Ops, genGSearch(t, c.Conf.Using))
		}
		c.Phases = append(c.Phases, q)
	}
	return c
}

type gstate struct {
	conf Conf
	srv  *server
	conn *grpc.ClientConn
	mu   sync.Mutex
	docs map[string]*GDoc
	more map[string][]*GDoc
	hits int
	cuts int
}

func (s *gstate) keys(d *GDoc) []string {
	return s.conf.live(s.all(d))
}

func (s *gstate) all(d *GDoc) []string {
	k := append([]string{}, d.Lab...)
	switch {
	case s.conf.Using == 2, s.conf.Using == 1 && len(d.W) == 0:
		return append(k, d.Tok...)
	case s.conf.Using == 1:
		return append(k, d.W...)
	}
	return append(append(k, d.W...), d.Tok...)
}

// open: a negation alone, and a should part with document ids, are left open.
func (o GOp) logic(w []string) bool {
	return o.L != nil && (len(o.L.EMust)+len(o.L.EShould) > 0 || (o.L.Must || o.L.Should) && len(w) > 0)
}

func (s *gstate) match(o GOp, id string, d *GDoc) bool {
	keys := s.keys(d)
	ask := s.conf.live(o.W)
	if o.logic(ask) {
		must, should := o.L.EMust, o.L.EShould
		if o.L.Must && len(must) == 0 {
			must = ask
		}
		if o.L.Should && len(should) == 0 {
			should = ask
		}
		for _, k := range must {
			if !in(k, keys) {
				return false
			}
		}
		any := len(should) == 0
		for _, k := range should {
			any = any || in(k, keys)
		}
		if !any {
			return false
		}
		for _, k := range o.L.ENot {
			if in(k, keys) {
				return false
			}
		}
		return true
	}
	if len(o.IDs) > 0 && !in(id, o.IDs) {
		return false
	}
	for _, w := range ask {
		if !in(w, keys) {
			return false
		}
	}
	// the blank between two words is a keyword as any other, which only contents
	// of several words have
	return (len(o.W) < 2 || len(d.W) > 1) && len(ask)+len(o.W)/2 > 0
}

func (d *GDoc) attr() GAttr {
	if d.At == nil {
		return GAttr{}
	}
	return *d.At
}

func (s *gstate) fail(what string, err error) error {
	if err == context.DeadlineExceeded || strings.Contains(err.Error(), "DeadlineExceeded") {
		return errPatience
	}
	if s.srv.gone() {
		return s.srv.died()
	}
	return fmt.Errorf("%s fails: %v", what, err)
}

func (s *gstate) exec(o GOp, settled bool) error {
	ctx, cancel := context.WithTimeout(context.Background(), patience)
	defer cancel()
	cl := pb.NewGreeterClient(s.conn)
	switch o.K {
	case "beat":
		r, err := cl.HeartBeat(ctx, &pb.HeartReq{Msg: o.Msg})
		if err != nil {
			return s.fail("HeartBeat", err)
		}
		if r.Result != o.Msg {
			return fmt.Errorf("HeartBeat(%d) = %d", o.Msg, r.Result)
		}
		return nil
	case "add":
		d := o.Doc
		s.mu.Lock()
		s.more[o.ID] = append(s.more[o.ID], d)
		s.mu.Unlock()
		req := &pb.DocReq{DocId: o.ID, Content: strings.Join(d.W, " "), Labels: d.Lab, ForceUpdate: d.Force}
		for _, w := range d.Tok {
			req.Tokens = append(req.Tokens, &pb.TokenData{Text: w, Locations: d.Loc})
		}
		if d.At != nil {
			b, err := (&pb.Attri{Title: d.At.Title, Author: d.At.Author, Time: d.At.Time, Ts: d.At.Ts}).Marshal()
			if err != nil {
				return err
			}
			req.Attri = b
		}
		if o.Client {
			var id uint64
			fmt.Sscan(o.ID, &id)
			if r := rpc.InitGrpcc(s.srv.GRPC, rpc.Doc{DocId: id, Content: req.Content, Attri: req.Attri, Tokens: req.Tokens, Labels: req.Labels, ForceUpdate: d.Force}); r != 0 {
				return fmt.Errorf("the client returns %d", r)
			}
			return nil
		}
		r, err := cl.DocInx(ctx, req)
		if err != nil {
			return s.fail("DocInx", err)
		}
		if r.Result != 0 {
			return fmt.Errorf("DocInx returns %d", r.Result)
		}
		return nil
	case "del":
		s.mu.Lock()
		s.more[o.ID] = append(s.more[o.ID], nil)
		s.mu.Unlock()
		if o.Client {
			if r := rpc.InitDelGrpcc(s.srv.GRPC, o.ID); r != 0 {
				return fmt.Errorf("the client returns %d", r)
			}
			return nil
		}
		r, err := cl.Delete(ctx, &pb.DeleteReq{DocId: o.ID})
		if err != nil {
			return s.fail("Delete", err)
		}
		if r.Result != 0 {
			return fmt.Errorf("Delete returns %d", r.Result)
		}
		return nil
	}
	var r *pb.SearchReply
	var err error
	text := strings.Join(o.W, " ")
	ids := map[string]bool{}
	for i, id := range o.IDs {
		ids[id] = i%2 == 0
	}
	if o.Client {
		sea := com.SearchArgs{Id: "u", Query: text, OutputOffset: int(o.Off), MaxOutputs: int(o.Max), DocIds: ids}
		if o.L != nil {
			sea.Logic = types.Logic{Must: o.L.Must, Should: o.L.Should, Expr: types.Expr{Must: o.L.EMust, Should: o.L.EShould, NotIn: o.L.ENot}}
		}
		r, err = rpc.InitSearchRpc(s.srv.GRPC, sea)
	} else {
		req := &pb.SearchReq{Id: "u", Query: text, OutputOffset: o.Off, MaxOutputs: o.Max, DocIds: ids}
		if o.L != nil {
			req.Logic = &pb.Logic{Must: o.L.Must, Should: o.L.Should}
			if !o.L.NoExpr {
				req.Logic.Expr = &pb.Expr{Must: o.L.EMust, Should: o.L.EShould, NotIn: o.L.ENot}
			}
		}
		r, err = cl.Search(ctx, req)
	}
	if err != nil {
		return s.fail("Search", err)
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	off, max := int(o.Off), int(o.Max)
	if max == 0 {
		off, max = s.conf.Off, s.conf.Max
	}
	matching := 0
	for id, d := range s.docs {
		if s.match(o, id, d) {
			matching++
		}
	}
	want := window(matching, off, max)
	if int(r.Len) != len(r.Docs) || r.Code != 0 {
		return fmt.Errorf("code %d and length %d with %d documents", r.Code, r.Len, len(r.Docs))
	}
	if dt := time.Now().Unix() - r.Timestamp; dt < -2 || dt > 100 {
		return fmt.Errorf("time stamp %d", r.Timestamp)
	}
	if settled {
		if len(r.Docs) != want {
			return fmt.Errorf("%d of %d matching documents returned, want %d (offset %d, limit %d)", len(r.Docs), matching, want, off, max)
		}
		if matching > 0 {
			s.hits++
		}
		if want < matching {
			s.cuts++
		}
	}
	seen := map[string]bool{}
	for i, x := range r.Docs {
		if seen[x.Id] {
			return fmt.Errorf("document %q returned twice", x.Id)
		}
		seen[x.Id] = true
		if i > 0 {
			p := r.Docs[i-1]
			if p.Attri.Ts < x.Attri.Ts || p.Attri.Ts == x.Attri.Ts && p.Id < x.Id {
				return fmt.Errorf("document %q (%d) comes after %q (%d): not the newest first", x.Id, x.Attri.Ts, p.Id, p.Attri.Ts)
			}
		}
		var cands []*GDoc
		if d := s.docs[x.Id]; d != nil {
			cands = append(cands, d)
		}
		if !settled {
			for _, d := range s.more[x.Id] {
				if d != nil {
					cands = append(cands, d)
				}
			}
		}
		ok := false
		at := GAttr{x.Attri.GetTitle(), x.Attri.GetAuthor(), x.Attri.GetTime(), x.Attri.GetTs()}
		for _, d := range cands {
			ok = ok || x.Content == strings.Join(d.W, " ") && reflect.DeepEqual(at, d.attr()) && (!settled || s.match(o, x.Id, d))
		}
		if !ok {
			return fmt.Errorf("returns document %q with content %q and attribute %+v, which is no version of it that matches", x.Id, x.Content, at)
		}
	}
	return nil
}

func (s *gstate) guard(o GOp, settled bool) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = errPatience
		}
	}()
	return s.exec(o, settled)
}

func runGCase(ctx *vp.Ctx, c GCase) error {
	s := &gstate{conf: c.Conf, docs: map[string]*GDoc{}}
	start := func() (err error) {
		if s.srv, err = startServer(ServerConf{Conf: c.Conf, Dir: ctx.Dir()}); err != nil {
			return err
		}
		if s.conn, err = grpc.Dial(s.srv.GRPC, grpc.WithInsecure()); err != nil {
			vp.Abort("%v", err)
		}
		return nil
	}
	if err := start(); err != nil {
		return err
	}
	ctx.Cleanup(func() { s.srv.cmd.Process.Kill(); s.conn.Close() })
	mixed, restarts, odd, logic := 0, 0, 0, 0
	for pi, p := range c.Phases {
		s.more = map[string][]*GDoc{}
		settled := true
		for _, o := range p.Ops {
			settled = settled && o.K != "add" && o.K != "del"
			if o.K == "search" && (o.L == nil || o.L.NoExpr) && !o.Client {
				odd++
			}
			if o.K == "search" && o.logic(s.conf.live(o.W)) {
				logic++
			}
		}
		errs := make([]error, len(p.Ops))
		if p.Parallel {
			var wg sync.WaitGroup
			for i := range p.Ops {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					errs[i] = s.guard(p.Ops[i], settled)
				}(i)
			}
			wg.Wait()
			if !settled {
				mixed++
			}
		} else {
			for i := range p.Ops {
				errs[i] = s.guard(p.Ops[i], settled)
			}
		}
		for i, err := range errs {
			if err == errPatience {
				err = s.srv.late("the request")
			}
			if err != nil {
				return fmt.Errorf("phase %d, call %d (%s): %v", pi, i, vp.JSON(p.Ops[i]), err)
			}
		}
		if _, err := s.srv.ask("flush"); err != nil {
			return err
		}
		for id, vs := range s.more {
			if d := vs[len(vs)-1]; d != nil {
				s.docs[id] = d
			} else {
				delete(s.docs, id)
			}
		}
		if p.Restart {
			restarts++
			s.conn.Close()
			if err := s.srv.stop(true); err != nil {
				return err
			}
			if err := start(); err != nil {
				return err
			}
		}
		if !settled || p.Restart {
			for _, w := range append(append([]string{}, words...), glabels...) {
				o := GOp{K: "search", L: &GLogic{EMust: []string{w}}, Max: 1000}
				if err := s.exec(o, true); err != nil {
					return fmt.Errorf("after phase %d, searching %q: %v", pi, w, err)
				}
			}
		}
	}
	if err := s.srv.stop(true); err != nil {
		return err
	}
	ctx.NonTrivial(s.hits > 0)
	ctx.LabelIf(s.cuts > 0, "a limit or offset cuts a result")
	ctx.LabelIf(mixed > 0, "concurrent changes and searches")
	ctx.LabelIf(restarts > 0 && len(s.docs) > 0, "restart with documents")
	ctx.LabelIf(odd > 0, "search without logic or expression")
	ctx.LabelIf(logic > 0, "logic search")
	return nil
}

func init() {
	vp.Register(vp.Prop{
		ID:   "C18",
		Rule: "A case is a history of DocInx, Delete, Search and HeartBeat calls to a running gRPC server, directly and through the package's client functions, some concurrent, with flushes and restarts between its phases; non-trivial if a search of a flushed engine finds documents.",
		Assumptions: []string{
			"contents and queries are whole dictionary words separated by blanks; the default limit is positive; document ids are not empty and not \"0\"; attributes are encoded Attri messages or empty",
			"concurrent changes of one document are separated by a flush; searches by a negation alone are left out",
		},
		Quick: vp.Budget{Shards: 8, Checks: 90}, Thorough: vp.Budget{Shards: 8, Checks: 3600},
		Restart: 25, Race: true,
	}, genGCase, runGCase)
}
