package main

import (
	"encoding/json"
	"fmt"
	"io"
	"math"
	"mime"
	"net/http"
	"net/url"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"time"

	"pgregory.net/rapid"
	"verif/harness/internal/vp"
)

// --- C17: the HTTP front end ----------------------------------------------------------

// HOp is a request to the front end.
type HOp struct {
	K     string   `json:"k"` // add, del, search
	ID    string   `json:"id,omitempty"`
	W     []string `json:"w,omitempty"`
	Off   string   `json:"off,omitempty"` // as sent; "" is not sent
	Max   string   `json:"max,omitempty"`
	Extra string   `json:"extra,omitempty"` // userid and time
	Post  bool     `json:"post,omitempty"`
}

// HPhase is a group of requests followed by a flush.
type HPhase struct {
	Ops      []HOp `json:"ops"`
	Parallel bool  `json:"parallel,omitempty"`
	Restart  bool  `json:"restart,omitempty"` // close the engine and open it again afterwards
}

// HCase is a history of the HTTP front end.
type HCase struct {
	Conf   Conf     `json:"conf"`
	Phases []HPhase `json:"phases"`
}

var hids = []string{"1", "01", "2", "007", "3", "10", "a", "A", "文", "x y", " x", "a&b=c", "é%", "-1", "18446744073709551616"}

func genHSearch(t *rapid.T) HOp {
	return HOp{K: "search", W: genWords(t, "query", 0, 2),
		Off:   rapid.SampledFrom([]string{"", "", "0", "1", "2", "9", "-1", "x", "9999999999999999999"}).Draw(t, "off"),
		Max:   rapid.SampledFrom([]string{"", "", "0", "1", "2", "3", "50", "-1", "-7", "x", "9223372036854775807"}).Draw(t, "max"),
		Extra: rapid.SampledFrom([]string{"", "u1"}).Draw(t, "extra"),
		Post:  rapid.Bool().Draw(t, "post")}
}

// drawIDs chooses the documents of a phase; a document that is changed twice in
// a row is changed in a known order only if the requests are not concurrent.
func drawIDs(t *rapid.T, of []string, distinct bool) []string {
	if distinct || rapid.Bool().Draw(t, "distinct") {
		return rapid.SliceOfNDistinct(rapid.SampledFrom(of), 0, 6, rapid.ID[string]).Draw(t, "ids")
	}
	some := rapid.SliceOfN(rapid.SampledFrom(of), 1, 3).Draw(t, "few")
	return rapid.SliceOfN(rapid.SampledFrom(some), 1, 8).Draw(t, "again")
}

func genHCase(t *rapid.T) HCase {
	c := HCase{Conf: genConf(t)}
	for i := rapid.IntRange(1, 4).Draw(t, "phases"); i > 0; i-- {
		p := HPhase{Parallel: rapid.Bool().Draw(t, "parallel"), Restart: rapid.IntRange(0, 4).Draw(t, "restart") == 0}
		ids := drawIDs(t, hids, p.Parallel)
		for _, id := range ids {
			if rapid.IntRange(0, 3).Draw(t, "del") == 0 {
				p.Ops = append(p.Ops, HOp{K: "del", ID: id})
			} else {
				p.Ops = append(p.Ops, HOp{K: "add", ID: id, W: genWords(t, "content", 0, 4), Post: rapid.Bool().Draw(t, "post")})
			}
		}
		for j := rapid.IntRange(0, 3).Draw(t, "searches"); j > 0; j-- {
			at := rapid.IntRange(0, len(p.Ops)).Draw(t, "at")
			p.Ops = append(p.Ops[:at], append([]HOp{genHSearch(t)}, p.Ops[at:]...)...)
		}
		c.Phases = append(c.Phases, p)
		// searches of the flushed engine
		q := HPhase{Parallel: rapid.Bool().Draw(t, "qparallel")}
		for j := rapid.IntRange(1, 4).Draw(t, "queries"); j > 0; j-- {
			q.Ops = append(q.Ops, genHSearch(t))
		}
		c.Phases = append(c.Phases, q)
	}
	return c
}

type hdoc struct {
	words      []string
	from, till int64 // time of the request, ns
	ts         int64 // once seen
	time       string
}

// HReply is the documented form of the answers.
type HReply struct {
	Code      *int64  `json:"code"`
	Len       *int    `json:"len"`
	Timestamp *int64  `json:"timestamp"`
	Docs      []HText `json:"docs"`
}

// HText is a document of an answer.
type HText struct {
	ID      string    `json:"id"`
	Content string    `json:"content"`
	Score   []float32 `json:"score"`
	Attri   struct {
		Title  string `json:"title"`
		Author string `json:"author"`
		Time   string `json:"time"`
		Ts     int64  `json:"ts"`
	} `json:"attri"`
}

type hstate struct {
	conf Conf
	srv  *server
	base string
	mu   sync.Mutex
	docs map[string]*hdoc   // as of the last flush
	more map[string][]*hdoc // versions of this phase, nil for a removal
	hits int
	cuts int
}

var hclient = &http.Client{Timeout: patience, Transport: &http.Transport{MaxIdleConnsPerHost: 8}}

func (s *hstate) send(path string, v url.Values, post bool) (string, error) {
	var r *http.Response
	var err error
	if post {
		r, err = hclient.PostForm(s.base+path, v)
	} else {
		r, err = hclient.Get(s.base + path + "?" + v.Encode())
	}
	if err != nil {
		if strings.Contains(err.Error(), "Client.Timeout") {
			return "", errPatience
		}
		if s.srv.gone() {
			return "", s.srv.died()
		}
		return "", fmt.Errorf("%s: no answer (%v)", path, err)
	}
	defer r.Body.Close()
	b, err := io.ReadAll(r.Body)
	if err != nil {
		return "", fmt.Errorf("%s: broken answer (%v)", path, err)
	}
	if r.StatusCode != 200 {
		return "", fmt.Errorf("%s: status %s", path, r.Status)
	}
	if path != "/del" {
		if m, _, err := mime.ParseMediaType(r.Header.Get("Content-Type")); err != nil || m != "application/json" {
			return "", fmt.Errorf("%s: content type %q", path, r.Header.Get("Content-Type"))
		}
	}
	return string(b), nil
}

func parseReply(s string) (HReply, error) {
	var r HReply
	if err := json.Unmarshal([]byte(s), &r); err != nil {
		return r, fmt.Errorf("the answer %q is not JSON: %v", s, err)
	}
	if r.Len == nil || r.Timestamp == nil || r.Code == nil {
		return r, fmt.Errorf("the answer %q lacks a member", s)
	}
	if *r.Len != len(r.Docs) || *r.Code != 0 {
		return r, fmt.Errorf("code %d and length %d with %d documents", *r.Code, *r.Len, len(r.Docs))
	}
	return r, nil
}

func atoi(s string) int {
	n, _ := strconv.Atoi(s)
	return n
}

// exec sends a request and judges the answer; settled: the engine is flushed
// and no other request of the phase changes it.
func (s *hstate) exec(o HOp, settled bool) error {
	v := url.Values{}
	switch o.K {
	case "add":
		v.Set("docid", o.ID)
		v.Set("query", strings.Join(o.W, " "))
		d := &hdoc{words: o.W, from: time.Now().UnixNano()}
		s.mu.Lock()
		s.more[o.ID] = append(s.more[o.ID], d)
		s.mu.Unlock()
		body, err := s.send("/add", v, o.Post)
		if err != nil {
			return err
		}
		s.mu.Lock()
		d.till = time.Now().UnixNano()
		s.mu.Unlock()
		r, err := parseReply(body)
		if err != nil {
			return err
		}
		if len(r.Docs) != 0 {
			return fmt.Errorf("adding a document returns documents")
		}
		return nil
	case "del":
		v.Set("docid", o.ID)
		s.mu.Lock()
		s.more[o.ID] = append(s.more[o.ID], nil)
		s.mu.Unlock()
		_, err := s.send("/del", v, false)
		return err
	}
	v.Set("query", strings.Join(o.W, " "))
	if o.Off != "" {
		v.Set("outputOffset", o.Off)
	}
	if o.Max != "" {
		v.Set("maxOutputs", o.Max)
	}
	if o.Extra != "" {
		v.Set("userid", o.Extra)
		v.Set("time", o.Extra)
	}
	body, err := s.send("/search", v, o.Post)
	if err != nil {
		return err
	}
	r, err := parseReply(body)
	if err != nil {
		return err
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	off, max := atoi(o.Off), atoi(o.Max)
	if max == 0 {
		off, max = s.conf.Off, s.conf.Max
	}
	matching := 0
	for _, d := range s.docs {
		if s.match(o.W, d.words) {
			matching++
		}
	}
	want := window(matching, off, max)
	if settled {
		if len(r.Docs) != want {
			return fmt.Errorf("%d of %d matching documents returned, want %d (offset %d, limit %d)", len(r.Docs), matching, want, off, max)
		}
		if matching > 0 {
			s.hits++
		}
		if want < matching {
			s.cuts++
		}
	}
	seen := map[string]bool{}
	for i, x := range r.Docs {
		if seen[x.ID] {
			return fmt.Errorf("document %q returned twice", x.ID)
		}
		seen[x.ID] = true
		if i > 0 {
			p := r.Docs[i-1]
			if p.Attri.Ts < x.Attri.Ts || p.Attri.Ts == x.Attri.Ts && p.ID < x.ID {
				return fmt.Errorf("document %q (%d) comes after %q (%d): not the newest first", x.ID, x.Attri.Ts, p.ID, p.Attri.Ts)
			}
		}
		var cands []*hdoc
		if d := s.docs[x.ID]; d != nil {
			cands = append(cands, d)
		}
		if !settled {
			for _, d := range s.more[x.ID] {
				if d != nil {
					cands = append(cands, d)
				}
			}
		}
		ok := false
		for _, d := range cands {
			till := d.till
			if till == 0 {
				till = math.MaxInt64
			}
			// a search between the index and the ranker may see the words of one
			// version and the content of another
			if x.Content == strings.Join(d.words, " ") && x.Attri.Ts >= d.from && x.Attri.Ts <= till && (!settled || s.match(o.W, d.words)) {
				if settled && d.ts != 0 && (d.ts != x.Attri.Ts || d.time != x.Attri.Time) {
					return fmt.Errorf("the attribute of document %q changed from %d to %d", x.ID, d.ts, x.Attri.Ts)
				}
				if settled {
					d.ts, d.time = x.Attri.Ts, x.Attri.Time
				}
				ok = true
			}
		}
		if !ok {
			return fmt.Errorf("returns document %q with content %q and time %d, which is no version of it that matches", x.ID, x.Content, x.Attri.Ts)
		}
		if settled && !reflect.DeepEqual(x.Score, []float32{0}) {
			return fmt.Errorf("document %q has score %v", x.ID, x.Score)
		}
		if at, err := time.ParseInLocation("2006-01-02 15:04:05", x.Attri.Time, time.Local); err != nil {
			return fmt.Errorf("document %q has time %q", x.ID, x.Attri.Time)
		} else if d := x.Attri.Ts/1e9 - at.Unix(); d < -2 || d > 100 {
			return fmt.Errorf("document %q has time %q and time stamp %d", x.ID, x.Attri.Time, x.Attri.Ts)
		}
	}
	return nil
}

func (s *hstate) match(q, words []string) bool {
	keys := s.conf.live(words)
	ask := s.conf.live(q)
	for _, w := range ask {
		if !in(w, keys) {
			return false
		}
	}
	// the blank between two words is a keyword as any other, which only contents
	// of several words have
	return (len(q) < 2 || len(words) > 1) && len(ask)+len(q)/2 > 0
}

func runHCase(ctx *vp.Ctx, c HCase) error {
	s := &hstate{conf: c.Conf, docs: map[string]*hdoc{}}
	start := func() (err error) {
		if s.srv, err = startServer(ServerConf{Conf: c.Conf, Dir: ctx.Dir()}); err == nil {
			s.base = s.srv.HTTP
		}
		return err
	}
	if err := start(); err != nil {
		return err
	}
	ctx.Cleanup(func() { s.srv.cmd.Process.Kill() })
	mixed, restarts := 0, 0
	for pi, p := range c.Phases {
		s.more = map[string][]*hdoc{}
		settled := true
		for _, o := range p.Ops {
			settled = settled && o.K == "search"
		}
		errs := make([]error, len(p.Ops))
		where := func(i int, err error) error {
			return fmt.Errorf("phase %d, request %d (%s): %v", pi, i, vp.JSON(p.Ops[i]), err)
		}
		if p.Parallel {
			var wg sync.WaitGroup
			for i := range p.Ops {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					errs[i] = s.guard(p.Ops[i], settled)
				}(i)
			}
			wg.Wait()
			if !settled {
				mixed++
			}
		} else {
			for i := range p.Ops {
				errs[i] = s.guard(p.Ops[i], settled)
			}
		}
		for i, err := range errs {
			if err == errPatience {
				err = s.srv.late("the request")
			}
			if err != nil {
				return where(i, err)
			}
		}
		if _, err := s.srv.ask("flush"); err != nil {
			return err
		}
		for id, vs := range s.more {
			if d := vs[len(vs)-1]; d != nil {
				s.docs[id] = d
			} else {
				delete(s.docs, id)
			}
		}
		if p.Restart {
			restarts++
			if err := s.srv.stop(true); err != nil {
				return err
			}
			if err := start(); err != nil {
				return err
			}
		}
		// the whole content
		for _, w := range words {
			if !settled || p.Restart {
				s.more = map[string][]*hdoc{}
				if err := s.exec(HOp{K: "search", W: []string{w}, Max: "1000"}, true); err != nil {
					return fmt.Errorf("after phase %d, searching %q: %v", pi, w, err)
				}
			}
		}
	}
	if err := s.srv.stop(true); err != nil {
		return err
	}
	ctx.NonTrivial(s.hits > 0)
	ctx.LabelIf(s.cuts > 0, "a limit or offset cuts a result")
	ctx.LabelIf(mixed > 0, "concurrent changes and searches")
	ctx.LabelIf(restarts > 0 && len(s.docs) > 0, "restart with documents")
	return nil
}

var errPatience = fmt.Errorf("patience")

// guard keeps an aborting request from ending the process in its goroutine.
func (s *hstate) guard(o HOp, settled bool) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = errPatience
		}
	}()
	return s.exec(o, settled)
}

func init() {
	vp.Register(vp.Prop{
		ID:   "C17",
		Rule: "A case is a history of add, delete and search requests over a real HTTP connection, some concurrent, with flushes and restarts of the engine between its phases; non-trivial if a search of a flushed engine finds documents.",
		Assumptions: []string{
			"contents and queries are whole dictionary words separated by blanks; the default limit is positive; document ids are not empty and not \"0\"",
			"concurrent changes of one document are separated by a flush",
		},
		Quick: vp.Budget{Shards: 8, Checks: 90}, Thorough: vp.Budget{Shards: 8, Checks: 3600},
		Restart: 25, Race: true,
	}, genHCase, runHCase)
}
