package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"pgregory.net/rapid"
	"verif/harness/internal/vp"
)

// --- C13: what was flushed survives the death of the process -----------------------

// CrashLife is one life of the process: it opens the engine, makes the calls
// and is killed.
type CrashLife struct {
	Cfg Cfg   `json:"cfg"`
	Ops []EOp `json:"ops"`
	// Self: the process kills itself right after the last call returned.
	// Otherwise it is killed from outside Delay microseconds after call At
	// returned, while it goes on with the following ones.
	Self  bool `json:"self"`
	At    int  `json:"at,omitempty"`
	Delay int  `json:"delay,omitempty"`
}

// CrashCase is a sequence of lives on one store.
type CrashCase struct {
	Lives []CrashLife `json:"lives"`
	// Final is the configuration of the engine that reads everything back.
	Final Cfg `json:"final"`
}

func genCrashCase(t *rapid.T) CrashCase {
	var c CrashCase
	eng, sh := genStoreCfg(t)
	nID := rapid.SampledFrom([]int{3, 8, 25}).Draw(t, "nID")
	store := func(cfg Cfg) Cfg {
		cfg.Store, cfg.Stores = eng, sh
		return cfg
	}
	last := drafts{}
	for i := rapid.IntRange(1, 3).Draw(t, "lives"); i > 0; i-- {
		l := CrashLife{Cfg: store(genMode(t)), Self: rapid.Bool().Draw(t, "self")}
		n := rapid.IntRange(1, 20).Draw(t, "n")
		for j := 0; j < n; j++ {
			switch k := rapid.IntRange(0, 9).Draw(t, "kind"); {
			case k < 6:
				id := rapid.SampledFrom(eids[:nID]).Draw(t, "id")
				d := last.next(t, id)
				l.Ops = append(l.Ops, EOp{K: "index", ID: id, Doc: &d, Force: rapid.IntRange(0, 5).Draw(t, "force") == 0})
				l.Ops = bounce(t, l.Ops)
			case k < 8:
				l.Ops = append(l.Ops, EOp{K: "remove", ID: rapid.SampledFrom(eids[:nID]).Draw(t, "id")})
			default:
				l.Ops = append(l.Ops, EOp{K: "flush"})
			}
		}
		l.Ops = lengthen(t, l.Cfg, l.Ops, 150000)
		if rapid.IntRange(0, 31).Draw(t, "many") == 17 {
			// many documents, some of which go again
			some := []EOp{{K: "bulk", N: rapid.SampledFrom([]int{40, 250, 700}).Draw(t, "bulk") + rapid.IntRange(0, 99).Draw(t, "bulkN")}}
			if rapid.Bool().Draw(t, "unbulk") {
				some = append(some, EOp{K: "unbulk", N: rapid.IntRange(2, 9).Draw(t, "each")})
			}
			at := rapid.IntRange(0, len(l.Ops)).Draw(t, "bulkAt")
			l.Ops = append(append(append([]EOp{}, l.Ops[:at]...), some...), l.Ops[at:]...)
		}
		if rapid.IntRange(0, 2).Draw(t, "lastFlush") > 0 {
			l.Ops = append(l.Ops, EOp{K: "flush"})
		}
		if l.Self && rapid.IntRange(0, 5).Draw(t, "closing") == 0 {
			l.Ops = append(l.Ops, EOp{K: "close"})
		}
		if !l.Self {
			l.At = rapid.IntRange(0, len(expand(l.Ops))-1).Draw(t, "at")
			l.Delay = rapid.SampledFrom([]int{0, 20, 100, 500, 2000}).Draw(t, "delay")
		}
		c.Lives = append(c.Lives, l)
	}
	c.Final = store(genMode(t))
	return c
}

type childPlan struct {
	Dir  string
	Life CrashLife
}

func crashChild(plan string) {
	log.SetOutput(io.Discard)
	b, err := os.ReadFile(plan)
	if err != nil {
		os.Exit(4)
	}
	var p childPlan
	if json.Unmarshal(b, &p) != nil {
		os.Exit(4)
	}
	// only the store messages of this process go to stdout
	out := os.Stdout
	os.Stdout, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	e := p.Life.Cfg.open(p.Dir)
	_, _ = out.Write([]byte("open\n"))
	for _, o := range p.Life.Ops {
		switch o.K {
		case "index":
			e.IndexDoc(o.ID, o.Doc.data(), o.Force)
		case "remove":
			e.RemoveDoc(o.ID)
		case "flush":
			e.Flush()
		case "close":
			e.Close()
		}
		_, _ = out.Write([]byte("ack\n"))
	}
	_ = syscall.Kill(os.Getpid(), syscall.SIGKILL)
	select {}
}

// version is a document version or its absence.
type version struct {
	d *EDoc
}

func runCrashCase(ctx *vp.Ctx, c CrashCase) error {
	log.SetOutput(io.Discard)
	dir := ctx.Dir()
	exe, err := os.Executable()
	if err != nil {
		vp.Abort("%v", err)
	}
	// possible versions of every document touched so far
	state := map[string][]version{}
	flushed, open, many := 0, 0, 0
	for li, l := range c.Lives {
		plan := filepath.Join(dir, "plan.json")
		if l.Ops = expand(l.Ops); len(l.Ops) > 200 {
			many++
		}
		b, _ := json.Marshal(childPlan{dir, l})
		if err := os.WriteFile(plan, b, 0o600); err != nil {
			vp.Abort("%v", err)
		}
		cmd := exec.Command(exe, "crash-child", plan)
		var stderr bytes.Buffer
		cmd.Stderr = &stderr
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		out, err := cmd.StdoutPipe()
		if err != nil {
			vp.Abort("%v", err)
		}
		if err := cmd.Start(); err != nil {
			vp.Abort("%v", err)
		}
		// a child that hangs (opening or flushing) is a failure of its own
		hung := false
		timer := time.AfterFunc(90*time.Second, func() {
			hung = true
			_ = cmd.Process.Kill()
		})
		acked, opened := 0, false
		rdr := bufio.NewReader(out)
		for {
			line, err := rdr.ReadString('\n')
			switch line {
			case "open\n":
				opened = true
			case "ack\n":
				acked++
				if !l.Self && acked == l.At+1 {
					if l.Delay > 0 {
						time.Sleep(time.Duration(l.Delay) * time.Microsecond)
					}
					_ = cmd.Process.Kill()
				}
			}
			if err != nil {
				break
			}
		}
		werr := cmd.Wait()
		timer.Stop()
		if hung {
			vp.Abort("life %d: a child did not finish in 90 s", li)
		}
		ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus)
		if !ok || !ws.Signaled() || ws.Signal() != syscall.SIGKILL {
			what := "died by itself"
			if !opened {
				what = "did not open the store after the process had been killed"
			}
			return fmt.Errorf("life %d: the engine %s: %v %s", li, what, werr, tail(stderr.String()))
		}
		// what a flush that returned confirmed
		last := -1
		for i, o := range l.Ops {
			if i < acked && (o.K == "flush" || o.K == "close") {
				last = i
			}
		}
		for i, o := range l.Ops {
			var v version
			switch o.K {
			case "index":
				v.d = o.Doc
			case "remove":
			default:
				continue
			}
			switch {
			case i < last:
				state[o.ID] = []version{v}
				flushed++
			default:
				p, ok := state[o.ID]
				if !ok {
					p = []version{{}}
				}
				state[o.ID] = append(append([]version{}, p...), v)
				open++
			}
		}
	}
	e := c.Final.open(dir)
	e.Flush()
	ids, docs := e.GetDBAllDocs()
	live := map[string]EDoc{}
	for i, id := range ids {
		p, ok := state[id]
		if !ok {
			return fmt.Errorf("the store holds document %q, which was never indexed", id)
		}
		found := false
		for _, v := range p {
			if v.d != nil && sameData(docs[i], v.d.data()) {
				live[id], found = *v.d, true
			}
		}
		if !found {
			return fmt.Errorf("document %q is stored as %s; allowed versions: %s", id, vp.JSON(docs[i]), versions(p))
		}
	}
	for id, p := range state {
		if _, ok := live[id]; ok {
			continue
		}
		gone := false
		for _, v := range p {
			gone = gone || v.d == nil
		}
		if !gone {
			return fmt.Errorf("document %q is not in the store; allowed versions: %s", id, versions(p))
		}
	}
	if err := storeAgrees(e, live); err != nil {
		return fmt.Errorf("after the crashes: %v", err)
	}
	m := newModel(c.Final)
	m.live = live
	for _, id := range eids {
		if _, ok := live[id]; e.HasDoc(id) != ok {
			return fmt.Errorf("after the crashes: HasDoc(%q) = %v, want %v", id, !ok, ok)
		}
	}
	for _, q := range []Query{{Tok: []string{"t1"}, Crit: "fields"}, {Lab: []string{"l1"}, Crit: "const"}, {Tok: []string{"t2"}, Crit: "bm25"}, {Must: []string{"x"}, Crit: "const"}} {
		if err := m.exact(q, e.Search(q.req())); err != nil {
			return fmt.Errorf("after the crashes: search %s: %v", vp.JSON(q), err)
		}
	}
	if err := m.probe(e); err != nil {
		return fmt.Errorf("after the crashes: %v", err)
	}
	e.Close()
	ctx.NonTrivial(flushed >= 2)
	ctx.Label("store %s", c.Final.Store)
	ctx.LabelIf(open > 0, "killed with operations not flushed")
	ctx.LabelIf(many > 0, "a life of more than 200 calls")
	ctx.LabelIf(len(c.Lives) > 1, "several crashes")
	return nil
}

func versions(p []version) string {
	var s []string
	for _, v := range p {
		if v.d == nil {
			s = append(s, "absent")
		} else {
			s = append(s, vp.JSON(*v.d))
		}
	}
	return strings.Join(s, " or ")
}

func tail(s string) string {
	if len(s) > 1500 {
		s = s[:700] + " ... " + s[len(s)-700:]
	}
	return s
}

func init() {
	vp.Register(vp.Prop{
		ID:   "C13",
		Rule: "A case is 1-3 lives of a process with an engine on one store, each ended by SIGKILL at a generated point of its history, after which a differently configured engine reads everything back; non-trivial if at least two operations were confirmed by a flush that returned.",
		Assumptions: []string{
			"the machine and the operating system survive; only the process dies",
			"operations not yet confirmed by a flush may or may not have happened, each on its own",
		},
		Quick: vp.Budget{Shards: 8, Checks: 90}, Thorough: vp.Budget{Shards: 8, Checks: 3600},
		Restart: 30,
	}, genCrashCase, runCrashCase)
}
