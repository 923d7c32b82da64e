package vp

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"regexp"
	"runtime"
	"runtime/debug"
	"strings"
	"time"
)

// The worker reads one request per line on fd 3 and answers on fd 4, so that
// whatever the code under test prints cannot disturb the protocol.

var (
	firstDump  = 8 * time.Second
	secondDump = 2 * time.Second
	hardCap    = 240 * time.Second
)

func workerMain(p *Prop) {
	in := bufio.NewReaderSize(os.NewFile(3, "in"), 1<<20)
	out := os.NewFile(4, "out")
	debug.SetTraceback("all")
	if d := scratchRoot(); d != "" {
		_ = os.Chdir(d)
	}
	for {
		line, err := in.ReadBytes('\n')
		if err == io.EOF && len(line) == 0 {
			os.Exit(0)
		}
		if err != nil {
			os.Exit(0)
		}
		res := runWatched(p, line)
		b, _ := json.Marshal(res)
		b = append(b, '\n')
		if _, err := out.Write(b); err != nil {
			os.Exit(0)
		}
		if res.Fatal {
			os.Exit(0)
		}
	}
}

// runWatched runs a case; when it does not finish it decides whether it is
// stuck for good (every goroutine of the code under test is blocked on another
// one, in two dumps) or merely slow.
func runWatched(p *Prop, raw []byte) Result {
	done := make(chan Result, 1)
	go func() { done <- RunCase(p, raw) }()
	select {
	case r := <-done:
		return r
	case <-time.After(firstDump):
	}
	start := time.Now()
	prev := dumpStates()
	for {
		select {
		case r := <-done:
			return r
		case <-time.After(secondDump):
		}
		cur := dumpStates()
		if stuck, why := quiescent(prev, cur); stuck {
			return Result{Err: "deadlock: the case never finishes; every goroutine involved is blocked:\n" + why, Fatal: true}
		}
		prev = cur
		if time.Since(start) > hardCap {
			return Result{Inconclusive: "case did not finish and is not provably stuck:\n" + cur.text(), Fatal: true}
		}
	}
}

// RunCase runs one case in this process.
func RunCase(p *Prop, raw []byte) (res Result) {
	ctx := &Ctx{labels: map[string]int{}}
	defer func() {
		if r := recover(); r != nil {
			if ic, ok := r.(inconclusive); ok {
				res.Inconclusive = ic.msg
			} else {
				res.Err = fmt.Sprintf("panic: %v\n%s", r, trimStack(string(debug.Stack())))
				// locks may be held by the panicking call
				res.Fatal = true
			}
		}
		for i := len(ctx.cleanups) - 1; i >= 0; i-- {
			func() {
				defer func() { _ = recover() }()
				ctx.cleanups[i]()
			}()
		}
		if ctx.dir != "" {
			_ = os.RemoveAll(ctx.dir)
		}
		res.Labels, res.NT = ctx.labels, ctx.nt
		if ctx.incon != "" && res.Err == "" {
			res.Inconclusive = ctx.incon
		}
		if p.Race {
			if rep := newRaces(); rep != "" && res.Err == "" {
				res.Err = "data race in the code under test:\n" + rep
				res.Fatal = true
			}
		}
	}()
	c, err := p.decode(raw)
	if err != nil {
		return Result{Inconclusive: "bad case: " + err.Error()}
	}
	if err := p.run(ctx, c); err != nil {
		res.Err = err.Error()
	}
	return res
}

// Stack is the engine's part of the calling goroutine's stack.
func Stack() string { return trimStack(string(debug.Stack())) }

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var keep []string
	for _, l := range lines {
		if strings.Contains(l, "/riot") || strings.Contains(l, "verif/harness") || strings.Contains(l, "sched") || strings.Contains(l, "panic(") {
			keep = append(keep, l)
		}
		if len(keep) > 16 {
			break
		}
	}
	return strings.Join(keep, "\n")
}

type gor struct {
	id, state string
	frames    []string
}

type states struct{ gs map[string]gor }

func (s states) text() string {
	var b strings.Builder
	n := 0
	for _, g := range s.gs {
		if n++; n > 12 {
			break
		}
		fmt.Fprintf(&b, "goroutine %s [%s]: %s\n", g.id, g.state, strings.Join(head(g.frames, 6), " < "))
	}
	return b.String()
}

func head(s []string, n int) []string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

var gHead = regexp.MustCompile(`^goroutine (\d+) (?:gp=\S+ m=\S+(?: mp=\S+)? )?\[([^\]]*)\]:`)

// dumpStates lists the goroutines that run the code under test or the oracle.
func dumpStates() states {
	buf := make([]byte, 64<<20)
	n := runtime.Stack(buf, true)
	st := states{gs: map[string]gor{}}
	for _, blk := range strings.Split(string(buf[:n]), "\n\n") {
		ls := strings.Split(blk, "\n")
		m := gHead.FindStringSubmatch(ls[0])
		if m == nil {
			continue
		}
		g := gor{id: m[1], state: strings.TrimSpace(strings.Split(m[2], ",")[0])}
		rel := false
		for _, l := range ls[1:] {
			if strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "created by") || l == "" {
				continue
			}
			f := l
			if i := strings.LastIndex(f, "("); i > 0 {
				f = f[:i]
			}
			g.frames = append(g.frames, f)
			if strings.Contains(f, "github.com/go-ego/riot") || strings.Contains(f, "vp.RunCase") || strings.HasPrefix(f, "main.") {
				rel = true
			}
		}
		if len(g.frames) > 0 && (strings.Contains(g.frames[0], "vp.dumpStates") || (len(g.frames) > 1 && strings.Contains(g.frames[1], "vp.dumpStates"))) {
			continue
		}
		if rel {
			st.gs[g.id] = g
		}
	}
	return st
}

func blockedState(s string) bool {
	switch s {
	case "chan receive", "chan send", "select", "semacquire", "sync.Mutex.Lock",
		"sync.RWMutex.RLock", "sync.RWMutex.Lock", "sync.WaitGroup.Wait",
		"sync.Cond.Wait", "chan receive (nil chan)", "chan send (nil chan)", "select (no cases)":
		return true
	}
	return false
}

// flushFrames are the public calls that wait by polling; a goroutine inside
// one of them is "running" although it only waits for the others.
var flushFrames = []string{
	"github.com/go-ego/riot.(*Engine).Flush",
	"github.com/go-ego/riot.(*Engine).FlushIndex",
	"github.com/go-ego/riot.(*Engine).Close",
	"github.com/go-ego/riot.(*Engine).Store",
	"github.com/go-ego/riot.(*Engine).Init",
}

func polls(g gor) bool {
	for _, f := range g.frames {
		for _, w := range flushFrames {
			if f == w {
				return true
			}
		}
	}
	return false
}

// ownTop: the innermost frame outside runtime/sync belongs to the code under
// test or to the harness (not to a database that may be waiting for the disk).
func ownTop(g gor) bool {
	for _, f := range g.frames {
		if strings.HasPrefix(f, "runtime.") || strings.HasPrefix(f, "sync.") || strings.HasPrefix(f, "internal/") || strings.HasPrefix(f, "sync/") {
			continue
		}
		return strings.HasPrefix(f, "github.com/go-ego/riot") || strings.HasPrefix(f, "verif/") || strings.HasPrefix(f, "main.")
	}
	return false
}

func quiescent(a, b states) (bool, string) {
	if len(a.gs) != len(b.gs) {
		return false, ""
	}
	var why []string
	for id, g := range b.gs {
		o, ok := a.gs[id]
		if !ok {
			return false, ""
		}
		blocked := blockedState(g.state) && blockedState(o.state)
		if blocked {
			if !ownTop(g) || strings.Join(g.frames, "|") != strings.Join(o.frames, "|") {
				return false, ""
			}
		} else if !polls(g) || !polls(o) || g.state == "sleep" || g.state == "IO wait" || strings.HasPrefix(g.state, "syscall") {
			return false, ""
		}
		interesting := !blocked || strings.HasPrefix(g.state, "sync.") || g.state == "semacquire" || g.state == "chan send"
		for _, f := range g.frames {
			if strings.Contains(f, "vp.RunCase") {
				interesting = true
			}
		}
		if interesting && len(why) < 10 {
			why = append(why, fmt.Sprintf("goroutine %s [%s]: %s", g.id, g.state, strings.Join(head(g.frames, 6), " < ")))
		}
	}
	return true, strings.Join(why, "\n")
}

// --- race detector reports -------------------------------------------------

var raceOff int64

func raceLogPath() string {
	return fmt.Sprintf("%s.%d", os.Getenv("VP_RACELOG"), os.Getpid())
}

// newRaces returns the reports written since the last call whose two accesses
// are both made by the code under test, or one by a harness function writeOver...
// which stands for a caller that uses its own memory.
func newRaces() string {
	if os.Getenv("VP_RACELOG") == "" {
		return ""
	}
	f, err := os.Open(raceLogPath())
	if err != nil {
		return ""
	}
	defer f.Close()
	if _, err := f.Seek(raceOff, io.SeekStart); err != nil {
		return ""
	}
	b, _ := io.ReadAll(f)
	raceOff += int64(len(b))
	return filterRaces(string(b))
}

var accessHead = regexp.MustCompile(`(?m)^(?:Previous )?(?:[Aa]tomic )?(?:[Rr]ead|[Ww]rite) at .*:$`)

// RacesOf returns the reports of another process started with this one's
// environment, as newRaces does for this one.
func RacesOf(pid int) string {
	b, err := os.ReadFile(fmt.Sprintf("%s.%d", os.Getenv("VP_RACELOG"), pid))
	if err != nil {
		return ""
	}
	return filterRaces(string(b))
}

// Stuck says whether every goroutine of the code under test in this process,
// except those the filter excuses, is blocked on another one.
func Stuck(excuse func(frames []string) bool) (bool, string) {
	dump := func() states {
		s := dumpStates()
		for id, g := range s.gs {
			if excuse(g.frames) {
				delete(s.gs, id)
			}
		}
		return s
	}
	prev := dump()
	time.Sleep(secondDump)
	return quiescent(prev, dump())
}

func filterRaces(s string) string {
	for _, rep := range strings.Split(s, "==================") {
		if !strings.Contains(rep, "WARNING: DATA RACE") {
			continue
		}
		idx := accessHead.FindAllStringIndex(rep, -1)
		if len(idx) < 2 {
			continue
		}
		own := 0
		for _, ix := range idx[:2] {
			// innermost frame that is not runtime/sync/reflect
			for _, l := range strings.Split(rep[ix[1]:], "\n") {
				l = strings.TrimSpace(l)
				if l == "" {
					if own == 0 {
						continue
					}
					continue
				}
				if strings.HasPrefix(l, "/") || strings.HasPrefix(l, "runtime.") || strings.HasPrefix(l, "sync") || strings.HasPrefix(l, "internal/") {
					continue
				}
				if strings.HasPrefix(l, "github.com/go-ego/riot") || strings.HasPrefix(l, "main.writeOver") {
					own++
				}
				break
			}
		}
		if own == 2 {
			if len(rep) > 3000 {
				rep = rep[:3000]
			}
			return rep
		}
	}
	return ""
}
