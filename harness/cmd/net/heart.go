package main

import (
	"context"
	"encoding/json"
	"fmt"
	"log"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	pb "github.com/go-ego/riot/net/grpc/riot-pb"
	hb "github.com/go-ego/riot/net/heartb"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"pgregory.net/rapid"
	"verif/harness/internal/vp"
)

// --- C26: the heartbeat monitor ---------------------------------------------------

// Beat is what the monitored server does when it is asked for a heartbeat:
// requests to the monitor's handlers first, then its answer.
type Beat struct {
	Err    bool     `json:"err,omitempty"`
	Result int      `json:"result"`
	Health bool     `json:"health,omitempty"`
	Kill   []string `json:"kill,omitempty"` // names in a /kill or /restart request
	Again  bool     `json:"again,omitempty"`
}

// Script is one monitored server.
type Script struct {
	Beats []Beat `json:"beats"`
	Exit  int    `json:"exit"` // of the restart command
	Slow  bool   `json:"slow,omitempty"`
	Poll  bool   `json:"poll,omitempty"` // Health is asked all the time as well
	Down  bool   `json:"down,omitempty"` // nothing listens at the address
}

// BeatCase is a set of scripts, each run in a process of its own.
type BeatCase struct {
	Scripts []Script `json:"scripts"`
}

// names given to the handlers; those with characters of the shell are harmless
// if it gets to see them
var killNames = []string{"riot", "riot-server", "a.out", "x;echo", "a|b", "$(echo)", "`x`", "a&", ">out", "'", "\"q", "#c", "a\\b", "*", "~", "$PATH", "世界", "-u", "--"}

func genBeatCase(t *rapid.T) BeatCase {
	var c BeatCase
	for i := rapid.IntRange(1, 6).Draw(t, "scripts"); i > 0; i-- {
		s := Script{Exit: rapid.SampledFrom([]int{0, 0, 1, 7}).Draw(t, "exit"), Slow: rapid.Bool().Draw(t, "slow"), Poll: rapid.Bool().Draw(t, "poll"), Down: rapid.IntRange(0, 7).Draw(t, "down") == 0}
		if s.Down {
			c.Scripts = append(c.Scripts, s)
			continue
		}
		fail := rapid.IntRange(1, 9).Draw(t, "failing") // of ten
		for j := rapid.IntRange(1, 11).Draw(t, "beats"); j > 0; j-- {
			b := Beat{Result: 1, Health: rapid.Bool().Draw(t, "health")}
			if rapid.IntRange(1, 10).Draw(t, "ok") <= fail {
				if b.Err = rapid.Bool().Draw(t, "err"); !b.Err {
					b.Result = rapid.SampledFrom([]int{0, 2, -1, 1 << 30}).Draw(t, "result")
				}
			}
			if rapid.IntRange(0, 11).Draw(t, "kill") == 0 {
				b.Kill = rapid.SliceOfN(rapid.SampledFrom(killNames), 1, 2).Draw(t, "names")
				b.Again = rapid.Bool().Draw(t, "again")
			}
			s.Beats = append(s.Beats, b)
		}
		c.Scripts = append(c.Scripts, s)
	}
	return c
}

// Seen is what the server sees while it is asked for a heartbeat.
type Seen struct {
	Before string // output of the restart commands
	Health string // answer of the health request
	Early  string // health before a kill request
	Reply  string // answer of the kill request
	Kills  string // calls of killall, all
	At     time.Duration
	Poll   string // a wrong answer of the polled health requests
}

const killLog, restartLog = "kills.txt", "restarts.txt"

// monitor is the process of one script. It leaves what was seen in a file.
func monitor(arg string) {
	log.SetOutput(os.Stderr)
	var s Script
	if err := json.Unmarshal([]byte(arg), &s); err != nil {
		panic(err)
	}
	dir, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		fmt.Fprintln(os.Stderr, "resource temporarily unavailable:", err)
		os.Exit(7)
	}
	m := http.NewServeMux()
	m.HandleFunc("/health", hb.Health)
	m.HandleFunc("/kill", hb.KillSer)
	m.HandleFunc("/restart", hb.RestartSer)
	st := &stub{s: s, mux: m, dir: dir, start: time.Now(), done: make(chan struct{})}
	slow := ""
	if s.Slow {
		slow = "/bin/sleep 1.4; "
	}
	cmd := fmt.Sprintf("echo start >> %s; %secho end >> %s; exit %d", restartLog, slow, restartLog, s.Exit)
	addr := l.Addr().String()
	if s.Down {
		l.Close()
		go func() {
			for st.read(filepath.Join("run dir", restartLog)) == "" {
				time.Sleep(5 * time.Millisecond)
			}
			st.seen = append(st.seen, Seen{At: time.Since(st.start)})
			close(st.done)
		}()
	} else {
		g := grpc.NewServer()
		pb.RegisterGreeterServer(g, st)
		go g.Serve(l)
	}
	if s.Poll {
		go func() {
			for {
				if a := st.ask("/health"); !strings.HasPrefix(a, "200 ") && st.bad() == "" {
					st.setBad(a)
				}
				time.Sleep(time.Millisecond)
			}
		}()
	}
	go hb.Grpcc(addr, filepath.Join(dir, "run dir"), cmd)
	<-st.done
	b, _ := json.Marshal(st.seen)
	if err := os.WriteFile("report.json", b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	os.Exit(0)
}

type stub struct {
	pb.GreeterServer
	s     Script
	mux   *http.ServeMux
	dir   string
	start time.Time
	done  chan struct{}

	mu   sync.Mutex
	seen []Seen
	poll string
}

func (s *stub) bad() string     { s.mu.Lock(); defer s.mu.Unlock(); return s.poll }
func (s *stub) setBad(a string) { s.mu.Lock(); defer s.mu.Unlock(); s.poll = a }

func (s *stub) read(name string) string {
	b, _ := os.ReadFile(filepath.Join(s.dir, name))
	return string(b)
}

// ask makes a request to a handler of the monitor.
func (s *stub) ask(path string) string {
	w := httptest.NewRecorder()
	s.mux.ServeHTTP(w, httptest.NewRequest("GET", path, nil))
	return fmt.Sprintf("%d %s", w.Code, w.Body.String())
}

func (s *stub) HeartBeat(_ context.Context, r *pb.HeartReq) (*pb.Reply, error) {
	i := len(s.seen)
	if i >= len(s.s.Beats) {
		select {} // the monitor waits from now on
	}
	b := s.s.Beats[i]
	x := Seen{Before: s.read(filepath.Join("run dir", restartLog)), At: time.Since(s.start)}
	if b.Health || i == len(s.s.Beats)-1 {
		x.Early = s.ask("/health")
	}
	if len(b.Kill) > 0 {
		path := "/kill"
		if b.Again {
			path = "/restart"
		}
		x.Reply = s.ask(path + "?name=" + url.QueryEscape(strings.Join(b.Kill, " ")))
		x.Health = s.ask("/health")
	}
	x.Kills = s.read(killLog)
	x.Poll = s.bad()
	s.seen = append(s.seen, x)
	if i == len(s.s.Beats)-1 {
		close(s.done)
		select {}
	}
	if b.Err {
		return nil, status.Error(codes.Internal, "no heartbeat")
	}
	return &pb.Reply{Result: int32(b.Result)}, nil
}

func runScript(dir string, s Script) (seen []Seen, err error) {
	for _, d := range []string{"bin", "run dir"} {
		if err := os.MkdirAll(filepath.Join(dir, d), 0o755); err != nil {
			return nil, &trouble{err.Error()}
		}
	}
	// the only program that the monitor finds by its name is this killall
	stand := `#!/bin/sh
{
	echo call
	names=
	for a; do
		case "$names$a" in
		--) names=yes ;;
		-9|-KILL|-SIGKILL) echo kill ;;
		-*) printf 'option %s\n' "$a" ;;
		*) printf 'name %s\n' "$a" ;;
		esac
	done
} >> "$KILLLOG"
`
	if err := os.WriteFile(filepath.Join(dir, "bin", "killall"), []byte(stand), 0o755); err != nil {
		return nil, &trouble{err.Error()}
	}
	exe, err := os.Executable()
	if err != nil {
		return nil, &trouble{err.Error()}
	}
	b, _ := json.Marshal(s)
	cmd := exec.Command(exe, "monitor", string(b))
	errs := &tail{}
	cmd.Stderr, cmd.Dir = errs, dir
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "PATH=") {
			cmd.Env = append(cmd.Env, e)
		}
	}
	cmd.Env = append(cmd.Env, "PATH="+filepath.Join(dir, "bin"), "KILLLOG="+filepath.Join(dir, killLog))
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL, Setpgid: true}
	if err := cmd.Start(); err != nil {
		return nil, &trouble{err.Error()}
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	late := false
	select {
	case err = <-done:
	case <-time.After(90 * time.Second):
		late = true
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
	}
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	t := errs.String()
	for _, m := range []string{"cannot allocate memory", "out of memory", "no space left", "too many open files", "resource temporarily unavailable"} {
		if strings.Contains(t, m) {
			return nil, &trouble{m}
		}
	}
	if late {
		return nil, &trouble{"the script took more than 90 s"}
	}
	out, _ := os.ReadFile(filepath.Join(dir, "report.json"))
	if e := json.Unmarshal(out, &seen); e != nil {
		if i := strings.Index(t, "panic: "); i >= 0 {
			t = t[i:]
		}
		if len(t) > 1500 {
			t = t[len(t)-1500:]
		}
		return nil, fmt.Errorf("the monitor ended (%v): %s", err, t)
	}
	if r := vp.RacesOf(cmd.Process.Pid); r != "" {
		return nil, fmt.Errorf("data race in the code under test:\n%s", r)
	}
	return seen, nil
}

type trouble struct{ what string }

func (t *trouble) Error() string { return t.what }

// judge compares what the server saw with what the monitor has to do.
func (s Script) judge(seen []Seen) (restarts int, err error) {
	if s.Down {
		// four failed heartbeats, each after a second
		if at := seen[0].At; at < 4*time.Second {
			return 1, fmt.Errorf("a server that is down is restarted after %v, before its fourth heartbeat was due", at)
		}
		return 1, nil
	}
	fails, kills := 0, ""
	for i, b := range s.Beats {
		x := seen[i]
		where := func(f string, a ...any) (int, error) {
			return restarts, fmt.Errorf("heartbeat %d (%s): %s", i, vp.JSON(s.Beats[:i]), fmt.Sprintf(f, a...))
		}
		if x.At < time.Duration(i+1)*time.Second {
			return where("comes %v after the start of the monitor, which is to wait a second before each", x.At)
		}
		if want := strings.Repeat("start\nend\n", restarts); x.Before != want {
			return where("the restart command has written %q, want it to have run to its end %d times", x.Before, restarts)
		}
		health := func(a string, fails int) error {
			var h struct {
				Code      *int
				Timestamp int64
				Health    *int
			}
			if !strings.HasPrefix(a, "200 ") || json.Unmarshal([]byte(a[4:]), &h) != nil || h.Code == nil || h.Health == nil || *h.Code != 0 {
				return fmt.Errorf("the health request is answered %q", a)
			}
			if d := time.Now().Unix() - h.Timestamp; d < 0 || d > 300 {
				return fmt.Errorf("the health request has the time %d, now it is %d", h.Timestamp, time.Now().Unix())
			}
			if *h.Health != fails {
				return fmt.Errorf("health is %d after %d failed heartbeats", *h.Health, fails)
			}
			return nil
		}
		if x.Early != "" {
			if err := health(x.Early, fails); err != nil {
				return where("%v", err)
			}
		}
		if x.Poll != "" {
			return where("a health request is answered %q", x.Poll)
		}
		if len(b.Kill) > 0 {
			fails = 0
			if !strings.HasPrefix(x.Reply, "200 ") {
				return where("the request to kill %q is answered %q", b.Kill, x.Reply)
			}
			kills += "call\nkill\n"
			for _, n := range b.Kill {
				kills += "name " + n + "\n"
			}
			if err := health(x.Health, 0); err != nil {
				return where("after a kill request, %v", err)
			}
		}
		if x.Kills != kills {
			return where("the kill requests so far make the calls of killall %q, want %q", x.Kills, kills)
		}
		if b.Err || b.Result != 1 {
			if fails++; fails == 4 {
				fails = 0
				restarts++
			}
		}
	}
	return restarts, nil
}

func runBeatCase(ctx *vp.Ctx, c BeatCase) error {
	var wg sync.WaitGroup
	errs := make([]error, len(c.Scripts))
	rs := make([]int, len(c.Scripts))
	for i, s := range c.Scripts {
		dir := filepath.Join(ctx.Dir(), fmt.Sprint(i))
		wg.Add(1)
		go func(i int, s Script) {
			defer wg.Done()
			seen, err := runScript(dir, s)
			if err == nil {
				rs[i], err = s.judge(seen)
			}
			errs[i] = err
		}(i, s)
	}
	wg.Wait()
	for i, err := range errs {
		if t, ok := err.(*trouble); ok {
			vp.Abort("%s", t.what)
		}
		if err != nil {
			return fmt.Errorf("script %d: %w", i, err)
		}
	}
	for i, s := range c.Scripts {
		ctx.NonTrivial(rs[i] > 0)
		ctx.LabelIf(rs[i] > 0, "restarted")
		ctx.LabelIf(rs[i] > 1, "restarted twice")
		ctx.LabelIf(s.Down, "server down")
		ctx.LabelIf(rs[i] == 0, "not restarted")
		for _, b := range s.Beats {
			ctx.LabelIf(len(b.Kill) > 0, "kill request")
		}
	}
	return nil
}

func init() {
	vp.Register(vp.Prop{
		ID:   "C26",
		Rule: "A case is up to 6 monitored servers, each with a script of heartbeats that succeed or fail, health requests and kill requests; non-trivial if a server is restarted.",
		Assumptions: []string{
			"the restart command and killall are stand-ins that record their calls; the monitor process finds no other program by name",
		},
		Quick: vp.Budget{Shards: 8, Checks: 5}, Thorough: vp.Budget{Shards: 8, Checks: 400},
		Restart: 25, Race: true,
	}, genBeatCase, runBeatCase)
}
