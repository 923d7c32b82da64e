package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/go-ego/riot/store"
	"pgregory.net/rapid"
	"verif/harness/internal/vp"
)

// --- C08: a store survives the death of its process ----------------------------

// Round is one life of the process: the operations it performs and when it is
// killed with SIGKILL.
type Round struct {
	Ops []SOp `json:"ops"`
	// Self: the process kills itself right after the last operation returned.
	// Otherwise it is killed from outside Delay microseconds after operation
	// At was acknowledged, while it goes on with the following ones.
	Self  bool `json:"self"`
	At    int  `json:"at,omitempty"`
	Delay int  `json:"delay,omitempty"`
	// Torn: the process is killed in the middle of the log write of its last
	// operation, after this many thousandths of the bytes (0: not torn).
	Torn int `json:"torn,omitempty"`
}

// CrashCase is a sequence of lives on one store.
type CrashCase struct {
	Engine string  `json:"engine"`
	Rounds []Round `json:"rounds"`
}

func genCrashCase(t *rapid.T) CrashCase {
	c := CrashCase{Engine: rapid.SampledFrom([]string{"ldb", "bolt", "bg"}).Draw(t, "engine")}
	nKey := rapid.SampledFrom([]int{3, 6, 30}).Draw(t, "nKey")
	for r := rapid.IntRange(1, 3).Draw(t, "rounds"); r > 0; r-- {
		rd := Round{Self: rapid.Bool().Draw(t, "self")}
		n := rapid.IntRange(1, 30).Draw(t, "n")
		for i := 0; i < n; i++ {
			o := SOp{K: "set", Key: keyGen(nKey).Draw(t, "key")}
			if rapid.IntRange(0, 3).Draw(t, "del") == 0 {
				o.K = "del"
			} else {
				o.Val = valGen(t)
			}
			rd.Ops = append(rd.Ops, o)
		}
		if rd.Self && c.Engine != "bolt" && rapid.Bool().Draw(t, "tear") {
			rd.Torn = rapid.IntRange(1, 999).Draw(t, "torn")
		}
		if !rd.Self {
			rd.At = rapid.IntRange(0, n-1).Draw(t, "at")
			rd.Delay = rapid.SampledFrom([]int{0, 20, 100, 500, 2000}).Draw(t, "delay")
		}
		c.Rounds = append(c.Rounds, rd)
	}
	return c
}

type childPlan struct {
	Path, Engine string
	Round        Round
}

// crashChild performs the operations of one round, acknowledging each on
// stdout after the call returned.
func crashChild(plan string) {
	log.SetOutput(io.Discard)
	b, err := os.ReadFile(plan)
	if err != nil {
		os.Exit(4)
	}
	var p childPlan
	if json.Unmarshal(b, &p) != nil {
		os.Exit(4)
	}
	s, err := store.OpenStore(p.Path, p.Engine)
	if err != nil {
		fmt.Printf("openerr %v\n", err)
		os.Exit(5)
	}
	fmt.Println("open")
	for i, o := range p.Round.Ops {
		last := p.Round.Torn > 0 && i == len(p.Round.Ops)-1
		if last {
			reportLog(p)
		}
		if o.K == "set" {
			err = s.Set([]byte(o.Key), o.Val.bytes())
		} else {
			err = s.Delete([]byte(o.Key))
		}
		if err != nil {
			fmt.Printf("operr %d %v\n", i, err)
			os.Exit(5)
		}
		if last {
			reportLog(p)
			break
		}
		// one write call, so an acknowledgement is never torn
		_, _ = os.Stdout.Write([]byte("ack\n"))
	}
	_ = syscall.Kill(os.Getpid(), syscall.SIGKILL)
	select {}
}

// reportLog tells the parent the newest log file of the store and its size.
func reportLog(p childPlan) {
	pat := map[string]string{"ldb": "*.log", "bg": "*.vlog"}[p.Engine]
	fs, _ := filepath.Glob(filepath.Join(p.Path, pat))
	if len(fs) == 0 {
		return
	}
	f := fs[len(fs)-1] // names are zero-padded numbers
	if st, err := os.Stat(f); err == nil {
		fmt.Printf("log %d %s\n", st.Size(), f)
	}
}

// possible holds the values a key may have (nil: absent).
type possible struct {
	vals [][]byte
}

func runCrashCase(ctx *vp.Ctx, c CrashCase) error {
	log.SetOutput(io.Discard)
	dir := ctx.Dir()
	path := filepath.Join(dir, "db")
	state := map[string]possible{}
	exe, err := os.Executable()
	if err != nil {
		vp.Abort("%v", err)
	}
	ackedTotal, inflight, torn := 0, 0, 0
	for ri, rd := range c.Rounds {
		plan := filepath.Join(dir, "plan.json")
		b, _ := json.Marshal(childPlan{path, c.Engine, rd})
		if err := os.WriteFile(plan, b, 0o600); err != nil {
			vp.Abort("%v", err)
		}
		cmd := exec.Command(exe, "crash-child", plan)
		var stderr bytes.Buffer
		cmd.Stderr = &stderr
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		out, err := cmd.StdoutPipe()
		if err != nil {
			vp.Abort("%v", err)
		}
		if err := cmd.Start(); err != nil {
			vp.Abort("%v", err)
		}
		acked, opened, failed := 0, false, ""
		var logs []string
		var sizes []int64
		rdr := bufio.NewReader(out)
		for {
			line, err := rdr.ReadString('\n')
			switch {
			case line == "open\n":
				opened = true
			case line == "ack\n":
				acked++
				if !rd.Self && acked == rd.At+1 {
					if rd.Delay > 0 {
						time.Sleep(time.Duration(rd.Delay) * time.Microsecond)
					}
					_ = cmd.Process.Kill()
				}
			case strings.HasPrefix(line, "log "):
				var n int64
				var f string
				if _, err := fmt.Sscanf(line, "log %d %s", &n, &f); err == nil {
					logs, sizes = append(logs, f), append(sizes, n)
				}
			case line != "":
				failed = line
			}
			if err != nil {
				break
			}
		}
		werr := cmd.Wait()
		if failed != "" {
			return fmt.Errorf("round %d on %s: %s", ri, c.Engine, failed)
		}
		ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus)
		if !ok || !ws.Signaled() || ws.Signal() != syscall.SIGKILL {
			if !opened {
				return fmt.Errorf("round %d on %s: the store did not open after the process had been killed: %v %s", ri, c.Engine, werr, tail(stderr.String()))
			}
			return fmt.Errorf("round %d on %s: the process died by itself: %v %s", ri, c.Engine, werr, tail(stderr.String()))
		}
		if rd.Torn > 0 {
			// undo part of the last write, as if the kill had come during it
			if len(logs) == 2 && logs[0] == logs[1] && sizes[1] > sizes[0] {
				at := sizes[0] + (sizes[1]-sizes[0])*int64(rd.Torn)/1000
				if err := os.Truncate(logs[1], at); err != nil {
					vp.Abort("%v", err)
				}
				torn++
			}
		} else if rd.Self && acked != len(rd.Ops) {
			vp.Abort("a self-killing child acknowledged %d of %d operations", acked, len(rd.Ops))
		}
		ackedTotal += acked
		for i, o := range rd.Ops {
			var v []byte
			if o.K == "set" {
				v = o.Val.bytes()
			}
			if i < acked {
				state[o.Key] = possible{vals: [][]byte{v}}
			} else {
				// may or may not have happened before the kill
				p, ok := state[o.Key]
				if !ok {
					p = possible{vals: [][]byte{nil}}
				}
				p.vals = append(append([][]byte{}, p.vals...), v)
				state[o.Key] = p
				inflight++
			}
		}
		// recovery: read everything in this process
		s, err := store.OpenStore(path, c.Engine)
		if err != nil {
			return fmt.Errorf("after round %d (%d acknowledged): reopening %s: %v", ri, acked, c.Engine, err)
		}
		res := verifyState(s, state, fmt.Sprintf("%s after round %d (%d of %d operations acknowledged before SIGKILL)", c.Engine, ri, acked, len(rd.Ops)))
		if cerr := s.Close(); cerr != nil && res == nil {
			res = fmt.Errorf("close after recovery: %v", cerr)
		}
		if res != nil {
			return res
		}
	}
	ctx.NonTrivial(ackedTotal >= 2)
	ctx.Label("engine %s", c.Engine)
	ctx.LabelIf(inflight > 0, "killed with operations outstanding")
	ctx.LabelIf(torn > 0, "killed in the middle of a log write")
	ctx.LabelIf(len(c.Rounds) > 1, "several crashes")
	return nil
}

func verifyState(s store.Store, state map[string]possible, when string) error {
	seen := map[string][]byte{}
	if err := s.ForEach(func(k, v []byte) error {
		seen[string(k)] = append([]byte{}, v...)
		return nil
	}); err != nil {
		return fmt.Errorf("%s: ForEach: %v", when, err)
	}
	for k := range seen {
		if _, ok := state[k]; !ok {
			return fmt.Errorf("%s: key %q was never written", when, short(k))
		}
	}
	for k, p := range state {
		got, present := seen[k]
		ok := false
		for _, v := range p.vals {
			if v == nil {
				ok = ok || !present
			} else {
				ok = ok || present && bytes.Equal(v, got)
			}
		}
		if !ok {
			what := "is absent"
			if present {
				what = "is " + brief(got)
			}
			return fmt.Errorf("%s: key %q %s, allowed: %s", when, short(k), what, allowed(p))
		}
		g, _ := s.Get([]byte(k))
		if present && !bytes.Equal(g, got) || !present && len(g) > 0 {
			return fmt.Errorf("%s: key %q: Get and ForEach disagree", when, short(k))
		}
		// what recovery found is final
		if present {
			state[k] = possible{vals: [][]byte{got}}
		} else {
			state[k] = possible{vals: [][]byte{nil}}
		}
	}
	return nil
}

func allowed(p possible) string {
	s := ""
	for _, v := range p.vals {
		if v == nil {
			s += "absent; "
		} else {
			s += brief(v) + "; "
		}
	}
	return s
}

func tail(s string) string {
	if len(s) > 600 {
		s = s[len(s)-600:]
	}
	return s
}

func init() {
	vp.Register(vp.Prop{
		ID:          "C08",
		Rule:        "A case is 1-3 lives of a process writing to one store, each ended by SIGKILL after a generated operation (at a boundary, or a generated delay after it with later operations under way); non-trivial if at least two operations were acknowledged.",
		Assumptions: []string{"the machine and the operating system survive; only the process dies"},
		Quick:       vp.Budget{Shards: 8, Checks: 150}, Thorough: vp.Budget{Shards: 8, Checks: 6000},
		Restart: 200,
	}, genCrashCase, runCrashCase)
}
