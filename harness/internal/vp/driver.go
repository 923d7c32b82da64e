package vp

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// --- worker handle ------------------------------------------------------------

type tailBuf struct {
	mu sync.Mutex
	b  []byte
	// head of the first crash message, kept although the dump that follows is long
	crash []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.crash == nil {
		for _, m := range []string{"panic: ", "fatal error: ", "runtime: out of memory"} {
			if i := bytes.Index(p, []byte(m)); i >= 0 && (i == 0 || p[i-1] == '\n') {
				t.crash = append([]byte(nil), p[i:]...)
				break
			}
		}
	} else if len(t.crash) < 8192 {
		t.crash = append(t.crash, p...)
	}
	t.b = append(t.b, p...)
	if len(t.b) > 1<<16 {
		t.b = append([]byte(nil), t.b[len(t.b)-(1<<15):]...)
	}
	return len(p), nil
}

type worker struct {
	cmd  *exec.Cmd
	in   *os.File
	out  *bufio.Reader
	outF *os.File
	err  *tailBuf
	n    int
}

func startWorker(p *Prop, scratch string) (*worker, error) {
	exe, err := os.Executable()
	if err != nil {
		return nil, err
	}
	r1, w1, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	r2, w2, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	c := exec.Command(exe, "-worker", "-prop", p.ID)
	c.ExtraFiles = []*os.File{r1, w2}
	c.Stdin = nil
	tb := &tailBuf{}
	c.Stderr = tb
	c.Dir = scratch
	c.Env = append(os.Environ(), "VP_SCRATCH="+scratch)
	if p.Race {
		c.Env = append(c.Env,
			"VP_RACELOG="+filepath.Join(scratch, "race"),
			"GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0 history_size=2 log_path="+filepath.Join(scratch, "race"))
	}
	c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL, Setpgid: true}
	if err := c.Start(); err != nil {
		return nil, err
	}
	r1.Close()
	w2.Close()
	return &worker{cmd: c, in: w1, out: bufio.NewReaderSize(r2, 1<<20), outF: r2, err: tb}, nil
}

func (w *worker) stop() {
	if w == nil {
		return
	}
	w.in.Close()
	_ = syscall.Kill(-w.cmd.Process.Pid, syscall.SIGKILL)
	_ = w.cmd.Wait()
	w.outF.Close()
}

type runner struct {
	p       *Prop
	scratch string
	w       *worker
}

// heapTrouble is what the collector says when its own books do not balance. The
// bbolt 1.3.4 among riot's stores makes such a thing possible at any moment: it
// rebuilds slices from plain integers (reflect.SliceHeader literals in node.write
// and Tx.write), which keep nothing alive, so a page may be freed just before a
// slice of it appears. It says nothing of the case that happened to run, unless
// that case brings it about again.
var heapTrouble = []string{
	"found pointer to free object", "found bad pointer in Go heap", "sweep increased allocation count",
	"marking free object", "checkmark found unmarked object", "s.allocCount > s.nelems",
}

// do executes a case in the worker, (re)starting it as needed.
func (r *runner) do(raw []byte) Result {
	res := r.once(raw)
	if !inHeapTrouble(res) {
		return res
	}
	for i := 0; i < 8; i++ {
		again := r.once(raw)
		if again.Err != "" {
			return again
		}
	}
	return Result{Inconclusive: "the runtime's heap check failed once, and in none of 8 further runs of the same case: " +
		clip(res.Err, 120)}
}

func inHeapTrouble(res Result) bool {
	if !strings.HasPrefix(res.Err, "process crashed: ") {
		return false
	}
	head, _, _ := strings.Cut(res.Err, "\n")
	for _, m := range heapTrouble {
		if strings.Contains(head, m) {
			return true
		}
	}
	return false
}

// once executes a case in the worker a single time.
func (r *runner) once(raw []byte) Result {
	if r.w != nil && r.w.n >= r.p.Restart {
		r.w.stop()
		r.w = nil
	}
	if r.w == nil {
		w, err := startWorker(r.p, r.scratch)
		if err != nil {
			return Result{Inconclusive: "cannot start worker: " + err.Error()}
		}
		r.w = w
	}
	r.w.n++
	var res Result
	_, err := r.w.in.Write(append(append([]byte(nil), raw...), '\n'))
	if err == nil {
		var line []byte
		line, err = r.w.out.ReadBytes('\n')
		if err == nil {
			if err = json.Unmarshal(line, &res); err == nil {
				if res.Fatal {
					r.w.stop()
					r.w = nil
				}
				return res
			}
		}
	}
	// the worker died while running the case
	w := r.w
	r.w = nil
	w.in.Close()
	werr := w.cmd.Wait()
	w.outF.Close()
	return classifyDeath(werr, w.err)
}

var resourceTrouble = []string{
	"out of memory", "cannot allocate memory", "no space left", "too many open files",
	"resource temporarily unavailable", "failed to create new OS thread", "newosproc",
	"disk quota", "thread exhaustion", "bind: address already in use",
}

func classifyDeath(werr error, tb *tailBuf) Result {
	tb.mu.Lock()
	defer tb.mu.Unlock()
	all := string(tb.crash) + "\n" + string(tb.b)
	for _, m := range resourceTrouble {
		if strings.Contains(all, m) {
			return Result{Inconclusive: "worker died, resources: " + m}
		}
	}
	var ee *exec.ExitError
	if errors.As(werr, &ee) {
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			if ws.Signal() == syscall.SIGSEGV || ws.Signal() == syscall.SIGBUS || ws.Signal() == syscall.SIGABRT {
				return Result{Err: "process crashed: signal " + ws.Signal().String() + "\n" + clip(string(tb.crash), 2500)}
			}
			return Result{Inconclusive: "worker killed by signal " + ws.Signal().String()}
		}
	}
	if tb.crash != nil {
		return Result{Err: "process crashed: " + clip(string(tb.crash), 2500)}
	}
	if werr != nil {
		ls := strings.Split(strings.TrimRight(string(tb.b), "\n"), "\n")
		return Result{Err: fmt.Sprintf("process terminated (%v); last output: %s", werr, clip(ls[len(ls)-1], 600))}
	}
	return Result{Inconclusive: "worker ended without an answer"}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + " ..."
	}
	return s
}

// --- one rapid search (shard) ---------------------------------------------------

type shardOut struct {
	Evals        int               `json:"evals"`
	Hashes       []string          `json:"hashes"` // distinct non-trivial cases
	Labels       map[string]int    `json:"labels"`
	Samples      []json.RawMessage `json:"samples"`
	Fail         *Replay           `json:"fail,omitempty"`
	Inconclusive string            `json:"inconclusive,omitempty"`
	Unjudged     int               `json:"unjudged"`
	Skipped      int               `json:"skipped"` // not generated: out of time
	LastUnjudged string            `json:"last_unjudged,omitempty"`
	Rapid        string            `json:"rapid"`
}

// A shard generates no further cases once this has passed: checks have 900 s.
const (
	quickLimit    = 240 * time.Second
	thoroughLimit = 700 * time.Second
)

type tbStop struct{}

// tbLog is the rapid.TB of a run outside "go test".
type tbLog struct {
	failed bool
	msg    strings.Builder
}

func (t *tbLog) Helper()                   {}
func (t *tbLog) Name() string              { return "vp" }
func (t *tbLog) Logf(f string, a ...any)   { fmt.Fprintf(&t.msg, f+"\n", a...) }
func (t *tbLog) Log(a ...any)              { fmt.Fprintln(&t.msg, a...) }
func (t *tbLog) Skipf(f string, a ...any)  {}
func (t *tbLog) Skip(a ...any)             {}
func (t *tbLog) SkipNow()                  {}
func (t *tbLog) Errorf(f string, a ...any) { t.failed = true; t.Logf(f, a...) }
func (t *tbLog) Error(a ...any)            { t.failed = true; t.Log(a...) }
func (t *tbLog) Fatalf(f string, a ...any) { t.Errorf(f, a...); panic(tbStop{}) }
func (t *tbLog) Fatal(a ...any)            { t.Error(a...); panic(tbStop{}) }
func (t *tbLog) FailNow()                  { t.failed = true; panic(tbStop{}) }
func (t *tbLog) Fail()                     { t.failed = true }
func (t *tbLog) Failed() bool              { return t.failed }

func splitmix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func shardMain(p *Prop, tier string, seed int64, shard, checks int, scratch string) shardOut {
	out := shardOut{Labels: map[string]int{}}
	s := splitmix(uint64(seed)*1000003 + uint64(shard)*7919 + 17)
	if s == 0 {
		s = 1
	}
	set := func(k, v string) {
		if err := flag.Set(k, v); err != nil {
			panic(err)
		}
	}
	set("rapid.seed", strconv.FormatUint(s, 10))
	set("rapid.checks", strconv.Itoa(checks))
	set("rapid.nofailfile", "true")
	set("rapid.shrinktime", "25s")

	begin, limit := time.Now(), quickLimit
	if tier == "thorough" {
		limit = thoroughLimit
	}
	run := &runner{p: p, scratch: scratch}
	defer func() { run.w.stop() }()
	seen := map[string]bool{}
	var best *Replay
	incon := ""
	prop := func(t *rapid.T) {
		if incon != "" {
			t.Skip()
		}
		if best == nil && time.Since(begin) > limit {
			out.Skipped++
			return
		}
		c := p.gen(t)
		raw, err := json.Marshal(c)
		if err != nil {
			incon = "case not serialisable: " + err.Error()
			t.Skip()
		}
		res := run.do(raw)
		if res.Inconclusive != "" && res.Err == "" {
			// one unjudged case says nothing; a shard full of them is no check
			out.Unjudged++
			out.LastUnjudged = res.Inconclusive
			if out.Unjudged > 8 {
				incon = res.Inconclusive
			}
			return
		}
		if best == nil {
			out.Evals++
			for k, v := range res.Labels {
				if v > 0 {
					out.Labels[k]++
				}
			}
			if res.NT {
				h := sha256.Sum256(raw)
				k := fmt.Sprintf("%x", h[:8])
				if !seen[k] {
					seen[k] = true
					out.Hashes = append(out.Hashes, k)
					if len(out.Samples) < 2 && len(raw) < 6000 {
						out.Samples = append(out.Samples, raw)
					}
				}
			}
		}
		if res.Err != "" {
			if best == nil || len(raw) <= len(best.Case) {
				best = &Replay{Property: p.ID, Error: res.Err, Seed: seed, Case: raw}
			}
			t.Fatalf("violation")
		}
	}
	tb := &tbLog{}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(tbStop); !ok {
					panic(r)
				}
			}
		}()
		rapid.Check(tb, prop)
	}()
	out.Rapid = clip(tb.msg.String(), 600)
	if best != nil {
		out.Fail = best
	} else if incon != "" {
		out.Inconclusive = incon
	} else if tb.failed {
		out.Inconclusive = "rapid: " + clip(tb.msg.String(), 600)
	}
	return out
}

// --- the check of one property -----------------------------------------------

// Main is the entry point of every check binary.
func Main() {
	var (
		isWorker = flag.Bool("worker", false, "run as worker")
		propID   = flag.String("prop", "", "property id")
		tier     = flag.String("tier", "quick", "quick or thorough")
		seed     = flag.Int64("seed", 1, "seed")
		shard    = flag.Int("shard", -1, "run one shard")
		checks   = flag.Int("checks", 0, "override checks per shard")
		replay   = flag.String("replay", "", "replay file")
		outFile  = flag.String("out", "", "shard result file")
		gen      = flag.Int("gen", 0, "print this many generated cases")
	)
	testing.Init() // rapid asks for testing.Short
	flag.Parse()
	p := registry[*propID]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *propID)
		os.Exit(3)
	}
	if *isWorker {
		workerMain(p)
		return
	}
	if *gen > 0 {
		g := rapid.Custom(func(t *rapid.T) any { return p.gen(t) })
		for i := 0; i < *gen; i++ {
			fmt.Println(JSON(g.Example(int(*seed)*1000 + i)))
		}
		return
	}
	scratch, err := os.MkdirTemp("", "vp-"+p.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	code := 3
	defer func() {
		os.RemoveAll(scratch)
		if r := recover(); r != nil {
			fmt.Fprintf(os.Stderr, "harness panic: %v\n%s\n", r, debug.Stack())
			code = 3
		}
		os.Exit(code)
	}()

	if *shard >= 0 {
		o := shardMain(p, *tier, *seed, *shard, *checks, scratch)
		b, _ := json.Marshal(o)
		if err := os.WriteFile(*outFile, b, 0o644); err == nil {
			code = 0
		}
		return
	}
	if *replay != "" {
		code = replayMain(p, *replay, scratch)
		return
	}
	code = checkMain(p, *tier, *seed, *checks, scratch)
}

func replayMain(p *Prop, path, scratch string) int {
	rp, err := readReplay(path)
	if err != nil {
		fmt.Println(err)
		return 3
	}
	run := &runner{p: p, scratch: scratch}
	defer func() { run.w.stop() }()
	for i := 0; i < p.Repeats; i++ {
		res := run.do(compact(rp.Case))
		if res.Err != "" {
			fmt.Printf("run %d: %s\nVIOLATION property=%s replay=%s\n", i+1, res.Err, p.ID, path)
			return 1
		}
		if res.Inconclusive != "" {
			fmt.Println("inconclusive:", res.Inconclusive)
			return 3
		}
	}
	fmt.Printf("replay passed (%d runs)\n", p.Repeats)
	return 0
}

func compact(raw json.RawMessage) []byte {
	var b bytes.Buffer
	if err := json.Compact(&b, raw); err != nil {
		return raw
	}
	return b.Bytes()
}

func checkMain(p *Prop, tier string, seed int64, checks int, scratch string) int {
	start := time.Now()
	b := p.Quick
	if tier == "thorough" {
		b = p.Thorough
	}
	if checks > 0 {
		b.Checks = checks
	}
	evals, unjudged, skipped := 0, 0, 0
	labels := map[string]int{}
	var fail *Replay
	incon := ""
	hashes := map[string]bool{}
	var samples []json.RawMessage

	// 1. listed findings: reported, never counted as violations
	run := &runner{p: p, scratch: filepath.Join(scratch, "main")}
	_ = os.MkdirAll(run.scratch, 0o755)
	nKnown := 0
	for _, k := range knownFindings(p.ID) {
		rp, err := readReplay(k.file)
		if err != nil {
			incon = err.Error()
			continue
		}
		res := run.do(compact(rp.Case))
		if res.Err != "" {
			nKnown++
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k.what)
		}
	}
	// 2. regression corpus: shrunk cases of defects found before
	nCorpus := 0
	for _, f := range corpus(p.ID) {
		rp, err := readReplay(f)
		if err != nil {
			incon = err.Error()
			continue
		}
		for i := 0; i < p.Repeats && fail == nil; i++ {
			res := run.do(compact(rp.Case))
			evals++
			nCorpus++
			if res.Err != "" {
				fail = &Replay{Property: p.ID, Error: res.Err, Seed: seed, Case: rp.Case, Note: "regression case " + f}
			} else if res.Inconclusive != "" {
				incon = res.Inconclusive
			}
		}
	}
	run.w.stop()

	// 3. generated search
	if fail == nil {
		outs := runShards(p, tier, seed, b, scratch)
		for _, o := range outs {
			if o == nil {
				continue
			}
			evals += o.Evals
			unjudged += o.Unjudged
			skipped += o.Skipped
			if o.LastUnjudged != "" {
				fmt.Println("unjudged case:", o.LastUnjudged)
			}
			for k, v := range o.Labels {
				labels[k] += v
			}
			for _, h := range o.Hashes {
				hashes[h] = true
			}
			if len(samples) < 3 && len(o.Samples) > 0 {
				samples = append(samples, o.Samples[0])
			}
			if o.Fail != nil && (fail == nil || len(o.Fail.Case) < len(fail.Case)) {
				fail = o.Fail
			}
			if o.Inconclusive != "" && incon == "" {
				incon = o.Inconclusive
			}
		}
		if fail == nil && incon == "" {
			for _, o := range outs {
				if o == nil {
					incon = "a shard did not finish"
				}
			}
		}
	}

	viol := 0
	replayPath := ""
	if fail != nil {
		viol = 1
		dir := filepath.Join(verifDir(), "replays")
		_ = os.MkdirAll(dir, 0o755)
		replayPath = filepath.Join(dir, fmt.Sprintf("%s-%d.json", p.ID, seed))
		rb, _ := json.MarshalIndent(fail, "", " ")
		if err := os.WriteFile(replayPath, rb, 0o644); err != nil {
			replayPath = filepath.Join(os.TempDir(), fmt.Sprintf("%s-%d.json", p.ID, seed))
			_ = os.WriteFile(replayPath, rb, 0o644)
		}
	}
	ev := map[string]any{
		"property": p.ID, "tier": tier, "seed": seed, "level": p.Level,
		"coverage": map[string]any{
			"evaluations":         evals,
			"distinct_nontrivial": len(hashes),
			"rule":                p.Rule,
			"samples":             samplesOrNone(samples),
			"classes":             labels,
			"regression_cases":    nCorpus,
			"unjudged":            unjudged,
			"out_of_time":         skipped,
			"known_findings":      nKnown,
			"shards":              b.Shards,
			"checks_per_shard":    b.Checks,
		},
		"assumptions": append([]string{}, p.Assumptions...),
		"wall_s":      time.Since(start).Seconds(),
		"violations":  viol,
	}
	eb, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verifDir(), "evidence", p.ID+".json"), eb, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		if fail == nil {
			return 3
		}
	}
	ks := make([]string, 0, len(labels))
	for k := range labels {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	fmt.Printf("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1fs\n", p.ID, tier, seed, evals, len(hashes), time.Since(start).Seconds())
	for _, k := range ks {
		fmt.Printf("  %-40s %d\n", k, labels[k])
	}
	if fail != nil {
		fmt.Printf("%s\ncase: %s\n", fail.Error, clip(string(fail.Case), 4000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, replayPath)
		return 1
	}
	if incon != "" {
		fmt.Println("INCONCLUSIVE:", incon)
		return 3
	}
	if len(hashes) < 2 {
		fmt.Println("INCONCLUSIVE: vacuous run")
		return 3
	}
	return 0
}

func samplesOrNone(s []json.RawMessage) any {
	if len(s) == 0 {
		return []string{}
	}
	return s
}

func runShards(p *Prop, tier string, seed int64, b Budget, scratch string) []*shardOut {
	exe, err := os.Executable()
	if err != nil {
		return []*shardOut{nil}
	}
	outs := make([]*shardOut, b.Shards)
	cmds := make([]*exec.Cmd, b.Shards)
	var wg sync.WaitGroup
	var mu sync.Mutex
	failed := false
	mu.Lock()
	for i := 0; i < b.Shards; i++ {
		dir := filepath.Join(scratch, fmt.Sprintf("s%d", i))
		_ = os.MkdirAll(dir, 0o755)
		of := filepath.Join(scratch, fmt.Sprintf("out%d.json", i))
		c := exec.Command(exe, "-prop", p.ID, "-tier", tier, "-seed", strconv.FormatInt(seed, 10),
			"-shard", strconv.Itoa(i), "-checks", strconv.Itoa(b.Checks), "-out", of)
		c.Env = append(os.Environ(), "TMPDIR="+dir)
		c.Stdout, c.Stderr = io.Discard, os.Stderr
		c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		cmds[i] = c
		if err := c.Start(); err != nil {
			continue
		}
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			_ = cmds[i].Wait()
			bts, err := os.ReadFile(of)
			if err != nil {
				return
			}
			var o shardOut
			if json.Unmarshal(bts, &o) != nil {
				return
			}
			mu.Lock()
			outs[i] = &o
			if o.Fail != nil && !failed {
				failed = true
				for j, c := range cmds {
					if j != i && c != nil && c.Process != nil {
						_ = c.Process.Kill()
					}
				}
			}
			mu.Unlock()
		}(i)
	}
	mu.Unlock()
	wg.Wait()
	return outs
}
