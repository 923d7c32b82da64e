// Package vp is the property-checking framework: a property is a rapid
// generator of JSON-serialisable cases plus an oracle that judges one case
// against the code under test. Cases are executed in a worker subprocess, so
// that a panic in one of the engine's own goroutines, a log.Fatal, a fatal
// runtime error or a deadlock is an observable outcome of the case and can be
// shrunk like any other failure.
package vp

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

// Budget is the amount of exploration of one tier.
type Budget struct {
	Shards int // driver processes, each with its own rapid seed
	Checks int // rapid checks per shard
}

// Prop is a registered property.
type Prop struct {
	ID          string
	Level       string
	Rule        string
	Assumptions []string
	Quick       Budget
	Thorough    Budget
	// Restart is the number of cases after which the worker is replaced.
	Restart int
	// Race: the worker was built with the race detector; its reports whose two
	// accesses are both in the code under test fail the case.
	Race bool
	// Repeats is how often a replayed case is run (concurrent cases).
	Repeats int

	gen    func(*rapid.T) any
	decode func([]byte) (any, error)
	run    func(*Ctx, any) error
}

var registry = map[string]*Prop{}

// Register adds a property with its case type.
func Register[C any](p Prop, gen func(*rapid.T) C, run func(*Ctx, C) error) {
	q := p
	q.gen = func(t *rapid.T) any { return gen(t) }
	q.decode = func(b []byte) (any, error) {
		var c C
		err := json.Unmarshal(b, &c)
		return c, err
	}
	q.run = func(ctx *Ctx, c any) error { return run(ctx, c.(C)) }
	if q.Level == "" {
		q.Level = "exploration"
	}
	if q.Restart == 0 {
		q.Restart = 400
	}
	if q.Repeats == 0 {
		q.Repeats = 1
	}
	registry[q.ID] = &q
}

// Ctx is given to the oracle of one case.
type Ctx struct {
	labels   map[string]int
	nt       bool
	dir      string
	incon    string
	cleanups []func()
}

// Label counts a class the case belongs to.
func (c *Ctx) Label(f string, a ...any) { c.labels[fmt.Sprintf(f, a...)]++ }

// LabelIf counts a class when cond holds.
func (c *Ctx) LabelIf(cond bool, l string) {
	if cond {
		c.labels[l]++
	}
}

// NonTrivial marks the case as non-trivial by the property's rule.
func (c *Ctx) NonTrivial(b bool) { c.nt = c.nt || b }

// Inconclusive says that the case could not be judged (resource trouble).
func (c *Ctx) Inconclusive(f string, a ...any) { c.incon = fmt.Sprintf(f, a...) }

// Dir is a scratch directory of this case, removed afterwards.
func (c *Ctx) Dir() string {
	if c.dir == "" {
		d, err := os.MkdirTemp(scratchRoot(), "case-")
		if err != nil {
			panic(inconclusive{err.Error()})
		}
		c.dir = d
	}
	return c.dir
}

// Cleanup registers a function run after the case.
func (c *Ctx) Cleanup(f func()) { c.cleanups = append(c.cleanups, f) }

type inconclusive struct{ msg string }

// Abort ends the case without a verdict.
func Abort(f string, a ...any) { panic(inconclusive{fmt.Sprintf(f, a...)}) }

// Scratch returns the worker's scratch directory.
func scratchRoot() string {
	if d := os.Getenv("VP_SCRATCH"); d != "" {
		return d
	}
	return os.TempDir()
}

// Result is the worker's verdict on one case.
type Result struct {
	Err          string         `json:"err,omitempty"`
	Inconclusive string         `json:"inconclusive,omitempty"`
	Labels       map[string]int `json:"labels,omitempty"`
	NT           bool           `json:"nt"`
	Fatal        bool           `json:"fatal,omitempty"` // the worker is no longer usable
}

// Replay is what a replay file holds.
type Replay struct {
	Property string          `json:"property"`
	Error    string          `json:"error"`
	Seed     int64           `json:"seed"`
	Note     string          `json:"note,omitempty"`
	Case     json.RawMessage `json:"case"`
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// corpus returns the regression cases of a property: /verif/corpus/<id>/*.json
func corpus(id string) []string {
	m, _ := filepath.Glob(filepath.Join(verifDir(), "corpus", id, "*.json"))
	sort.Strings(m)
	return m
}

func readReplay(path string) (Replay, error) {
	var r Replay
	b, err := os.ReadFile(path)
	if err != nil {
		return r, err
	}
	err = json.Unmarshal(b, &r)
	return r, err
}

type finding struct {
	file, what string
}

// knownFindings reads the lines "finding: property=<id> case=<file> <what>"
// of KNOWN_FINDINGS.txt. Nothing is ever added to that file at run time.
func knownFindings(id string) (out []finding) {
	b, err := os.ReadFile(filepath.Join(verifDir(), "KNOWN_FINDINGS.txt"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) < 4 || f[0] != "finding:" || f[1] != "property="+id {
			continue
		}
		out = append(out, finding{
			file: filepath.Join(verifDir(), strings.TrimPrefix(f[2], "case=")),
			what: strings.Join(f[3:], " "),
		})
	}
	return out
}

// JSON renders a case.
func JSON(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return err.Error()
	}
	return string(b)
}
