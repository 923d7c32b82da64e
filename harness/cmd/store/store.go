package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"log"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"github.com/go-ego/riot/store"
	"pgregory.net/rapid"
	"verif/harness/internal/vp"
)

// Val is a generated value: Len bytes derived from Tag.
type Val struct {
	Tag int `json:"t"`
	Len int `json:"n"`
}

func (v Val) bytes() []byte {
	out := make([]byte, v.Len)
	x := uint32(v.Tag)*2654435761 + 12345
	for i := range out {
		x = x*1664525 + 1013904223
		out[i] = byte(x >> 24)
	}
	if v.Len > 0 {
		out[0] = byte(v.Tag)
	}
	return out
}

// SOp is one call on a store.
type SOp struct {
	K    string `json:"k"` // set, get, del, has, each, eachstop, reopen, fill, thin, conc
	Key  string `json:"key,omitempty"`
	Val  Val    `json:"val"`
	Stop int    `json:"stop,omitempty"`

	How string  `json:"how,omitempty"` // of reopen: how the engine is named, see openAs
	Gs  [][]SOp `json:"gs,omitempty"`  // of conc: what each goroutine does with keys of its own
}

// StoreCase is a history of calls on one store.
type StoreCase struct {
	Engine string `json:"engine"`
	How    string `json:"how,omitempty"`
	Ops    []SOp  `json:"ops"`
}

// opened counts the calls of the opening function of the registered engines.
var opened = map[string]int{}

const registered = "verif-"

func registerStores() {
	for name, open := range map[string]func(string) (store.Store, error){"ldb": store.OpenLeveldb, "bg": store.OpenBadger, "bolt": store.OpenBolt} {
		name, open := name, open
		store.RegisterStore(registered+name, func(path string) (store.Store, error) {
			opened[name]++
			return open(path)
		})
	}
}

// openAs opens a store whose engine is named by an argument, by the environment
// ("env"), by an argument although the environment names another one ("both"),
// by an empty argument and the environment ("empty") or by the name under which
// the same engine was registered ("registered").
func openAs(path, engine, how string) (store.Store, error) {
	const env = "Riot_Store_Engine"
	os.Unsetenv(env)
	defer os.Unsetenv(env)
	explicit := engine
	if explicit == "" {
		explicit = store.DefaultStore
	}
	switch how {
	case "env":
		os.Setenv(env, explicit)
		return store.OpenStore(path)
	case "empty":
		os.Setenv(env, explicit)
		return store.OpenStore(path, "")
	case "both":
		os.Setenv(env, map[string]string{"ldb": "bolt", "bolt": "bg", "bg": "ldb"}[explicit])
		return store.OpenStore(path, explicit)
	case "registered":
		was := opened[explicit]
		s, err := store.OpenStore(path, registered+explicit)
		if err == nil && opened[explicit] != was+1 {
			return nil, fmt.Errorf("the function registered for %q was called %d times", registered+explicit, opened[explicit]-was)
		}
		return s, err
	}
	if engine == "" {
		return store.OpenStore(path)
	}
	return store.OpenStore(path, engine)
}

func genHow(t *rapid.T) string {
	return rapid.SampledFrom([]string{"", "", "", "env", "empty", "both", "registered"}).Draw(t, "how")
}

var keyPool = func() []string {
	ks := []string{"1", "2", "10", "a", "ab", "b", "\x00", "\xff\xff", "文档", "a\x00b", "A", "key1"}
	ks = append(ks, strings.Repeat("k", 300), strings.Repeat("k", 301), strings.Repeat("k", 20000))
	for i := 0; i < 60; i++ {
		ks = append(ks, fmt.Sprintf("d%d", i*31%60))
	}
	return ks
}()

// fillKey is the i-th key of a fill.
func fillKey(i int) string { return fmt.Sprintf("f%04d", i*37%1000) }

func keyGen(n int) *rapid.Generator[string] { return rapid.SampledFrom(keyPool[:n]) }

func valGen(t *rapid.T) Val {
	v := Val{Tag: rapid.IntRange(0, 250).Draw(t, "tag")}
	switch rapid.IntRange(0, 9).Draw(t, "size") {
	case 0:
		v.Len = 0
	case 1, 2:
		v.Len = rapid.IntRange(30, 35).Draw(t, "len") // badger's value threshold
	case 3:
		v.Len = rapid.IntRange(1000, 9000).Draw(t, "len")
	case 4:
		if n := rapid.IntRange(0, 63).Draw(t, "big"); n == 37 {
			v.Len = rapid.IntRange(1<<20-50, 1<<20+100).Draw(t, "len")
		} else if n < 10 {
			v.Len = rapid.IntRange(60000, 200000).Draw(t, "len")
		} else {
			v.Len = 4096
		}
	default:
		v.Len = rapid.IntRange(1, 20).Draw(t, "len")
	}
	return v
}

func genStoreCase(t *rapid.T) StoreCase {
	c := StoreCase{Engine: rapid.SampledFrom([]string{"ldb", "bolt", "bg", "ldb", "bolt", ""}).Draw(t, "engine")}
	c.How = genHow(t)
	nKey := rapid.SampledFrom([]int{2, 4, 8, 14, len(keyPool)}).Draw(t, "nKey")
	n := rapid.IntRange(1, rapid.SampledFrom([]int{8, 30, 80}).Draw(t, "max")).Draw(t, "n")
	reopens := 0
	for i := 0; i < n; i++ {
		o := SOp{}
		switch rapid.IntRange(0, 15).Draw(t, "kind") {
		case 0, 1, 2, 3, 4, 5:
			o.K, o.Key = "set", keyGen(nKey).Draw(t, "key")
			o.Val = valGen(t)
		case 6, 7:
			o.K, o.Key = "get", keyGen(nKey).Draw(t, "key")
		case 8, 9, 10:
			o.K, o.Key = "del", keyGen(nKey).Draw(t, "key")
		case 11:
			o.K, o.Key = "has", keyGen(nKey).Draw(t, "key")
		case 12:
			o.K = "each"
		case 13:
			o.K, o.Stop = "eachstop", rapid.IntRange(1, 3).Draw(t, "stop")
		default:
			o.K, o.How = "reopen", genHow(t)
			limit := 3
			if c.Engine == "bg" {
				limit = 2
			}
			if reopens++; reopens > limit {
				o = SOp{K: "each"}
			}
		}
		c.Ops = append(c.Ops, o)
	}
	if rapid.IntRange(0, 15).Draw(t, "conc") == 9 {
		o := SOp{K: "conc"}
		for g := rapid.IntRange(2, 4).Draw(t, "goroutines"); g > 0; g-- {
			var ops []SOp
			for n := rapid.IntRange(1, 30).Draw(t, "gOps"); n > 0; n-- {
				x := SOp{K: rapid.SampledFrom([]string{"set", "set", "set", "get", "del", "has", "each"}).Draw(t, "gKind")}
				x.Key = rapid.SampledFrom(keyPool[:6]).Draw(t, "gKey")
				if x.K == "set" {
					x.Val = Val{Tag: rapid.IntRange(0, 250).Draw(t, "gTag"), Len: rapid.SampledFrom([]int{0, 1, 5, 33, 3000}).Draw(t, "gLen")}
				}
				ops = append(ops, x)
			}
			o.Gs = append(o.Gs, ops)
		}
		at := rapid.IntRange(0, len(c.Ops)).Draw(t, "concAt")
		c.Ops = append(c.Ops[:at], append([]SOp{o}, c.Ops[at:]...)...)
	}
	if rapid.IntRange(0, 63).Draw(t, "many") == 29 {
		// many keys, of which some go
		fill := SOp{K: "fill", Stop: rapid.IntRange(60, 600).Draw(t, "fill"), Val: Val{Tag: 7, Len: rapid.SampledFrom([]int{3, 30, 300, 3000}).Draw(t, "fillLen")}}
		thin := SOp{K: "thin", Stop: rapid.IntRange(2, 9).Draw(t, "thin")}
		at := rapid.IntRange(0, len(c.Ops)).Draw(t, "fillAt")
		c.Ops = append(c.Ops[:at], append([]SOp{fill}, c.Ops[at:]...)...)
		at = rapid.IntRange(at+1, len(c.Ops)).Draw(t, "thinAt")
		c.Ops = append(c.Ops[:at], append([]SOp{thin}, c.Ops[at:]...)...)
	}
	return c
}

var errStop = errors.New("stop here")

type held struct {
	step      string
	got, want []byte
}

// runOwn runs the program of a goroutine on keys with a prefix, which no other
// goroutine uses, and keeps m up to date.
func runOwn(s store.Store, prefix string, ops []SOp, m map[string][]byte) error {
	for i, o := range ops {
		k := prefix + o.Key
		step := fmt.Sprintf("its op %d (%s %q)", i, o.K, short(k))
		switch o.K {
		case "set":
			if err := s.Set([]byte(k), o.Val.bytes()); err != nil {
				return fmt.Errorf("%s: %v", step, err)
			}
			m[k] = o.Val.bytes()
		case "del":
			if err := s.Delete([]byte(k)); err != nil {
				return fmt.Errorf("%s: %v", step, err)
			}
			delete(m, k)
		case "each":
			n := 0
			err := s.ForEach(func(kb, v []byte) error {
				if ks := string(kb); strings.HasPrefix(ks, prefix) {
					n++
					if want, ok := m[ks]; !ok || !bytes.Equal(v, want) {
						return fmt.Errorf("ForEach visits %q with %s, want %v %s", short(ks), brief(v), ok, brief(want))
					}
				}
				return nil
			})
			if err != nil || n != len(m) {
				return fmt.Errorf("%s: ForEach visits %d of %d keys: %v", step, n, len(m), err)
			}
		}
		want, ok := m[k]
		got, err := s.Get([]byte(k))
		if ok && (err != nil || !bytes.Equal(got, want)) || !ok && len(got) > 0 {
			return fmt.Errorf("%s: Get gives %s, %v, want %v %s", step, brief(got), err, ok, brief(want))
		}
		if has, _ := s.Has([]byte(k)); has != ok {
			return fmt.Errorf("%s: Has gives %v, want %v", step, has, ok)
		}
	}
	return nil
}

func runStoreCase(ctx *vp.Ctx, c StoreCase) error {
	log.SetOutput(io.Discard)
	path := filepath.Join(ctx.Dir(), "db")
	if s, err := store.OpenStore(path+"x", "no-such-engine"); err == nil || s != nil {
		return fmt.Errorf("OpenStore of an unknown engine gave %v, %v", s, err)
	}
	s, err := openAs(path, c.Engine, c.How)
	if err != nil {
		return fmt.Errorf("open: %v", err)
	}
	isOpen := true
	defer func() {
		if isOpen {
			_ = s.Close()
		}
	}()
	m := map[string][]byte{}
	var helds []held
	overwrites, deletes, reopened := 0, 0, 0

	check := func(step, k string) error {
		got, err := s.Get([]byte(k))
		want, ok := m[k]
		if ok {
			if err != nil {
				return fmt.Errorf("%s: Get(%q): %v, want %d bytes", step, short(k), err, len(want))
			}
			if !bytes.Equal(got, want) {
				return fmt.Errorf("%s: Get(%q) gives %s, want %s", step, short(k), brief(got), brief(want))
			}
			helds = append(helds, held{step: step, got: got, want: want})
		} else if len(got) != 0 {
			return fmt.Errorf("%s: Get(%q) of an absent key gives %s", step, short(k), brief(got))
		}
		has, herr := s.Has([]byte(k))
		if has != ok || (ok && herr != nil) {
			return fmt.Errorf("%s: Has(%q) = %v, %v, want %v", step, short(k), has, herr, ok)
		}
		return nil
	}
	each := func(step string) error {
		seen := map[string]bool{}
		err := s.ForEach(func(k, v []byte) error {
			ks := string(k)
			want, ok := m[ks]
			if !ok {
				return fmt.Errorf("ForEach visits %q, which is not in the store", short(ks))
			}
			if seen[ks] {
				return fmt.Errorf("ForEach visits %q twice", short(ks))
			}
			if !bytes.Equal(v, want) {
				return fmt.Errorf("ForEach gives %q the value %s, want %s", short(ks), brief(v), brief(want))
			}
			seen[ks] = true
			if len(seen) <= 3 {
				// reading while visiting
				if got, err := s.Get(k); err != nil || !bytes.Equal(got, want) {
					return fmt.Errorf("Get(%q) within ForEach gives %s, %v, want %s", short(ks), brief(got), err, brief(want))
				}
			}
			return nil
		})
		if err != nil {
			return fmt.Errorf("%s: %v", step, err)
		}
		if len(seen) != len(m) {
			for k := range m {
				if !seen[k] {
					return fmt.Errorf("%s: ForEach misses %q", step, short(k))
				}
			}
		}
		return nil
	}
	full := func(step string) error {
		for _, k := range keyPool {
			if err := check(step, k); err != nil {
				return err
			}
		}
		return each(step)
	}
	for i, o := range c.Ops {
		step := fmt.Sprintf("op %d (%s %q)", i, o.K, short(o.Key))
		switch o.K {
		case "set":
			if _, ok := m[o.Key]; ok {
				overwrites++
			}
			k, v := []byte(o.Key), o.Val.bytes()
			if err := s.Set(k, v); err != nil {
				return fmt.Errorf("%s: %v", step, err)
			}
			m[o.Key] = o.Val.bytes()
			// the caller may reuse its buffers
			for j := range k {
				k[j] = 'Q'
			}
			for j := range v {
				v[j] = 0x5a
			}
			if err := check(step, o.Key); err != nil {
				return err
			}
		case "fill":
			for j := 0; j < o.Stop; j++ {
				v := Val{Tag: o.Val.Tag + j%200, Len: o.Val.Len + j%5}.bytes()
				if err := s.Set([]byte(fillKey(j)), v); err != nil {
					return fmt.Errorf("%s: %q: %v", step, fillKey(j), err)
				}
				m[fillKey(j)] = v
			}
			if err := each(step); err != nil {
				return err
			}
		case "thin":
			for j := 0; j < 600; j += o.Stop {
				if _, ok := m[fillKey(j)]; ok {
					deletes++
				}
				if err := s.Delete([]byte(fillKey(j))); err != nil {
					return fmt.Errorf("%s: %q: %v", step, fillKey(j), err)
				}
				delete(m, fillKey(j))
			}
			for j := 0; j < 600; j++ {
				if err := check(step, fillKey(j)); err != nil {
					return err
				}
			}
		case "conc":
			errs := make([]error, len(o.Gs))
			own := make([]map[string][]byte, len(o.Gs))
			var wg sync.WaitGroup
			for g := range o.Gs {
				prefix := fmt.Sprintf("g%d/", g)
				own[g] = map[string][]byte{}
				for k, v := range m {
					if strings.HasPrefix(k, prefix) {
						own[g][k] = v
					}
				}
				wg.Add(1)
				go func(g int) {
					defer wg.Done()
					errs[g] = runOwn(s, prefix, o.Gs[g], own[g])
				}(g)
			}
			wg.Wait()
			for g := range o.Gs {
				if errs[g] != nil {
					return fmt.Errorf("%s: goroutine %d: %v", step, g, errs[g])
				}
				for k := range m {
					if strings.HasPrefix(k, fmt.Sprintf("g%d/", g)) {
						delete(m, k)
					}
				}
				for k, v := range own[g] {
					m[k] = v
				}
			}
			ctx.Label("goroutines on one store")
			if err := each(step); err != nil {
				return err
			}
		case "get", "has":
			if err := check(step, o.Key); err != nil {
				return err
			}
		case "del":
			if _, ok := m[o.Key]; ok {
				deletes++
			}
			if err := s.Delete([]byte(o.Key)); err != nil {
				return fmt.Errorf("%s: %v", step, err)
			}
			delete(m, o.Key)
			if err := check(step, o.Key); err != nil {
				return err
			}
		case "each":
			if err := each(step); err != nil {
				return err
			}
		case "eachstop":
			n := 0
			err := s.ForEach(func(k, v []byte) error {
				if n++; n == o.Stop {
					return errStop
				}
				return nil
			})
			wantN, wantErr := len(m), error(nil)
			if len(m) >= o.Stop {
				wantN, wantErr = o.Stop, errStop
			}
			if n != wantN || !errors.Is(err, wantErr) {
				return fmt.Errorf("%s: callback failing at call %d of %d keys: %d calls, error %v", step, o.Stop, len(m), n, err)
			}
		case "reopen":
			isOpen = false
			if err := s.Close(); err != nil {
				return fmt.Errorf("%s: close: %v", step, err)
			}
			if s, err = openAs(path, c.Engine, o.How); err != nil {
				return fmt.Errorf("%s: %v", step, err)
			}
			isOpen = true
			reopened++
			if err := full(step); err != nil {
				return err
			}
		}
	}
	if err := full("at the end"); err != nil {
		return err
	}
	isOpen = false
	if err := s.Close(); err != nil {
		return fmt.Errorf("final close: %v", err)
	}
	// values handed out belong to the caller, whatever happened since
	for _, h := range helds {
		if !bytes.Equal(h.got, h.want) {
			return fmt.Errorf("the value returned at %s changed later: %s, was %s", h.step, brief(h.got), brief(h.want))
		}
	}
	if s, err = openAs(path, c.Engine, ""); err != nil {
		return fmt.Errorf("last reopen: %v", err)
	}
	isOpen = true
	if err := full("after the last reopen"); err != nil {
		return err
	}
	ctx.NonTrivial(overwrites > 0 || deletes > 0)
	ctx.Label("engine %s", map[bool]string{true: "default", false: c.Engine}[c.Engine == ""])
	ctx.LabelIf(overwrites > 0, "overwrites")
	ctx.LabelIf(deletes > 0, "deletes an existing key")
	ctx.LabelIf(reopened > 0, "reopens midway")
	ctx.LabelIf(len(m) > 10, "more than 10 keys at the end")
	ctx.LabelIf(len(m) > 100, "more than 100 keys at the end")
	return nil
}

func short(s string) string {
	if len(s) > 12 {
		return s[:12] + "..."
	}
	return s
}

func brief(b []byte) string {
	if len(b) > 8 {
		return fmt.Sprintf("%d bytes %x...", len(b), b[:8])
	}
	return fmt.Sprintf("%d bytes %x", len(b), b)
}

func init() {
	vp.Register(vp.Prop{
		ID:          "C07",
		Rule:        "A case is a history of up to 80 Set/Get/Delete/Has/ForEach/close-reopen calls on one store engine; non-trivial if it overwrites or deletes an existing key.",
		Assumptions: []string{"keys are non-empty and at most 20000 bytes; the callback of ForEach does not write to the store"},
		Quick:       vp.Budget{Shards: 8, Checks: 300}, Thorough: vp.Budget{Shards: 8, Checks: 12000},
		Restart: 300,
	}, genStoreCase, runStoreCase)
}
