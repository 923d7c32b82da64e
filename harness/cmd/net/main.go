// Command net checks the HTTP and gRPC front ends (packages net/com, net/http,
// net/grpc and net/grpc/riot-pb) through their handlers, servers and clients.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/go-ego/riot/net/com"
	toml "github.com/go-vgo/gt/conf"
	"pgregory.net/rapid"
	"verif/harness/internal/vp"
)

func main() {
	if len(os.Args) == 3 && os.Args[1] == "serve" {
		serve(os.Args[2])
	}
	if len(os.Args) == 3 && os.Args[1] == "monitor" {
		monitor(os.Args[2])
	}
	vp.Main()
}

// words are whole dictionary words, separated by blanks in contents and
// queries, so that every segmentation mode agrees on them.
var words = []string{"hello", "world", "foo", "世界", "人口", "北京", "大学"}

var dictFile string

func dict() string {
	if dictFile == "" {
		dir := os.Getenv("VP_SCRATCH")
		if dir == "" {
			dir = os.TempDir()
		}
		var b strings.Builder
		for i, w := range words {
			fmt.Fprintf(&b, "%s %d n\n", w, 20+i)
		}
		dictFile = filepath.Join(dir, fmt.Sprintf("dict-%d.txt", os.Getpid()))
		if err := os.WriteFile(dictFile, []byte(b.String()), 0o644); err != nil {
			vp.Abort("%v", err)
		}
	}
	return dictFile
}

// Conf is a generated configuration of a front end.
type Conf struct {
	Using  int    `json:"using"`
	Stores int    `json:"stores"`
	Store  string `json:"store"`
	Shards int    `json:"shards"`
	Off    int    `json:"off"` // output offset and limit of searches that give no limit
	Max    int    `json:"max"`
	// File: the configuration is read from a TOML file, as the README's servers do
	File bool     `json:"file,omitempty"`
	Stop []string `json:"stop,omitempty"` // stop words
}

// live are the words that are no stop words.
func (c Conf) live(ws []string) (out []string) {
	for _, w := range ws {
		if !in(w, c.Stop) {
			out = append(out, w)
		}
	}
	return out
}

func genConf(t *rapid.T) Conf {
	c := Conf{
		Using:  rapid.SampledFrom([]int{0, 1, 3}).Draw(t, "using"),
		Stores: rapid.SampledFrom([]int{1, 1, 2, 2, 0}).Draw(t, "stores"),
		Store:  rapid.SampledFrom([]string{"ldb", "ldb", "bolt"}).Draw(t, "store"),
		Shards: rapid.SampledFrom([]int{1, 1, 2, 2, 3, 3, 0}).Draw(t, "shards"),
		Off:    rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "defOff"),
		Max:    rapid.SampledFrom([]int{100, 3, 1, 2}).Draw(t, "defMax"),
		File:   rapid.Bool().Draw(t, "file"),
	}
	if rapid.IntRange(0, 2).Draw(t, "stops") == 0 {
		c.Stop = genWords(t, "stop", 1, 2)
	}
	return c
}

// com is the configuration of a server that listens at the given places.
func (c Conf) com(dir, dict string, nodes, grpc, dist []string, etcd int) com.Config {
	stop := ""
	if len(c.Stop) > 0 {
		stop = filepath.Join(dir, "stop.txt")
		if err := os.WriteFile(stop, []byte(strings.Join(c.Stop, "\n")+"\n"), 0644); err != nil {
			panic(err)
		}
	}
	conf := com.Config{
		Engine: com.Engine{Mode: "test", Using: c.Using, StoreShards: c.Stores, StoreEngine: c.Store,
			StoreFolder: filepath.Join(dir, "index"), NumShards: c.Shards, GseDict: dict, StopTokenFile: stop,
			OutputOffset: c.Off, MaxOutputs: c.Max},
		Etcd: com.Etcd{Addr: "http://127.0.0.1:1", SverName: "riot_service", Port: []int{etcd}},
		Rpc:  com.Rpc{GrpcPort: grpc, DistPort: dist},
		Url:  nodes,
	}
	if !c.File {
		return conf
	}
	var b strings.Builder
	list := func(k string, l []string) {
		if len(l) > 0 {
			j, _ := json.Marshal(l)
			fmt.Fprintf(&b, "%s = %s\n", k, j)
		}
	}
	list("url", nodes)
	e := conf.Engine
	fmt.Fprintf(&b, "[engine]\nmode = %q\nusing = %d\n", e.Mode, e.Using)
	if c.Stores > 0 {
		fmt.Fprintf(&b, "store_shards = %d\n", c.Stores)
	}
	if c.Shards > 0 {
		fmt.Fprintf(&b, "num_shards = %d\n", c.Shards)
	}
	fmt.Fprintf(&b, "store_engine = %q\nstore_folder = %q\ngse_dict = %q\n", e.StoreEngine, e.StoreFolder, e.GseDict)
	if stop != "" {
		fmt.Fprintf(&b, "stop_token_file = %q\n", stop)
	}
	fmt.Fprintf(&b, "output_offset = %d\nmax_outputs = %d\n[rpc]\n", c.Off, c.Max)
	list("grpc_port", grpc)
	list("dist_port", dist)
	fmt.Fprintf(&b, "[etcd]\naddr = %q\nsver_name = %q\nport = [%d]\n", conf.Etcd.Addr, conf.Etcd.SverName, etcd)
	file := filepath.Join(dir, "riot.toml")
	if err := os.WriteFile(file, []byte(b.String()), 0644); err != nil {
		panic(err)
	}
	var read com.Config
	toml.Init(file, &read)
	return read
}

func genWords(t *rapid.T, label string, min, max int) []string {
	return rapid.SliceOfNDistinct(rapid.SampledFrom(words), min, max, rapid.ID[string]).Draw(t, label)
}

func in(s string, l []string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// window is what a search for n matching documents returns.
func window(n, off, max int) int {
	if off < 0 {
		off = 0
	}
	if off > n {
		off = n
	}
	n -= off
	if max > 0 && max < n {
		n = max
	}
	return n
}

// patience is the time a request to a server in this process may take.
const patience = 20 * time.Second
