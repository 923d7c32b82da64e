package main

import (
	"encoding/json"
	"fmt"
	"github.com/go-ego/riot/net/com"
	rpc "github.com/go-ego/riot/net/grpc"
	rhttp "github.com/go-ego/riot/net/http"
	"github.com/go-ego/riot/types"
	toml "github.com/go-vgo/gt/conf"
	"io/ioutil"
	"net/http/httptest"
	"os"
)

func serve(o func(*com.Config)) {
	check(ioutil.WriteFile("dict.txt", []byte("hello 10 n\nworld 10 n\n"), 0600))
	var c com.Config
	c.Engine = com.Engine{StoreShards: 1, StoreEngine: "ldb", StoreFolder: "db", NumShards: 1, GseDict: "dict.txt", MaxOutputs: 3}
	if o != nil {
		o(&c)
	}
	rpc.InitEngine(c)
}

func add(id string, ts int64) {
	com.AddDocInx(id, types.DocData{Content: "hello", Attri: types.Attri{Title: "title " + id, Ts: ts}}, false)
}

func main() {
	check(os.WriteFile("riot.toml", []byte("[engine]\nusing = 3\noutput_offset = 2\nmax_outputs = 4\n"), 0644))
	var read com.Config
	toml.Init("riot.toml", &read)
	serve(func(c *com.Config) {
		c.Engine.OutputOffset, c.Engine.MaxOutputs = read.Engine.OutputOffset, read.Engine.MaxOutputs
	})
	for i := 0; i < 9; i++ {
		add(fmt.Sprint("d", i), int64(i))
	}
	com.Flush()
	w := httptest.NewRecorder()
	rhttp.Search(w, httptest.NewRequest("GET", "/search?query=hello", nil))
	var r struct{ Docs []struct{ Id string } }
	check(json.Unmarshal(w.Body.Bytes(), &r))
	if len(r.Docs) != 4 || r.Docs[0].Id != "d6" {
		fail("the configured window is 2, 4: %s", w.Body.Bytes())
	}
}
