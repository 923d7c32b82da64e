package main

import (
	"encoding/json"
	"fmt"
	"github.com/go-ego/riot/net/com"
	rpc "github.com/go-ego/riot/net/grpc"
	rhttp "github.com/go-ego/riot/net/http"
	"github.com/go-ego/riot/types"
	"io/ioutil"
	"net/http/httptest"
)

func serve(o func(*com.Config)) {
	check(ioutil.WriteFile("dict.txt", []byte("hello 10 n\nworld 10 n\n"), 0600))
	var c com.Config
	c.Engine = com.Engine{StoreShards: 1, StoreEngine: "ldb", StoreFolder: "db", NumShards: 1, GseDict: "dict.txt", MaxOutputs: 3}
	if o != nil {
		o(&c)
	}
	rpc.InitEngine(c)
}

func add(id string, ts int64) {
	com.AddDocInx(id, types.DocData{Content: "hello", Attri: types.Attri{Title: "title " + id, Ts: ts}}, false)
}

func main() {
	serve(nil)
	for i := 0; i < 9; i++ {
		add(fmt.Sprint("d", i), int64(i))
	}
	com.Flush()
	for _, off := range []int{0, 1, 4} {
		w := httptest.NewRecorder()
		rhttp.Search(w, httptest.NewRequest("GET", fmt.Sprintf("/search?query=hello&outputOffset=%d", off), nil))
		var r struct {
			Len  int
			Docs []struct{ Id string }
		}
		check(json.Unmarshal(w.Body.Bytes(), &r))
		if len(r.Docs) != 3 {
			fail("offset %d without a limit: %d documents, the configured limit is 3", off, len(r.Docs))
		}
	}
}
