package main

import (
	"encoding/json"
	"github.com/go-ego/riot/net/com"
	rpc "github.com/go-ego/riot/net/grpc"
	rhttp "github.com/go-ego/riot/net/http"
	"io/ioutil"
	"net/http/httptest"
)

func serve(o func(*com.Config)) {
	check(ioutil.WriteFile("dict.txt", []byte("hello 10 n\nworld 10 n\n"), 0600))
	var c com.Config
	c.Engine = com.Engine{StoreShards: 1, StoreEngine: "ldb", StoreFolder: "db", NumShards: 1, GseDict: "dict.txt", MaxOutputs: 3}
	if o != nil {
		o(&c)
	}
	rpc.InitEngine(c)
}

func main() {
	serve(nil)
	for _, id := range []string{"7", "007", "x1", "0x1"} {
		rhttp.AddIndex(httptest.NewRecorder(), httptest.NewRequest("GET", "/add?query=hello&docid="+id, nil))
		com.Flush()
		w := httptest.NewRecorder()
		rhttp.Search(w, httptest.NewRequest("GET", "/search?query=hello", nil))
		var r struct {
			Docs []struct{ Id string }
		}
		check(json.Unmarshal(w.Body.Bytes(), &r))
		if len(r.Docs) != 1 || r.Docs[0].Id != id {
			fail("document %q is found as %v", id, r.Docs)
		}
		rhttp.DelIndex(httptest.NewRecorder(), httptest.NewRequest("GET", "/delete?docid="+id, nil))
		com.Flush()
		if com.Searcher.HasDoc(id) {
			fail("document %q is still there", id)
		}
	}
}
