package main

import (
	"encoding/json"
	"fmt"
	"github.com/go-ego/riot/net/com"
	rhttp "github.com/go-ego/riot/net/http"
	"net/http"
	"net/http/httptest"
	"strings"
)

func main() {
	for _, s := range []float32{1, 2} {
		s := s
		n := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			fmt.Fprintf(w, `{"code":0,"len":1,"timestamp":1,"docs":[{"id":"n%v","score":[%v],"content":"","attri":{}}]}`, s, s)
		}))
		defer n.Close()
		com.Conf.Url = append(com.Conf.Url, n.URL)
	}
	w := httptest.NewRecorder()
	rhttp.WgDist(w, httptest.NewRequest("GET", "/dist?query=hello&maxOutputs=10", nil))
	var r struct {
		Docs []struct {
			Id    string
			Score []float32
		}
	}
	check(json.Unmarshal(w.Body.Bytes(), &r))
	if len(r.Docs) != 2 {
		fail("%s", w.Body.String())
	}
	for _, d := range r.Docs {
		if len(d.Score) != 1 || !strings.HasSuffix(d.Id, fmt.Sprint(d.Score[0])) {
			fail("document %q comes with the scores %v", d.Id, d.Score)
		}
	}
}
