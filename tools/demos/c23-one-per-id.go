package main

import (
	"encoding/json"
	"fmt"
	"github.com/go-ego/riot/net/com"
	rhttp "github.com/go-ego/riot/net/http"
	"net/http"
	"net/http/httptest"
)

func main() {
	for _, ts := range []int{1, 2, 3} {
		ts := ts
		n := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			fmt.Fprintf(w, `{"code":0,"len":2,"timestamp":1,"docs":[{"id":"n%d","attri":{"ts":1}},{"id":"same","attri":{"ts":%d}}]}`, ts, 10+ts)
		}))
		defer n.Close()
		com.Conf.Url = append(com.Conf.Url, n.URL)
	}
	w := httptest.NewRecorder()
	rhttp.WgDist(w, httptest.NewRequest("GET", "/dist?query=hello&maxOutputs=10", nil))
	var r struct {
		Docs []struct {
			Id    string
			Attri struct{ Ts int }
		}
	}
	check(json.Unmarshal(w.Body.Bytes(), &r))
	if len(r.Docs) != 6 || r.Docs[0].Attri.Ts != 13 {
		fail("%s", w.Body.String())
	}
}
