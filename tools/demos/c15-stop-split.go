package main

import (
	"github.com/go-ego/riot/types"
	"io/ioutil"
)

func main() {
	check(ioutil.WriteFile("dict.txt", []byte("abc 10 n\n"), 0600))
	check(ioutil.WriteFile("stop.txt", []byte("b\n"), 0600))
	o := small(types.DocIdsIndex)
	o.NotUseGse, o.Using, o.GseDict, o.StopTokenFile = false, 5, "dict.txt", "stop.txt"
	e := open(o)
	e.Index("1", types.DocData{Content: "abc"})
	e.Flush()
	for k, want := range map[string]string{"a": "1", "c": "1", "ab": "1", "abc": "1", "b": ""} {
		if r := e.Search(types.SearchReq{Tokens: []string{k}}); found(r) != want {
			fail("%q finds %q", k, found(r))
		}
	}
}
