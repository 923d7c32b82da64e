package main

import (
	"github.com/go-ego/riot/types"
	"io/ioutil"
)

func main() {
	check(ioutil.WriteFile("dict.txt", []byte("世界 10 n\n"), 0600))
	check(ioutil.WriteFile("stop.txt", []byte("的\n"), 0600))
	o := small(types.DocIdsIndex)
	o.NotUseGse, o.Using, o.GseDict, o.PinYin, o.StopTokenFile = false, 1, "dict.txt", true, "stop.txt"
	e := open(o)
	e.Index("1", types.DocData{Content: "我的世界"})
	e.Flush()
	for _, k := range []string{"我", "我的", "我的世", "我的世界", "w", "wdsj"} {
		if r := e.Search(types.SearchReq{Tokens: []string{k}}); found(r) != "1" {
			fail("%q finds %q", k, found(r))
		}
	}
}
