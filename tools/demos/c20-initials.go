package main

import (
	"github.com/go-ego/riot/types"
	"io/ioutil"
)

func main() {
	check(ioutil.WriteFile("dict.txt", []byte("世界 10 n\n"), 0600))
	o := small(types.DocIdsIndex)
	o.NotUseGse, o.Using, o.GseDict, o.PinYin = false, 1, "dict.txt", true
	e := open(o)
	e.Index("1", types.DocData{Content: "阿世界"})
	e.Flush()
	for _, k := range []string{"a", "as", "asj", "ashijie"} {
		if r := e.Search(types.SearchReq{Tokens: []string{k}}); found(r) != "1" {
			fail("%q finds %q", k, found(r))
		}
	}
}
