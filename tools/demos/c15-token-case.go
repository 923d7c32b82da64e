package main

import (
	"github.com/go-ego/riot/types"
)

func main() {
	e := open(small(types.DocIdsIndex))
	e.Index("1", types.DocData{Tokens: []types.TokenData{tok("hello", 0), tok("iPhone", 1)}})
	e.Flush()
	if s := found(e.Search(types.SearchReq{Tokens: []string{"iPhone"}})); s != "1" {
		fail("the token finds %q", s)
	}
	if s := found(e.Search(types.SearchReq{Text: "Hello", Tokens: []string{"iPhone"}})); s != "1" {
		fail("the text and the token find %q", s)
	}
}
