package main

import (
	"strings"
	"github.com/go-ego/riot/types"
)

func main() {
	e := open(small(types.DocIdsIndex))
	e.Index("1", types.DocData{Tokens: []types.TokenData{tok("t", 0), tok("u", 1)}})
	e.Flush()
	tokens := []string{"t", "u"}
	r := e.Search(types.SearchReq{Tokens: tokens})
	tokens[0], tokens[1] = "next", "words"
	e.Search(types.SearchReq{Tokens: tokens})
	if s := strings.Join(r.Tokens, " "); found(r) != "1" || s != "t u" {
		fail("the answer of the first search has the tokens %q", s)
	}
}
