package main

import (
	"github.com/go-ego/riot/types"
)

func main() {
	e := open(small(types.DocIdsIndex))
	e.Index("1", types.DocData{Tokens: []types.TokenData{tok("t", 0)}})
	e.Flush()
	r := e.Search(types.SearchReq{Tokens: []string{"t"}, CountDocsOnly: true, Timeout: 60000})
	if r.NumDocs != 1 || r.Timeout {
		fail("%d documents, timeout %v", r.NumDocs, r.Timeout)
	}
}
