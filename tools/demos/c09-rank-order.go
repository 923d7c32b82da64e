package main

import (
	"fmt"
	"github.com/go-ego/riot/types"
)

func main() {
	o := small(types.DocIdsIndex)
	o.RankerBufLen = 1
	e := open(o)
	for round := 0; round < 20; round++ {
		for i := 0; i < 500; i++ {
			for v := 0; v < 3; v++ {
				e.Index(fmt.Sprint("d", i), types.DocData{Content: fmt.Sprint(round, v), Tokens: []types.TokenData{tok("t", 0)}})
			}
		}
		e.Flush()
		for _, d := range e.SearchDoc(types.SearchReq{Tokens: []string{"t"}}).Docs {
			if d.Content != fmt.Sprint(round, 2) {
				fail("document %s has content %q, its last was %q", d.DocId, d.Content, fmt.Sprint(round, 2))
			}
		}
	}
}
