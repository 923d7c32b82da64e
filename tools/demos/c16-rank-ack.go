// delay-at ranker_worker.go 20 engine.rankers[shard].AddDoc(
package main

import (
	"fmt"
	"github.com/go-ego/riot/types"
)

func main() {
	e := open(small(types.DocIdsIndex))
	for i := 1; i < 6; i++ {
		e.Index(fmt.Sprint(i), types.DocData{Tokens: []types.TokenData{tok("t"+fmt.Sprint(i), 0)}})
		e.Flush()
		if r := e.Search(types.SearchReq{Tokens: []string{"t" + fmt.Sprint(i)}}); found(r) != fmt.Sprint(i) {
			fail("document %d is not found after Flush: %q", i, found(r))
		}
	}
}
