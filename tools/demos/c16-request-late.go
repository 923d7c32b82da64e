// delay-at engine.go 50 atomic.AddUint64(&engine.numIndexingReqs
package main

import (
	"github.com/go-ego/riot/types"
	"strings"
)

func main() {
	o := small(types.DocIdsIndex)
	o.Using, o.NotUseGse, o.NumGseThreads = 6, true, 8
	for i := 0; i < 3; i++ {
		func() {
			e := open(o)
			done := make(chan bool)
			e.Index("1", types.DocData{Content: strings.Repeat("a", 1500), Tokens: []types.TokenData{tok("t", 0)}})
			for _, id := range []string{"2", "3", "4"} {
				id := id
				go func() {
					e.Index(id, types.DocData{Tokens: []types.TokenData{tok("u", 0)}})
					done <- true
				}()
			}
			e.Flush()
			if r := e.Search(types.SearchReq{Tokens: []string{"t"}}); found(r) != "1" {
				fail("a document that was indexed before Flush is not found after it: %q", found(r))
			}
			for i := 0; i < 3; i++ {
				<-done
			}
		}()
	}
}
