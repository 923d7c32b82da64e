// delay-at engine.go 60 atomic.AddUint64(&engine.numForceUpdatingReqs
// delay-at core/indexer.go 200 indexer.uncache(docIndex.DocId)
package main

import (
	"github.com/go-ego/riot/types"
	"time"
)

func main() {
	for i := 0; i < 3; i++ {
		o := small(types.DocIdsIndex)
		o.NumShards, o.IndexerOpts.DocCacheSize = 2, 100
		e := open(o)
		e.Index("1", types.DocData{Tokens: []types.TokenData{tok("t", 0)}})
		done := make(chan bool)
		go func() {
			time.Sleep(30 * time.Millisecond)
			e.Flush()
			done <- true
		}()
		e.Flush()
		if r := e.Search(types.SearchReq{Tokens: []string{"t"}}); found(r) != "1" {
			fail("a document that was indexed before Flush is not found after it: %q", found(r))
		}
		<-done
	}
}
