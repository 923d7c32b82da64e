package main

import (
	"fmt"
	"sync"
	"github.com/go-ego/riot/types"
)

func main() {
	o := small(types.DocIdsIndex)
	o.IDOnly, o.NumRankerThreads, o.NumIndexerThreads = true, 4, 4
	e := open(o)
	for i := 0; i < 40; i++ {
		e.Index(fmt.Sprint("a", i), types.DocData{Labels: []string{"a"}, Fields: float32(1)})
		e.Index(fmt.Sprint("b", i), types.DocData{Labels: []string{"b"}, Fields: float32(1)})
	}
	e.Flush()
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		label := "ab"[g%2 : g%2+1]
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 3000; i++ {
				r := e.SearchID(types.SearchReq{Labels: []string{label}, RankOpts: &types.RankOpts{ScoringCriteria: byField{}}})
				if len(r.Docs) != 40 {
					fail("%d documents with label %s", len(r.Docs), label)
				}
				for _, d := range r.Docs {
					if d.DocId[:1] != label {
						fail("a search for label %s finds document %s", label, d.DocId)
					}
				}
			}
		}()
	}
	wg.Wait()
}
