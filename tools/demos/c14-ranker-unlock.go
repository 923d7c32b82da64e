// run with -race
package main

import (
	"github.com/go-ego/riot/core"
	"github.com/go-ego/riot/types"
	"sync"
)

func main() {
	var r core.Ranker
	r.Init()
	r.AddDoc("a", float32(1), "x", nil)
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		for i := 0; i < 3000; i++ {
			r.AddDoc("b", float32(1), "x", nil)
		}
	}()
	go func() {
		defer wg.Done()
		for i := 0; i < 3000; i++ {
			r.Rank([]types.IndexedDoc{{DocId: "a"}, {DocId: "a"}}, types.RankOpts{ScoringCriteria: byField{}}, false)
		}
	}()
	wg.Wait()
}
