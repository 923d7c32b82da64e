package main

import (
	"fmt"
	"github.com/go-ego/riot/types"
	"time"
)

// late gives no score until it is told to.
type late struct{ open chan bool }

func (l late) Score(d types.IndexedDoc, f interface{}) []float32 {
	<-l.open
	return []float32{1}
}

func main() {
	o := small(types.DocIdsIndex)
	o.NumShards = 16
	e := open(o)
	for i := 0; i < 200; i++ {
		e.Index(fmt.Sprint("d", i), types.DocData{Tokens: []types.TokenData{tok("t", 0)}})
	}
	e.Flush()
	for try := 0; ; try++ {
		open := make(chan bool)
		start := time.Now()
		r := e.Search(types.SearchReq{Tokens: []string{"t"}, Timeout: 1000, RankOpts: &types.RankOpts{ScoringCriteria: late{open}}})
		took := time.Since(start)
		close(open)
		if !r.Timeout {
			fail("no timeout although no document was scored")
		}
		if took < 5*time.Second {
			return
		}
		if try == 3 {
			fail("a search with a timeout of 1 s took %v", took)
		}
	}
}
