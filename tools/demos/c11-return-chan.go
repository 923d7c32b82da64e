package main

import (
	"time"
	"github.com/go-ego/riot/types"
)

type slow struct{ c chan bool }

func (s slow) Score(types.IndexedDoc, interface{}) []float32 { <-s.c; return []float32{1} }

func main() {
	e := open(small(types.DocIdsIndex))
	e.Index("1", types.DocData{Tokens: []types.TokenData{tok("t", 0)}, Fields: float32(1)})
	e.Flush()
	s := slow{make(chan bool)}
	r := e.Search(types.SearchReq{Tokens: []string{"t"}, Timeout: 5, RankOpts: &types.RankOpts{ScoringCriteria: s}})
	if !r.Timeout {
		fail("the search does not time out")
	}
	close(s.c)
	done := make(chan string, 1)
	go func() {
		for i := 0; i < 5; i++ {
			found(e.Search(types.SearchReq{Tokens: []string{"t"}}))
		}
		done <- found(e.Search(types.SearchReq{Tokens: []string{"t"}}))
	}()
	select {
	case s := <-done:
		if s != "1" {
			fail("after a search that timed out, %q is found", s)
		}
	case <-time.After(30 * time.Second):
		fail("after a search that timed out, searches do not return")
	}
}
