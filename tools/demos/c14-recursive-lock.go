package main

import (
	"fmt"
	"github.com/go-ego/riot/types"
	"sync"
	"time"
)

func main() {
	x := indexer(types.DocIdsIndex)
	for i := 0; i < 200; i++ {
		x.AddDocToCache(docIndex(fmt.Sprint("d", i), 1, kw("t")), false)
	}
	x.AddDocToCache(nil, true)
	done := make(chan bool)
	go func() {
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for i := 0; i < 3000; i++ {
					if g < 2 {
						x.AddDocToCache(docIndex(fmt.Sprint("w", g), 1, kw("u")), true)
					} else {
						x.Lookup([]string{"t"}, nil, nil, false)
					}
				}
			}(g)
		}
		wg.Wait()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(120 * time.Second):
		fail("searches and updates wait for each other")
	}
}
