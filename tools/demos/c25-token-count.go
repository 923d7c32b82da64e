package main

import (
	"github.com/go-ego/riot/types"
)

func main() {
	e := open(small(types.DocIdsIndex))
	e.Index("1", types.DocData{Tokens: []types.TokenData{tok("t", 0), tok("u", 1)}, Labels: []string{"l", "m"}})
	e.Flush()
	if n := e.NumTokenAdded(); n != 4 {
		fail("%d keywords are counted", n)
	}
}
