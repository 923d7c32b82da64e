package main

import (
	"os"
	"fmt"
	"time"
	"github.com/go-ego/riot/types"
)

func main() {
	o := small(types.DocIdsIndex)
	o.UseStore, o.StoreFolder, o.StoreEngine, o.StoreShards = true, "db", "bolt", 1
	if len(os.Args) > 1 {
		e := open(o)
		d := types.DocData{Labels: []string{"l"}}
		e.Index("a", d)
		e.Flush()
		e.RemoveDoc("a")
		e.Flush()
		e.Index("a", d)
		e.Flush()
		fmt.Println("ready")
		time.Sleep(time.Hour)
	}
	child("writer")
	e := open(o)
	e.Flush()
	if s := found(e.Search(types.SearchReq{Labels: []string{"l"}})); s != "a" {
		fail("after the death of the process %q is found", s)
	}
	e.Close()
}
