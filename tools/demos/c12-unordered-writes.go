package main

import (
	"fmt"
	"strings"
	"github.com/go-ego/riot/types"
)

func main() {
	o := small(types.DocIdsIndex)
	o.UseStore, o.StoreFolder, o.StoreEngine, o.StoreShards = true, "db", "bolt", 1
	e := open(o)
	for i := 0; i < 100; i++ {
		id := fmt.Sprint("d", i)
		e.Index(id, types.DocData{Content: strings.Repeat("old ", 10000), Labels: []string{"old"}})
		e.Index(id, types.DocData{Content: "newer", Labels: []string{"new"}})
		e.Index(id, types.DocData{Content: "last", Labels: []string{"last"}})
	}
	e.Flush()
	ids, docs := e.GetDBAllDocs()
	if len(ids) != 100 || len(docs) != 100 {
		fail("%d documents, %d", len(ids), len(docs))
	}
	for i, d := range docs {
		if d.Content != "last" {
			fail("document %s is stored as %.20q...", ids[i], d.Content)
		}
	}
	e.Close()
}
