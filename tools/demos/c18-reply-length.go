package main

import (
	"github.com/go-ego/riot/net/com"
	rpc "github.com/go-ego/riot/net/grpc"
	pb "github.com/go-ego/riot/net/grpc/riot-pb"
	"github.com/go-ego/riot/types"
	"io/ioutil"
	"net"
	"time"
)

func serve(o func(*com.Config)) {
	check(ioutil.WriteFile("dict.txt", []byte("hello 10 n\nworld 10 n\n"), 0600))
	var c com.Config
	c.Engine = com.Engine{StoreShards: 1, StoreEngine: "ldb", StoreFolder: "db", NumShards: 1, GseDict: "dict.txt", MaxOutputs: 3}
	if o != nil {
		o(&c)
	}
	rpc.InitEngine(c)
}

func add(id string, ts int64) {
	com.AddDocInx(id, types.DocData{Content: "hello", Attri: types.Attri{Title: "title " + id, Ts: ts}}, false)
}

func main() {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	check(err)
	port := l.Addr().String()[9:]
	l.Close()
	serve(nil)
	for _, id := range []string{"b", "a", "d", "c"} {
		add(id, 5)
	}
	com.Flush()
	go rpc.InitGrpc(port)
	var r *pb.SearchReply
	for i := 0; i < 200; i++ {
		var err error
		if r, err = rpc.InitSearchRpc("127.0.0.1"+port, com.SearchArgs{Query: "hello", MaxOutputs: 2}); err == nil && r != nil {
			break
		}
		time.Sleep(50 * time.Millisecond)
	}
	if r == nil {
		fail("no answer")
	}
	if len(r.Docs) != 2 || r.Len != 2 {
		fail("%d documents, Len %d", len(r.Docs), r.Len)
	}
}
