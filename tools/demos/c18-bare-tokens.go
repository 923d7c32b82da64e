package main

import (
	"context"
	"github.com/go-ego/riot/net/com"
	rpc "github.com/go-ego/riot/net/grpc"
	pb "github.com/go-ego/riot/net/grpc/riot-pb"
	grpc "google.golang.org/grpc"
	"io/ioutil"
	"net"
	"time"
)

func serve(o func(*com.Config)) {
	check(ioutil.WriteFile("dict.txt", []byte("hello 10 n\nworld 10 n\n"), 0600))
	var c com.Config
	c.Engine = com.Engine{StoreShards: 1, StoreEngine: "ldb", StoreFolder: "db", NumShards: 1, GseDict: "dict.txt", MaxOutputs: 3}
	if o != nil {
		o(&c)
	}
	rpc.InitEngine(c)
}

func main() {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	check(err)
	port := l.Addr().String()[9:]
	l.Close()
	serve(nil)
	go rpc.InitGrpc(port)
	conn, err := grpc.Dial("127.0.0.1"+port, grpc.WithInsecure())
	check(err)
	c := pb.NewGreeterClient(conn)
	for i := 0; ; i++ {
		_, err := c.DocInx(context.Background(), &pb.DocReq{DocId: "1", Tokens: []*pb.TokenData{{Text: "bare"}, {Text: "placed", Locations: []int32{3}}}})
		if err == nil {
			break
		}
		if i == 200 {
			fail("%v", err)
		}
		time.Sleep(50 * time.Millisecond)
	}
	com.Flush()
	for _, q := range []string{"placed", "bare"} {
		r, err := c.Search(context.Background(), &pb.SearchReq{Logic: &pb.Logic{Expr: &pb.Expr{Must: []string{q}}}})
		check(err)
		if len(r.Docs) != 1 {
			fail("token %q finds %v", q, r.Docs)
		}
	}
}
