package main

import (
	"context"
	"net"
	"time"
	grpc "google.golang.org/grpc"
	pb "github.com/go-ego/riot/net/grpc/riot-pb"
	hb "github.com/go-ego/riot/net/heartb"
	"io/ioutil"
)

type server struct {
	pb.GreeterServer
	beat func(i int) int32
	i    int
}

func (s *server) HeartBeat(context.Context, *pb.HeartReq) (*pb.Reply, error) {
	s.i++
	return &pb.Reply{Result: s.beat(s.i)}, nil
}

// monitor starts a server and its monitor.
func monitor(cmd string, beat func(i int) int32) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	check(err)
	g := grpc.NewServer()
	pb.RegisterGreeterServer(g, &server{beat: beat})
	go g.Serve(l)
	go hb.Grpcc(l.Addr().String(), ".", cmd)
}

func main() {
	done := make(chan string, 1)
	monitor("echo start > log", func(i int) int32 {
		if i == 5 {
			b, _ := ioutil.ReadFile("log")
			done <- string(b)
		}
		return 2
	})
	select {
	case s := <-done:
		if s != "start\n" {
			fail("after four failed heartbeats the restart command has written %q", s)
		}
	case <-time.After(60 * time.Second):
		fail("no fifth heartbeat")
	}
}
