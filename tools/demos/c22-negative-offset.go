package main

import (
	pb "github.com/go-ego/riot/net/grpc/riot-pb"
)

func main() {
	m := pb.SearchReq{Query: "q", OutputOffset: -5, MaxOutputs: 7}
	b, err := m.Marshal()
	check(err)
	var x pb.SearchReq
	check(x.Unmarshal(b))
	if x.OutputOffset != -5 || x.MaxOutputs != 7 || x.Query != "q" {
		fail("%v", x)
	}
}
