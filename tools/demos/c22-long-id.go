package main

import (
	"strings"
	pb "github.com/go-ego/riot/net/grpc/riot-pb"
)

func main() {
	id := strings.Repeat("d", 200)
	m := &pb.SearchReq{Query: "q", DocIds: map[string]bool{id: true}}
	b, err := m.Marshal()
	check(err)
	var got pb.SearchReq
	check(got.Unmarshal(b))
	if len(b) != m.Size() || got.Query != "q" || len(got.DocIds) != 1 || !got.DocIds[id] {
		fail("%d bytes, size %d: %+v", len(b), m.Size(), got)
	}
}
