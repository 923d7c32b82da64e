package main

import (
	"fmt"
	pb "github.com/go-ego/riot/net/grpc/riot-pb"
)

func main() {
	a, err := (&pb.TokenData{Text: "t", Locations: []int32{1, 2}}).Marshal()
	check(err)
	b, err := (&pb.TokenData{Locations: []int32{3}}).Marshal()
	check(err)
	var got pb.TokenData
	check(got.Unmarshal(append(a, b...)))
	if s := fmt.Sprint(got.Locations); got.Text != "t" || s != "[1 2 3]" {
		fail("%q %s", got.Text, s)
	}
}
