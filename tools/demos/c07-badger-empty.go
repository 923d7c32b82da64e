package main

import (
	"github.com/go-ego/riot/store"
)

func main() {
	s, err := store.OpenStore("db", "bg")
	check(err)
	check(s.Set([]byte("k"), []byte{}))
	has, err := s.Has([]byte("k"))
	if !has || err != nil {
		fail("Has: %v, %v", has, err)
	}
	check(s.Close())
}
