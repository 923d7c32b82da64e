package main

import (
	"github.com/go-ego/riot/store"
)

func main() {
	s, err := store.OpenStore("db", "ldb")
	check(err)
	check(s.Set([]byte("k"), []byte{}))
	n := 0
	check(s.ForEach(func(k, v []byte) error { n++; return nil }))
	if n != 1 {
		fail("ForEach visits %d keys", n)
	}
	check(s.Close())
}
