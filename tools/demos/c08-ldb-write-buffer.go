package main

import (
	"github.com/go-ego/riot/store"
	"os"
)

func main() {
	if len(os.Args) > 1 {
		s, err := store.OpenStore("db", "ldb")
		check(err)
		check(s.Set([]byte("a"), []byte("1")))
		check(s.Set([]byte("b"), []byte("2")))
		ready()
	}
	child("child")
	s, err := store.OpenStore("db", "ldb")
	check(err)
	for _, k := range []string{"a", "b"} {
		if _, err := s.Get([]byte(k)); err != nil {
			fail("the acknowledged key %s is lost: %v", k, err)
		}
	}
}
