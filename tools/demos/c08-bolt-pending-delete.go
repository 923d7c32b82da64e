package main

import (
	"os"
	"fmt"
	"time"
	"github.com/go-ego/riot/store"
)

func main() {
	if len(os.Args) > 1 {
		s, err := store.OpenStore("db", "bolt")
		check(err)
		check(s.Set([]byte("a"), []byte("1")))
		check(s.Set([]byte("b"), []byte("2")))
		check(s.Delete([]byte("a")))
		fmt.Println("ready")
		time.Sleep(time.Hour)
	}
	child("writer")
	s, err := store.OpenStore("db", "bolt")
	check(err)
	defer s.Close()
	keys := ""
	check(s.ForEach(func(k, v []byte) error { keys += string(k); return nil }))
	if keys != "b" {
		fail("after the death of the process the store holds the keys %q", keys)
	}
}
