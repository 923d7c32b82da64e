package main

import (
	"github.com/go-ego/riot/core"
	"math"
)

// adversary fills data with McIlroy's killer sequence: it runs a median-of-nine
// quicksort whose comparisons are answered so that every pivot is as bad as
// possible, which drives a quicksort of that shape to its heapsort fallback.
func adversary(d []uint64) {
	n := len(d)
	const gas = math.MaxUint64
	val := make([]uint64, n)
	ptr := make([]int, n)
	for i := range val {
		val[i], ptr[i] = gas, i
	}
	solid, cand := uint64(0), 0
	cmp := func(x, y int) int { // compares items x and y
		if val[x] == gas && val[y] == gas {
			if x == cand {
				val[x] = solid
			} else {
				val[y] = solid
			}
			solid++
		}
		if val[x] == gas {
			cand = x
		} else if val[y] == gas {
			cand = y
		}
		switch {
		case val[x] < val[y]:
			return -1
		case val[x] > val[y]:
			return 1
		}
		return 0
	}
	less := func(i, j int) bool { return cmp(ptr[i], ptr[j]) < 0 }
	swap := func(i, j int) { ptr[i], ptr[j] = ptr[j], ptr[i] }
	med := func(m1, m0, m2 int) {
		if less(m1, m0) {
			swap(m1, m0)
		}
		if less(m2, m1) {
			swap(m2, m1)
		}
		if less(m1, m0) {
			swap(m1, m0)
		}
	}
	var qs func(lo, hi int)
	qs = func(lo, hi int) {
		for hi-lo > 7 {
			m := lo + (hi-lo)/2
			if hi-lo > 40 {
				s := (hi - lo) / 8
				med(lo, lo+s, lo+2*s)
				med(m, m-s, m+s)
				med(hi-1, hi-1-s, hi-1-2*s)
			}
			med(lo, m, hi-1)
			i := lo + 1
			for j := lo + 1; j < hi; j++ {
				if less(j, lo) {
					swap(i, j)
					i++
				}
			}
			swap(lo, i-1)
			qs(lo, i-1)
			lo = i
		}
		for i := lo + 1; i < hi; i++ {
			for j := i; j > lo && less(j, j-1); j-- {
				swap(j, j-1)
			}
		}
	}
	qs(0, n)
	for i := range d {
		d[i] = val[i]
		if d[i] == gas {
			d[i] = uint64(n)
		}
	}
}

func main() {
	for n := 16; n < 600; n++ {
		data := make([]uint64, n)
		adversary(data)
		core.Asc(data)
		if !core.IsSortedAsc(data) {
			fail("not sorted: %v", data)
		}
	}
}
