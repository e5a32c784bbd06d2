package main

import (
	"os"
	"sync/atomic"
)

func mkdir(d string) error { return os.MkdirAll(d, 0755) }

// removeAll removes a directory below the scratch root.
func removeAll(d string) {
	if len(d) > len(scratchRoot()) && d[:len(scratchRoot())] == scratchRoot() {
		os.RemoveAll(d)
	}
}

type atomicInt struct{ n int64 }

func (a *atomicInt) add(d int64) int { return int(atomic.AddInt64(&a.n, d)) }

func atMost(a, b int) int {
	if a < b {
		return a
	}
	return b
}
