package main

import (
	"sort"
	"sync/atomic"
	"time"
)

func sortStrings(s []string) { sort.Strings(s) }

// The stall detector: how late the scheduler of this machine ran a 5ms timer, at worst.  Upper bounds on
// latencies are widened by it, so that a machine that stands still does not look like a slow service.
var stallUs atomic.Int64

func init() {
	go func() {
		for {
			t := time.Now()
			time.Sleep(5 * time.Millisecond)
			if d := time.Since(t).Microseconds() - 5000; d > stallUs.Load() {
				stallUs.Store(d)
			}
		}
	}()
}

func maxStall() int { return int(stallUs.Load()) }
