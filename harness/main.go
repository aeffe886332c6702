package main

import (
	"flag"
	"fmt"
	"os"
	"time"
)

type Conf struct {
	Prop   string
	Seed   int64
	N      int
	Tier   string
	Out    *Out
	Budget time.Duration
	In     string
}

var drivers = map[string]func(*Conf){}

func main() {
	c := &Conf{}
	driver := flag.String("driver", "", "driver")
	out := flag.String("out", "", "output ndjson")
	flag.StringVar(&c.Prop, "prop", "", "property / workload")
	flag.Int64Var(&c.Seed, "seed", 1, "seed")
	flag.IntVar(&c.N, "n", 100, "number of histories")
	flag.StringVar(&c.Tier, "tier", "quick", "tier")
	flag.StringVar(&c.In, "in", "", "input file (behaviours generated by TLC)")
	budget := flag.Int("budget", 300, "budget in seconds")
	flag.Parse()
	c.Budget = time.Duration(*budget) * time.Second
	f := drivers[*driver]
	if f == nil {
		fmt.Fprintln(os.Stderr, "HARNESS-ERROR: no such driver", *driver)
		os.Exit(3)
	}
	c.Out = NewOut(*out)
	f(c)
	c.Out.Close()
}
