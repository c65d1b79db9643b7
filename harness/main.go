package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"strconv"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: harness check|worker|replay|one")
		os.Exit(2)
	}
	loadKnown()
	switch os.Args[1] {
	case "worker":
		seed, _ := strconv.ParseUint(os.Args[4], 10, 64)
		workerMain(os.Args[2], os.Args[3], seed)
	case "check":
		fs := flag.NewFlagSet("check", flag.ExitOnError)
		prop := fs.String("prop", "", "")
		tier := fs.String("tier", "quick", "")
		seed := fs.Uint64("seed", 1, "")
		dir := fs.String("verif", "/verif", "")
		runs := fs.Int("runs", 0, "")
		budget := fs.Duration("budget", 0, "")
		workers := fs.Int("workers", 0, "")
		fs.Parse(os.Args[2:])
		n := *runs
		if n == 0 {
			n = runCount(*prop, *tier)
		}
		if *budget == 0 { // a slow machine gives fewer runs, not no answer
			*budget = 300 * time.Second
			if *tier == "thorough" {
				*budget = 40 * time.Minute
			}
		}
		os.Exit(checkMain(*prop, *tier, *seed, *dir, n, *budget, *workers))
	case "replay":
		os.Exit(replayMain(os.Args[2], len(os.Args) > 3))
	case "one": // one PROP SEED RUN [v]
		seed, _ := strconv.ParseUint(os.Args[3], 10, 64)
		i, _ := strconv.Atoi(os.Args[4])
		p := makePlan(os.Args[2], seed, "quick", i)
		out := quietStdout()
		var logf func(string)
		if len(os.Args) > 5 {
			for _, o := range p.Ops {
				b, _ := json.Marshal(o)
				fmt.Fprintln(out, string(b))
			}
			logf = func(l string) { fmt.Fprintln(out, l) }
		}
		t := time.Now()
		r := execute(p, nil, logf)
		b, _ := json.MarshalIndent(r, "", " ")
		fmt.Fprintln(out, string(b), time.Since(t))
	case "image": // image NAME BUILD OUT
		p := imagePlan(os.Args[2], os.Args[3], os.Args[4])
		out := quietStdout()
		b, _ := json.MarshalIndent(execute(p, nil, nil), "", " ")
		fmt.Fprintln(out, string(b))
	case "list":
		for _, k := range sortedKeys(props) {
			fmt.Println(k)
		}
	}
}

func runCount(prop, tier string) int {
	n := 2000
	if p := props[prop]; p != nil && p.quick > 0 {
		n = p.quick
	}
	if tier == "thorough" {
		n *= 40
	}
	return n
}
