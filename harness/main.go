package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"strings"
	"time"

	"verif.local/simrt/sim"
)

func makeScenario(prop string, seed uint64) *Scenario {
	ps := profiles[prop]
	sum := 0
	for _, p := range ps {
		sum += p.w
	}
	x := int(sim.Mix(seed, 77) % uint64(sum))
	for _, p := range ps {
		x -= p.w
		if x < 0 {
			sc := p.gen(prop, p.name, seed)
			withTLS(sc, seed)
			return sc
		}
	}
	panic("profile")
}

func main() {
	setupProcess()
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness one|worker|check|replay ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "one":
		one(os.Args[2:])
	case "det":
		det(os.Args[2:])
	case "worker":
		worker(os.Args[2:])
	case "check":
		os.Exit(check(os.Args[2:]))
	case "replay":
		os.Exit(replayCmd(os.Args[2:]))
	case "minimise":
		os.Exit(minimiseCmd(os.Args[2:]))
	default:
		os.Exit(2)
	}
}

// one runs a range of seeds and prints what happened (development).
func one(args []string) {
	fs := flag.NewFlagSet("one", flag.ExitOnError)
	prop := fs.String("prop", "C03", "")
	from := fs.Uint64("from", 1, "")
	n := fs.Uint64("n", 1, "")
	raw := fs.Bool("raw", false, "")
	logs := fs.Bool("log", false, "")
	dump := fs.Bool("dump", false, "")
	fs.Parse(args)
	t0 := time.Now()
	kinds := map[string]int{}
	var steps int64
	stats := map[string]int{}
	faults := map[string]int{}
	for i := *from; i < *from+*n; i++ {
		seed := sim.Mix(1, i)
		if *raw {
			seed = i
		}
		sc := makeScenario(*prop, seed)
		if *dump {
			b, _ := json.MarshalIndent(sc, "", " ")
			fmt.Println(string(b))
		}
		o := execute(sc, seed, nil, false, *logs)
		steps += o.Res.Steps
		for k, v := range o.Stats {
			stats[k] += v
		}
		for k, v := range o.Res.Faults {
			faults[k] += v
		}
		for k, v := range o.Res.Probes {
			faults["p:"+k] += v
		}
		if o.Unk {
			kinds["unknown"]++
		}
		if *logs {
			for _, l := range o.Res.Log {
				fmt.Println(l)
			}
		}
		if o.Error != "" {
			fmt.Printf("seed %d ERROR %s\n", i, o.Error)
		}
		for _, v := range o.Viols {
			if kinds[v.Key] < 3 {
				fmt.Printf("seed %d %s [%s] %s\n", i, sc.Name, v.Key, strings.TrimSpace(v.Msg))
			}
			kinds[v.Key]++
		}
	}
	fmt.Printf("%d runs %.2fs steps/run %d\n%v\n%v\n%v\n", *n, time.Since(t0).Seconds(), steps/int64(*n), kinds, stats, faults)
}

// det repeats seeds, from the seed and from the trace, and compares the logs.
func det(args []string) {
	fs := flag.NewFlagSet("det", flag.ExitOnError)
	prop := fs.String("prop", "C03", "")
	from := fs.Uint64("from", 1, "")
	n := fs.Uint64("n", 1, "")
	hash := fs.Bool("hash", false, "")
	fs.Parse(args)
	bad := [2]int{}
	for i := *from; i < *from+*n; i++ {
		seed := sim.Mix(1, i)
		a := execute(makeScenario(*prop, seed), seed, nil, false, true)
		if *hash {
			fmt.Printf("%d %016x %016x\n", i, a.Res.LogHash, a.Res.SchedHash)
			continue
		}
		for k := 0; k < 2; k++ {
			var b *Outcome
			if k == 0 {
				b = execute(makeScenario(*prop, seed), seed, nil, false, true)
			} else {
				b = execute(makeScenario(*prop, seed), seed, a.Res.Trace, true, true)
			}
			if a.Res.LogHash == b.Res.LogHash && a.Res.SchedHash == b.Res.SchedHash {
				continue
			}
			bad[k]++
			if bad[k] > 3 {
				continue
			}
			fmt.Printf("seed %d mode %d differs: steps %d/%d log %d/%d strategy %+v\n", i, k, a.Res.Steps, b.Res.Steps, len(a.Res.Log), len(b.Res.Log), a.Sc.Params)
			for j := range a.Res.Log {
				if j >= len(b.Res.Log) || a.Res.Log[j] != b.Res.Log[j] {
					for x := j - 4; x < j+3; x++ {
						if x >= 0 && x < len(a.Res.Log) && x < len(b.Res.Log) {
							fmt.Printf("  %s\n  %s\n", a.Res.Log[x], b.Res.Log[x])
						}
					}
					break
				}
			}
		}
	}
	if !*hash {
		fmt.Println("differing:", bad)
	}
}
