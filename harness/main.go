// The run-time monitors of recengine. See DESIGN.md.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"runtime/pprof"
	"time"
)

// Usage: harness -id C01 -seed 1 -tier quick -scratch DIR -out RESULT.json [-replay FILE]
func main() {
	id := flag.String("id", "", "property")
	seed := flag.Int64("seed", 1, "seed of every random choice")
	tier := flag.String("tier", "quick", "quick or thorough")
	scratch := flag.String("scratch", "", "scratch directory")
	out := flag.String("out", "", "result file")
	replay := flag.String("replay", "", "replay file")
	noise := flag.Bool("noise", false, "keep the logs of the code under test")
	shardOf := flag.String("shardof", "", "run only a part of this family")
	shard := flag.String("shard", "", "which of how many parts")
	flag.Parse()
	ck := checks[*id]
	if ck == nil {
		fmt.Fprintf(os.Stderr, "no check %s in this build\n", *id)
		os.Exit(3)
	}
	// The code under test prints debugging messages to stdout and to the log
	if !*noise {
		if devnull, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
			os.Stdout = devnull
		}
		log.SetOutput(io.Discard)
	}
	r := &run{
		check:    ck,
		seed:     *seed,
		tier:     *tier,
		scratch:  *scratch,
		keys:     make(map[uint64]struct{}),
		perFam:   make(map[string]int),
		counters: make(map[string]int64),
		inFlight: make(map[*kase]time.Time),
	}
	if *replay != "" {
		var rep struct {
			Seed int64
			Tier string
			Case violation `json:"case"`
		}
		data, err := os.ReadFile(*replay)
		if err == nil {
			err = json.Unmarshal(data, &rep)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		r.seed, r.tier, r.only = rep.Seed, rep.Tier, &rep.Case
	}
	if *shardOf != "" {
		r.shardOf = *shardOf
		if _, err := fmt.Sscanf(*shard, "%d/%d", &r.shard, &r.shards); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	}
	finish := func() {
		if r.shardOf != "" {
			writeJSON(*out, r.partial())
		} else {
			writeJSON(*out, r.result())
		}
		os.Exit(0)
	}
	if p := os.Getenv("VERIF_PROF"); p != "" {
		f, _ := os.Create(p)
		pprof.StartCPUProfile(f)
		f0 := finish
		finish = func() { pprof.StopCPUProfile(); f0() }
	}
	go r.watch(finish)
	ck.run(r)
	finish()
}
