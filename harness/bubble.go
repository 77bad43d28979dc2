package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Runs f, which is a case or a part of it, with a virtual clock: it stands still while any goroutine of the case
// can run and jumps to the next timer when none can. Hours pass in no time, nothing depends on how fast the machine is,
// and what is stuck is known to be stuck.
func (c *kase) virtually(f func()) {
	var thrown any
	var stuck atomic.Bool
	var stacks []string
	done := make(chan struct{})
	func() {
		defer func() {
			e := recover()
			if e == nil {
				return
			}
			// All the goroutines that are left are blocked for ever
			if err, ok := e.(error); !ok || !strings.HasPrefix(err.Error(), "deadlock:") {
				panic(e)
			}
			select {
			case <-done:
			default:
				stuck.Store(true)
			}
		}()
		inBubble(func() {
			finished := make(chan struct{})
			go func() {
				if patiently(finished, 400*24*time.Hour) {
					return
				}
				for _, s := range allStacks() {
					if hasRepoFrame(s) && strings.Contains(s, "synctest bubble") {
						stacks = append(stacks, s)
					}
				}
			}()
			defer close(done)
			defer close(finished)
			defer func() {
				thrown = recover()
				switch thrown.(type) {
				case nil, failure, skipCase:
				default:
					thrown = casePanic{thrown, string(debug.Stack())}
				}
			}()
			f()
		})
	}()
	if stuck.Load() {
		n := len(stacks)
		c.fail("the clients and the namespaces wait for each other for ever; %d goroutines, e.g.\n%s", n, strings.Join(stacks[:min(n, 4)], "\n\n"))
	}
	if thrown != nil {
		panic(thrown)
	}
}

// In virtual time: waits for the event, which doesn't come if it's false: nothing can happen before the timers have fired.
func patiently(event <-chan struct{}, step time.Duration) bool {
	for i := int64(1); i <= 30; i++ {
		select {
		case <-event:
			return true
		case <-time.After(step):
		}
		t := syscall.NsecToTimespec(1000 * i * i)
		syscall.Nanosleep(&t, nil)
	}
	return false
}

// Runs the cases of a family in virtual time. There may be only one bubble in a process, since a goroutine that waits for
// a lock counts as blocked, so several processes run them.
func (r *run) virtual(family string, n int, f func(c *kase)) {
	v := func(c *kase) { c.virtually(func() { f(c) }) }
	switch {
	case r.only != nil:
		r.casesN(family, n, 1, v)
	case r.shardOf == family:
		for i := r.shard; i < n && !r.tooMany(); i += r.shards {
			r.runCase(family, i, v)
		}
	case r.shardOf == "" && !r.tooMany():
		r.distribute(family, n)
	}
}

// What a process has to tell about its cases.
type partial struct {
	Evals      int64
	Keys       []uint64
	Samples    []string
	Counters   map[string]int64
	Violations []violation
	Incon      []string
}

func (r *run) partial() *partial {
	r.mu.Lock()
	defer r.mu.Unlock()
	p := &partial{Evals: r.evals, Samples: r.samples, Counters: r.counters, Violations: r.viol, Incon: r.incon}
	for k := range r.keys {
		p.Keys = append(p.Keys, k)
	}
	return p
}

func (r *run) distribute(family string, n int) {
	start := time.Now()
	shards := min(runtime.NumCPU(), n/20+1)
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	var wg sync.WaitGroup
	for k := 0; k < shards; k++ {
		out := filepath.Join(r.scratch, fmt.Sprintf("shard-%d.json", k))
		os.Remove(out)
		cmd := exec.Command(exe, "-id", r.check.id, "-seed", fmt.Sprint(r.seed), "-tier", r.tier, "-scratch", r.scratch, "-out", out,
			"-shardof", family, "-shard", fmt.Sprintf("%d/%d", k, shards))
		cmd.Env = append(os.Environ(), "GOMAXPROCS=4")
		cmd.Stderr = os.Stderr
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			err := cmd.Run()
			var p partial
			data, rerr := os.ReadFile(out)
			if rerr == nil {
				rerr = json.Unmarshal(data, &p)
			}
			if err != nil || rerr != nil {
				// The process crashed, which it has reported
				fmt.Fprintf(os.Stderr, "the process %d for %s ended without a result: %v, %v\n", k, family, err, rerr)
				os.Exit(3)
			}
			r.mu.Lock()
			defer r.mu.Unlock()
			r.evals += p.Evals
			for _, key := range p.Keys {
				r.keys[key] = struct{}{}
			}
			for _, s := range p.Samples {
				if r.perFam[family] < 3 {
					r.perFam[family]++
					r.samples = append(r.samples, s)
				}
			}
			for name, n := range p.Counters {
				r.counters[name] += n
			}
			r.viol = append(r.viol, p.Violations...)
			r.incon = append(r.incon, p.Incon...)
		}(k)
	}
	ended := make(chan struct{})
	go func() {
		for {
			select {
			case <-ended:
				return
			case <-time.After(time.Second):
				atomic.AddInt64(&r.progress, 1)
			}
		}
	}()
	wg.Wait()
	close(ended)
	if os.Getenv("VERIF_TIMES") != "" {
		fmt.Fprintf(os.Stderr, "%s: %d cases, %v\n", family, n, time.Since(start))
	}
}

// A panic that was recovered in another goroutine.
type casePanic struct {
	value any
	stack string
}
