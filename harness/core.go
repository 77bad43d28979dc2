package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// A check decides one property.
type check struct {
	id    string
	level string // exploration or fault_enumeration
	rule  string
	run   func(r *run)
}

var checks = map[string]*check{}

func register(id, level, rule string, f func(r *run)) {
	checks[id] = &check{id, level, rule, f}
}

type violation struct {
	Family string   `json:"family"`
	Index  int      `json:"index"`
	Detail string   `json:"detail"`
	Trace  []string `json:"trace,omitempty"`
}

// The state of one run of one check.
type run struct {
	check    *check
	seed     int64
	tier     string
	scratch  string
	only     *violation // replay only this case
	shardOf  string     // run only a part of the cases of this family
	shard    int
	shards   int
	mu       sync.Mutex
	evals    int64
	keys     map[uint64]struct{}
	samples  []string
	perFam   map[string]int
	counters map[string]int64
	viol     []violation
	incon    []string
	progress int64
	inFlight map[*kase]time.Time
}

// One generated case; everything in it follows from (seed, property, family, index).
type kase struct {
	*rand.Rand
	r      *run
	family string
	index  int
	trace  []string
	failed bool
	nolock sync.Mutex
}

type failure struct{ msg string }

type skipCase struct{ msg string }

func (r *run) thorough() bool { return r.tier == "thorough" }

// How many times as many cases as noted with the families are run in the quick tier. A check takes about half a minute then.
var effort = map[string]int{"C01": 5, "C02": 3, "C03": 4, "C04": 8, "C07": 5, "C08": 2, "C10": 2, "C11": 4, "C12": 3, "C13": 6,
	"C14": 3, "C15": 10, "C16": 6, "C17": 10, "C18": 8, "C20": 5, "C21": 5, "C22": 10, "C23": 6, "C24": 10, "C25": 3, "C26": 8, "C28": 4}

// Chooses the amount of work by the tier.
func (r *run) n(quick, thorough int) int {
	if r.thorough() {
		return thorough
	}
	if k := effort[r.check.id]; k > 1 && quick >= 60 {
		return min(quick*k, thorough)
	}
	return quick
}

func caseSeed(seed int64, id, family string, index int) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%s/%d", seed, id, family, index)
	return int64(h.Sum64())
}

// Logs an event of the case; the log is a part of the replay file.
func (c *kase) log(format string, args ...any) {
	c.nolock.Lock()
	defer c.nolock.Unlock()
	if len(c.trace) < 4000 {
		c.trace = append(c.trace, fmt.Sprintf(format, args...))
	}
}

// Reports a violation and abandons the case. Only for the goroutine of the case.
func (c *kase) fail(format string, args ...any) {
	panic(failure{fmt.Sprintf(format, args...)})
}

// Reports a violation from any goroutine without abandoning anything.
func (c *kase) report(format string, args ...any) {
	c.r.violate(c, fmt.Sprintf(format, args...))
}

// Deferred in a goroutine that isn't the one of the case: reports what c.fail threw.
func (c *kase) guard() {
	switch e := recover().(type) {
	case nil:
	case failure:
		c.report("%s", e.msg)
		c.nolock.Lock()
		c.failed = true
		c.nolock.Unlock()
	default:
		panic(e)
	}
}

// Abandons the case without a verdict.
func (c *kase) inconclusive(format string, args ...any) {
	panic(skipCase{fmt.Sprintf(format, args...)})
}

func (c *kase) check(cond bool, format string, args ...any) {
	if !cond {
		c.fail(format, args...)
	}
}

// Counts an evaluation (an execution judged by the oracle); key identifies what
// was distinct about it, an empty key means it was trivial.
func (c *kase) eval(format string, args ...any) {
	atomic.AddInt64(&c.r.evals, 1)
	atomic.AddInt64(&c.r.progress, 1)
	if format == "" {
		return
	}
	h := fnv.New64a()
	fmt.Fprintf(h, c.family+"|"+format, args...)
	k := h.Sum64()
	c.r.mu.Lock()
	c.r.keys[k] = struct{}{}
	c.r.mu.Unlock()
}

func (r *run) count(name string, n int64) {
	r.mu.Lock()
	r.counters[name] += n
	r.mu.Unlock()
}

func (c *kase) count(name string, n int64) { c.r.count(name, n) }

// Keeps a few samples of every family.
func (c *kase) sample(format string, args ...any) {
	c.r.mu.Lock()
	defer c.r.mu.Unlock()
	if c.r.perFam[c.family] < 3 {
		c.r.perFam[c.family]++
		s := fmt.Sprintf(format, args...)
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		c.r.samples = append(c.r.samples, fmt.Sprintf("%s/%d: %s", c.family, c.index, s))
	}
}

func (r *run) violate(c *kase, detail string) {
	c.nolock.Lock()
	trace := append([]string{}, c.trace...)
	c.nolock.Unlock()
	if len(trace) > 400 {
		trace = append(trace[:100], trace[len(trace)-300:]...)
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.viol) < 50 {
		r.viol = append(r.viol, violation{c.family, c.index, detail, trace})
	}
}

func (r *run) tooMany() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.viol) >= 5
}

// True if the innermost code of this module in the stack isn't the harness.
func repoFrameOnTop(stack string) bool {
	for _, line := range strings.Split(stack, "\n") {
		line = strings.TrimPrefix(line, "created by ")
		if strings.HasPrefix(line, "main.") {
			return false
		}
		if strings.HasPrefix(line, "recengine/") {
			return true
		}
	}
	return false
}

// Drops the frames of the panic machinery of a panicking goroutine's stack.
func afterPanic(stack string) string {
	if i := strings.LastIndex(stack, "\npanic("); i >= 0 {
		return stack[i+1:]
	}
	return stack
}

func (r *run) runCase(family string, index int, f func(c *kase)) {
	c := &kase{
		Rand:   rand.New(rand.NewSource(caseSeed(r.seed, r.check.id, family, index))),
		r:      r,
		family: family,
		index:  index,
	}
	r.mu.Lock()
	r.inFlight[c] = time.Now()
	r.mu.Unlock()
	defer func() {
		r.mu.Lock()
		delete(r.inFlight, c)
		r.mu.Unlock()
		atomic.AddInt64(&r.progress, 1)
		if e := recover(); e != nil {
			switch e := e.(type) {
			case failure:
				r.violate(c, e.msg)
			case skipCase:
				r.mu.Lock()
				r.incon = append(r.incon, fmt.Sprintf("%s/%d: %s", family, index, e.msg))
				r.mu.Unlock()
			default:
				stack := string(debug.Stack())
				var value any = e
				if p, ok := e.(casePanic); ok {
					value, stack = p.value, p.stack
				}
				if repoFrameOnTop(afterPanic(stack)) {
					r.violate(c, fmt.Sprintf("panic: %v\n%s", value, stack))
				} else {
					fmt.Fprintf(os.Stderr, "harness panic in %s/%d: %v\n%s\n", family, index, value, stack)
					os.Exit(3)
				}
			}
		}
	}()
	f(c)
}

// Runs the cases of a family on several goroutines.
func (r *run) cases(family string, n int, f func(c *kase)) {
	r.casesN(family, n, runtime.NumCPU(), f)
}

func (r *run) casesN(family string, n int, workers int, f func(c *kase)) {
	if r.only != nil {
		if r.only.Family == family {
			r.runCase(family, r.only.Index, f)
		}
		return
	}
	if r.shardOf != "" {
		return
	}
	if os.Getenv("VERIF_TIMES") != "" {
		start := time.Now()
		defer func() { fmt.Fprintf(os.Stderr, "%s: %d cases, %v\n", family, n, time.Since(start)) }()
	}
	next := int64(-1)
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n || r.tooMany() {
					return
				}
				r.runCase(family, i, f)
			}
		}()
	}
	wg.Wait()
}

func cpuSeconds() float64 {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return float64(u.Utime.Sec+u.Stime.Sec) + float64(u.Utime.Usec+u.Stime.Usec)/1e6
}

func allStacks() []string {
	buf := make([]byte, 16<<20)
	buf = buf[:runtime.Stack(buf, true)]
	return strings.Split(string(buf), "\n\n")
}

// The state in brackets of the header line of a goroutine's stack.
func stackState(stack string) string {
	i, j := strings.Index(stack, "["), strings.Index(stack, "]")
	if i < 0 || j < i {
		return ""
	}
	return stack[i+1 : j]
}

// True if any frame of the stack belongs to the code under test.
func hasRepoFrame(stack string) bool {
	for _, line := range strings.Split(stack, "\n") {
		if strings.HasPrefix(line, "recengine/") {
			return true
		}
	}
	return false
}

// Looks for executions that will never end: no case makes any progress while
// either everything is blocked (nothing is runnable and no CPU time passes), or
// the same code under test keeps burning CPU time. The decision depends on the
// state of the goroutines and on CPU time, not on how fast the machine is.
func (r *run) watch(finish func()) {
	last := int64(-1)
	quiet := 0
	cpu0 := cpuSeconds()
	for {
		time.Sleep(time.Second)
		p := atomic.LoadInt64(&r.progress)
		if p != last {
			last, quiet, cpu0 = p, 0, cpuSeconds()
			continue
		}
		quiet++
		if quiet < 25 {
			continue
		}
		used := cpuSeconds() - cpu0
		stacks := allStacks()
		blocked, active := "", ""
		for _, s := range stacks {
			if !hasRepoFrame(s) {
				continue
			}
			state := stackState(s)
			if strings.HasPrefix(state, "running") || strings.HasPrefix(state, "runnable") {
				active += s + "\n\n"
			} else if !strings.HasPrefix(state, "sleep") && !strings.HasPrefix(state, "IO wait") &&
				!strings.HasPrefix(state, "syscall") {
				blocked += s + "\n\n"
			} else {
				blocked, active = "", ""
				break
			}
		}
		var msg string
		if active == "" && blocked != "" && used < 5 {
			msg = "deadlock: nothing can run and these goroutines are blocked:\n" + clip(blocked, 8000)
		} else if active != "" && used > 60 {
			msg = fmt.Sprintf("no end: %.0f s of CPU time spent on a case without progress:\n%s",
				used, clip(active, 8000))
		}
		if msg != "" {
			r.mu.Lock()
			var oldest *kase
			for c, t := range r.inFlight {
				if oldest == nil || t.Before(r.inFlight[oldest]) {
					oldest = c
				}
			}
			r.mu.Unlock()
			if oldest == nil {
				oldest = &kase{r: r, family: "end", index: 0}
			}
			r.violate(oldest, msg)
			finish()
			return
		}
		if quiet > 240 {
			fmt.Fprintf(os.Stderr, "no progress, but no deadlock either: inconclusive\n%s\n",
				clip(strings.Join(stacks, "\n\n"), 60000))
			os.Exit(4)
		}
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

type result struct {
	Coverage   map[string]any `json:"coverage"`
	Violations []violation    `json:"violations"`
	Incon      []string       `json:"inconclusive"`
}

func (r *run) result() *result {
	r.mu.Lock()
	defer r.mu.Unlock()
	sort.Strings(r.samples)
	cov := map[string]any{
		"evaluations":         r.evals,
		"distinct_nontrivial": len(r.keys),
		"rule":                r.check.rule,
		"samples":             r.samples,
	}
	names := make([]string, 0)
	for k := range r.counters {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		cov["observed_"+k] = r.counters[k]
	}
	cov["cases_without_verdict"] = len(r.incon)
	return &result{cov, r.viol, r.incon}
}

// A fresh directory for the files of a case.
func (c *kase) dir() string {
	d, err := os.MkdirTemp(c.r.scratch, "case")
	if err != nil {
		panic(err)
	}
	return d + "/"
}

func (c *kase) rmdir(d string) {
	if strings.HasPrefix(d, c.r.scratch+"/") {
		os.RemoveAll(filepath.Clean(d))
	}
}

func writeJSON(path string, v any) {
	data, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		panic(err)
	}
	if err = os.WriteFile(path, append(data, '\n'), 0644); err != nil {
		panic(err)
	}
}
