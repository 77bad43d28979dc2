package main

import (
	"context"
	"fmt"
	"io"
	"net/http/httptest"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

func init() {
	register("C31", "exploration",
		"1 to 3 namespaces of one service, whose storages take from nothing to hours for a batch or for closing, work for concurrent clients in virtual time, "+
			"where everything else takes no time, while the registry and the settings are read and changed, slow clients send requests, and the namespaces are "+
			"stopped, deleted or cancelled at all moments; every call, batch, request and end is timed and must not take more than a second longer than the batches it has to wait for; "+
			"non-trivial: something happened while a batch was being processed or storages were being closed; distinct by what was timed",
		func(r *run) {
			r.virtual("timed", r.n(4000, 150000), timedCase)
		})
}

// What the code under test may take for anything that takes no time.
const slack = time.Second

type span struct{ from, to time.Time }

// Whether the time is within the span, its bounds included.
func (s span) has(t time.Time) bool { return !t.Before(s.from) && !t.After(s.to) }

type timedCall struct {
	call
	span
	err error
}

type timed struct {
	name string
	e    *engine
	mu   sync.Mutex
	// The batches that have been processed
	batches []span
	handed  map[call]int
	calls   []timedCall
	// The beginning of the end, as far as known; when its worker turned to closing, and when that was finished
	ending, closing, closed atomic.Pointer[time.Time]
	busy                    atomic.Bool
	crowded                 bool // calls may have to wait for the queue
}

func genSpan(c *kase) time.Duration {
	switch c.Intn(6) {
	case 0:
		return 0
	case 1:
		return time.Duration(c.Intn(100)) * time.Millisecond
	case 2:
		return time.Duration(c.Intn(10000)) * time.Millisecond
	case 3:
		return time.Duration(c.Intn(600)) * time.Second
	case 4:
		return time.Duration(c.Intn(5*3600)) * time.Second
	}
	return time.Duration(c.Intn(2000)) * time.Microsecond
}

// A body that arrives slowly.
type slowBody struct {
	io.Reader
	pause time.Duration
}

func (b *slowBody) Read(p []byte) (int, error) {
	time.Sleep(b.pause)
	b.pause = 0
	return b.Reader.Read(p)
}

func timedCase(c *kase) {
	d := c.dir()
	defer c.rmdir(d)
	s := newService(d)
	api := newRest(s)
	start := time.Now()
	at := func(t time.Time) string { return t.Sub(start).String() }
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var all []*timed
	slowness := 1 + c.Intn(4)
	for _, name := range []string{"alpha", "beta", "gamma"}[:1+c.Intn(3)] {
		o := nsOp{kind: "create", name: name, max: c.genMax(), fac: c.genFactor()}
		ns, err := o.apply(s)
		c.check(err == nil, "creating %s: %v", name, err)
		v := &timed{name: name, handed: map[call]int{}}
		var spans []time.Duration
		for i := 0; i < 20; i++ {
			n := time.Duration(0)
			if c.Intn(4) < slowness {
				n = genSpan(c)
			}
			spans = append(spans, n)
		}
		closingTakes := time.Duration(0)
		if c.Intn(3) == 0 {
			closingTakes = genSpan(c)
		}
		opts := engineOpts{dir: d, name: name}
		opts.batch = func(calls []call) {
			from := time.Now()
			v.busy.Store(true)
			time.Sleep(spans[len(v.batches)%len(spans)])
			v.mu.Lock()
			defer v.mu.Unlock()
			for _, k := range calls {
				v.handed[k] = len(v.batches)
			}
			v.batches = append(v.batches, span{from, time.Now()})
			v.busy.Store(false)
		}
		opts.closing = func(kind string) {
			now := time.Now()
			v.closing.CompareAndSwap(nil, &now)
			v.busy.Store(true)
			time.Sleep(closingTakes)
		}
		v.e = instrument(c, ns, opts)
		all = append(all, v)
	}
	took := func(what string, f func()) {
		from := time.Now()
		f()
		n := time.Since(from)
		c.check(n <= slack, "%s, %s after the start, took %v", what, at(from), n)
	}
	took("starting the service", func() { c.check(s.Start(ctx) == nil, "the service can't be started") })
	for _, v := range all {
		c.check(v.e.openCount("like") == 1, "%s isn't started: %v", v.name, v.e.history())
	}
	var wg sync.WaitGroup
	whenever := genSpan(c)
	some := func() time.Duration {
		if c.Intn(3) == 0 {
			return genSpan(c)
		}
		return time.Duration(c.Int63n(int64(whenever) + 1))
	}
	total := 0
	// Calls that keep coming
	steady := c.Intn(8) == 0
	staggered, gap := c.Intn(8) == 0, time.Duration(1+c.Intn(70))*time.Millisecond
	for i, v := range all {
		v := v
		clients := 1 + c.Intn(1+[]int{1, 4, 12, 40}[c.Intn(4)])
		if c.Intn(10) == 0 {
			// More than there's room for in the queue
			clients = 90 + c.Intn(200)
			v.crowded = true
		}
		first := some()
		for k := 0; k < clients; k++ {
			k := k
			var calls []call
			var pauses []time.Duration
			n := 1 + c.Intn(4)
			if steady && !v.crowded {
				n = 60
			}
			for j := n; j > 0; j-- {
				calls = append(calls, c.genCall(i*1000+k, j))
				pause := some()
				if steady && j < n {
					pause = time.Duration(c.Intn(60000)) * time.Microsecond
				}
				pauses = append(pauses, pause)
			}
			total += len(calls)
			if staggered {
				pauses[0] = first + time.Duration(k)*gap
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j, a := range calls {
					time.Sleep(pauses[j])
					from := time.Now()
					err, wrong := v.e.do(a)
					if wrong != "" {
						c.report("%s", wrong)
					}
					v.mu.Lock()
					v.calls = append(v.calls, timedCall{a, span{from, time.Now()}, err})
					v.mu.Unlock()
				}
			}()
		}
		// When everything is closed
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-v.e.closed
			now := time.Now()
			v.closed.Store(&now)
		}()
	}
	// Everything else that goes on
	meanwhile := 0
	trace := ""
	for i := c.Intn(12); i >= 0; i-- {
		time.Sleep(some())
		v := all[c.Intn(len(all))]
		if v.busy.Load() {
			meanwhile++
		}
		switch k := c.Intn(11); k {
		case 0:
			took("reading of settings", func() { v.e.ns.GetName(); v.e.ns.GetMaxSimilarProfiles(); v.e.ns.GetDislikeFactor(); v.e.ns.GetType() })
		case 1:
			took("changing of settings", func() { v.e.ns.SetMaxSimilarProfiles(7); v.e.ns.SetDislikeFactor(0.25) })
		case 2:
			took("a listing", func() { api.do("GET", nsPath, ""); s.GetNamespaces() })
		case 3:
			took("a lookup", func() { api.do("GET", nsPath+"/"+v.name, ""); s.GetNamespaceByName(mustName(v.name)) })
		case 4:
			took("a creation", func() {
				code, _ := api.do("POST", nsPath, fmt.Sprintf(`{"name":"extra%d","type":"like","dislikeFactor":0.5}`, i))
				c.check(code == 201, "creating: status %d", code)
			})
		case 5:
			took("an update", func() {
				api.do("PUT", nsPath+"/"+v.name, fmt.Sprintf(`{"name":"%s","dislikeFactor":0.5,"maxSimilarProfiles":%d}`, v.name, 1+i))
			})
		case 6:
			took("another start", func() { v.e.ns.Start(ctx); s.Start(ctx) })
		case 7:
			// A client that takes its time for its request
			body := &slowBody{strings.NewReader(fmt.Sprintf(`{"name":"slow%d","type":"like","dislikeFactor":0.5}`, i)), genSpan(c)}
			wg.Add(1)
			go func() {
				defer wg.Done()
				until := time.Now().Add(body.pause)
				req := httptest.NewRequest("POST", nsPath, body)
				req.Header.Set("Content-Type", "application/json")
				w := httptest.NewRecorder()
				api.h.ServeHTTP(w, req)
				if w.Code != 201 || time.Now().After(until.Add(slack)) {
					c.report("a request that arrived %s after the start was answered at %s with %d", at(until), at(time.Now()), w.Code)
				}
			}()
		default:
			if c.Intn(3) > 0 || v.ending.Load() != nil && c.Intn(3) > 0 {
				continue
			}
			now := time.Now()
			v.ending.CompareAndSwap(nil, &now)
			if k == 8 {
				took("a deletion", func() { s.DeleteNamespace(mustName(v.name)) })
			} else {
				took("stopping", v.e.ns.Stop)
			}
		}
	}
	time.Sleep(some())
	now := time.Now()
	for _, v := range all {
		v.ending.CompareAndSwap(nil, &now)
	}
	if c.Intn(2) == 0 {
		cancel()
		trace = "cancelled"
	} else {
		for _, v := range all {
			took("stopping in the end", v.e.ns.Stop)
		}
	}
	wg.Wait()
	for _, v := range all {
		took("a late call", func() {
			err, _ := v.e.do(c.genCall(9000, 1))
			c.check(err != nil, "a call after the end of %s succeeded", v.name)
		})
		judgeTimes(c, v, at)
		trace += fmt.Sprintf("%s: %d calls, %d batches;", v.name, len(v.calls), len(v.batches))
	}
	if meanwhile > 0 {
		c.eval("%s", trace)
	} else {
		c.eval("")
	}
	c.count("timed_calls", int64(total))
	c.count("timed_operations_meanwhile", int64(meanwhile))
	c.sample("%s %d operations while a storage was busy", trace, meanwhile)
}

// The time until which a call made at t may wait for being handed over or refused: one that comes while a batch is
// being collected may miss it.
func (v *timed) patience(t time.Time) time.Time {
	limit := t
	for _, b := range v.batches {
		if b.has(t) && b.to.After(limit) {
			limit = b.to
		}
	}
	limit = limit.Add(slack)
	for _, b := range v.batches {
		if b.from.After(t) && !b.from.After(limit) {
			return b.to.Add(slack)
		}
	}
	return limit
}

// When the batches are over that are processed at the time and those that follow at once: a cancelled namespace may
// go on with what has come meanwhile.
func (v *timed) lastFrom(limit time.Time) time.Time {
	for more := true; more; {
		more = false
		for _, b := range v.batches {
			if !b.from.After(limit.Add(slack)) && b.to.After(limit) {
				limit, more = b.to, true
			}
		}
	}
	return limit
}

func judgeTimes(c *kase, v *timed, at func(time.Time) string) {
	for _, k := range v.calls {
		n, handed := v.handed[k.call]
		if !handed {
			c.check(k.err != nil, "%v of %s succeeded without being processed", k.call, v.name)
			limit := v.patience(k.from)
			if v.crowded {
				// It may have waited for room in the queue
				limit = k.from
				if ending := v.ending.Load(); ending.After(limit) {
					limit = *ending
				}
				limit = v.lastFrom(limit).Add(slack)
			}
			c.check(!k.to.After(limit), "%v of %s, made %s after the start, was refused at %s, though the batches were %s",
				k.call, v.name, at(k.from), at(k.to), v.history(at))
			continue
		}
		b := v.batches[n]
		c.check(v.crowded || !b.from.After(v.patience(k.from)), "%v of %s, made %s after the start, was handed over at %s, though the batches were %s",
			k.call, v.name, at(k.from), at(b.from), v.history(at))
		c.check(!k.to.After(b.to.Add(slack)), "%v of %s, processed until %s, returned at %s", k.call, v.name, at(b.to), at(k.to))
	}
	ending, closing, closed := v.ending.Load(), v.closing.Load(), v.closed.Load()
	c.check(closing != nil && closed != nil, "%s wasn't closed", v.name)
	limit := v.lastFrom(*ending)
	c.check(!closing.After(limit.Add(slack)), "%s, ended %s after the start, was closed at %s, though the batches were %s",
		v.name, at(*ending), at(*closing), v.history(at))
}

func (v *timed) history(at func(time.Time) string) string {
	out := []string{}
	for _, b := range v.batches {
		out = append(out, at(b.from)+" to "+at(b.to))
	}
	if t := v.ending.Load(); t != nil {
		out = append(out, "its end began at "+at(*t))
	}
	return strings.Join(out, ", ")
}
