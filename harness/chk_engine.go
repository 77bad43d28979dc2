package main

import (
	"context"
	"errors"
	"fmt"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"recengine/internal/domain"
	"recengine/internal/infra/recdb"
)

func init() {
	register("C07", "exploration",
		"up to 12 clients make uniquely identifiable calls of every kind to a running namespace over a recording storage, while it's "+
			"stopped or cancelled at random moments (or not at all, before the start, twice, concurrently), under the race "+
			"detector; every answer is matched with what was processed; non-trivial: calls were processed; distinct by outcome",
		func(r *run) {
			r.casesN("answers", r.n(500, 30000), 64, answersCase)
			r.perturbed(150, func() { r.casesN("delayed answers", r.n(300, 20000), 64, answersCase) })
			r.casesN("overload", r.n(24, 300), 8, overloadCase)
			r.virtual("virtual answers", r.n(2500, 200000), answersCase)
			r.virtual("virtual overload", r.n(200, 8000), overloadCase)
			r.perturbedVirtually(150, time.Second, func() {
				r.virtual("virtual delayed answers", r.n(2500, 200000), answersCase)
				r.virtual("virtual delayed overload", r.n(100, 4000), overloadCase)
			})
			r.virtual("virtual life", r.n(24, 300), longLifeCase)
			r.cases("stub", r.n(400, 4000), stubCase)
		})
	register("C08", "exploration",
		"namespaces are stopped, cancelled or fail to start at random moments of a concurrent workload; recorded open, process "+
			"and close events of the storages and the files left are checked; non-trivial: the namespace ran; distinct by the event log",
		func(r *run) {
			r.casesN("stop", r.n(500, 25000), 64, stopCase)
			r.casesN("stopfirst", r.n(100, 1000), 16, stopFirstCase)
			r.perturbed(150, func() {
				r.casesN("delayed stop", r.n(300, 10000), 64, stopCase)
				r.casesN("delayed service", r.n(300, 10000), 32, runningServiceCase)
			})
			r.virtual("virtual stop", r.n(3000, 150000), stopCase)
			r.virtual("virtual failedstart", r.n(2000, 60000), failedStartCase)
			r.virtual("virtual service", r.n(1500, 60000), runningServiceCase)
			r.perturbedVirtually(150, time.Second, func() {
				r.virtual("virtual delayed stop", r.n(2500, 150000), stopCase)
				r.virtual("virtual delayed service", r.n(1500, 60000), runningServiceCase)
			})
			r.casesN("delete", r.n(200, 3000), 16, deleteNamespaceCase)
		})
	register("C09", "exploration",
		"while a batch is being processed, 1 to 250 clients are queued one after another (each is seen blocked before the next "+
			"one begins), then the batch ends and the batches that follow are compared with the order of arrival; distinct by "+
			"the number of clients and the kinds of calls",
		func(r *run) {
			r.casesN("backlog", r.n(10, 300), 1, backlogCase)
			r.virtual("virtual backlog", r.n(2500, 60000), backlogCase)
		})
	register("C10", "fault_enumeration",
		"a namespace works with real delta and index files; each mutating file operation of the start, the work and the stop "+
			"in turn fails or is the last one before a crash (torn writes included), then the namespace is started again and "+
			"what its storages contain is compared with what was saved before; evaluations: points; distinct by point and history",
		func(r *run) {
			r.casesN("crash", r.n(20, 900), 48, func(c *kase) { enginePointsCase(c, true) })
			r.casesN("fault", r.n(20, 900), 48, func(c *kase) { enginePointsCase(c, false) })
			r.virtual("virtual crash", r.n(300, 20000), func(c *kase) { enginePointsCase(c, true) })
			r.virtual("virtual fault", r.n(300, 20000), func(c *kase) { enginePointsCase(c, false) })
			r.virtual("virtual garbage", r.n(3000, 100000), engineGarbageCase)
		})
}

// Checks the answers against what was processed.
func judgeAnswers(c *kase, e *engine, perClient [][]call, errs [][]error) (processed, stopped int) {
	at := map[call][]int{}
	for i, k := range e.processedCalls() {
		at[k] = append(at[k], i)
	}
	made, succeeded := map[call]int{}, map[call]int{}
	for client, calls := range perClient {
		last := -1
		for i, k := range calls {
			made[k]++
			if errs[client][i] != nil {
				stopped++
				continue
			}
			succeeded[k]++
			processed++
			c.check(len(at[k]) > 0, "%v succeeded, but it wasn't processed", k)
			// The first time it may have been processed, considering the calls before
			next := -1
			for _, pos := range at[k] {
				if pos > last {
					next = pos
					break
				}
			}
			c.check(next >= 0, "%v was processed before an earlier call of the same client", k)
			last = next
		}
	}
	for k, times := range at {
		c.check(made[k] > 0, "%v was processed, but nobody made this call", k)
		c.check(len(times) <= made[k], "%v was processed %d times, but made %d times", k, len(times), made[k])
		c.check(len(times) <= succeeded[k], "%v failed %d times and succeeded %d times, but it was processed %d times", k, made[k]-succeeded[k],
			succeeded[k], len(times))
	}
	for k, n := range succeeded {
		c.check(len(at[k]) >= n, "%v succeeded %d times, but it was processed %d times", k, n, len(at[k]))
	}
	return
}

func noMisuse(c *kase, e *engine) {
	if m := e.misuse(); len(m) > 0 {
		c.fail("%v", m)
	}
}

func answersCase(c *kase) {
	d := c.dir()
	defer c.rmdir(d)
	opts := engineOpts{dir: d, name: "n"}
	slow := time.Millisecond
	if bubbled() && c.Intn(2) == 0 {
		// Any batch can take as long as it likes
		slow = []time.Duration{100 * time.Millisecond, 5 * time.Second, time.Minute, time.Hour, 50 * time.Hour}[c.Intn(5)]
		seed := uint64(c.Int63())
		n := uint64(0)
		opts.batch = func([]call) {
			n++
			time.Sleep(time.Duration(seed * n >> 8 % uint64(slow)))
		}
		c.log("batches take up to %v", slow)
	}
	e := newEngine(c, opts)
	defer e.cancel()
	clients := 1 + c.Intn(12)
	repeats := c.Intn(3) == 0
	special := []uint64{edgeIDs[c.Intn(len(edgeIDs))], edgeIDs[c.Intn(len(edgeIDs))]}
	perClient := make([][]call, clients)
	errs := make([][]error, clients)
	for k := range perClient {
		for i := 1 + c.Intn(4); i > 0; i-- {
			a := c.genCall(k, i)
			if repeats {
				// Few different calls, many of them equal
				ids := special
				a.user, a.item = ids[c.Intn(2)], 0
				switch a.kind {
				case domain.ActionLike, domain.ActionDislike, domain.ActionDeleteItem:
					a.item = ids[c.Intn(2)]
				}
			}
			perClient[k] = append(perClient[k], a)
		}
		errs[k] = make([]error, len(perClient[k]))
	}
	// How and when it ends, and whether the start races with the calls
	end := c.Intn(6) // 0: after everything, 1: Stop, 2: cancel, 3: both, 4: many stops, 5: before the start
	endAt := time.Duration(c.Intn(160000)) * time.Microsecond
	if c.Intn(2) == 0 {
		endAt += time.Duration(c.Int63n(int64(2 * slow)))
	}
	lateStart := c.Intn(5) == 0
	if end == 5 {
		e.ns.Stop()
		err := e.start()
		c.check(err != nil, "a stopped namespace was started")
	} else if !lateStart {
		c.check(e.start() == nil, "the namespace can't be started")
	}
	var wg sync.WaitGroup
	if lateStart && end != 5 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if err := e.start(); err != nil && (end == 0 || end == 2) {
				c.report("the namespace can't be started: %v", err)
			}
		}()
	}
	pause := make([]time.Duration, clients)
	for k := range pause {
		pause[k] = time.Duration(c.Intn(80000)) * time.Microsecond
		if c.Intn(2) == 0 {
			pause[k] = 0
		}
	}
	// Nobody may call for hours or months
	idle := make([]time.Duration, clients)
	if bubbled() && c.Intn(3) == 0 {
		for k := range idle {
			idle[k] = time.Duration(c.Int63n(int64([]time.Duration{time.Minute, time.Hour, 100 * time.Hour, 5000 * time.Hour}[c.Intn(4)])))
		}
	}
	for k := range perClient {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			time.Sleep(pause[k])
			for i, a := range perClient[k] {
				time.Sleep(idle[k])
				err, wrong := e.do(a)
				errs[k][i] = err
				if wrong != "" {
					c.report("%s", wrong)
				}
				atomic.AddInt64(&c.r.progress, 1)
			}
		}(k)
	}
	if end > 0 && end < 5 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(endAt)
			switch end {
			case 1:
				e.ns.Stop()
			case 2:
				e.cancel()
			case 3:
				go e.cancel()
				e.ns.Stop()
			case 4:
				for i := 0; i < 3; i++ {
					go e.ns.Stop()
				}
				e.ns.Stop()
			}
		}()
	}
	wg.Wait()
	if end == 0 || end == 2 {
		e.ns.Stop()
	}
	if len(e.history()) > 0 {
		e.waitClosed()
	}
	// The calls that follow are answered too
	err, wrong := e.do(c.genCall(99, 1))
	c.check(err != nil && wrong == "", "a stopped namespace answered a call without an error %s", wrong)
	processed, stopped := judgeAnswers(c, e, perClient, errs)
	if end == 0 && !lateStart {
		c.check(stopped == 0, "%d calls to a running namespace failed: %v", stopped, errs)
	}
	noMisuse(c, e)
	if processed > 0 {
		c.eval("%d %d %d %d %v", clients, processed, stopped, end, e.batches)
	} else {
		c.eval("")
	}
	c.count("processed_calls", int64(processed))
	c.count("refused_calls", int64(stopped))
	c.count("batches", int64(len(e.batches)))
	c.sample("%d clients, end %d at %v, late start %v: %d processed, %d refused, batches %v", clients, end, endAt, lateStart,
		processed, stopped, e.batches)
}

// A namespace that answers thousands of calls in a row.
func longLifeCase(c *kase) {
	d := c.dir()
	defer c.rmdir(d)
	e := newEngine(c, engineOpts{dir: d, name: "n"})
	defer e.cancel()
	c.check(e.start() == nil, "the namespace can't be started")
	clients := 1 + c.Intn(3)
	n := (1000 + c.Intn(5000)) / clients
	if c.index == 0 {
		clients, n = 1, 70000
	}
	calls, errs := make([][]call, clients), make([][]error, clients)
	var wg sync.WaitGroup
	for k := range calls {
		errs[k] = make([]error, n)
		for i := 0; i < n; i++ {
			a := c.genCall(k, i%256)
			a.user = uint64(k)<<32 | uint64(i)
			calls[k] = append(calls[k], a)
		}
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			for i, a := range calls[k] {
				err, wrong := e.do(a)
				errs[k][i] = err
				if err != nil || wrong != "" {
					c.report("call %d of a client: %v: %v %s", i, a, err, wrong)
					return
				}
			}
		}(k)
	}
	wg.Wait()
	e.ns.Stop()
	e.waitClosed()
	processed, _ := judgeAnswers(c, e, calls, errs)
	noMisuse(c, e)
	c.count("processed_calls", int64(processed))
	c.count("batches", int64(len(e.batches)))
	c.eval("%d %d %d", clients, n, len(e.batches))
	c.sample("%d clients made %d calls each, processed in %d batches", clients, n, len(e.batches))
}

// More clients than fit into the queue, stopped or not.
func overloadCase(c *kase) {
	d := c.dir()
	defer c.rmdir(d)
	gate := make(chan struct{})
	var once sync.Once
	e := newEngine(c, engineOpts{dir: d, name: "n", batch: func([]call) { <-gate }})
	defer e.cancel()
	c.check(e.start() == nil, "the namespace can't be started")
	clients := 90 + c.Intn(200)
	perClient := make([][]call, clients)
	errs := make([][]error, clients)
	var wg sync.WaitGroup
	for k := range perClient {
		perClient[k] = []call{c.genCall(k, 1)}
		errs[k] = make([]error, 1)
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			err, wrong := e.do(perClient[k][0])
			errs[k][0] = err
			if wrong != "" {
				c.report("%s", wrong)
			}
			atomic.AddInt64(&c.r.progress, 1)
		}(k)
	}
	end := c.Intn(4)
	openFirst := c.Intn(2) == 0
	time.Sleep(time.Duration(c.Intn(200)) * time.Millisecond)
	open := func() { once.Do(func() { close(gate) }) }
	if openFirst {
		open()
		time.Sleep(time.Duration(c.Intn(60)) * time.Millisecond)
	}
	switch end {
	case 1:
		go e.ns.Stop()
	case 2:
		e.cancel()
	case 3:
		go e.ns.Stop()
		go e.ns.Stop()
		e.cancel()
	}
	time.Sleep(time.Duration(c.Intn(30)) * time.Millisecond)
	open()
	wg.Wait()
	e.ns.Stop()
	e.waitClosed()
	processed, stopped := judgeAnswers(c, e, perClient, errs)
	if end == 0 {
		c.check(stopped == 0, "%d calls to a running namespace failed", stopped)
	}
	noMisuse(c, e)
	c.eval("%d %d %d %v", clients, processed, end, e.batches)
	c.count("processed_calls", int64(processed))
	c.count("refused_calls", int64(stopped))
	c.sample("%d clients, end %d: %d processed, %d refused, batches %v", clients, end, processed, stopped, e.batches)
}

// The like storage there is answers every action once, in one of its channels.
func stubCase(c *kase) {
	s := recdb.NewLikeStorage()
	type reply struct {
		a        domain.Action
		profile  chan *domain.Profile
		profiles chan *[]domain.SimilarProfile
		items    chan *[]domain.RecItem
	}
	kinds := []domain.ActionType{}
	var replies []reply
	var actions []domain.Action
	for i := c.Intn(30); i >= 0; i-- {
		k := callKinds[c.Intn(len(callKinds))]
		q := reply{a: domain.Action{ActionType: k, Error: make(chan error, 3)}}
		q.profile, q.profiles, q.items = make(chan *domain.Profile, 3), make(chan *[]domain.SimilarProfile, 3), make(chan *[]domain.RecItem, 3)
		user, item := genID(c.Rand), genID(c.Rand)
		switch k {
		case domain.ActionDeleteProfile:
			q.a.Payload = domain.DeleteProfilePayload{UserID: user}
		case domain.ActionGetProfile:
			q.a.Payload = domain.GetProfilePayload{UserID: user, Profile: q.profile}
		case domain.ActionGetSimilarProfiles:
			q.a.Payload = domain.GetSimilarProfilesPayload{UserID: user, Profiles: q.profiles}
		case domain.ActionRecommendItems:
			q.a.Payload = domain.RecommendItemsPayload{UserID: user, Items: q.items}
		default:
			q.a.Payload = domain.LikePayload{UserID: user, ItemID: item}
		}
		kinds = append(kinds, k)
		replies = append(replies, q)
		actions = append(actions, q.a)
	}
	if c.Intn(3) == 0 {
		i := c.Intn(len(actions))
		kinds[i] = 100 + c.Intn(100)
		actions[i].ActionType = kinds[i]
	}
	err := s.ProcessActions(actions)
	c.check(err == nil, "processing %v: %v", kinds, err)
	for i, q := range replies {
		n := len(q.a.Error) + len(q.profile) + len(q.profiles) + len(q.items)
		c.check(n == 1, "action %d of %v got %d answers", i, kinds, n)
		if kinds[i] >= 100 {
			c.check(len(q.a.Error) == 1 && <-q.a.Error != nil, "the unknown action %d got no error", kinds[i])
		}
	}
	c.check(s.Close() == nil, "closing failed")
	c.eval("%v", kinds)
	c.count("direct_answers", int64(len(replies)))
}

// Applies the calls to the real delta and index storages and to their models.
type engineModel struct {
	sync.Mutex
	delta    []deltaRec
	index    map[uint64]uint64
	flushed  int // how many of the delta operations are known to be saved
	flushing bool
}

func newEngineModel() *engineModel { return &engineModel{index: map[uint64]uint64{}} }

func (m *engineModel) apply(e *engine, k call, d domain.DeltaStorage, x domain.IndexStorage) {
	m.Lock()
	defer m.Unlock()
	switch k.kind {
	case domain.ActionLike, domain.ActionDislike:
		op := domain.DeltaOpAdd
		if k.kind == domain.ActionDislike {
			op = domain.DeltaOpRemove
		}
		m.delta = append(m.delta, deltaRec{byte(op), k.user, k.item})
		d.Add(op, k.user, k.item)
	case domain.ActionDeleteItem:
		n := len(m.delta)
		if d.Flush() == nil {
			m.flushed = n
		}
	case domain.ActionDeleteProfile:
		delete(m.index, k.user%16)
		x.Remove(k.user % 16)
	default:
		m.index[k.user%16] = k.user
		x.Put(k.user%16, k.user)
	}
}

// The files of a namespace that was stopped in an orderly way.
func checkFiles(c *kase, dir, name string, m *engineModel, when string) {
	locked, recs, err := decDelta(readFile(dir + name + ".delta"))
	c.check(err == nil, "%s: the delta file: %v", when, err)
	c.check(locked == 0, "%s: the delta file is locked", when)
	model := newDeltaModel(nil)
	for _, r := range m.delta {
		model.add(r)
	}
	last := map[pair]byte{}
	for _, r := range recs {
		last[pair{r.user, r.item}] = r.op
	}
	for _, p := range model.keys() {
		op, _ := model.get(p)
		got, ok := last[p]
		c.check(ok && got == op, "%s: the last operation of %v in the delta file is %c (%v), expected %c", when, p, got, ok, op)
	}
	c.check(len(last) == len(model.keys()), "%s: %d pairs in the delta file, expected %d", when, len(last), len(model.keys()))
	locked, got, err := decIndex(readFile(dir + name + ".index"))
	c.check(err == nil, "%s: the index file: %v", when, err)
	c.check(locked == 0, "%s: the index file is locked", when)
	c.check(sameMap(got, m.index), "%s: the index file has %v, expected %v", when, got, m.index)
}

func stopCase(c *kase) {
	d := c.dir()
	defer c.rmdir(d)
	m := newEngineModel()
	sessions := 1 + c.Intn(2)
	logs := ""
	for session := 0; session < sessions; session++ {
		opts := engineOpts{dir: d, name: "n", apply: m.apply}
		if c.Intn(4) == 0 {
			opts.closeFault = []string{"like", "index", "delta"}[c.Intn(3)]
		}
		e := newEngine(c, opts)
		c.check(e.start() == nil, "the namespace can't be started (session %d)", session)
		c.check(e.start() != nil, "the namespace was started twice")
		clients := c.Intn(6)
		var wg sync.WaitGroup
		for k := 0; k < clients; k++ {
			var calls []call
			for i := 1 + c.Intn(4); i > 0; i-- {
				calls = append(calls, c.genCall(session*100+k, i))
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, a := range calls {
					if _, wrong := e.do(a); wrong != "" {
						c.report("%s", wrong)
					}
				}
			}()
		}
		time.Sleep(time.Duration(c.Intn(150000)) * time.Microsecond)
		how := c.Intn(4)
		switch how {
		case 0:
			e.ns.Stop()
		case 1:
			e.cancel()
		case 2:
			go e.ns.Stop()
			go e.ns.Stop()
			e.cancel()
		default:
			e.ns.Stop()
			e.ns.Stop()
			e.cancel()
		}
		if !e.closes() {
			c.fail("the storages weren't closed after stopping (way %d): %v", how, e.history())
		}
		n := len(e.processedCalls())
		c.check(e.ns.Start(context.Background()) != nil, "a stopped namespace was started again")
		wg.Wait()
		c.check(len(e.processedCalls()) == n, "actions were processed after the storages had been closed")
		for _, kind := range []string{"like", "index", "delta"} {
			opens, closes := 0, 0
			for _, ev := range e.history() {
				if ev == "open "+kind {
					opens++
				}
				if ev == "close "+kind {
					closes++
				}
			}
			c.check(opens == 1 && closes == 1, "the %s storage was opened %d times and closed %d times", kind, opens, closes)
		}
		noMisuse(c, e)
		m.Lock()
		checkFiles(c, d, "n", m, fmt.Sprintf("session %d stopped in way %d after %d actions", session, how, n))
		m.Unlock()
		logs += fmt.Sprintf("%d %v %d;", how, e.batches, n)
		c.count("processed_calls", int64(n))
		if n > 0 {
			c.eval("%s", logs)
		} else {
			c.eval("")
		}
		e.cancel()
	}
	c.sample("%d sessions: %s", sessions, logs)
}

var errOpen = errors.New("injected failure of opening")

func failedStartCase(c *kase) {
	d := c.dir()
	defer c.rmdir(d)
	m := newEngineModel()
	// Something to lose
	if c.Intn(2) == 0 {
		e := newEngine(c, engineOpts{dir: d, name: "n", apply: m.apply})
		c.check(e.start() == nil, "the namespace can't be started")
		for i := 0; i < 4; i++ {
			e.do(c.genCall(0, i))
		}
		e.ns.Stop()
		e.waitClosed()
	}
	var mu sync.Mutex
	failing := []string{"delta", "index", "like"}[c.Intn(3)]
	fails := 1 + c.Intn(2)
	e := newEngine(c, engineOpts{dir: d, name: "n", apply: m.apply, openFault: func(kind string) error {
		mu.Lock()
		defer mu.Unlock()
		if kind == failing && fails > 0 {
			fails--
			return errOpen
		}
		return nil
	}})
	defer e.cancel()
	way := c.Intn(3)
	var blocker string
	if way == 0 {
		// A real reason: the name of the file is taken by a directory
		fails = 0
		ext := map[string]string{"delta": "delta", "index": "index", "like": "recdb"}[failing]
		blocker = d + "n." + ext
		saved := readFile(blocker)
		os.Remove(blocker)
		os.Mkdir(blocker, 0755)
		c.check(e.start() != nil, "the namespace was started, though %s is a directory", blocker)
		os.Remove(blocker)
		if saved != nil {
			os.WriteFile(blocker, saved, 0644)
		}
	} else {
		for n := fails; n > 0; n-- {
			err := e.start()
			c.check(err != nil, "the namespace was started, though the %s storage can't be opened", failing)
			c.check(errors.Is(err, errOpen), "the reason of the failure is lost: %v", err)
		}
	}
	for _, kind := range []string{"delta", "index", "like"} {
		c.check(e.openCount(kind) == 0, "the %s storage isn't closed after a failed start (%s failed): %v", kind, failing, e.history())
	}
	for _, f := range []struct {
		ext string
		off int
	}{{"delta", 9}, {"index", 7}} {
		b := readFile(d + "n." + f.ext)
		c.check(len(b) <= f.off || b[f.off] == 0, "the %s file is locked after a failed start (%s failed)", f.ext, failing)
	}
	err, wrong := e.do(c.genCall(5, 5))
	c.check(err != nil && wrong == "", "a namespace that isn't started answered without an error")
	// The next attempt works
	e.mu.Lock()
	e.closed = make(chan struct{})
	e.mu.Unlock()
	c.check(e.start() == nil, "the namespace can't be started after a failed start (%s failed)", failing)
	for i := 0; i < 2; i++ {
		err, wrong = e.do(c.genCall(7, i))
		c.check(err == nil && wrong == "", "a call after a retried start: %v %s", err, wrong)
	}
	e.ns.Stop()
	e.waitClosed()
	noMisuse(c, e)
	m.Lock()
	checkFiles(c, d, "n", m, "after a failed and a retried start")
	m.Unlock()
	c.eval("%s %d %v", failing, way, m.delta)
	c.sample("%s failed in way %d: %v", failing, way, e.history())
}

// A namespace that was stopped before it was ever started.
func stopFirstCase(c *kase) {
	d := c.dir()
	defer c.rmdir(d)
	failing := c.Intn(3) == 0
	e := newEngine(c, engineOpts{dir: d, name: "n", openFault: func(kind string) error {
		if failing && kind == "like" {
			return errOpen
		}
		return nil
	}})
	defer e.cancel()
	if failing {
		c.check(e.start() != nil, "the namespace was started, though its like storage can't be opened")
		failing = false
	}
	e.ns.Stop()
	if c.Intn(2) == 0 {
		e.ns.Stop()
	}
	for i := 0; i < 2; i++ {
		c.check(e.start() != nil, "a stopped namespace was started")
	}
	for _, kind := range []string{"delta", "index", "like"} {
		c.check(e.openCount(kind) == 0, "a refused start left the %s storage open: %v", kind, e.history())
	}
	err, wrong := e.do(c.genCall(1, 1))
	c.check(err != nil && wrong == "", "a stopped namespace answered without an error %s", wrong)
	noMisuse(c, e)
	c.eval("%d", c.index)
}

// Deleting, stopping and renaming namespaces of a service never blocks or panics.
func deleteNamespaceCase(c *kase) {
	d := c.dir()
	defer c.rmdir(d)
	s := newService(d)
	for _, n := range []string{"a", "b"} {
		_, err := nsOp{kind: "create", name: n, fac: 0.5}.apply(s)
		c.check(err == nil, "creating %s: %v", n, err)
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	c.check(s.Start(ctx) == nil, "the service can't be started")
	a := s.GetNamespaceByName(mustName("a"))
	var wg sync.WaitGroup
	wg.Add(2)
	go func() { defer wg.Done(); a.Stop() }()
	var derr error
	go func() { defer wg.Done(); _, derr = nsOp{kind: "delete", name: "a"}.apply(s) }()
	if c.Intn(2) == 0 {
		cancel()
	}
	wg.Wait()
	c.check(derr == nil, "deleting a namespace: %v", derr)
	a.Stop()
	c.check(a.Start(ctx) != nil, "a deleted namespace was started")
	compareRestarted(c, d, map[string]nsState{"b": {"b", "like", 1000, 0.5}}, "after deleting")
	c.eval("%d", c.index)
}

func backlogCase(c *kase) {
	d := c.dir()
	defer c.rmdir(d)
	gate := make(chan struct{})
	entered := make(chan struct{})
	first := true
	e := newEngine(c, engineOpts{dir: d, name: "n", batch: func([]call) {
		if first {
			first = false
			close(entered)
			<-gate
		}
	}})
	defer e.cancel()
	c.check(e.start() == nil, "the namespace can't be started")
	n := []int{1, 2, 3, 10, 50, 99, 100, 101, 102, 150, 250}[c.Intn(11)]
	if c.Intn(3) == 0 {
		n = 1 + c.Intn(100)
	} else if d := dictSize(c.Rand, 3, 300); d > 0 && c.Intn(6) == 0 {
		n = d + c.Intn(3)
	}
	calls := make([]call, n+1)
	var wg sync.WaitGroup
	launch := func(i int) string {
		calls[i] = c.genCall(i, i%200)
		id := make(chan string, 1)
		wg.Add(1)
		go func() {
			defer wg.Done()
			id <- goroutineID()
			if err, wrong := e.do(calls[i]); err != nil || wrong != "" {
				c.report("%v: %v %s", calls[i], err, wrong)
			}
			atomic.AddInt64(&c.r.progress, 1)
		}()
		return <-id
	}
	launch(0)
	<-entered
	ok := true
	queued := 0 // those waiting for an answer, not for a place in the queue
	if bubbled() {
		// Time passes when everybody waits
		ids := map[string]bool{}
		for i := 1; i <= n; i++ {
			ids[launch(i)] = true
			time.Sleep(time.Duration(1+c.Intn(1000)) * time.Microsecond)
		}
		for _, s := range allStacks() {
			id, _, _ := strings.Cut(strings.TrimPrefix(s, "goroutine "), " ")
			if st := stackState(s); ids[id] && (strings.HasPrefix(st, "chan receive") || strings.HasPrefix(st, "select")) {
				queued++
			}
		}
	}
	for i := 1; i <= n && !bubbled(); i++ {
		switch st := waitBlocked(launch(i)); {
		case st == "":
			ok = false
		case strings.HasPrefix(st, "chan receive") || strings.HasPrefix(st, "select"):
			queued++
		}
		atomic.AddInt64(&c.r.progress, 1)
	}
	close(gate)
	wg.Wait()
	e.ns.Stop()
	e.waitClosed()
	if !ok {
		c.inconclusive("a client wasn't seen blocked")
		return
	}
	got := e.processedCalls()
	c.check(len(got) == n+1, "%d calls were processed of %d", len(got), n+1)
	for i := range got {
		c.check(got[i] == calls[i], "the call that arrived as number %d of %d was processed as number %d", i, n, indexOfCall(got, calls[i]))
	}
	batches := e.batches[1:]
	c.check(e.batches[0] == 1, "the first batch has %d actions", e.batches[0])
	if queued > 100 {
		queued = 100
	}
	c.check(len(batches) > 0 && batches[0] >= queued, "%d calls were queued, but the batches that follow are %v", queued, batches)
	c.eval("%d %v", n, calls)
	c.count("queued_clients", int64(n))
	c.sample("%d queued clients: batches %v", n, batches)
}

func indexOfCall(a []call, k call) int {
	for i := range a {
		if a[i] == k {
			return i
		}
	}
	return -1
}

// Runs a namespace from the start to the stop; returns the model of what it did.
// If the namespace can't be started, returns the error.
func engineSession(c *kase, d string, m *engineModel, calls []call) (*engine, error) {
	e := newEngine(c, engineOpts{dir: d, name: "n", apply: m.apply})
	if err := e.start(); err != nil {
		e.cancel()
		return e, err
	}
	// All at once, so that they make few batches; the order of the calls of a pair
	// isn't important, since the model records the order of processing
	var wg sync.WaitGroup
	for _, a := range calls {
		wg.Add(1)
		go func(a call) {
			defer wg.Done()
			e.do(a)
		}(a)
		runtime.Gosched()
	}
	wg.Wait()
	e.ns.Stop()
	e.waitClosed()
	e.cancel()
	return e, nil
}

func (c *kase) sessionCalls(session int) []call {
	var calls []call
	for i := 1 + c.Intn(10); i > 0; i-- {
		a := c.genCall(session, i)
		if c.Intn(2) == 0 {
			a = call{kind: domain.ActionLike + c.Intn(2), user: uint64(c.Intn(3)), item: uint64(c.Intn(3))}
		}
		calls = append(calls, a)
	}
	if c.Intn(2) == 0 {
		calls = append(calls, call{kind: domain.ActionDeleteItem, user: 77, item: uint64(session)})
	}
	return calls
}

// Opens the namespace again and compares its storages with what was saved.
// saved: operations known to be saved; maybe: operations that could have been.
func checkReopened(c *kase, d string, saved, maybe []deltaRec, indexes []map[uint64]uint64, when string) *engineModel {
	m := newEngineModel()
	var failed string
	seen := false
	e := newEngine(c, engineOpts{dir: d, name: "n", apply: func(e *engine, k call, ds domain.DeltaStorage, x domain.IndexStorage) {
		if seen {
			return
		}
		seen = true
		// The last operation of a pair is the one saved last, or a later one
		allowed := map[pair]map[byte]bool{}
		must := map[pair]bool{}
		for _, r := range saved {
			p := pair{r.user, r.item}
			allowed[p] = map[byte]bool{r.op: true}
			must[p] = true
		}
		for _, r := range maybe {
			p := pair{r.user, r.item}
			if allowed[p] == nil {
				allowed[p] = map[byte]bool{}
			}
			allowed[p][r.op] = true
		}
		count := 0
		for p, ops := range allowed {
			op, ok := ds.Get(p.user, p.item)
			if ok {
				count++
				m.delta = append(m.delta, deltaRec{byte(op), p.user, p.item})
			}
			if (!ok && must[p]) || (ok && !ops[byte(op)]) {
				failed = fmt.Sprintf("%s: the operation of %v is %c (%v), expected one of %v", when, p, op, ok, ops)
				return
			}
		}
		match := false
		for _, want := range indexes {
			same := true
			for id := uint64(0); id < 16; id++ {
				got, ok := x.Get(id)
				w, has := want[id]
				same = same && ok == has && got == w
			}
			if same {
				match = true
				for id, v := range want {
					m.index[id] = v
				}
				break
			}
		}
		if !match {
			failed = fmt.Sprintf("%s: the index is neither empty nor one of %v", when, indexes)
		}
	}})
	defer e.cancel()
	err := e.start()
	c.check(err == nil, "%s: the namespace can't be started: %v", when, err)
	_, wrong := e.do(call{kind: domain.ActionGetProfile, user: 1})
	c.check(wrong == "" && seen, "%s: a call failed %s", when, wrong)
	c.check(failed == "", "%s", failed)
	e.ns.Stop()
	e.waitClosed()
	checkFiles(c, d, "n", m, when+", after an orderly session")
	return m
}

func enginePointsCase(c *kase, crash bool) {
	calls0, calls1 := c.sessionCalls(0), c.sessionCalls(1)
	prepared := c.Intn(3) > 0 // there are files of a session before
	// That session didn't end properly, so that the point may be in the recovery
	dirty, cut := prepared && c.Intn(2) == 0, -1
	if dirty && c.Intn(2) == 0 {
		cut = c.Intn(40)
	}
	for at := 0; at < 200; at++ {
		d := c.dir()
		m := newEngineModel()
		if prepared {
			_, err := engineSession(c, d, m, calls0)
			c.check(err == nil, "the namespace can't be started: %v", err)
		}
		if dirty {
			_, recs, err := decDelta(readFile(d + "n.delta"))
			c.check(err == nil, "the delta file: %v", err)
			os.WriteFile(d+"n.delta", append(encDelta(1, recs), make([]byte, c.Intn(deltaEntry))...), 0644)
			x := readFile(d + "n.index")
			x[indexHdr-5] = 1
			if cut >= 0 && cut < len(x) {
				x = x[:cut]
			}
			os.WriteFile(d+"n.index", x, 0644)
			m.index = map[uint64]uint64{}
		}
		saved := append([]deltaRec{}, m.delta...)
		oldIndex := copyMap(m.index)
		m.flushed = len(m.delta)
		f := &fsFault{at: at, only: true, partial: []int{0, 1, 5, 17, 18, 19, 40, 1 << 29, 1 << 30}[c.Intn(9)], crash: crash, burst: 1 + c.Intn(3)}
		setFSHook(d, f.hook)
		e, err := engineSession(c, d, m, calls1)
		setFSHook(d, nil)
		if !f.fired() {
			c.check(err == nil, "the namespace can't be started: %v", err)
			noMisuse(c, e)
			checkFiles(c, d, "n", m, "a session without faults")
			c.rmdir(d)
			c.sample("%d points, %d and %d calls", at, len(calls0), len(calls1))
			break
		}
		when := fmt.Sprintf("operation %d (%s, %d bytes of a write), crash %v, files left locked before %v, start %v", at, f.what(), f.partial,
			crash, dirty, err)
		c.log("%s", when)
		if err != nil {
			c.check(e.openCount("delta") == 0 && e.openCount("index") == 0 && e.openCount("like") == 0,
				"%s: storages are left open: %v", when, e.history())
		}
		m.Lock()
		saved = append(saved[:0:0], m.delta[:m.flushed]...)
		maybe := append([]deltaRec{}, m.delta[m.flushed:]...)
		indexes := []map[uint64]uint64{{}, copyMap(oldIndex), copyMap(m.index)}
		m.Unlock()
		m2 := checkReopened(c, d, saved, maybe, indexes, when)
		// And once more
		checkReopened(c, d, m2.delta, nil, []map[uint64]uint64{copyMap(m2.index)}, when+", second restart")
		c.eval("%d %s %v %v %v", at, f.what(), calls1, prepared, dirty)
		c.rmdir(d)
	}
}

// Whatever a crash left of the files, the namespace can be started.
func engineGarbageCase(c *kase) {
	d := c.dir()
	defer c.rmdir(d)
	var recs []deltaRec
	for i := c.Intn(6); i > 0; i-- {
		recs = append(recs, deltaRec{"+-"[c.Intn(2)], uint64(c.Intn(3)), uint64(c.Intn(3))})
	}
	df := encDelta(1, recs)
	cut := c.Intn(len(df) + 1)
	kept := recs
	if c.Intn(2) == 0 {
		df = df[:cut]
		kept = nil
		if cut >= deltaHdr {
			kept = recs[:(cut-deltaHdr)/deltaEntry]
		}
	}
	if len(df) < deltaHdr {
		kept = nil
	}
	os.WriteFile(d+"n.delta", df, 0644)
	im, ids := map[uint64]uint64{}, []uint64{}
	entries := uint64(c.Intn(6))
	if c.Intn(16) == 0 {
		entries = uint64(300 + c.Intn(3000))
		if d := dictSize(c.Rand, 100, 5000); d > 0 && c.Intn(3) == 0 {
			entries = uint64(d + c.Intn(5))
		}
	}
	for i := uint64(0); i < entries; i++ {
		ids = append(ids, i)
		im[i] = genID(c.Rand)
	}
	// A locked index, or one that was closed properly and is cut short
	mark := byte(c.Intn(2))
	xf := encIndex(mark, ids, im)
	whole := len(xf)
	if c.Intn(4) > 0 {
		cut := c.Intn(len(xf) + 1)
		if c.Intn(2) == 0 {
			cut = len(xf) - c.Intn(min(len(xf), 40))
		}
		xf = xf[:cut]
	}
	want := map[uint64]uint64{}
	if mark == 0 && len(xf) == whole {
		want = im
	}
	os.WriteFile(d+"n.index", xf, 0644)
	if c.Intn(3) == 0 {
		os.WriteFile(d+"n.recdb", encRecdb(1, nil)[:c.Intn(recdbHdr+1)], 0644)
	}
	when := fmt.Sprintf("a locked delta file of %d bytes and %d of %d bytes of an index file with the mark %d", len(df), len(xf), whole, mark)
	c.log("%s", when)
	checkReopened(c, d, lastOps(kept), nil, []map[uint64]uint64{want}, when)
	c.eval("%x %x %x", byteHash(df), len(xf), mark)
	c.sample("%s", when)
}

// The last operation of each pair.
func lastOps(recs []deltaRec) []deltaRec {
	m := newDeltaModel(recs)
	var a []deltaRec
	for _, p := range m.keys() {
		op, _ := m.get(p)
		a = append(a, deltaRec{op, p.user, p.item})
	}
	return a
}
