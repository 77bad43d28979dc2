package main

import (
	"context"
	"fmt"
	"os"
	"reflect"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"

	"recengine/internal/domain"
	"recengine/internal/infra/delta"
	"recengine/internal/infra/index"
)

// Sets the field of the type; false if there is none.
func inject[T any](object any, value T) bool {
	v := reflect.ValueOf(object)
	if v.Kind() != reflect.Pointer {
		return false
	}
	return injectInto(v.Elem(), value)
}

func injectInto[T any](v reflect.Value, value T) bool {
	if v.Kind() != reflect.Struct {
		return false
	}
	want := reflect.TypeOf((*T)(nil)).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Type() == want {
			*(*T)(unsafe.Pointer(f.UnsafeAddr())) = value
			return true
		}
		if injectInto(f, value) {
			return true
		}
	}
	return false
}

// Makes a namespace of a service work with recorded storages, since there are no like storages to work with yet.
func instrument(c *kase, ns domain.Namespace, opts engineOpts) *engine {
	e := &engine{opts: opts, open: map[string]int{}, closed: make(chan struct{})}
	like, ok := ns.(likeNS)
	if !ok {
		c.inconclusive("the namespaces of a service don't have the methods of like namespaces")
	}
	e.ns = like
	if !inject[domain.LikeStorageFactory](ns, &recLikeFactory{e}) ||
		!inject[domain.DeltaStorageFactory](ns, &recDeltaFactory{e, delta.NewStorageFactory()}) ||
		!inject[domain.IndexStorageFactory](ns, &recIndexFactory{e, index.NewStorageFactory()}) {
		c.inconclusive("the storage factories of a namespace can't be replaced")
	}
	return e
}

func init() {
	register("C28", "exploration",
		"2 to 5 (now and then up to 150) namespaces of one service, some of which can't be opened, work with recorded storages (put into them by their types) "+
			"for concurrent clients while namespaces are created, changed, deleted (or fail to be) and stopped, under the race "+
			"detector with delays at locks; non-trivial: calls were processed and registry changes happened; distinct by the changes and calls",
		func(r *run) {
			r.casesN("service", r.n(300, 15000), 32, runningServiceCase)
			r.perturbed(150, func() { r.casesN("delayed service", r.n(300, 12000), 32, runningServiceCase) })
			r.virtual("virtual service", r.n(2500, 100000), runningServiceCase)
			r.perturbedVirtually(150, time.Second, func() {
				r.virtual("virtual delayed service", r.n(2500, 100000), runningServiceCase)
			})
		})
}

// A namespace of a running service and those who call it.
type served struct {
	name    string
	e       *engine
	m       *engineModel
	now     string // its name in the registry
	gone    int32  // somebody may have begun to stop it
	stopped bool
	broken  bool // it can't be started
	calls   [][]call
	errs    [][]error
	// Those made by whoever changes the registry
	later     [][]call
	laterErrs [][]error
}

// Namespaces of one service work, are changed, deleted (or fail to be) and stopped.
func runningServiceCase(c *kase) {
	d := c.dir()
	defer c.rmdir(d)
	s := newService(d)
	states := map[string]nsState{}
	var all []*served
	names := []string{"alpha", "beta", "gamma", "Delta", "e-5"}[:2+c.Intn(4)]
	if c.Intn(40) == 0 {
		n := 6 + c.Intn(60)
		if d := dictSize(c.Rand, 6, 150); d > 0 && c.Intn(3) == 0 {
			n = d + c.Intn(3)
		}
		for len(names) < n {
			names = append(names, fmt.Sprintf("n%d", len(names)))
		}
	}
	for i, name := range names {
		o := nsOp{kind: "create", name: name, max: c.genMax(), fac: c.genFactor()}
		ns, err := o.apply(s)
		c.check(err == nil && o.model(states), "creating %s: %v", name, err)
		m := newEngineModel()
		v := &served{name: name, now: name, m: m, broken: i > 0 && c.Intn(6) == 0}
		opts := engineOpts{dir: d, name: name, apply: m.apply}
		if v.broken {
			opts.openFault = func(kind string) error {
				if kind == "like" {
					return errOpen
				}
				return nil
			}
		}
		if c.Intn(4) == 0 {
			opts.closeFault = []string{"like", "index", "delta"}[c.Intn(3)]
		}
		v.e = instrument(c, ns, opts)
		all = append(all, v)
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	c.check(s.Start(ctx) == nil, "the service can't be started")
	for _, v := range all {
		opened := v.e.openCount("like") == 1 && v.e.openCount("delta") == 1 && v.e.openCount("index") == 1
		c.check(opened != v.broken, "the namespace %s (broken: %v) after starting the service: %v", v.name, v.broken, v.e.history())
		if v.broken {
			c.check(v.e.openCount("delta") == 0 && v.e.openCount("index") == 0, "files of %s are left open, though it can't be started: %v",
				v.name, v.e.history())
		}
	}
	// Once the cause is gone, starting again starts those that failed and leaves the others alone
	cured := 0
	if c.Intn(2) == 0 {
		for _, v := range all {
			if v.broken && c.Intn(3) > 0 {
				v.broken = false
				v.e.opts.openFault = nil
				v.e.closed = make(chan struct{}) // it was closed by the failed start
				cured++
			}
		}
		s.Start(ctx)
		for _, v := range all {
			opened := v.e.openCount("like") == 1 && v.e.openCount("delta") == 1 && v.e.openCount("index") == 1
			c.check(opened != v.broken, "the namespace %s (broken: %v) after starting the service again: %v", v.name, v.broken, v.e.history())
		}
	}
	// The calls
	var wg sync.WaitGroup
	for i, v := range all {
		v := v
		for k := c.Intn(3); k >= 0; k-- {
			n := len(v.calls)
			var calls []call
			for j := 1 + c.Intn(3); j > 0; j-- {
				calls = append(calls, c.genCall(i*100+n+1, j))
			}
			v.calls = append(v.calls, calls)
			v.errs = append(v.errs, make([]error, len(calls)))
		}
	}
	idle := bubbled() && c.Intn(4) == 0
	for _, v := range all {
		v := v
		for n := range v.calls {
			n := n
			pause := time.Duration(c.Intn(100000)) * time.Microsecond
			if idle {
				pause += time.Duration(c.Int63n(int64(50 * time.Hour)))
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(pause)
				for j, a := range v.calls[n] {
					gone := atomic.LoadInt32(&v.gone) != 0
					err, wrong := v.e.do(a)
					v.errs[n][j] = err
					if wrong != "" {
						c.report("%s: %s", v.name, wrong)
					}
					if (err != nil) && !gone && !v.broken && atomic.LoadInt32(&v.gone) == 0 {
						c.report("%v of the running namespace %s failed: %v", a, v.name, err)
					}
					atomic.AddInt64(&c.r.progress, 1)
				}
			}()
		}
	}
	// Changes of the registry, some of which fail
	trace := ""
	deleted, undeleted := 0, 0
	for i := c.Intn(5); i >= 0; i-- {
		time.Sleep(time.Duration(c.Intn(40000)) * time.Microsecond)
		if idle {
			time.Sleep(time.Duration(c.Int63n(int64(20 * time.Hour))))
		}
		v := all[c.Intn(len(all))]
		if _, ok := states[v.now]; !ok {
			continue
		}
		failing := c.Intn(3) == 0
		unblock := func() {}
		if failing {
			unblock = blockRegistry(c, d)
		}
		if c.Intn(3) == 0 {
			o := nsOp{kind: "create", name: fmt.Sprintf("extra%d", i), max: c.genMax(), fac: c.genFactor()}
			_, err := o.apply(s)
			unblock()
			trace += fmt.Sprintf("create %v;", err == nil)
			c.check(failing || err == nil && o.model(states), "%v: %v", o, err)
			if failing && err == nil {
				c.inconclusive("the registry was saved, though its file was blocked")
			}
			continue
		}
		o := nsOp{kind: []string{"delete", "delete", "update"}[c.Intn(3)], name: v.now, new: v.now, max: c.genMax(), fac: c.genFactor()}
		if o.kind == "update" && c.Intn(3) == 0 {
			o.new = fmt.Sprintf("%s-%d", v.name, i)
		}
		if o.kind == "delete" && !failing {
			atomic.StoreInt32(&v.gone, 1)
		}
		_, err := o.apply(s)
		unblock()
		trace += fmt.Sprintf("%s %s %v;", o.kind, v.name, err == nil)
		c.check(failing || err == nil, "%v: %v", o, err)
		if failing && err == nil {
			c.inconclusive("the registry was saved, though its file was blocked")
		}
		if err != nil {
			undeleted++
			a := c.genCall(9000+i, 1)
			err, wrong := v.e.do(a)
			c.check(wrong == "" && (v.broken || err == nil), "a call to %s after %s that failed: %v %s", v.name, o.kind, err, wrong)
			if !v.broken {
				v.later, v.laterErrs = append(v.later, []call{a}), append(v.laterErrs, []error{err})
			}
			continue
		}
		o.model(states)
		if o.kind == "update" {
			v.now = o.new
		}
		if o.kind == "delete" {
			deleted++
			v.stopped = true
			err, _ := v.e.do(c.genCall(9500+i, 1))
			c.check(err != nil, "a deleted namespace answered a call without an error")
			if !v.broken && c.Intn(2) == 0 {
				v.e.waitClosed()
			}
			c.check(v.e.ns.Start(ctx) != nil, "a deleted namespace was started")
		}
	}
	for _, v := range all {
		atomic.StoreInt32(&v.gone, 1)
	}
	// The rest ends
	if c.Intn(2) == 0 {
		cancel()
	} else {
		for _, v := range all {
			if _, ok := states[v.now]; ok {
				v.e.ns.Stop()
			}
		}
	}
	wg.Wait()
	processed := 0
	for _, v := range all {
		if v.broken {
			continue
		}
		if !v.e.closes() {
			c.fail("the storages of %s aren't closed after %s and stopping the rest: %v", v.name, trace, v.e.history())
		}
		p, _ := judgeAnswers(c, v.e, append(v.calls, v.later...), append(v.errs, v.laterErrs...))
		processed += p
		noMisuse(c, v.e)
		if v.now != v.name {
			// Which files are those of a renamed namespace isn't settled yet
			continue
		}
		v.m.Lock()
		checkFiles(c, d, v.name, v.m, fmt.Sprintf("%s after %s and stopping the rest", v.name, trace))
		v.m.Unlock()
	}
	got, err := asMap(statesOf(s))
	c.check(err == nil && sameStates(got, states), "after %s: %s %v", trace, diffStates(got, states), err)
	compareRestarted(c, d, states, "in the end")
	if processed > 0 && (deleted > 0 || undeleted > 0) {
		c.eval("%s %d", trace, processed)
	} else {
		c.eval("")
	}
	c.count("processed_calls", int64(processed))
	c.count("started_again", int64(cured))
	c.count("deleted_running", int64(deleted))
	c.count("failed_changes_of_running", int64(undeleted))
	c.sample("%d namespaces: %s %d calls processed", len(all), trace, processed)
}

// Makes it impossible to replace the registry file until the returned function is called.
func blockRegistry(c *kase, d string) func() {
	path := d + "namespaces.json"
	data := readFile(path)
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	if data != nil {
		must(os.Remove(path))
	}
	must(os.Mkdir(path, 0755))
	must(os.WriteFile(path+"/x", nil, 0644))
	return func() {
		must(os.Remove(path + "/x"))
		must(os.Remove(path))
		if data != nil {
			must(os.WriteFile(path, data, 0644))
		}
	}
}
