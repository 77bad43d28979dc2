package main

import (
	"fmt"
	"math"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"recengine/internal/domain"
)

func init() {
	register("C01", "exploration",
		"random histories of creating, updating and deleting namespaces (colliding and fresh names, boundary settings), a new "+
			"service is started over the same directory after every step or every few steps and compared with a model; "+
			"non-trivial: at least one change was accepted; distinct by the final file",
		func(r *run) {
			r.cases("history", r.n(1500, 40000), func(c *kase) { registryHistory(c, "") })
			r.cases("large", r.n(8, 60), largeRegistry)
			r.cases("life", r.n(6, 60), registryLifeCase)
			r.casesN("cwd", r.n(30, 300), 1, registryCwd)
		})
	register("C02", "fault_enumeration",
		"for random registries and changes, every mutating file operation of the change fails (with every few lengths of a torn "+
			"write), or the process crashes at it and nothing after it happens; pairs of such points in one change and random faults throughout many changes; then memory, the restarted service and the "+
			"changes that follow are compared with the model; evaluations: fault and crash points; distinct by point and change",
		func(r *run) {
			r.cases("fault", r.n(500, 12000), func(c *kase) { registryFaultCase(c, false, 0) })
			r.cases("bigfault", r.n(24, 500), func(c *kase) { registryFaultCase(c, false, manyNames(c)) })
			r.cases("crash", r.n(500, 12000), func(c *kase) { registryFaultCase(c, true, 0) })
			r.cases("bigcrash", r.n(24, 500), func(c *kase) { registryFaultCase(c, true, manyNames(c)) })
			r.cases("double", r.n(300, 8000), registryDoubleFaultCase)
			r.virtual("running", r.n(500, 20000), runningServiceCase)
			r.cases("storm", r.n(600, 15000), registryStormCase)
			r.cases("load", r.n(300, 5000), registryLoadFaultCase)
		})
	register("C03", "exploration",
		"2 to 4 clients concurrently create, update, delete, get and list namespaces with 2 or 3 names through one service "+
			"or its REST interface under the race detector, some of them with failing file operations; every history is checked for linearizability (by search), the "+
			"state in the end is compared with the persisted one; non-trivial: operations overlapped; distinct by the order of events",
		func(r *run) {
			r.cases("service", r.n(1200, 40000), func(c *kase) { concurrentRegistry(c, false, false) })
			r.cases("rest", r.n(500, 15000), func(c *kase) { concurrentRegistry(c, true, false) })
			r.cases("faults", r.n(900, 30000), func(c *kase) { concurrentRegistry(c, c.Intn(3) == 0, true) })
			r.cases("burst", r.n(100, 2000), concurrentBurst)
			r.perturbedVirtually(250, time.Second, func() {
				r.virtual("virtual service", r.n(1500, 60000), func(c *kase) { concurrentRegistry(c, false, c.Intn(3) == 0) })
				r.virtual("virtual rest", r.n(1500, 60000), func(c *kase) { concurrentRegistry(c, true, c.Intn(4) == 0) })
				r.virtual("virtual readers", r.n(1000, 40000), func(c *kase) { concurrentRegistry(c, c.Intn(3) > 0, false) })
				r.virtual("virtual burst", r.n(60, 2000), concurrentBurst)
			})
			r.perturbed(250, func() {
				r.cases("delayed service", r.n(500, 15000), func(c *kase) { concurrentRegistry(c, false, c.Intn(3) == 0) })
				r.cases("delayed rest", r.n(900, 30000), func(c *kase) { concurrentRegistry(c, true, c.Intn(4) == 0) })
				r.cases("delayed readers", r.n(900, 30000), func(c *kase) { concurrentRegistry(c, c.Intn(3) > 0, false) })
			})
		})
}

func diffStates(got, want map[string]nsState) string {
	var d []string
	for k, w := range want {
		if g, ok := got[k]; !ok {
			d = append(d, fmt.Sprintf("%v is missing", w))
		} else if g != w {
			d = append(d, fmt.Sprintf("%v instead of %v", g, w))
		}
	}
	for k, g := range got {
		if _, ok := want[k]; !ok {
			d = append(d, fmt.Sprintf("%v is extra", g))
		}
	}
	sort.Strings(d)
	return strings.Join(d, "; ")
}

// Compares what the service says with the model.
func compareService(c *kase, s *domain.NamespaceService, m map[string]nsState, when string) {
	got, err := asMap(statesOf(s))
	c.check(err == nil, "%s: %v", when, err)
	c.check(sameStates(got, m), "%s the service has: %s", when, diffStates(got, m))
	for name, w := range m {
		ns := s.GetNamespaceByName(mustName(name))
		c.check(ns != nil && stateOf(ns) == w, "%s: %s is not found by name or differs", when, name)
	}
	for _, name := range []string{"a", "nobody"} {
		if _, ok := m[name]; !ok {
			c.check(s.GetNamespaceByName(mustName(name)) == nil, "%s: %s is found, though it doesn't exist", when, name)
		}
	}
}

func compareRestarted(c *kase, dir string, m map[string]nsState, when string) {
	got, err := restart(dir)
	if len(m) == 0 {
		got, err = restartOrFresh(dir)
	}
	c.check(err == nil, "%s: the registry can't be loaded after a restart: %v", when, err)
	c.check(sameStates(got, m), "%s, after a restart: %s", when, diffStates(got, m))
}

func (c *kase) nameGen() func() string {
	var pool []string
	for i := 1 + c.Intn(6); i > 0; i-- {
		pool = append(pool, c.genName())
		if c.Intn(5) == 0 {
			pool = append(pool, c.nearName(pool[len(pool)-1]))
		}
	}
	return func() string {
		if c.Intn(12) == 0 {
			return c.genName()
		}
		return pool[c.Intn(len(pool))]
	}
}

func registryHistory(c *kase, base string) {
	d := base
	if d == "" {
		d = c.dir()
		defer c.rmdir(d)
	}
	path := d
	if c.Intn(2) == 0 {
		path = strings.TrimSuffix(d, "/")
	}
	s := newService(path)
	names := c.nameGen()
	m := map[string]nsState{}
	accepted, refused := 0, 0
	steps := 1 + c.Intn(25)
	if c.Intn(30) == 0 {
		steps = 150
		names = c.genName
	}
	for i := 0; i < steps; i++ {
		o := c.genOp(names)
		if o.kind != "delete" && c.Intn(12) == 0 {
			// This can't be written as JSON, so that saving has to fail
			o.fac = []float32{float32(math.NaN()), float32(math.Inf(1)), float32(math.Inf(-1))}[c.Intn(3)]
			c.log("%v", o)
			_, err := o.apply(s)
			if err == nil {
				// It's saved in some other way
				c.inconclusive("%v is accepted", o)
			}
			refused++
			compareService(c, s, m, fmt.Sprintf("after %d changes, the last being %v: %v", i+1, o, err))
			if accepted > 0 && c.Intn(3) == 0 {
				compareRestarted(c, d, m, fmt.Sprintf("after the refused change %v", o))
			}
			continue
		}
		c.log("%v", o)
		ns, err := o.apply(s)
		if o.model(m) {
			c.check(err == nil, "%v is refused: %v", o, err)
			if o.kind != "delete" {
				name := o.name
				if o.kind == "update" {
					name = o.new
				}
				c.check(ns != nil && stateOf(ns) == m[name], "%v returned %v, expected %v", o, stateOf(ns), m[name])
			}
			accepted++
		} else {
			c.check(err != nil, "%v is accepted", o)
			refused++
		}
		when := fmt.Sprintf("after %d changes, the last being %v", i+1, o)
		compareService(c, s, m, when)
		if accepted > 0 && c.Intn(3) == 0 {
			compareRestarted(c, d, m, when)
		}
		if accepted > 0 && c.Intn(5) == 0 {
			// The restarted service goes on
			s = newService(path)
			c.check(s.LoadNamespaces() == nil, "%s: loading failed", when)
			c.log("restart")
		} else if c.Intn(15) == 0 && accepted > 0 {
			c.check(s.SaveNamespaces() == nil, "saving failed")
			c.check(s.LoadNamespaces() == nil, "loading failed")
			compareService(c, s, m, when+", saving and loading")
		}
	}
	if accepted > 0 {
		compareRestarted(c, d, m, "in the end")
		data, _ := os.ReadFile(d + "namespaces.json")
		c.eval("%x", byteHash(data))
	} else {
		c.eval("")
	}
	c.count("accepted_changes", int64(accepted))
	c.count("refused_changes", int64(refused))
	c.sample("%d accepted, %d refused -> %v", accepted, refused, m)
}

// Hundreds of namespaces, some with long names.
func largeRegistry(c *kase) {
	d := c.dir()
	defer c.rmdir(d)
	s := newService(d)
	m := map[string]nsState{}
	n := 60 + c.Intn(700)
	if c.Intn(4) == 0 {
		n = []int{128, 256, 257, 512, 1000, 1025}[c.Intn(6)]
		if d := dictSize(c.Rand, 4, 2000); d > 0 && c.Intn(4) == 0 {
			n = d + c.Intn(3)
		}
	}
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("n%d-%s", i, c.genName())
		if c.Intn(100) == 0 {
			name += strings.Repeat("x", c.Intn(6000))
		}
		o := nsOp{kind: "create", name: name, max: c.genMax(), fac: c.genFactor()}
		_, err := o.apply(s)
		c.check(err == nil && o.model(m), "creating the %dth namespace: %v", i+1, err)
	}
	compareService(c, s, m, "after many creations")
	compareRestarted(c, d, m, "after many creations")
	s = newService(d)
	c.check(s.LoadNamespaces() == nil, "loading %d namespaces failed", n)
	var names []string
	for name := range m {
		names = append(names, name)
	}
	sort.Strings(names)
	for i := 0; i < 30; i++ {
		o := c.genOp(func() string { return names[c.Intn(len(names))] })
		_, err := o.apply(s)
		c.check((err == nil) == o.model(m), "%v among %d namespaces: %v", o, n, err)
	}
	compareService(c, s, m, "after changes among many namespaces")
	compareRestarted(c, d, m, "after changes among many namespaces")
	c.eval("%d %v", n, byteHash([]byte(strings.Join(names, ","))))
	c.sample("%d namespaces", n)
}

// Without a configured directory the working directory is used.
// Thousands of changes of one service.
func registryLifeCase(c *kase) {
	d := c.dir()
	defer c.rmdir(d)
	s := newService(d)
	m := map[string]nsState{}
	n := 300 + c.Intn(3000)
	if c.index == 0 {
		n = 66000
	}
	names := []string{"a", "b", "c"}
	for i := 0; i < n; i++ {
		o := c.genOp(func() string { return names[c.Intn(len(names))] })
		_, err := o.apply(s)
		c.check((err == nil) == o.model(m), "change %d, %v: %v", i+1, o, err)
		if i%64 == 63 || i == n-1 {
			compareService(c, s, m, fmt.Sprintf("after %d changes", i+1))
			compareRestarted(c, d, m, fmt.Sprintf("after %d changes", i+1))
		}
	}
	c.count("changes_in_a_row", int64(n))
	c.eval("%d %v", n, m)
	c.sample("%d changes, %d namespaces left", n, len(m))
}

func registryCwd(c *kase) {
	d := c.dir()
	defer c.rmdir(d)
	old, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	if err = os.Chdir(d); err != nil {
		panic(err)
	}
	defer os.Chdir(old)
	s := newService("")
	m := map[string]nsState{}
	for i := 0; i < 5; i++ {
		o := c.genOp(c.genName)
		o.apply(s)
		o.model(m)
	}
	if len(m) > 0 {
		compareRestarted(c, "", m, "in the working directory")
	}
	c.eval("%v", m)
}

// Numbers of namespaces of large registries.
func manyNames(c *kase) int {
	n := 20 + c.Intn(120)
	if d := dictSize(c.Rand, 8, 300); d > 0 && c.Intn(3) == 0 {
		n = d + c.Intn(5)
	}
	return n
}

// There are that many namespaces, if many isn't 0, before the change.
func registryFaultCase(c *kase, crash bool, many int) {
	names := c.nameGen()
	var setup []nsOp
	if many > 0 {
		few := names
		names = func() string {
			if c.Intn(3) == 0 {
				return few()
			}
			return fmt.Sprintf("n%d", c.Intn(many))
		}
		for i := 0; i < many; i++ {
			setup = append(setup, nsOp{kind: "create", name: fmt.Sprintf("n%d", i), max: c.genMax(), fac: c.genFactor()})
		}
	}
	for i := c.Intn(8); i > 0; i-- {
		setup = append(setup, c.genOp(names))
	}
	// A change that must be accepted
	var o nsOp
	before := map[string]nsState{}
	for _, x := range setup {
		x.model(before)
	}
	for i := 0; ; i++ {
		o = c.genOp(names)
		if o.model(copyStates(before)) {
			break
		}
		if i > 20 {
			names = c.genName
		}
	}
	after := copyStates(before)
	o.model(after)
	c.log("setup %v", setup)
	c.log("change %v", o)
	partials := []int{0, 1, 2, 10, c.Intn(200), 1 << 29}
	if crash {
		partials = append(partials, 1<<30)
	}
	points := 0
	for at := 0; at < 30; at++ {
		fired := false
		for _, partial := range partials {
			d := c.dir()
			s := newService(d)
			m := map[string]nsState{}
			for _, x := range setup {
				x.apply(s)
				x.model(m)
			}
			f := &fsFault{at: at, only: true, partial: partial, crash: crash, burst: 1}
			if !crash && c.Intn(3) == 0 {
				f.burst = 1 + c.Intn(6)
			}
			setFSHook(d, f.hook)
			_, err := o.apply(s)
			setFSHook(d, nil)
			if !f.fired() {
				c.rmdir(d)
				break
			}
			fired = true
			points++
			where := fmt.Sprintf("%v with a fault in operation %d (%s, %d bytes written)", o, at, f.what(), partial)
			if !crash {
				want := before
				if err == nil {
					want = after
				}
				compareService(c, s, want, fmt.Sprintf("%s: result %v,", where, err))
				compareRestarted(c, d, want, fmt.Sprintf("%s: result %v,", where, err))
				// The service goes on
				w := copyStates(want)
				for k := 0; k < 3; k++ {
					x := c.genOp(names)
					_, xerr := x.apply(s)
					ok := x.model(w)
					c.check(ok == (xerr == nil), "%s, then %v: %v", where, x, xerr)
					compareService(c, s, w, where+", then "+x.String())
					if ok {
						compareRestarted(c, d, w, where+", then "+x.String())
					}
				}
			} else {
				got, lerr := restartOrFresh(d)
				c.check(lerr == nil, "%s, a crash: the registry can't be loaded: %v", where, lerr)
				isBefore, isAfter := sameStates(got, before), sameStates(got, after)
				c.check(isAfter || (isBefore && err != nil), "%s, a crash (result %v): it's neither the old nor the new registry: %s",
					where, err, diffStates(got, after))
				// The restarted service goes on
				s = newService(d)
				s.LoadNamespaces()
				w := copyStates(got)
				for k := 0; k < 3; k++ {
					x := c.genOp(names)
					_, xerr := x.apply(s)
					ok := x.model(w)
					c.check(ok == (xerr == nil), "%s, a crash, then %v: %v", where, x, xerr)
					if ok {
						compareRestarted(c, d, w, where+", a crash, then "+x.String())
					}
				}
				if isBefore {
					c.count("crashes_leaving_the_old_state", 1)
				} else {
					c.count("crashes_leaving_the_new_state", 1)
				}
			}
			c.eval("%d %d %s %v %v", at, partial, f.what(), o, len(before))
			c.rmdir(d)
		}
		if !fired {
			break
		}
	}
	c.check(points > 0, "%v was accepted without touching any file", o)
	c.sample("%v: %d points", o, points)
}

// Two things go wrong in one change: an operation fails, and a later one fails too
// or the process dies at it.
func registryDoubleFaultCase(c *kase) {
	names := c.nameGen()
	var setup []nsOp
	before := map[string]nsState{}
	for i := 1 + c.Intn(8); i > 0; i-- {
		o := c.genOp(names)
		if o.model(before) {
			setup = append(setup, o)
		}
	}
	if len(setup) == 0 && c.Intn(4) > 0 {
		return
	}
	var o nsOp
	for i := 0; ; i++ {
		o = c.genOp(names)
		if o.model(copyStates(before)) {
			break
		}
		if i > 20 {
			names = c.genName
		}
	}
	after := copyStates(before)
	o.model(after)
	points := 0
	for first := 0; first < 8; first++ {
		any := false
		for second := first + 1; second < first+8; second++ {
			crash := c.Intn(3) > 0
			partial := []int{0, 1, c.Intn(200), 1 << 29, 1 << 30}[c.Intn(5)]
			d := c.dir()
			s := newService(d)
			for _, x := range setup {
				x.apply(s)
			}
			f1 := &fsFault{at: first, only: true, partial: c.Intn(100), burst: 1}
			f2 := &fsFault{at: second, only: true, partial: partial, crash: crash, burst: 1}
			setFSHook(d, func(op fsOp) (int, error) {
				n1, err1 := f1.hook(op)
				n2, err2 := f2.hook(op)
				if err2 != nil {
					return n2, err2
				}
				return n1, err1
			})
			_, err := o.apply(s)
			setFSHook(d, nil)
			any = any || f1.fired()
			if !f1.fired() || (!f2.fired() && second > first+1) {
				c.rmdir(d)
				break
			}
			points++
			where := fmt.Sprintf("%v with faults in the operations %d (%s) and %d (%s, %d bytes written, crash %v)", o, first, f1.what(),
				second, f2.what(), partial, crash)
			got, lerr := restartOrFresh(d)
			c.check(lerr == nil, "%s: the registry can't be loaded: %v", where, lerr)
			isBefore, isAfter := sameStates(got, before), sameStates(got, after)
			if crash && f2.fired() {
				c.check(isAfter || (isBefore && err != nil), "%s (result %v): it's neither the old nor the new registry: %s",
					where, err, diffStates(got, after))
			} else {
				want := before
				if err == nil {
					want = after
				}
				compareService(c, s, want, fmt.Sprintf("%s: result %v,", where, err))
				c.check(sameStates(got, want), "%s: result %v, after a restart: %s", where, err, diffStates(got, want))
			}
			c.eval("%d %s %d %s %d %v", first, f1.what(), second, f2.what(), partial, crash)
			c.rmdir(d)
		}
		if !any {
			break
		}
	}
	c.sample("%v: %d pairs of points", o, points)
}

// Many changes while any file operation can fail; each is made entirely or not at
// all, and what it did is what a restart finds.
func registryStormCase(c *kase) {
	d := c.dir()
	defer c.rmdir(d)
	names := c.nameGen()
	s := newService(d)
	m := map[string]nsState{}
	rate := 3 + c.Intn(18)
	accepted, failed := 0, 0
	hook := func(o fsOp) (int, error) {
		if o.mutating() && c.Intn(rate) == 0 {
			if o.op == "write" && o.size > 0 {
				return c.Intn(o.size), syscall.EIO
			}
			return 0, syscall.EIO
		}
		return o.size, nil
	}
	defer setFSHook(d, nil)
	for i := 4 + c.Intn(12); i > 0; i-- {
		o := c.genOp(names)
		setFSHook(d, hook)
		_, err := o.apply(s)
		setFSHook(d, nil)
		c.log("%v: %v", o, err)
		w := copyStates(m)
		possible := o.model(w)
		c.check(possible || err != nil, "%v is accepted", o)
		if err == nil {
			m = w
			accepted++
		} else if possible {
			failed++
		}
		compareService(c, s, m, fmt.Sprintf("after %v (%v)", o, err))
		compareRestarted(c, d, m, fmt.Sprintf("after %v (%v)", o, err))
		if accepted > 0 && c.Intn(5) == 0 {
			s = newService(d)
			c.check(s.LoadNamespaces() == nil, "loading failed")
		}
	}
	if accepted > 0 && failed > 0 {
		c.eval("%v %d %d", m, accepted, failed)
	} else {
		c.eval("")
	}
	c.count("storm_failures", int64(failed))
	c.sample("%d changes accepted, %d failed by faults", accepted, failed)
}

// A registry that can't be read is refused as a whole.
func registryLoadFaultCase(c *kase) {
	d := c.dir()
	defer c.rmdir(d)
	s := newService(d)
	m := map[string]nsState{}
	for i := 2 + c.Intn(40); i > 0; i-- {
		o := c.genOp(c.genName)
		o.apply(s)
		o.model(m)
	}
	if len(m) == 0 {
		return
	}
	for at := 0; at < 20; at++ {
		f := &fsFault{at: at, burst: 1}
		s = newService(d)
		setFSHook(d, f.hook)
		err := s.LoadNamespaces()
		setFSHook(d, nil)
		if err != nil {
			c.check(len(s.GetNamespaces()) == 0, "a failed load (%v) left %d of %d namespaces", f.what(), len(s.GetNamespaces()), len(m))
			c.check(s.LoadNamespaces() == nil, "the second load failed")
		}
		compareService(c, s, m, fmt.Sprintf("loading with a fault in %s (%v)", f.what(), err))
		c.eval("%d %v %d", at, f.what(), len(m))
		if !f.fired() {
			break
		}
	}
}

// Random delays of the file operations, so that concurrent changes meet in more ways.
func slowFS(c *kase) fsHook {
	mode, seed := c.Intn(3), c.Int63()
	var n int64
	return func(o fsOp) (int, error) {
		k := atomic.AddInt64(&n, 1)
		x := uint64(seed+k) * 0x9e3779b97f4a7c15 >> 40
		switch {
		case mode == 1 && x%3 == 0:
			time.Sleep(time.Duration(x%200) * time.Microsecond)
		case mode == 2 && x%5 < 2:
			runtime.Gosched()
		}
		return o.size, nil
	}
}

// Makes some of the operations that change files fail.
func faultyFS(c *kase, next fsHook) fsHook {
	seed := c.Int63()
	rate := uint64(2 + c.Intn(4))
	var n int64
	return func(o fsOp) (int, error) {
		size, err := next(o)
		if err == nil && o.mutating() {
			x := uint64(seed+atomic.AddInt64(&n, 1)) * 0x9e3779b97f4a7c15 >> 40
			if x%rate == 0 {
				if o.op == "write" && o.size > 0 {
					return int(x>>8) % o.size, syscall.EIO
				}
				return 0, syscall.EIO
			}
		}
		return size, err
	}
}

// One operation of a concurrent history.
type histOp struct {
	client int
	kind   string // create, update, delete, get, list
	name   string
	new    string
	max    uint
	fac    float32
	ok     bool
	id     int   // identity of the resulting namespace (-1: unknown)
	ids    []int // identities listed
	names  []string
	faulty bool     // a failure may be due to a file operation
	views  []nsView // what a REST response showed
	call   int64
	ret    int64
}

func (h *histOp) String() string {
	return fmt.Sprintf("[%d-%d] client %d: %s %s %s max %d factor %v -> %v id %d ids %v %v", h.call, h.ret, h.client, h.kind,
		h.name, h.new, h.max, h.fac, h.ok, h.id, h.ids, h.views)
}

type linState struct {
	ns map[string]linNs
}

type linNs struct {
	id  int
	max uint
	fac float32
}

func (s linState) key() string {
	var a []string
	for k, v := range s.ns {
		a = append(a, fmt.Sprintf("%s=%d/%d/%v", k, v.id, v.max, v.fac))
	}
	sort.Strings(a)
	return strings.Join(a, ",")
}

// True if the response to the request showed this state of the namespace.
func (s linState) shown(name string, views []nsView) bool {
	return len(views) == 1 && views[0] == nsView{name, "like", s.ns[name].max}
}

// Applies the operation with the observed result; false if the result is impossible.
func (s linState) apply(i int, h *histOp, rest bool) (linState, bool) {
	n, ok := s.applyResult(i, h)
	if !ok || !rest || !h.ok {
		return n, ok
	}
	switch h.kind {
	case "create", "get":
		return n, n.shown(h.name, h.views)
	case "update":
		return n, n.shown(h.new, h.views)
	}
	// The lengths are equal
	names := map[string]bool{}
	for _, v := range h.views {
		w, ok := n.ns[v.Name]
		if names[v.Name] {
			return n, false
		}
		names[v.Name] = true
		if !ok || v.Type != "like" || w.max != v.Max {
			return n, false
		}
	}
	return n, true
}

func (s linState) applyResult(i int, h *histOp) (linState, bool) {
	cur, exists := s.ns[h.name]
	if h.faulty && !h.ok && h.kind != "get" && h.kind != "list" {
		return s, true
	}
	switch h.kind {
	case "create":
		if h.ok == exists {
			return s, false
		}
		if !h.ok {
			return s, true
		}
		n := s.clone()
		max := h.max
		if max == 0 {
			max = 1000
		}
		n.ns[h.name] = linNs{i, max, h.fac}
		return n, true
	case "update":
		_, taken := s.ns[h.new]
		valid := exists && (h.new == h.name || !taken)
		if h.ok != valid {
			return s, false
		}
		if !h.ok {
			return s, true
		}
		if h.id >= 0 && h.id != cur.id {
			return s, false
		}
		n := s.clone()
		delete(n.ns, h.name)
		cur.fac = h.fac
		if h.max != 0 {
			cur.max = h.max
		}
		n.ns[h.new] = cur
		return n, true
	case "delete":
		if h.ok != exists {
			return s, false
		}
		if !h.ok {
			return s, true
		}
		n := s.clone()
		delete(n.ns, h.name)
		return n, true
	case "get":
		return s, h.ok == exists && (!h.ok || h.id < 0 || h.id == cur.id)
	default: // list
		if len(h.ids) != len(s.ns) {
			return s, false
		}
		for _, v := range s.ns {
			found := false
			for _, id := range h.ids {
				found = found || id == v.id
			}
			if !found && h.ids[0] >= 0 {
				return s, false
			}
		}
		return s, true
	}
}

func (s linState) clone() linState {
	n := linState{make(map[string]linNs, len(s.ns)+1)}
	for k, v := range s.ns {
		n.ns[k] = v
	}
	return n
}

// Looks for an order of the operations that explains all the results and the
// final state. Returns the number of the states visited.
func linearize(ops []*histOp, initial linState, final map[string]linNs) (bool, int) {
	seen := map[string]bool{}
	visited := 0
	finalKey := linState{final}.key()
	var dfs func(done uint64, s linState) bool
	dfs = func(done uint64, s linState) bool {
		if done == 1<<uint(len(ops))-1 {
			return s.key() == finalKey
		}
		k := fmt.Sprintf("%x|%s", done, s.key())
		if seen[k] {
			return false
		}
		seen[k] = true
		visited++
		// The operations that began before any pending one had ended
		minRet := int64(1) << 62
		for i, h := range ops {
			if done&(1<<uint(i)) == 0 && h.ret < minRet {
				minRet = h.ret
			}
		}
		for i, h := range ops {
			if done&(1<<uint(i)) != 0 || h.call > minRet {
				continue
			}
			if n, ok := s.apply(i, h, false); ok && dfs(done|1<<uint(i), n) {
				return true
			}
		}
		return false
	}
	return dfs(0, initial), visited
}

func concurrentRegistry(c *kase, rest, faults bool) {
	d := c.dir()
	defer c.rmdir(d)
	s := newService(d)
	names := []string{"a", "b", "c"}[:2+c.Intn(2)]
	var api *restClient
	if rest {
		api = newRest(s)
	}
	kinds := []string{"create", "create", "update", "update", "delete", "get", "list"}
	if rest {
		kinds = []string{"create", "create", "update", "update", "update", "get", "list"}
	}
	clients := 2 + c.Intn(3)
	perClient := 1 + c.Intn(4)
	if strings.HasSuffix(c.family, " readers") {
		// One client changes the namespaces, the others look at them
		clients, perClient = 2+c.Intn(2), 8
	}
	var ops []*histOp
	plan := make([][]*histOp, clients)
	prelude := c.Intn(3)
	for k := 0; k < clients; k++ {
		if strings.HasSuffix(c.family, " readers") {
			kinds = []string{"get", "get", "list"}
			if k == 0 {
				kinds = []string{"update", "update", "update", "update", "create"}
			}
		}
		for i := 0; i < perClient; i++ {
			h := &histOp{client: k, kind: kinds[c.Intn(len(kinds))], name: names[c.Intn(len(names))],
				new: names[c.Intn(len(names))], max: uint(c.Intn(9)), fac: float32(c.Intn(5)) / 4, id: -1, faulty: faults}
			plan[k] = append(plan[k], h)
		}
	}
	var clock int64
	idOf := map[domain.Namespace]int{}
	type pending struct {
		h    *histOp
		ns   domain.Namespace
		list []domain.Namespace
	}
	results := make([][]pending, clients+1)
	do := func(h *histOp) (p pending) {
		p.h = h
		h.call = atomic.AddInt64(&clock, 1)
		defer func() { h.ret = atomic.AddInt64(&clock, 1) }()
		if rest {
			var code int
			var data []byte
			switch h.kind {
			case "create":
				code, data = api.do("POST", nsPath, fmt.Sprintf(`{"name":%q,"type":"like","maxSimilarProfiles":%d,"dislikeFactor":%v}`,
					h.name, h.max, h.fac))
			case "update":
				code, data = api.do("PUT", nsPath+"/"+h.name, fmt.Sprintf(`{"name":%q,"maxSimilarProfiles":%d,"dislikeFactor":%v}`,
					h.new, h.max, h.fac))
			case "get":
				code, data = api.do("GET", nsPath+"/"+h.name, "")
			case "list":
				h.views = api.list(c)
				h.ok = true
				for range h.views {
					h.ids = append(h.ids, -1)
				}
				return
			}
			h.ok = code < 300
			if h.ok {
				h.views = []nsView{parseView(c, data, h.kind)}
			}
			return
		}
		var err error
		switch h.kind {
		case "get":
			p.ns = s.GetNamespaceByName(mustName(h.name))
			h.ok = p.ns != nil
			if h.ok {
				stateOf(p.ns)
			}
		case "list":
			p.list = s.GetNamespaces()
			for _, ns := range p.list {
				stateOf(ns)
			}
		default:
			p.ns, err = nsOp{h.kind, h.name, h.new, h.max, h.fac}.apply(s)
			h.ok = err == nil
		}
		return
	}
	for i := 0; i < prelude; i++ {
		h := &histOp{client: -1, kind: "create", name: names[c.Intn(len(names))], max: 7, id: -1}
		results[clients] = append(results[clients], do(h))
	}
	delays := make([][]int, clients)
	for k := range delays {
		for i := 0; i < perClient; i++ {
			delays[k] = append(delays[k], c.Intn(4))
		}
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	for k := 0; k < clients; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			defer c.guard()
			<-start
			for i, h := range plan[k] {
				switch delays[k][i] {
				case 1:
					runtime.Gosched()
				case 2:
					time.Sleep(20 * time.Microsecond)
				}
				results[k] = append(results[k], do(h))
			}
		}(k)
	}
	defer setFSHook(d, nil)
	hook := slowFS(c)
	if faults {
		hook = faultyFS(c, hook)
	}
	setFSHook(d, hook)
	close(start)
	wg.Wait()
	setFSHook(d, nil)
	if c.failed {
		return
	}
	for _, ps := range results {
		for _, p := range ps {
			ops = append(ops, p.h)
		}
	}
	sort.Slice(ops, func(i, j int) bool { return ops[i].call < ops[j].call })
	index := map[*histOp]int{}
	for i, h := range ops {
		index[h] = i
	}
	// The identities of the namespaces are the indices of what created them
	for _, ps := range results {
		for _, p := range ps {
			if p.h.kind == "create" && p.h.ok && p.ns != nil {
				idOf[p.ns] = index[p.h]
			}
		}
	}
	for _, ps := range results {
		for _, p := range ps {
			if p.ns != nil {
				id, known := idOf[p.ns]
				c.check(known, "%v returned a namespace nobody created", p.h)
				p.h.id = id
			}
			for _, ns := range p.list {
				id, known := idOf[ns]
				c.check(known, "%v listed a namespace nobody created", p.h)
				p.h.ids = append(p.h.ids, id)
			}
		}
	}
	for _, h := range ops {
		c.log("%v", h)
	}
	final := map[string]linNs{}
	memory, err := asMap(statesOf(s))
	c.check(err == nil, "after concurrent changes: %v", err)
	for _, ns := range s.GetNamespaces() {
		id := -1
		if !rest {
			id = idOf[ns]
		}
		st := stateOf(ns)
		final[st.Name] = linNs{id, st.Max, st.Dislike}
	}
	if rest {
		// The identities can't be seen from outside
		final = stripIDs(final)
	}
	c.log("final %v", final)
	initial := linState{map[string]linNs{}}
	var ok bool
	var visited int
	if rest {
		ok, visited = linearizeAnon(ops, initial, final)
	} else {
		ok, visited = linearize(ops, initial, final)
	}
	c.check(ok, "the concurrent operations have results that no order of them explains")
	changed := false
	for _, h := range ops {
		changed = changed || (h.ok && (h.kind == "create" || h.kind == "update" || h.kind == "delete"))
	}
	if changed {
		compareRestarted(c, d, memory, "after concurrent changes")
	}
	overlaps := 0
	order := ""
	for i, h := range ops {
		for _, g := range ops[i+1:] {
			if g.call < h.ret {
				overlaps++
			}
		}
		order += fmt.Sprintf("%s%s%s%d%v-%d;", h.kind, h.name, h.new, h.client, h.ok, h.ret)
	}
	if overlaps > 0 {
		c.eval("%s", order)
	} else {
		c.eval("")
	}
	c.count("overlapping_pairs", int64(overlaps))
	c.count("operations", int64(len(ops)))
	c.count("linearization_states", int64(visited))
	c.sample("%d clients, %d operations, %d overlapping pairs, %d states searched", clients, len(ops), overlaps, visited)
}

func stripIDs(m map[string]linNs) map[string]linNs {
	r := map[string]linNs{}
	for k, v := range m {
		v.id = 0
		r[k] = v
	}
	return r
}

// As linearize, but the identities of the namespaces are unknown.
func linearizeAnon(ops []*histOp, initial linState, final map[string]linNs) (bool, int) {
	finalKey := linState{final}.key()
	seen := map[string]bool{}
	visited := 0
	var dfs func(done uint64, s linState) bool
	dfs = func(done uint64, s linState) bool {
		if done == 1<<uint(len(ops))-1 {
			return linState{stripIDs(s.ns)}.key() == finalKey
		}
		k := fmt.Sprintf("%x|%s", done, linState{stripIDs(s.ns)}.key())
		if seen[k] {
			return false
		}
		seen[k] = true
		visited++
		minRet := int64(1) << 62
		for i, h := range ops {
			if done&(1<<uint(i)) == 0 && h.ret < minRet {
				minRet = h.ret
			}
		}
		for i, h := range ops {
			if done&(1<<uint(i)) != 0 || h.call > minRet {
				continue
			}
			if n, ok := s.apply(i, h, true); ok && dfs(done|1<<uint(i), n) {
				return true
			}
		}
		return false
	}
	return dfs(0, initial), visited
}

// Many clients at once: names stay unique, exactly one creation of a name
// succeeds, and everything acknowledged is persisted.
func concurrentBurst(c *kase) {
	d := c.dir()
	defer c.rmdir(d)
	s := newService(d)
	api := newRest(s)
	clients := 16
	names := make([]string, 1+c.Intn(6))
	for i := range names {
		names[i] = fmt.Sprintf("n%d", i)
	}
	viaRest := c.Intn(2) == 0
	created := make([]int64, len(names))
	var wg sync.WaitGroup
	start := make(chan struct{})
	for k := 0; k < clients; k++ {
		order := c.Perm(len(names))
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			<-start
			for _, i := range order {
				ok := false
				if viaRest {
					code := api.code("POST", "", fmt.Sprintf(`{"name":%q,"type":"like","dislikeFactor":0.5,"maxSimilarProfiles":%d}`, names[i], k+1))
					if code < 200 || code >= 500 || (code >= 300 && code < 400) {
						c.report("creating %s: status %d", names[i], code)
					}
					ok = code < 300
				} else {
					_, err := nsOp{kind: "create", name: names[i], max: uint(k + 1), fac: 0.5}.apply(s)
					ok = err == nil
				}
				if ok {
					atomic.AddInt64(&created[i], 1)
				}
			}
		}(k)
	}
	defer setFSHook(d, nil)
	setFSHook(d, slowFS(c))
	close(start)
	wg.Wait()
	setFSHook(d, nil)
	for i, n := range created {
		c.check(n == 1, "%d of %d concurrent creations of %s succeeded", n, clients, names[i])
	}
	memory, err := asMap(statesOf(s))
	c.check(err == nil && len(memory) == len(names), "%d namespaces were created, there are %d (%v)", len(names), len(memory), err)
	compareRestarted(c, d, memory, "after concurrent creations")
	c.eval("%v %v", memory, viaRest)
	c.sample("%d clients creating %d names: %v", clients, len(names), memory)
}
