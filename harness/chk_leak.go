package main

import (
	"context"
	"fmt"
	"os"
	"runtime/debug"
	"strings"
	"sync"
	"time"

	"recengine/internal/infra/index"
)

func init() {
	register("C29", "fault_enumeration",
		"each operation is over once it returned and virtual time has passed; then the files open in the directory of the case (/proc/self/fd, "+
			"with garbage collection off, so that no finalizer closes them) and the goroutines of the code under test are counted: after "+
			"failed, retried and refused starts, ways to stop with calls in progress, registry changes, loads, requests, and indexes and recdb files that "+
			"can't be opened, created or closed, with faults at each of their file operations; non-trivial: something was started, failed or changed; "+
			"distinct by the operations and their results",
		func(r *run) {
			r.virtual("ended", r.n(4000, 150000), endedCase)
			r.virtual("service", r.n(1500, 60000), endedServiceCase)
			r.virtual("registry", r.n(1500, 60000), registryLeakCase)
			r.virtual("files", r.n(1500, 60000), fileLeakCase)
			r.perturbedVirtually(150, time.Second, func() {
				r.virtual("delayed ended", r.n(2500, 100000), endedCase)
				r.virtual("delayed service", r.n(1000, 60000), endedServiceCase)
			})
		})
}

// The files below the directory that this process has open, by name, with the given ones left out.
func openFiles(dir string) []string {
	var names []string
	fds, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		panic(err)
	}
	for _, fd := range fds {
		link, err := os.Readlink("/proc/self/fd/" + fd.Name())
		if err == nil && strings.HasPrefix(link, dir) {
			names = append(names, strings.TrimPrefix(link, dir))
		}
	}
	return names
}

// The stacks of the goroutines of this bubble that are in the code under test or were started by it.
func repoGoroutines() []string {
	var stacks []string
	for _, s := range allStacks() {
		if strings.Contains(s, "synctest bubble") && (hasRepoFrame(s) || strings.Contains(s, "created by recengine/")) {
			stacks = append(stacks, s)
		}
	}
	return stacks
}

// Nothing that ended may have left anything behind. All virtual goroutines that can end do so meanwhile.
func (c *kase) nothingLeft(dir, when string) {
	time.Sleep(48 * time.Hour)
	files := openFiles(dir)
	c.check(len(files) == 0, "%s: still open: %v", when, files)
	stacks := repoGoroutines()
	c.check(len(stacks) == 0, "%s: %d goroutines are still there, e.g.\n%s", when, len(stacks), strings.Join(stacks[:min(len(stacks), 3)], "\n\n"))
	c.count("looked_for_leftovers", 1)
}

// Keeps the garbage collector from closing what was forgotten.
func uncollected() func() {
	percent := debug.SetGCPercent(-1)
	limit := debug.SetMemoryLimit(2 << 30)
	return func() {
		debug.SetGCPercent(percent)
		debug.SetMemoryLimit(limit)
	}
}

// What is found in the place of the files of a namespace; returns what has to go before it can be started.
func (c *kase) obstruct(d, name string) (string, func()) {
	kind := c.Intn(7)
	ext := []string{"delta", "index", "recdb"}[c.Intn(3)]
	path := d + name + "." + ext
	switch kind {
	case 0:
		saved := readFile(path)
		os.Remove(path)
		os.Mkdir(path, 0755)
		return ext + " is a directory", func() {
			os.Remove(path)
			if saved != nil {
				os.WriteFile(path, saved, 0644)
			}
		}
	case 1:
		b := make([]byte, c.Intn(60))
		c.Read(b)
		os.WriteFile(path, b, 0644)
		return ext + " is garbage", func() { os.Remove(path) }
	case 2:
		b := readFile(path)
		b = b[:c.Intn(len(b)+1)]
		os.WriteFile(path, b, 0644)
		return ext + " is cut short", func() { os.Remove(path) }
	case 3:
		b := readFile(d + name + ".index")
		if len(b) > 7 {
			b[7] = 1
			os.WriteFile(d+name+".index", b, 0644)
		}
		b = readFile(d + name + ".delta")
		if len(b) > 9 {
			b[9] = 1
			os.WriteFile(d+name+".delta", b, 0644)
		}
		return "locked files", func() {}
	}
	return "", func() {}
}

// A namespace whose starting fails in some ways before it works or is given up.
func endedCase(c *kase) {
	defer uncollected()()
	d := c.dir()
	defer c.rmdir(d)
	defer setFSHook(d, nil)
	story := ""
	for session := 1 + c.Intn(2); session > 0; session-- {
		var mu sync.Mutex
		failing := ""
		m := newEngineModel()
		var saveErr []string
		e := newEngine(c, engineOpts{dir: d, name: "n", apply: m.apply, closed: func(kind string, err error) {
			mu.Lock()
			defer mu.Unlock()
			if err != nil {
				saveErr = append(saveErr, kind)
			}
		}, openFault: func(kind string) error {
			mu.Lock()
			defer mu.Unlock()
			if kind == failing {
				return errOpen
			}
			return nil
		}})
		started := false
		attempts := 1 + c.Intn(3)
		for a := 0; a < attempts && !started; a++ {
			what, clear := c.obstruct(d, "n")
			if c.Intn(4) == 0 {
				mu.Lock()
				failing = []string{"delta", "index", "like"}[c.Intn(3)]
				what += " failing " + failing
				mu.Unlock()
			}
			f := &fsFault{at: 1 << 30, burst: 1}
			if c.Intn(2) == 0 {
				f.at = c.Intn(25)
				f.partial = c.Intn(20)
				setFSHook(d, f.hook)
			}
			err := e.start()
			setFSHook(d, nil)
			if f.fired() {
				what += " fault in " + f.what()
			}
			story += fmt.Sprintf("%s: %v; ", what, err)
			started = err == nil
			mu.Lock()
			failing = ""
			lost := len(saveErr) > 0
			saveErr = nil
			mu.Unlock()
			if !started {
				if lost {
					// A file that couldn't be saved may be kept open, and this one won't be saved again
					c.eval("")
					e.cancel()
					return
				}
				c.nothingLeft(d, "after the failed start "+story)
				clear()
			}
		}
		way := c.Intn(6)
		if started {
			if c.Intn(4) == 0 {
				c.answeredLeavesNothing(e, d)
			}
			var wg sync.WaitGroup
			for k := c.Intn(5); k > 0; k-- {
				var calls []call
				for i := 1 + c.Intn(4); i > 0; i-- {
					calls = append(calls, c.genCall(session*100+k, i))
				}
				wg.Add(1)
				go func() {
					defer wg.Done()
					for _, a := range calls {
						e.do(a)
					}
				}()
			}
			if c.Intn(12) == 0 {
				// More than the queue takes
				for k := 0; k < 90+c.Intn(60); k++ {
					a := c.genCall(1000+k, session)
					wg.Add(1)
					go func() {
						defer wg.Done()
						e.do(a)
					}()
				}
			}
			if c.Intn(3) == 0 {
				e.start() // refused
			}
			time.Sleep(time.Duration(c.Intn(150000)) * time.Microsecond)
			switch way {
			case 0:
				e.ns.Stop()
			case 1:
				e.cancel()
			case 2:
				go e.ns.Stop()
				go e.ns.Stop()
				e.cancel()
			case 3:
				e.ns.Stop()
				e.cancel()
				e.ns.Stop()
			case 4:
				e.cancel()
				time.Sleep(time.Duration(c.Intn(60000)) * time.Microsecond)
				e.ns.Stop()
			default:
				go e.ns.Stop()
				e.ns.Start(context.Background())
			}
			wg.Wait()
		} else if way < 2 {
			e.ns.Stop()
			if e.start() == nil {
				c.fail("a stopped namespace was started")
			}
			e.do(c.genCall(9, 9))
		}
		story += fmt.Sprintf("started %v, ended in way %d after %d calls; ", started, way, len(e.processedCalls()))
		c.nothingLeft(d, story)
		e.cancel()
		c.count("processed_calls", int64(len(e.processedCalls())))
	}
	c.eval("%s", story)
	c.sample("%s", story)
}

// The number of goroutines and open files doesn't grow with the calls a running namespace answers.
func (c *kase) answeredLeavesNothing(e *engine, d string) {
	time.Sleep(time.Hour)
	files, routines := len(openFiles(d)), len(repoGoroutines())
	var wg sync.WaitGroup
	n := 20 + c.Intn(100)
	for k := 0; k < n; k++ {
		a := c.genCall(5000+k, 1)
		wg.Add(1)
		go func() {
			defer wg.Done()
			e.do(a)
		}()
		if c.Intn(10) == 0 {
			time.Sleep(time.Duration(c.Intn(100)) * time.Millisecond)
		}
	}
	wg.Wait()
	time.Sleep(time.Hour)
	f, g := len(openFiles(d)), len(repoGoroutines())
	c.check(f < files+n/2, "%d files are open after %d calls were answered, %d before", f, n, files)
	c.check(g < routines+n/2, "%d goroutines are there after %d calls were answered, %d before", g, n, routines)
}

// The namespaces of a service are all stopped or deleted, or none can be started as there's no like storage.
func endedServiceCase(c *kase) {
	defer uncollected()()
	d := c.dir()
	defer c.rmdir(d)
	s := newService(d)
	names := []string{"a", "b", "c", "d"}[:1+c.Intn(4)]
	var engines []*engine
	story := ""
	for i, name := range names {
		ns, err := nsOp{kind: "create", name: name, fac: 0.5}.apply(s)
		c.check(err == nil, "creating %s: %v", name, err)
		if c.Intn(3) == 0 {
			continue
		}
		m := newEngineModel()
		opts := engineOpts{dir: d, name: name, apply: m.apply}
		if c.Intn(4) == 0 {
			kind := []string{"delta", "index", "like"}[c.Intn(3)]
			opts.openFault = func(k string) error {
				if k == kind {
					return errOpen
				}
				return nil
			}
			story += fmt.Sprintf("%d can't open %s; ", i, kind)
		}
		engines = append(engines, instrument(c, ns, opts))
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	for i := 1 + c.Intn(2); i > 0; i-- {
		s.Start(ctx)
	}
	var wg sync.WaitGroup
	for k, e := range engines {
		e := e
		for i := c.Intn(4); i > 0; i-- {
			a := c.genCall(k, i)
			wg.Add(1)
			go func() {
				defer wg.Done()
				e.do(a)
			}()
		}
	}
	time.Sleep(time.Duration(c.Intn(120000)) * time.Microsecond)
	deleted := 0
	for _, name := range names {
		switch c.Intn(4) {
		case 0, 1:
			err := s.DeleteNamespace(mustName(name))
			c.check(err == nil, "deleting %s: %v", name, err)
			deleted++
		case 2:
			nsOp{kind: "update", name: name, new: name + "x", max: 5, fac: 0.5}.apply(s)
		}
	}
	if deleted < len(names) {
		cancel()
	}
	wg.Wait()
	processed := 0
	for _, e := range engines {
		processed += len(e.processedCalls())
	}
	story += fmt.Sprintf("%d of %d namespaces work, %d deleted", len(engines), len(names), deleted)
	c.nothingLeft(d, story)
	c.eval("%s %d", story, processed)
	c.sample("%s, %d calls", story, processed)
}

// Changes, loads and requests, with and without faults.
func registryLeakCase(c *kase) {
	defer uncollected()()
	d := c.dir()
	defer c.rmdir(d)
	defer setFSHook(d, nil)
	s := newService(d)
	api := newRest(s)
	story := ""
	for i := 1 + c.Intn(12); i > 0; i-- {
		var unblock func()
		if c.Intn(10) == 0 {
			unblock = blockRegistry(c, d)
		}
		f := &fsFault{at: 1 << 30, burst: 1 + c.Intn(2)}
		kind := c.Intn(8)
		if c.Intn(2) == 0 && kind != 3 {
			f.at = c.Intn(10)
			f.partial = c.Intn(50)
			setFSHook(d, f.hook)
		}
		what := ""
		switch kind {
		case 0:
			s = newService(d)
			api = newRest(s)
			what = fmt.Sprintf("load %v", s.LoadNamespaces() == nil)
		case 1:
			what = fmt.Sprintf("save %v", s.SaveNamespaces() == nil)
		case 2:
			what = fmt.Sprintf("start %v", s.Start(context.Background()) == nil)
		case 3:
			data := readFileIfAny(d + "namespaces.json")
			if len(data) > 0 && unblock == nil {
				os.WriteFile(d+"namespaces.json", data[:c.Intn(len(data))], 0644)
				err := newService(d).LoadNamespaces()
				os.WriteFile(d+"namespaces.json", data, 0644)
				what = fmt.Sprintf("load of a part %v", err == nil)
			}
		case 4:
			method := []string{"GET", "POST", "PUT", "DELETE"}[c.Intn(4)]
			body, _, _ := c.genBody("a", method == "POST")
			target := "/api/v1/namespaces"
			if method != "POST" {
				target += "/a"
			}
			code, _ := api.do(method, target, body)
			what = fmt.Sprintf("%s %d", method, code)
		default:
			o := c.genOp(c.genName)
			_, err := o.apply(s)
			what = fmt.Sprintf("%s %v", o.kind, err == nil)
		}
		setFSHook(d, nil)
		if unblock != nil {
			unblock()
			what += " blocked"
		}
		if f.fired() {
			what += " fault in " + f.what()
		}
		story += what + "; "
		files := openFiles(d)
		c.check(len(files) == 0, "after %s: still open: %v", story, files)
	}
	c.nothingLeft(d, story)
	c.eval("%s", story)
	c.sample("%s", story)
}

func readFileIfAny(path string) []byte {
	b, _ := os.ReadFile(path)
	return b
}

type recdbOpener interface {
	OpenOrCreateFile(path string) (*os.File, error)
}

// Indexes and recdb files that are opened, created or closed in spite of faults, damage and things in the way.
func fileLeakCase(c *kase) {
	defer uncollected()()
	d := c.dir()
	defer c.rmdir(d)
	defer setFSHook(d, nil)
	fac := index.NewStorageFactory()
	story := ""
	for i := 1 + c.Intn(8); i > 0; i-- {
		path := fmt.Sprintf("%sf%d", d, c.Intn(3))
		if fi, err := os.Lstat(path); err == nil && fi.IsDir() || c.Intn(10) == 0 {
			os.RemoveAll(path)
		} else if err == nil && c.Intn(3) == 0 {
			data := readFileIfAny(path)
			os.WriteFile(path, malform(c, data, []int{0}), 0644)
		} else if err != nil && c.Intn(10) == 0 {
			os.Mkdir(path, 0755)
		}
		f := &fsFault{at: 1 << 30, burst: 1 + c.Intn(3)}
		if c.Intn(3) > 0 {
			f.at = c.Intn(20)
			f.partial = c.Intn(20)
			setFSHook(d, f.hook)
		}
		what := ""
		proto, ok := newRecdb().(recdbOpener)
		if !ok || c.Intn(3) > 0 {
			s, err := fac.OpenFile(path)
			what = fmt.Sprintf("open %v", err == nil)
			if err == nil {
				for k := c.Intn(5); k > 0; k-- {
					s.Put(genID(c.Rand), genID(c.Rand))
				}
				what += fmt.Sprintf(", close %v", s.Close() == nil)
			}
		} else {
			path += "r"
			file, err := proto.OpenOrCreateFile(path)
			what = fmt.Sprintf("recdb %v", err == nil)
			if err == nil {
				files := openFiles(d)
				c.check(len(files) == 1, "after %s%s: the recdb file was opened, and these are: %v", story, what, files)
				file.Close()
			}
		}
		setFSHook(d, nil)
		if f.fired() {
			what += " fault in " + f.what()
		}
		story += what + "; "
		files := openFiles(d)
		c.check(len(files) == 0, "after %s: still open: %v", story, files)
	}
	c.nothingLeft(d, story)
	c.eval("%s", story)
	c.sample("%s", story)
}
