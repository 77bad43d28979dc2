package main

import (
	"fmt"
	"io"
	"log"
	"os"
	"runtime"
	"strings"
	"sync"

	"recengine/internal/domain"
	"recengine/internal/infra/delta"
	"recengine/internal/infra/index"
	"recengine/internal/infra/recdb"
)

func init() {
	register("C30", "exploration",
		"what operations read, write, print and allocate is measured and compared with generous linear budgets (several times what they need): "+
			"flushes of little into logs that hold much, lookups, opening, recovering and closing of logs and indexes, iterating and rewriting recdb files, "+
			"registry changes, loads and reading requests; non-trivial: the stored data are much more than what the operation is about; distinct by sizes and costs",
		func(r *run) {
			r.virtual("delta", r.n(400, 6000), deltaCostCase)
			r.virtual("index", r.n(300, 6000), indexCostCase)
			r.virtual("recdb", r.n(300, 6000), recdbCostCase)
			r.virtual("registry", r.n(300, 6000), registryCostCase)
		})
}

// What something has cost.
type cost struct {
	reads, writes, seeks int64 // operations
	in, out              int64 // bytes of files read and written
	printed              int64 // bytes printed or logged
	alloc                int64 // bytes allocated
}

func (k cost) String() string {
	return fmt.Sprintf("%d reads of %d bytes, %d writes of %d bytes, %d seeks, %d bytes printed, %d allocated", k.reads, k.in, k.writes, k.out, k.seeks, k.printed, k.alloc)
}

func (k *cost) add(o cost) {
	k.reads += o.reads
	k.writes += o.writes
	k.seeks += o.seeks
	k.in += o.in
	k.out += o.out
	k.printed += o.printed
	k.alloc += o.alloc
}

// A file that counts what's done with it.
type meteredFile struct {
	*memFile
	sync.Mutex
	cost
}

func newMetered(data []byte) *meteredFile {
	f := newMemFile(data)
	f.plain = true
	return &meteredFile{memFile: f}
}

func (m *meteredFile) Read(b []byte) (int, error) {
	n, err := m.memFile.Read(b)
	m.reads++
	m.in += int64(n)
	return n, err
}

func (m *meteredFile) Write(b []byte) (int, error) {
	n, err := m.memFile.Write(b)
	m.writes++
	m.out += int64(n)
	return n, err
}

func (m *meteredFile) Seek(offset int64, whence int) (int64, error) {
	m.seeks++
	return m.memFile.Seek(offset, whence)
}

type countingWriter struct{ n *int64 }

func (w countingWriter) Write(b []byte) (int, error) {
	*w.n += int64(len(b))
	return len(b), nil
}

// Measures f, which works with the file, if any.
func (c *kase) costs(file *meteredFile, f func()) cost {
	var k cost
	out, err := os.CreateTemp(c.r.scratch, "printed")
	if err != nil {
		panic(err)
	}
	defer os.Remove(out.Name())
	defer out.Close()
	stdout, stderr := os.Stdout, os.Stderr
	os.Stdout, os.Stderr = out, out
	log.SetOutput(countingWriter{&k.printed})
	defer func() {
		os.Stdout, os.Stderr = stdout, stderr
		log.SetOutput(io.Discard)
	}()
	var c0 cost
	if file != nil {
		c0 = file.cost
	}
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	f()
	runtime.ReadMemStats(&m1)
	k.alloc = int64(m1.TotalAlloc - m0.TotalAlloc)
	if file != nil {
		k.reads, k.writes, k.seeks = file.reads-c0.reads, file.writes-c0.writes, file.seeks-c0.seeks
		k.in, k.out = file.in-c0.in, file.out-c0.out
		// The memory of the file itself
		k.alloc -= 4 * k.out
	}
	if fi, err := out.Stat(); err == nil {
		k.printed += fi.Size()
	}
	c.count("bytes_read", k.in)
	c.count("bytes_written", k.out)
	c.count("measured", 1)
	return k
}

// Compares the cost with what it may be.
func (c *kase) within(k, budget cost, format string, args ...any) {
	what := fmt.Sprintf(format, args...)
	c.log("%s: %v", what, k)
	if path := os.Getenv("VERIF_COSTS"); path != "" {
		if f, err := os.OpenFile(path, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644); err == nil {
			fmt.Fprintf(f, "COST %s: in %d/%d out %d/%d ops %d/%d printed %d/%d alloc %d/%d\n", strings.ReplaceAll(strings.TrimRight(what, "0123456789"), " ", "_"), k.in, budget.in, k.out, budget.out,
				k.reads+k.writes+k.seeks, budget.reads, k.printed, budget.printed, k.alloc, budget.alloc)
			f.Close()
		}
	}
	c.check(k.in <= budget.in, "%s: %d bytes were read, at most %d are plausible", what, k.in, budget.in)
	c.check(k.out <= budget.out, "%s: %d bytes were written, at most %d are plausible", what, k.out, budget.out)
	c.check(k.reads+k.writes+k.seeks <= budget.reads, "%s: %d file operations, at most %d are plausible", what, k.reads+k.writes+k.seeks, budget.reads)
	c.check(k.printed <= budget.printed, "%s: %d bytes were printed, at most %d are plausible", what, k.printed, budget.printed)
	c.check(k.alloc <= budget.alloc, "%s: %d bytes were allocated, at most %d are plausible", what, k.alloc, budget.alloc)
}

func (c *kase) bulk(most int) int {
	n := 1 << uint(4+c.Intn(9))
	for n < most && c.Intn(3) == 0 {
		n *= 4
	}
	return min(n+c.Intn(n), most)
}

func deltaCostCase(c *kase) {
	fac := delta.NewStorageFactory()
	n := c.bulk(40000)
	users := 1 + c.Intn(n)
	if c.Intn(3) > 0 {
		users = 1 + c.Intn(8)
	}
	var recs []deltaRec
	for i := 0; i < n; i++ {
		recs = append(recs, deltaRec{"+-"[c.Intn(2)], uint64(i % users), uint64(i)})
	}
	locked := byte(c.Intn(2))
	file := newMetered(encDelta(locked, recs))
	size := int64(len(file.data))
	N := int64(n)
	var s domain.DeltaStorage
	var err error
	k := c.costs(file, func() { s, err = fac.OpenMaybeRecover(file) })
	c.check(err == nil, "opening: %v", err)
	budget := cost{in: 3*size + 65536, out: 8192, reads: 16*N + 1000, printed: 4096, alloc: 1<<20 + 1024*N + 16384*int64(users)}
	if locked == 1 {
		budget.in, budget.out, budget.reads = 6*size+65536, 3*size+65536, 48*N+1000
		budget.alloc += 2048 * N
	}
	c.within(k, budget, "opening of a log of %d operations of %d users (locked: %d)", n, users, locked)
	// Lookups
	gets := 200
	k = c.costs(file, func() {
		for i := 0; i < gets; i++ {
			s.Get(uint64(c.Intn(users)), uint64(c.Intn(n)))
			s.GetTotalItemCount()
			s.GetFileSize()
		}
	})
	c.within(k, cost{printed: 4096, alloc: 65536 + 1024*int64(gets)}, "lookups in a log of %d operations", n)
	if users < 1000 {
		k = c.costs(file, func() { s.GetUserCount() })
		c.within(k, cost{printed: 4096, alloc: 65536 + 64*int64(users)}, "counting %d users", users)
	}
	// Flushes of little
	flushes, added := 30+c.Intn(30), 0
	var total cost
	for i := 0; i < flushes; i++ {
		few := c.Intn(4)
		k = c.costs(file, func() {
			for j := 0; j < few; j++ {
				added++
				s.Add(domain.DeltaOpAdd, uint64(c.Intn(users)), uint64(n+added))
			}
		})
		c.within(k, cost{printed: 4096, alloc: 65536}, "adding of %d operations to a log of %d", few, n)
		k = c.costs(file, func() { err = s.Flush() })
		c.check(err == nil, "flush: %v", err)
		k2 := k
		k2.alloc = 0
		c.within(k2, cost{in: 4096, out: 4096 + 64*int64(few), reads: 100 + 16*int64(few), printed: 4096}, "flush of %d operations to a log of %d", few, n)
		total.add(k)
	}
	c.within(cost{alloc: total.alloc, printed: total.printed}, cost{printed: 4096, alloc: 65536 + 65536*int64(flushes) + 160*N},
		"flushes, %d of them, of %d operations to a log of %d operations of %d users", flushes, added, n, users)
	k = c.costs(file, func() { err = s.Close() })
	c.check(err == nil, "closing: %v", err)
	c.within(k, cost{in: 8192, out: 8192, reads: 200, printed: 4096, alloc: 262144}, "closing of a log of %d operations", n)
	c.eval("%d %d %d %d", n, users, locked, flushes)
	c.sample("%d operations of %d users (locked: %d), %d flushes of %d operations: %v", n, users, locked, flushes, added, total)
}

func indexCostCase(c *kase) {
	fac := index.NewStorageFactory()
	n := c.bulk(40000)
	m, ids := map[uint64]uint64{}, []uint64{}
	for i := 0; i < n; i++ {
		id := c.Uint64()
		m[id] = uint64(i)
		ids = append(ids, id)
	}
	n = len(m)
	N := int64(n)
	file := newMetered(encIndex(0, ids, m))
	size := int64(len(file.data))
	var s domain.IndexStorage
	var err error
	k := c.costs(file, func() { s, err = fac.Open(file, file.memFile) })
	c.check(err == nil, "opening: %v", err)
	c.within(k, cost{in: 3*size + 65536, out: 8192, reads: 16*N + 1000, printed: 4096, alloc: 1<<20 + 1024*N}, "opening of an index of %d entries", n)
	steps := 200
	k = c.costs(file, func() {
		for i := 0; i < steps; i++ {
			id := ids[c.Intn(len(ids))]
			switch c.Intn(3) {
			case 0:
				s.Put(id, id)
			case 1:
				s.Remove(id)
			default:
				s.Get(id)
			}
		}
	})
	c.within(k, cost{printed: 4096, alloc: 65536 + 256*int64(steps) + 160*N}, "changes and lookups in an index of %d entries", n)
	k = c.costs(file, func() { err = s.Close() })
	c.check(err == nil, "closing: %v", err)
	c.within(k, cost{in: 8192, out: 2*size + 65536, reads: 16*N + 1000, printed: 4096, alloc: 1<<20 + 1024*N}, "closing of an index of %d entries", n)
	c.eval("%d", n)
	c.sample("%d entries", n)
}

func recdbCostCase(c *kase) {
	n := c.bulk(3000)
	var recs []likeRec
	items := int64(0)
	for i := 0; i < n; i++ {
		l := likeRec{user: uint64(i), likes: genItems(c.Rand, c.Intn(12)), dislikes: genItems(c.Rand, c.Intn(12))}
		if c.Intn(200) == 0 {
			l.likes = genItems(c.Rand, 2000)
		}
		l.capacity = uint32(l.size() + c.Intn(100))
		items += int64(len(l.likes) + len(l.dislikes))
		recs = append(recs, l)
	}
	file := newMetered(encRecdb(0, recs))
	size, N := int64(len(file.data)), int64(n)
	var it recdb.Iterator
	var err error
	rewrites, rewritten := int64(0), int64(0)
	k := c.costs(file, func() {
		it, err = recdb.NewIterator(file, newRecdb())
		c.check(err == nil, "iterating: %v", err)
		for it.HasNext() {
			_, err = it.Next()
			c.check(err == nil, "iterating: %v", err)
		}
	})
	c.within(k, cost{in: 3*size + 65536, reads: 16*N + items + 1000, printed: 4096, alloc: 1<<20 + 2048*N + 256*items}, "iterating over %d entries with %d items", n, items)
	c.check(it.Rewind() == nil, "rewinding failed")
	often := 1 + c.Intn(50)
	i := 0
	k = c.costs(file, func() {
		for it.HasNext() {
			e, err := it.Next()
			c.check(err == nil, "iterating: %v", err)
			if i%often == 0 {
				c.check(it.SetPrevious(e) == nil, "rewriting of entry %d failed", i)
				rewrites++
				rewritten += int64(e.Capacity)
			}
			i++
		}
	})
	c.within(k, cost{in: 3*size + 65536 + rewrites*20000, out: 2*rewritten + 1024*rewrites, reads: 16*N + 4*items + 64*rewrites + 1000, printed: 4096,
		alloc: 1<<20 + 2048*N + 256*items + 16384*rewrites + 16*rewritten}, "rewriting of %d of %d entries with %d items", rewrites, n, items)
	c.eval("%d %d %d", n, items, rewrites)
	c.sample("%d entries with %d items, %d rewritten", n, items, rewrites)
}

func registryCostCase(c *kase) {
	d := c.dir()
	defer c.rmdir(d)
	defer setFSHook(d, nil)
	s := newService(d)
	n := 1 + c.Intn(250)
	var names []string
	for i := 0; i < n; i++ {
		o := nsOp{kind: "create", name: fmt.Sprintf("n%d-%s", i, c.genName()), max: c.genMax(), fac: c.genFactor()}
		_, err := o.apply(s)
		c.check(err == nil, "creating: %v", err)
		names = append(names, o.name)
	}
	api := newRest(s)
	story := ""
	for i := 3 + c.Intn(10); i > 0; i-- {
		fi, err := os.Stat(d + "namespaces.json")
		c.check(err == nil, "the registry: %v", err)
		size := fi.Size()
		var k cost
		var mu sync.Mutex
		mutating := 0
		setFSHook(d, func(o fsOp) (int, error) {
			mu.Lock()
			defer mu.Unlock()
			switch o.op {
			case "read":
				k.reads++
				// There's room for more than there is in the file
				k.in += min64(int64(o.size), size)
			case "write":
				k.writes++
				k.out += int64(o.size)
			default:
				k.seeks++
			}
			if o.mutating() {
				mutating++
			}
			return o.size, nil
		})
		what := ""
		budget := cost{in: 4096 + 4*size, reads: 60, printed: 8192, alloc: 1<<20 + 4096*int64(n) + 64*size}
		pure, reading := false, false
		name := names[c.Intn(len(names))]
		m := c.costs(nil, func() {
			switch c.Intn(6) {
			case 0:
				api.do("GET", "/api/v1/namespaces", "")
				what, pure, reading = "listing", true, true
			case 1:
				api.do("GET", "/api/v1/namespaces/"+name, "")
				what, pure, reading = "getting", true, true
			case 2:
				s.GetNamespaces()
				s.GetNamespaceByName(mustName(name))
				what, pure, reading = "looking up", true, true
			case 3:
				err := newService(d).LoadNamespaces()
				c.check(err == nil, "loading: %v", err)
				what, pure = "loading", true
				budget.in = 65536 + 8*size
			case 4:
				o := nsOp{kind: "update", name: name, new: name, max: c.genMax(), fac: c.genFactor()}
				_, err := o.apply(s)
				c.check(err == nil, "%v: %v", o, err)
				what = "update"
				budget.out = 4096 + 3*size/2
			default:
				o := nsOp{kind: "create", name: fmt.Sprintf("e%d-%d", i, c.Intn(1000000)), max: c.genMax(), fac: c.genFactor()}
				_, err := o.apply(s)
				c.check(err == nil, "%v: %v", o, err)
				names = append(names, o.name)
				what = "create"
				budget.out = 4096 + 3*size/2
			}
		})
		setFSHook(d, nil)
		m.reads, m.writes, m.seeks, m.in, m.out = k.reads, k.writes, k.seeks, k.in, k.out
		c.within(m, budget, "%s with %d namespaces (%d bytes)", what, len(names), size)
		c.check(!reading || k.reads == 0, "%s with %d namespaces: files were read %d times", what, len(names), k.reads)
		c.check(!pure || mutating == 0, "%s with %d namespaces: %d operations changed files", what, len(names), mutating)
		story += what + " "
	}
	c.eval("%d %s", n, story)
	c.sample("%d namespaces: %s", n, story)
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}
