package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"recengine/internal/domain"
	"recengine/internal/infra/delta"
)

type pair struct{ user, item uint64 }

// The sequential model of a delta storage.
type deltaModel struct {
	flushed   []deltaRec
	unflushed []deltaRec
	last      map[pair]byte // of the flushed ones
	pending   map[pair]int  // index in unflushed
}

func newDeltaModel(recs []deltaRec) *deltaModel {
	m := &deltaModel{last: make(map[pair]byte), pending: make(map[pair]int)}
	for _, r := range recs {
		m.add(r)
		m.flush()
	}
	return m
}

func (m *deltaModel) add(r deltaRec) {
	p := pair{r.user, r.item}
	if i, ok := m.pending[p]; ok {
		m.unflushed[i].op = r.op
		return
	}
	m.pending[p] = len(m.unflushed)
	m.unflushed = append(m.unflushed, r)
}

func (m *deltaModel) flush() {
	for _, r := range m.unflushed {
		m.last[pair{r.user, r.item}] = r.op
	}
	m.flushed = append(m.flushed, m.unflushed...)
	m.unflushed = nil
	m.pending = make(map[pair]int)
}

func (m *deltaModel) get(p pair) (byte, bool) {
	if i, ok := m.pending[p]; ok {
		return m.unflushed[i].op, true
	}
	op, ok := m.last[p]
	return op, ok
}

func (m *deltaModel) users() int {
	u := make(map[uint64]bool)
	for p := range m.last {
		u[p.user] = true
	}
	for p := range m.pending {
		u[p.user] = true
	}
	return len(u)
}

func (m *deltaModel) total() int { return len(m.flushed) + len(m.unflushed) }

func (m *deltaModel) keys() []pair {
	var ks []pair
	for p := range m.last {
		ks = append(ks, p)
	}
	for p := range m.pending {
		if _, dup := m.last[p]; !dup {
			ks = append(ks, p)
		}
	}
	return ks
}

// Users and items the operations of a case are made of.
type deltaPool struct {
	users, items []uint64
}

func genDeltaPool(r *rand.Rand) *deltaPool {
	p := &deltaPool{}
	switch r.Intn(5) {
	case 0: // few users with many items each
		p.users = genIDs(r, 1+r.Intn(3))
		p.items = genIDs(r, 1+genSize(r, 300))
	case 1: // many users
		p.users = genIDs(r, 1+genSize(r, 300))
		p.items = genIDs(r, 1+r.Intn(4))
	default:
		p.users = genIDs(r, 1+r.Intn(6))
		p.items = genIDs(r, 1+r.Intn(10))
	}
	if r.Intn(4) == 0 { // users and items with swapped values
		for i := range p.items {
			if i < len(p.users) && r.Intn(2) == 0 && !has(p.items, p.users[i]) {
				p.items[i] = p.users[i]
			}
		}
	}
	return p
}

// Most operations are of few users, or of as many users as operations.
func genBigPool(r *rand.Rand, size int) *deltaPool {
	if r.Intn(3) == 0 {
		return &deltaPool{genIDs(r, size), genIDs(r, 1+r.Intn(3))}
	}
	return &deltaPool{genIDs(r, 1+r.Intn(3)), genIDs(r, size)}
}

func has(a []uint64, x uint64) bool {
	for _, y := range a {
		if y == x {
			return true
		}
	}
	return false
}

func (p *deltaPool) rec(r *rand.Rand) deltaRec {
	op := byte('+')
	if r.Intn(2) == 0 {
		op = '-'
	}
	return deltaRec{op, p.users[r.Intn(len(p.users))], p.items[r.Intn(len(p.items))]}
}

func (p *deltaPool) pair(r *rand.Rand) pair {
	if r.Intn(8) == 0 {
		return pair{genID(r), genID(r)}
	}
	return pair{p.users[r.Intn(len(p.users))], p.items[r.Intn(len(p.items))]}
}

func compareDeltaGet(c *kase, s domain.DeltaStorage, m *deltaModel, p pair, when string) {
	op, ok := s.Get(p.user, p.item)
	mop, mok := m.get(p)
	if ok != mok || (ok && byte(op) != mop) {
		c.fail("%s: Get(%d, %d) = %q, %v, expected %q, %v", when, p.user, p.item, byte(op), ok, mop, mok)
	}
}

func compareDelta(c *kase, s domain.DeltaStorage, m *deltaModel, when string) {
	c.check(s.GetTotalItemCount() == m.total(), "%s: total item count %d, expected %d",
		when, s.GetTotalItemCount(), m.total())
	c.check(s.GetUserCount() == m.users(), "%s: user count %d, expected %d", when, s.GetUserCount(), m.users())
	c.check(s.GetFileSize() == uint64(deltaHdr+m.total()*deltaEntry), "%s: file size %d, expected %d",
		when, s.GetFileSize(), deltaHdr+m.total()*deltaEntry)
	for _, p := range m.keys() {
		compareDeltaGet(c, s, m, p, when)
	}
}

func init() {
	register("C11", "exploration",
		"random histories of Add/Flush/Get/Close/reopen against a last-writer-wins model; users and items are "+
			"few or many, 64-bit boundary values included; non-trivial: at least one operation was re-added and the "+
			"file was reopened; distinct by the final contents and the number of sessions",
		func(r *run) {
			fac := delta.NewStorageFactory()
			r.cases("model", r.n(6000, 100000), func(c *kase) { deltaModelCase(c, fac, 0) })
			r.cases("large", r.n(6, 60), func(c *kase) { deltaModelCase(c, fac, 20000) })
			r.cases("users", r.n(40, 800), deltaUsersCase)
			r.cases("items", r.n(8, 150), deltaItemsCase)
			r.cases("huge", r.n(1, 4), func(c *kase) { deltaModelCase(c, fac, 70000) })
			r.cases("life", r.n(10, 100), deltaLifeCase)
			r.cases("bulk", r.n(4, 40), deltaBulkCase)
		})
	register("C12", "fault_enumeration",
		"random sessions on an in-memory file; every crash point between two file operations and torn versions of "+
			"every write are recovered and compared with the flushed history, then recovery itself is crashed at each "+
			"of its operations; non-trivial: some flushed entries exist; distinct by (file image, flushed history)",
		func(r *run) {
			fac := delta.NewStorageFactory()
			r.cases("crash", r.n(900, 20000), func(c *kase) { deltaCrashCase(c, fac, 0) })
			r.cases("bigcrash", r.n(70, 1500), func(c *kase) { deltaCrashCase(c, fac, deltaBigSize(c)) })
		})
	register("C13", "fault_enumeration",
		"valid delta files with random damage (flipped bytes, zeroed blocks, foreign operations, cut or garbage "+
			"tails, wrong counts) are recovered and compared with the list of undamaged entries; non-trivial: "+
			"something was damaged and something survived; distinct by damaged image",
		func(r *run) {
			fac := delta.NewStorageFactory()
			r.cases("damage", r.n(20000, 300000), func(c *kase) { deltaDamageCase(c, fac) })
			r.cases("bigdamage", r.n(20, 300), func(c *kase) { deltaDamageCase(c, fac) })
		})
	register("C14", "fault_enumeration",
		"random workloads in which every single file operation in turn fails (writes after a random number of bytes), "+
			"the caller retries failed flushes, and the file is reopened; non-trivial: the fault was hit; distinct by "+
			"(history, failed operation)",
		func(r *run) {
			fac := delta.NewStorageFactory()
			r.cases("fault", r.n(900, 20000), func(c *kase) { deltaFaultCase(c, fac, 0) })
			r.cases("bigfault", r.n(120, 2000), func(c *kase) { deltaFaultCase(c, fac, deltaBigSize(c)) })
			r.cases("openfault", r.n(1000, 20000), func(c *kase) { deltaOpenFaultCase(c, fac) })
		})
}

func deltaModelCase(c *kase, fac domain.DeltaStorageFactory, size int) {
	pool := genDeltaPool(c.Rand)
	steps := 20 + genSize(c.Rand, 600)
	if size > 0 {
		pool = &deltaPool{genIDs(c.Rand, 40+size/50), genIDs(c.Rand, 60)}
		steps = size + size/4
	}
	m := newDeltaModel(nil)
	var data []byte
	file := newMemFile(nil)
	s, err := fac.Open(file)
	c.check(err == nil, "opening an empty file: %v", err)
	sessions, readds := 1, 0
	wFlush, wReopen := 8, 4
	if c.Intn(3) == 0 {
		wFlush, wReopen = 2, 1
	}
	for i := 0; i < steps; i++ {
		k := c.Intn(100)
		if size > 0 {
			// A flush and two reopenings per case
			wFlush, wReopen, k = 1, 1, 99
			switch i {
			case steps / 4:
				k = 0
			case steps / 2, 3 * steps / 4:
				k = 1
			}
		}
		switch {
		case k < wFlush:
			c.log("flush")
			c.check(s.Flush() == nil, "flush failed without any fault")
			m.flush()
			c.check(uint64(len(file.data)) == s.GetFileSize(), "the file has %d bytes after a flush, %d reported",
				len(file.data), s.GetFileSize())
		case k < wFlush+wReopen:
			how := c.Intn(2)
			c.log("close, reopen (%d)", how)
			err = s.Close()
			c.check(err == nil, "close failed without any fault: %v", err)
			c.check(file.closed == 1, "close has closed the file %d times", file.closed)
			m.flush()
			data = file.data
			c.check(len(data) == deltaHdr+deltaEntry*m.total(), "%d bytes on disk for %d entries", len(data), m.total())
			file = newMemFile(data)
			if how == 0 {
				s, err = fac.Open(file)
			} else {
				s, err = fac.OpenMaybeRecover(file)
			}
			c.check(err == nil, "reopening a properly closed file: %v", err)
			sessions++
			compareDelta(c, s, m, "after reopening")
		case k < wFlush+wReopen+15 && size == 0:
			compareDeltaGet(c, s, m, pool.pair(c.Rand), "Get")
		default:
			rec := pool.rec(c.Rand)
			if _, ok := m.get(pair{rec.user, rec.item}); ok {
				readds++
			}
			c.log("add %v", rec)
			s.Add(domain.DeltaOp(rec.op), rec.user, rec.item)
			m.add(rec)
			if size == 0 {
				compareDeltaGet(c, s, m, pair{rec.user, rec.item}, "Get after Add")
				c.check(s.GetTotalItemCount() == m.total(), "total item count %d, expected %d", s.GetTotalItemCount(), m.total())
			}
		}
	}
	compareDelta(c, s, m, "before closing")
	c.check(s.Close() == nil, "close failed")
	m.flush()
	s, err = fac.Open(newMemFile(file.data))
	c.check(err == nil, "reopening after the last close: %v", err)
	compareDelta(c, s, m, "after the last close")
	c.count("adds", int64(steps))
	c.count("sessions", int64(sessions))
	if readds > 0 && sessions > 1 {
		c.eval("%d %x", sessions, byteHash(file.data))
	} else {
		c.eval("")
	}
	c.sample("%d users, %d items, %d steps, %d sessions, %d entries in the end", len(pool.users), len(pool.items),
		steps, sessions, m.total())
}

// Many users, most of them with operations that aren't flushed.
// Thousands of flushes of one storage, or hundreds of sessions of one file.
// More users, or operations of a user, than 16 bits can count, none or all of them flushed.
func deltaBulkCase(c *kase) {
	fac := delta.NewStorageFactory()
	n := 65536 + c.Intn(8000)
	user := func(i int) uint64 { return uint64(i) }
	if c.index%2 == 1 {
		u := genID(c.Rand)
		user = func(int) uint64 { return u }
	}
	m := newDeltaModel(nil)
	var recs []deltaRec
	add := func(s domain.DeltaStorage, i int) {
		r := deltaRec{"+-"[c.Intn(2)], user(i), uint64(i)}
		s.Add(domain.DeltaOp(r.op), r.user, r.item)
		m.add(r)
	}
	file := newMemFile(nil)
	file.plain = true
	start := 0
	if c.index&2 != 0 {
		start = n - 50
		for i := 0; i < start; i++ {
			recs = append(recs, deltaRec{"+-"[c.Intn(2)], user(i), uint64(i)})
		}
		file = newMemFile(encDelta(0, recs))
		file.plain = true
		m = newDeltaModel(recs)
	}
	s, err := fac.Open(file)
	c.check(err == nil, "opening: %v", err)
	compare := func(when string) {
		c.check(s.GetTotalItemCount() == m.total() && s.GetUserCount() == m.users(), "%s: %d items of %d users, expected %d of %d", when,
			s.GetTotalItemCount(), s.GetUserCount(), m.total(), m.users())
		c.check(s.GetFileSize() == uint64(deltaHdr+m.total()*deltaEntry), "%s: file size %d", when, s.GetFileSize())
		for i := 0; i < 400; i++ {
			k := c.Intn(n + 2)
			if i%4 == 0 {
				k = i / 4
			}
			compareDeltaGet(c, s, m, pair{user(k), uint64(k)}, when)
		}
	}
	for i := start; i < n; i++ {
		add(s, i)
	}
	compare("after many additions")
	for i := 0; i < 300; i++ {
		add(s, c.Intn(n))
	}
	compare("after changes among many operations")
	c.check(s.Flush() == nil, "flush failed without any fault")
	m.flush()
	compare("after a flush")
	for i := 0; i < 300; i++ {
		add(s, c.Intn(n+100))
	}
	compare("after changes of flushed ones")
	c.check(s.Close() == nil, "closing failed")
	m.flush()
	lock, got, err := decDelta(file.data)
	c.check(err == nil && lock == 0 && len(got) == m.total(), "%d entries in the file, expected %d (locked: %d, %v)", len(got), m.total(), lock, err)
	last := map[pair]byte{}
	for _, r := range got {
		last[pair{r.user, r.item}] = r.op
	}
	for p, op := range m.last {
		c.check(last[p] == op, "the last operation on %d by %d in the file is %q, expected %q", p.item, p.user, last[p], op)
	}
	file = newMemFile(file.data)
	file.plain = true
	s, err = fac.Open(file)
	c.check(err == nil, "reopening: %v", err)
	compare("after reopening")
	c.eval("%d %d", c.index, n)
	c.count("adds", int64(n))
	c.sample("%d operations, kind %d", m.total(), c.index%4)
}

func deltaLifeCase(c *kase) {
	fac := delta.NewStorageFactory()
	flushes, sessions := 300+c.Intn(3000), 1
	switch c.index % 3 {
	case 0:
		flushes, sessions = 3, 260+c.Intn(100)
	case 1:
		flushes, sessions = 66, 20
	}
	if c.index == 2 {
		flushes = 66000
	}
	m := newDeltaModel(nil)
	var data []byte
	for k := 0; k < sessions; k++ {
		file := newMemFile(data)
		file.plain = true
		s, err := fac.Open(file)
		c.check(err == nil, "session %d: opening: %v", k, err)
		for i := 0; i < flushes; i++ {
			r := deltaRec{"+-"[c.Intn(2)], uint64(c.Intn(50)), uint64(c.Intn(50))}
			s.Add(domain.DeltaOp(r.op), r.user, r.item)
			m.add(r)
			c.check(s.Flush() == nil, "flush %d failed without any fault", i)
			m.flush()
			if i%500 == 0 {
				compareDeltaGet(c, s, m, pair{r.user, r.item}, "Get")
				c.check(s.GetTotalItemCount() == m.total(), "after %d flushes in session %d: %d items, expected %d", i+1, k, s.GetTotalItemCount(), m.total())
			}
		}
		if k%20 == 0 || k == sessions-1 {
			compareDelta(c, s, m, fmt.Sprintf("the end of session %d", k))
		}
		c.check(s.Close() == nil, "session %d: closing failed", k)
		data = file.data
	}
	lock, recs, err := decDelta(data)
	c.check(err == nil && lock == 0 && len(recs) == m.total(), "after %d sessions of %d flushes: %d entries in the file, expected %d (locked: %d, %v)",
		sessions, flushes, len(recs), m.total(), lock, err)
	s, err := fac.Open(newMemFile(data))
	c.check(err == nil, "reopening: %v", err)
	compareDelta(c, s, m, "after reopening")
	c.count("flushes", int64(flushes*sessions))
	c.eval("%x", byteHash(data))
	c.sample("%d sessions with %d flushes each", sessions, flushes)
}

func deltaUsersCase(c *kase) {
	fac := delta.NewStorageFactory()
	n := 200 + c.Intn(3000)
	if d := dictSize(c.Rand, 100, 20000); d > 0 && c.Intn(4) == 0 {
		n = d + c.Intn(40)
	}
	ids := genIDs(c.Rand, n)
	m := newDeltaModel(nil)
	file := newMemFile(nil)
	s, err := fac.Open(file)
	c.check(err == nil, "opening an empty file: %v", err)
	for i, u := range ids {
		r := deltaRec{"+-"[c.Intn(2)], u, genID(c.Rand)}
		s.Add(domain.DeltaOp(r.op), r.user, r.item)
		m.add(r)
		if c.Intn(4) == 0 {
			r = deltaRec{"+-"[c.Intn(2)], ids[c.Intn(i+1)], genID(c.Rand)}
			s.Add(domain.DeltaOp(r.op), r.user, r.item)
			m.add(r)
		}
		if i%97 == 0 || i == n-1 {
			c.check(s.GetUserCount() == m.users() && s.GetTotalItemCount() == m.total(), "%d users and %d items, expected %d and %d",
				s.GetUserCount(), s.GetTotalItemCount(), m.users(), m.total())
		}
		if c.Intn(n) == 0 {
			c.check(s.Flush() == nil, "flush failed without any fault")
			m.flush()
		}
	}
	compareDelta(c, s, m, "before closing")
	c.check(s.Close() == nil, "close failed")
	m.flush()
	s, err = fac.Open(newMemFile(file.data))
	c.check(err == nil, "reopening: %v", err)
	compareDelta(c, s, m, "after reopening")
	c.eval("%x", byteHash(file.data))
	c.count("users", int64(n))
}

// One user with many items, flushed or not.
func deltaItemsCase(c *kase) {
	fac := delta.NewStorageFactory()
	n := []int{1100, 4200, 8300, 17000}[c.Intn(4)] + c.Intn(200)
	if d := dictSize(c.Rand, 100, 40000); d > 0 && c.Intn(4) == 0 {
		n = d + c.Intn(40)
	}
	users := genIDs(c.Rand, 1+c.Intn(2))
	file := newMemFile(nil)
	s, err := fac.Open(file)
	c.check(err == nil, "opening an empty file: %v", err)
	m := newDeltaModel(nil)
	flushAt := c.Intn(2 * n)
	var added []pair
	for i := 0; i < n; i++ {
		r := deltaRec{"+-"[c.Intn(2)], users[c.Intn(len(users))], uint64(i) << uint(c.Intn(2)*40)}
		if i > 0 && c.Intn(50) == 0 {
			// The oldest ones again
			r.user, r.item = added[c.Intn(min(i, 20))].user, added[c.Intn(min(i, 20))].item
		}
		added = append(added, pair{r.user, r.item})
		s.Add(domain.DeltaOp(r.op), r.user, r.item)
		m.add(r)
		if c.Intn(200) == 0 {
			compareDeltaGet(c, s, m, added[c.Intn(i+1)], "Get")
			compareDeltaGet(c, s, m, added[c.Intn(min(i+1, 20))], "Get of an old one")
		}
		if i == flushAt {
			c.check(s.Flush() == nil, "flush failed without any fault")
			m.flush()
		}
	}
	compareDelta(c, s, m, "before closing")
	c.check(s.Close() == nil, "close failed")
	m.flush()
	s, err = fac.Open(newMemFile(file.data))
	c.check(err == nil, "reopening: %v", err)
	compareDelta(c, s, m, "after reopening")
	c.eval("%x", byteHash(file.data))
	c.count("adds", int64(n))
}

func byteHash(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, x := range b {
		h = (h ^ uint64(x)) * 1099511628211
	}
	return h
}

// A flush (explicit or by closing): the range of file operations it consisted
// of and the entries it had to write.
type flushEvent struct {
	start, end int
	recs       []deltaRec
}

func multiset(recs []deltaRec) map[deltaRec]int {
	m := make(map[deltaRec]int)
	for _, r := range recs {
		m[r]++
	}
	return m
}

// Checks a recovered file: all the durable entries are there, and there is
// nothing besides them but the entries of the interrupted flushes.
func checkRecovered(c *kase, s domain.DeltaStorage, data []byte, durable, inflight []deltaRec, when string) []deltaRec {
	_, recs, err := decDelta(data)
	c.check(err == nil, "%s: the recovered file isn't consistent: %v", when, err)
	got, must, may := multiset(recs), multiset(durable), multiset(inflight)
	for r, n := range must {
		c.check(got[r] >= n, "%s: flushed entry %v is lost (%d of %d recovered)", when, r, got[r], n)
	}
	for r, n := range got {
		c.check(n <= must[r]+may[r], "%s: entry %v recovered %d times, but written %d times", when, r, n, must[r]+may[r])
	}
	c.check(s.GetTotalItemCount() == len(recs), "%s: %d entries reported, %d in the file", when,
		s.GetTotalItemCount(), len(recs))
	last := make(map[pair]byte)
	for _, r := range durable {
		last[pair{r.user, r.item}] = r.op
	}
	for p, op := range last {
		g, ok := s.Get(p.user, p.item)
		c.check(ok && (byte(g) == op || may[deltaRec{byte(g), p.user, p.item}] > 0),
			"%s: Get(%d, %d) = %q, %v, flushed %q", when, p.user, p.item, byte(g), ok, op)
	}
	for r := range may {
		if _, ok := last[pair{r.user, r.item}]; ok {
			continue
		}
		g, ok := s.Get(r.user, r.item)
		c.check(!ok || may[deltaRec{byte(g), r.user, r.item}] > 0, "%s: Get(%d, %d) = %q, %v, interrupted flush of %q",
			when, r.user, r.item, byte(g), ok, r.op)
	}
	return recs
}

// The entries flushed by the moment of a crash and the entries of the flush it interrupted.
func stateAt(base []deltaRec, events []flushEvent, k int) (durable, inflight []deltaRec) {
	durable = append(durable, base...)
	for _, e := range events {
		if e.end <= k {
			durable = append(durable, e.recs...)
		} else if e.start <= k {
			inflight = e.recs
		}
	}
	return
}

// Sizes of flushes that take several writes.
func deltaBigSize(c *kase) int {
	n := []int{300, 600, 1100, 2100}[c.Intn(4)] + c.Intn(200)
	if d := dictSize(c.Rand, 150, 3000); d > 0 && c.Intn(3) == 0 {
		n = d + c.Intn(40)
	}
	return n
}

// A round number of operations, or one more or less.
func exactSize(r *rand.Rand, max int) int {
	n := []int{50, 64, 100, 128, 200, 256, 256, 500, 512, 512, 1000, 1024}[r.Intn(12)]
	if d := dictSize(r, 4, max); d > 0 && r.Intn(3) == 0 {
		n = d
	}
	if n *= 1 + r.Intn(3); n > max {
		n = 256
	}
	return n - 1 + r.Intn(3)
}

// With a size, most of that many operations are flushed at once, most of them of one user or one each.
func deltaCrashCase(c *kase, fac domain.DeltaStorageFactory, size int) {
	pool := genDeltaPool(c.Rand)
	if size > 0 {
		pool = genBigPool(c.Rand, size)
	}
	var image []byte
	var base []deltaRec
	sessions := 1 + c.Intn(3)
	for sess := 0; sess < sessions; sess++ {
		c.log("session %d on an image of %d bytes with %d entries", sess, len(image), len(base))
		file := newMemFile(image)
		s, err := fac.OpenMaybeRecover(file)
		c.check(err == nil, "opening a crashed file: %v", err)
		_, recs, err := decDelta(file.data)
		c.check(err == nil, "inconsistent file after opening: %v", err)
		base = recs
		m := newDeltaModel(base)
		var events []flushEvent
		steps, rare := 1+genSize(c.Rand, 120), 10
		exact := uint64(0)
		if size > 0 {
			steps, rare = size+size/4, size
			if c.Intn(3) > 0 {
				// One flush of exactly so many operations of one user, or of so many users
				steps = exactSize(c.Rand, 3000)
				exact = genID(c.Rand) | 1
			}
		}
		ofUser, next1 := c.Intn(3) > 0, genID(c.Rand)
		flush := func(f func() error) {
			e := flushEvent{start: len(file.ops), recs: append([]deltaRec{}, m.unflushed...)}
			err := f()
			c.check(err == nil, "flush or close failed without any fault: %v", err)
			e.end = len(file.ops)
			events = append(events, e)
			m.flush()
		}
		for i := 0; i < steps; i++ {
			if exact == 0 && c.Intn(rare) == 0 {
				flush(s.Flush)
				c.log("flushed, %d ops", len(file.ops))
			} else {
				rec := pool.rec(c.Rand)
				if exact != 0 {
					rec.user, rec.item = exact, next1+uint64(i)
					if !ofUser {
						rec.user, rec.item = rec.item, rec.user
					}
				}
				c.log("add %v", rec)
				s.Add(domain.DeltaOp(rec.op), rec.user, rec.item)
				m.add(rec)
			}
		}
		if exact != 0 && c.Intn(2) == 0 {
			flush(s.Flush)
			c.log("flushed, %d ops", len(file.ops))
		}
		if c.Intn(3) > 0 {
			flush(s.Close)
			c.log("closed, %d ops", len(file.ops))
		}
		// Crash everywhere
		initial := image
		var next []byte
		seen := 0
		nested := 0
		crashImages(c, initial, file.ops, func(k, torn int, img []byte) bool {
			when := fmt.Sprintf("crash at file operation %d of %d (%d bytes of it written)", k, len(file.ops), torn)
			durable, inflight := stateAt(base, events, k)
			if sess > 0 || k > 0 {
				f2 := newMemFile(img)
				s2, err := fac.OpenMaybeRecover(f2)
				c.check(err == nil, "%s: the file can't be opened: %v", when, err)
				// The base has been recovered, so entries of an interrupted opening are the base
				checkRecovered(c, s2, f2.data, durable, inflight, when)
				if len(durable) > 0 {
					c.eval("%x %d", byteHash(img), len(durable))
				} else {
					c.eval("")
				}
				c.count("crash_points", 1)
				if len(img) > 0 && img[min(9, len(img)-1)] != 0 && (c.Intn(6) == 0 || torn > 0 && c.Intn(4) == 0) && nested < 12 {
					nested++
					recOps := f2.ops
					crashImages(c, img, recOps, func(k2, torn2 int, img2 []byte) bool {
						when2 := fmt.Sprintf("%s, then crash at operation %d of %d of its recovery (%d bytes)",
							when, k2, len(recOps), torn2)
						f3 := newMemFile(img2)
						s3, err := fac.OpenMaybeRecover(f3)
						c.check(err == nil, "%s: the file can't be opened: %v", when2, err)
						checkRecovered(c, s3, f3.data, durable, inflight, when2)
						if len(durable) > 0 {
							c.eval("%x %d n", byteHash(img2), len(durable))
						} else {
							c.eval("")
						}
						c.count("nested_crash_points", 1)
						return true
					})
				}
			}
			seen++
			if next == nil || c.Intn(seen) == 0 {
				next = img
			}
			return true
		})
		c.sample("session %d: %d base entries, %d flushes, %d file operations, %d crash images", sess, len(base),
			len(events), len(file.ops), seen)
		image = next
	}
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func deltaDamageCase(c *kase, fac domain.DeltaStorageFactory) {
	n := genSize(c.Rand, 300)
	if c.family == "bigdamage" {
		n = 3000 + c.Intn(9000)
		if c.index%10 == 0 {
			n = 66500 + c.Intn(70000)
		}
	}
	pool := genDeltaPool(c.Rand)
	recs := make([]deltaRec, n)
	for i := range recs {
		recs[i] = pool.rec(c.Rand)
	}
	data := encDelta(1, recs)
	good := make([]bool, n)
	for i := range good {
		good[i] = true
	}
	kinds := 1 + c.Intn(3)
	var tail []byte
	damaged := 0
	for ; kinds > 0; kinds-- {
		kind := c.Intn(8)
		if n > 60000 && kind > 3 {
			// Most of it has to remain
			kind = c.Intn(3)
		}
		switch kind {
		case 0: // flip bytes of some entries so that the checksum notices it
			for k := 0; k < 1+c.Intn(4) && n > 0; k++ {
				i := c.Intn(n)
				e := data[deltaHdr+i*deltaEntry:][:deltaEntry]
				e[c.Intn(deltaEntry)] ^= byte(1 + c.Intn(255))
				if byteSum(e[:17]) != e[17] {
					c.log("damaged entry %d", i)
					good[i] = false
				} else if good[i] || true {
					copy(e, encDeltaRec(recs[i]))
					good[i] = true
				}
			}
		case 1: // zeroed block
			if n > 0 {
				i := c.Intn(n)
				k := 1 + c.Intn(n-i)
				if k > 20 {
					k = 1 + c.Intn(20)
				}
				if i+k > n {
					k = n - i
				}
				c.log("zeroed entries %d..%d", i, i+k-1)
				for j := i; j < i+k; j++ {
					copy(data[deltaHdr+j*deltaEntry:], make([]byte, deltaEntry))
					good[j] = false
				}
			}
		case 2: // an operation that doesn't exist, but with a valid checksum
			if n > 0 {
				i := c.Intn(n)
				op := byte(c.Intn(256))
				if op != '+' && op != '-' {
					r := recs[i]
					r.op = op
					copy(data[deltaHdr+i*deltaEntry:], encDeltaRec(r))
					good[i] = false
					c.log("foreign operation %d in entry %d", op, i)
				}
			}
		case 3: // the declared number of entries is wrong
			cnt := uint32(c.Intn(2*n + 2))
			if c.Intn(4) == 0 {
				cnt = c.Uint32()
			}
			c.log("declared %d entries", cnt)
			copy(data[10:], appendU32(nil, cnt))
			damaged++
		case 4: // cut
			if c.Intn(2) == 0 && n > 0 {
				cut := c.Intn(n*deltaEntry + 1)
				if c.Intn(2) == 0 {
					cut = c.Intn(min(40, n*deltaEntry) + 1)
				}
				tail = nil
				data = data[:len(data)-cut]
				n = (len(data) - deltaHdr) / deltaEntry
				c.log("cut to %d bytes", len(data))
				recs, good = recs[:n], good[:n]
				damaged++
				// keep whole entries only, to be able to go on damaging them
				tail = append([]byte{}, data[deltaHdr+n*deltaEntry:]...)
				data = data[:deltaHdr+n*deltaEntry]
			}
		case 6, 7: // garbage over many entries: a block like a disk sector, or scattered all over
			if n == 0 {
				continue
			}
			dense := 1 + c.Intn(100)
			from, to := 0, n*deltaEntry
			if kind == 6 {
				dense = 100
				from = c.Intn(to)
				to = min(to, from+[]int{64, 512, 4096, 65536}[c.Intn(4)])
			}
			fill := c.Intn(3)
			for i := from; i < to; i++ {
				if kind == 7 && c.Intn(100*deltaEntry) >= dense {
					continue
				}
				switch fill {
				case 0:
					data[deltaHdr+i] = byte(c.Intn(256))
				case 1:
					data[deltaHdr+i] = 255
				default:
					data[deltaHdr+i] = "RECDELTA\x01\x01"[i%10]
				}
			}
			c.log("garbage %d in bytes %d..%d, %d%%", fill, from, to, dense)
		case 5: // an incomplete entry at the end
			tail = make([]byte, c.Intn(deltaEntry))
			c.Read(tail)
			damaged++
			c.log("%d bytes of garbage at the end", len(tail))
		}
	}
	// What is intact is judged by the outcome, for damages may overlap
	for i := range good {
		e := data[deltaHdr+i*deltaEntry:][:deltaEntry]
		orig := encDeltaRec(recs[i])
		good[i] = bytes.Equal(e, orig)
		if !good[i] && byteSum(e[:17]) == e[17] && (e[0] == '+' || e[0] == '-') {
			copy(e, orig) // nothing could tell it from a sound entry
			good[i] = true
		}
		if !good[i] {
			damaged++
		}
	}
	image := append(append([]byte{}, data...), tail...)
	image[9] = []byte{1, 1, 1, 2, 255}[c.Intn(5)]
	var want []deltaRec
	for i := range recs {
		if good[i] {
			want = append(want, recs[i])
		}
	}
	file := newMemFile(image)
	if c.Intn(3) == 0 {
		c.log("explicit Recover")
		file.Seek(int64(c.Intn(len(image)+1)), 0)
		err := fac.Recover(file)
		c.check(err == nil, "recovery failed: %v", err)
		lock, recs, err := decDelta(file.data)
		c.check(err == nil, "the recovered file isn't consistent: %v", err)
		c.check(lock == 0, "the recovered file is locked")
		c.check(len(recs) == len(want), "%d entries recovered, %d were intact", len(recs), len(want))
		file = newMemFile(file.data)
	}
	s, err := fac.OpenMaybeRecover(file)
	c.check(err == nil, "the damaged file can't be opened: %v", err)
	m := newDeltaModel(want)
	compareDelta(c, s, m, "after recovery")
	_, got, err := decDelta(file.data)
	c.check(err == nil, "the recovered file isn't consistent: %v", err)
	c.check(len(got) == len(want), "%d entries in the file after recovery, %d were intact", len(got), len(want))
	for i := range got {
		c.check(got[i] == want[i], "recovered entry %d is %v, expected %v", i, got[i], want[i])
	}
	c.check(s.Close() == nil, "closing the recovered storage failed")
	s, err = fac.Open(newMemFile(file.data))
	c.check(err == nil, "reopening the recovered file: %v", err)
	compareDelta(c, s, m, "after reopening the recovered file")
	if damaged > 0 && len(want) > 0 {
		c.eval("%x", byteHash(image))
	} else {
		c.eval("")
	}
	c.count("entries_survived", int64(len(want)))
	c.count("damages", int64(damaged))
	c.sample("%d of %d entries intact, image of %d bytes", len(want), n, len(image))
}

// Runs a workload in which one of the file operations fails.
func deltaFaultRun(c *kase, fac domain.DeltaStorageFactory, seed int64, size int, base []byte, failAt, partial, burst int) (hit bool, total int) {
	rnd := rand.New(rand.NewSource(seed))
	pool := genDeltaPool(rnd)
	if size > 0 {
		pool = genBigPool(rnd, size)
	}
	_, recs, _ := decDelta(base)
	file := newMemFile(base)
	s, err := fac.Open(file)
	c.check(err == nil, "open: %v", err)
	start := file.nth
	var hitKind string
	file.fault = func(nth int, kind string, size int) (int, error) {
		if nth-start >= failAt && nth-start < failAt+burst {
			hit = true
			hitKind = kind
			if kind == "write" && size > 0 {
				return partial % size, errInjected
			}
			return 0, errInjected
		}
		return size, nil
	}
	m := newDeltaModel(recs)
	steps, rare := 3+rnd.Intn(40), 6
	if size > 0 {
		steps, rare = size+size/4, size
	}
	failed := 0
	attempt := func(what string, f func() error) error {
		before := file.failed
		err := f()
		c.check(err != nil || file.failed == before, "%s reports success although a %s failed", what, hitKind)
		return err
	}
	// What failed flushes may have left in the file; it may have been changed in memory since
	var attempted []deltaRec
	for i := 0; i < steps; i++ {
		if rnd.Intn(rare) == 0 {
			err := attempt("a flush", s.Flush)
			if err != nil {
				failed++
				c.check(hit, "flush failed without any fault: %v", err)
				attempted = append(attempted, m.unflushed...)
				// The data must still be readable after the failure
				compareDelta(c, s, m, fmt.Sprintf("after a failed flush (%s)", hitKind))
				if rnd.Intn(3) > 0 {
					err = attempt("a flush", s.Flush)
					if err == nil {
						m.flush()
						attempted = nil
					} else {
						attempted = append(attempted, m.unflushed...)
					}
				}
			} else {
				m.flush()
				attempted = nil
				_, recs, err := decDelta(file.data)
				c.check(err == nil, "inconsistent file after a successful flush (fault in %s hit: %v): %v", hitKind, hit, err)
				compareRecs(c, recs, m.flushed, "after a successful flush")
			}
		} else {
			rec := pool.rec(rnd)
			s.Add(domain.DeltaOp(rec.op), rec.user, rec.item)
			m.add(rec)
		}
	}
	if rnd.Intn(3) == 0 {
		// Nothing may be left to be written by the closing
		if attempt("a flush", s.Flush) == nil {
			m.flush()
			attempted = nil
		} else {
			attempted = append(attempted, m.unflushed...)
		}
	}
	compareDelta(c, s, m, "before closing")
	err = attempt("a closing", s.Close)
	for try := 0; err != nil && file.closed == 0 && try < 3; try++ {
		c.check(hit, "close failed without any fault: %v", err)
		if file.data[9] == 0 && len(file.data) >= deltaHdr {
			// The file claims to be complete although closing has failed
			_, recs, derr := decDelta(file.data)
			c.check(derr == nil, "unlocked inconsistent file after a failed close: %v", derr)
			mm := *m
			mm.flush()
			compareRecs(c, recs, mm.flushed, "in the unlocked file after a failed close")
		}
		err = attempt("a closing", s.Close)
	}
	if err == nil || file.data[9] == 0 {
		m.flush()
		s, err = fac.Open(newMemFile(file.data))
		c.check(err == nil, "a successfully closed file can't be opened (fault in %s, failed flushes: %d): %v", hitKind, failed, err)
		compareDelta(c, s, m, fmt.Sprintf("after a successful close (fault in %s)", hitKind))
	} else {
		// Closing failed for good: nothing that has been flushed may be lost
		c.check(hit, "close failed without any fault: %v", err)
		f2 := newMemFile(file.data)
		s, err = fac.OpenMaybeRecover(f2)
		c.check(err == nil, "the file can't be opened after a failed close: %v", err)
		checkRecovered(c, s, f2.data, m.flushed, append(attempted, m.unflushed...), "after a failed close")
	}
	return hit, file.nth - start
}

// Compares entry lists disregarding the order of different pairs.
func compareRecs(c *kase, got, want []deltaRec, when string) {
	c.check(len(got) == len(want), "%s: %d entries in the file, expected %d", when, len(got), len(want))
	g, w := multiset(got), multiset(want)
	for r, n := range w {
		c.check(g[r] == n, "%s: entry %v is in the file %d times, expected %d", when, r, g[r], n)
	}
	gm, wm := make(map[pair]byte), make(map[pair]byte)
	for _, r := range got {
		gm[pair{r.user, r.item}] = r.op
	}
	for _, r := range want {
		wm[pair{r.user, r.item}] = r.op
	}
	for p, op := range wm {
		c.check(gm[p] == op, "%s: the last operation of %v is %q, expected %q", when, p, gm[p], op)
	}
}

func deltaFaultCase(c *kase, fac domain.DeltaStorageFactory, size int) {
	seed := c.Int63()
	n := c.Intn(20)
	pool := genDeltaPool(c.Rand)
	if c.Intn(4) == 0 {
		n = 200 + c.Intn(200)
	}
	recs := make([]deltaRec, n)
	for i := range recs {
		recs[i] = pool.rec(c.Rand)
	}
	base := encDelta(0, recs)
	_, total := deltaFaultRun(c, fac, seed, size, base, 1<<30, 0, 0)
	hits := 0
	for at := 0; at < total; at++ {
		partial := c.Intn(1 << 20)
		burst := 1
		if c.Intn(4) == 0 {
			burst = 1 + c.Intn(3)
			if c.Intn(3) == 0 {
				burst = 1 << 30 // the disk is gone for good
			}
		}
		c.log("fault at %d of %d, burst %d, partial %d", at, total, burst, partial)
		hit, _ := deltaFaultRun(c, fac, seed, size, base, at, partial, burst)
		if hit {
			hits++
			c.eval("%x %d", seed, at)
		} else {
			c.eval("")
		}
	}
	c.count("faults_hit", int64(hits))
	c.sample("%d base entries, %d file operations, each failed once, %d hit", n, total, hits)
}

// Faults while opening (and recovering) a file that has data in it.
func deltaOpenFaultCase(c *kase, fac domain.DeltaStorageFactory) {
	pool := genDeltaPool(c.Rand)
	n := 1 + genSize(c.Rand, 150)
	recs := make([]deltaRec, n)
	for i := range recs {
		recs[i] = pool.rec(c.Rand)
	}
	locked := byte(c.Intn(2))
	base := encDelta(locked, recs)
	if locked == 1 {
		base = append(base, make([]byte, c.Intn(deltaEntry))...)
	}
	open := func(f *memFile) (domain.DeltaStorage, error) { return fac.OpenMaybeRecover(f) }
	clean := newMemFile(base)
	_, err := open(clean)
	c.check(err == nil, "open: %v", err)
	ats := make([]int, 0)
	for at := 0; at < clean.nth; at++ {
		if clean.nth < 60 || c.Intn(clean.nth) < 60 {
			ats = append(ats, at)
		}
	}
	for _, at := range ats {
		f := newMemFile(base)
		at := at
		kindHit := ""
		f.fault = func(nth int, kind string, size int) (int, error) {
			if nth == at {
				kindHit = kind
				if kind == "write" && size > 0 {
					return c.Intn(size), errInjected
				}
				return 0, errInjected
			}
			return size, nil
		}
		c.log("fault at %d of %d", at, clean.nth)
		s, err := open(f)
		c.check(kindHit == "" || err != nil, "opening reports success although a %s (operation %d of %d) failed", kindHit, at, clean.nth)
		if err == nil {
			continue
		}
		f2 := newMemFile(f.data)
		s, err = open(f2)
		c.check(err == nil, "can't open after an attempt that failed in %s: %v", kindHit, err)
		// An interrupted rewrite of the file may leave some entries twice, but never loses any
		_, got, err := decDelta(f2.data)
		c.check(err == nil, "inconsistent file: %v", err)
		g := multiset(got)
		for r, k := range multiset(recs) {
			c.check(g[r] >= k, "entry %v is lost after opening failed in %s and was retried", r, kindHit)
		}
		m := newDeltaModel(recs)
		for _, p := range m.keys() {
			compareDeltaGet(c, s, m, p, "after retrying to open")
		}
		c.eval("failed %x %d", byteHash(base), at)
	}
	c.count("open_faults", int64(len(ats)))
	c.sample("%d entries, locked=%d, %d operations to open", n, locked, clean.nth)
}
