package main

import (
	"errors"
	"fmt"
	"math/rand"
	"os"
	"recengine/internal/domain"
	"recengine/internal/infra/index"
)

func init() {
	register("C16", "exploration",
		"random histories of Put/Remove/Get/Close/reopen of index files against a map, up to 70000 entries, on memory "+
			"and real files; non-trivial: something was overwritten or removed and the file was reopened; distinct by "+
			"final contents",
		func(r *run) {
			fac := index.NewStorageFactory()
			r.cases("model", r.n(6000, 100000), func(c *kase) { indexModelCase(c, fac, 1+genSize(c.Rand, 700), false) })
			r.cases("realfile", r.n(300, 4000), func(c *kase) { indexModelCase(c, fac, 1+genSize(c.Rand, 700), true) })
			r.cases("large", r.n(6, 60), func(c *kase) { indexModelCase(c, fac, 5000+c.Intn(15000), false) })
			r.cases("huge", r.n(6, 40), func(c *kase) { indexHugeCase(c, fac) })
			r.cases("life", r.n(10, 100), func(c *kase) { indexLifeCase(c, fac) })
		})
	register("C17", "fault_enumeration",
		"index sessions on an in-memory file crashed at every file operation and inside every write, and with every "+
			"file operation failing in turn; the image must open as exactly the old or the new map or be reported as "+
			"corrupted; non-trivial: the map changed in the session; distinct by image",
		func(r *run) {
			fac := index.NewStorageFactory()
			r.cases("crash", r.n(800, 20000), func(c *kase) { indexCrashCase(c, fac) })
			r.cases("fault", r.n(800, 20000), func(c *kase) { indexFaultCase(c, fac) })
		})
}

func compareIndex(c *kase, s domain.IndexStorage, m map[uint64]uint64, absent []uint64, when string) {
	for id, idx := range m {
		got, ok := s.Get(id)
		c.check(ok && got == idx, "%s: Get(%d) = %d, %v, expected %d", when, id, got, ok, idx)
	}
	for _, id := range absent {
		if _, ok := m[id]; !ok {
			got, ok := s.Get(id)
			c.check(!ok, "%s: Get(%d) = %d, but it isn't stored", when, id, got)
		}
	}
}

// Numbers of entries about those that don't fit into 16 bits.
func indexHugeCase(c *kase, fac domain.IndexStorageFactory) {
	sizes := []int{65535, 65536, 65537, 70000, 131073, 1<<20 + 77}
	n := sizes[c.index%len(sizes)]
	if c.index >= len(sizes) && n < 1<<20 {
		n += c.Intn(200000)
	}
	m := make(map[uint64]uint64, n)
	var data []byte
	for session := 0; session < 3; session++ {
		file := newMemFile(data)
		s, err := fac.Open(rws{file}, file)
		c.check(err == nil, "session %d, %d entries: opening: %v", session, len(m), err)
		compareIndex(c, s, m, nil, fmt.Sprintf("session %d, %d entries", session, len(m)))
		switch session {
		case 0:
			for len(m) < n {
				id, idx := uint64(len(m)), c.Uint64()
				if n%2 == 1 {
					id = c.Uint64()
				}
				c.check(s.Put(id, idx) == nil, "put failed")
				m[id] = idx
			}
		case 1:
			for id := range m {
				switch id % 5 {
				case 0:
					c.check(s.Remove(id) == nil, "remove failed")
					delete(m, id)
				case 1:
					c.check(s.Put(id, id) == nil, "put failed")
					m[id] = id
				}
			}
		}
		compareIndex(c, s, m, nil, fmt.Sprintf("the end of session %d, %d entries", session, len(m)))
		c.check(s.Close() == nil, "closing failed")
		data = file.data
		lock, got, err := decIndex(data)
		c.check(err == nil && lock == 0, "the closed file isn't consistent: %v", err)
		c.check(sameMap(got, m), "%d entries on disk differ from the %d expected ones", len(got), len(m))
	}
	c.count("sessions", 3)
	c.count("huge_entries", int64(n))
	c.eval("%x", byteHash(data))
	c.sample("%d entries in the first session, %d in the last one", n, len(m))
}

// Very many changes of few entries, or hundreds of sessions of one file.
func indexLifeCase(c *kase, fac domain.IndexStorageFactory) {
	changes, sessions := 140000, 1
	if c.index%2 == 0 {
		changes, sessions = 1+c.Intn(5), 260+c.Intn(300)
	}
	ids := genIDs(c.Rand, 1+c.Intn(8))
	m := make(map[uint64]uint64)
	var data []byte
	for k := 0; k < sessions; k++ {
		file := newMemFile(data)
		s, err := fac.Open(rws{file}, file)
		c.check(err == nil, "session %d: opening: %v", k, err)
		compareIndex(c, s, m, ids, fmt.Sprintf("session %d", k))
		for i := 0; i < changes; i++ {
			id := ids[c.Intn(len(ids))]
			if c.Intn(2) == 0 {
				idx := c.Uint64()
				c.check(s.Put(id, idx) == nil, "put %d failed", i)
				m[id] = idx
			} else {
				c.check(s.Remove(id) == nil, "removal %d failed", i)
				delete(m, id)
			}
			got, ok := s.Get(id)
			want, has := m[id]
			c.check(ok == has && got == want, "session %d, change %d: Get(%d) = %d, %v, expected %d, %v", k, i, id, got, ok, want, has)
		}
		c.check(s.Close() == nil, "session %d: closing failed", k)
		data = file.data
		lock, got, err := decIndex(data)
		c.check(err == nil && lock == 0 && sameMap(got, m), "session %d: the file has %v, expected %v (locked: %d, %v)", k, got, m, lock, err)
	}
	c.count("sessions", int64(sessions))
	c.eval("%x %d", byteHash(data), sessions)
	c.sample("%d sessions with %d changes each", sessions, changes)
}

func indexModelCase(c *kase, fac domain.IndexStorageFactory, steps int, real bool) {
	ids := genIDs(c.Rand, 1+c.Intn(steps+1))
	m := make(map[uint64]uint64)
	var data []byte
	var file *memFile
	var s domain.IndexStorage
	var err error
	path := ""
	if real {
		dir := c.dir()
		defer c.rmdir(dir)
		path = dir + "ns.index"
	}
	open := func() {
		if real {
			s, err = fac.OpenFile(path)
		} else {
			file = newMemFile(data)
			s, err = fac.Open(rws{file}, file)
		}
		c.check(err == nil, "opening: %v", err)
	}
	closeIt := func() {
		err = s.Close()
		c.check(err == nil, "closing: %v", err)
		if real {
			data, err = os.ReadFile(path)
			c.check(err == nil, "reading the file: %v", err)
		} else {
			c.check(file.closed == 1, "close has closed the file %d times", file.closed)
			data = file.data
		}
		lock, got, err := decIndex(data)
		c.check(err == nil, "the closed file isn't consistent: %v", err)
		c.check(lock == 0, "the closed file is locked")
		c.check(len(got) == len(m), "%d entries on disk, expected %d", len(got), len(m))
	}
	open()
	changes, sessions := 0, 1
	for i := 0; i < steps; i++ {
		k := c.Intn(100)
		id := ids[c.Intn(len(ids))]
		reopen := k < 3
		if steps > 1000 {
			reopen = i == steps/3 || i == 2*steps/3
		}
		switch {
		case reopen:
			closeIt()
			open()
			sessions++
			compareIndex(c, s, m, ids, "after reopening")
		case k < 25 && (steps < 1000 || k < 8):
			if _, ok := m[id]; ok {
				changes++
			}
			c.log("remove %d", id)
			c.check(s.Remove(id) == nil, "remove failed")
			delete(m, id)
		default:
			if _, ok := m[id]; ok {
				changes++
			}
			idx := genID(c.Rand)
			c.log("put %d %d", id, idx)
			c.check(s.Put(id, idx) == nil, "put failed")
			m[id] = idx
		}
		got, ok := s.Get(id)
		want, wok := m[id]
		c.check(ok == wok && (!ok || got == want), "Get(%d) = %d, %v, expected %d, %v", id, got, ok, want, wok)
	}
	if c.Intn(4) == 0 { // shrink
		for _, id := range ids {
			if c.Intn(10) > 0 {
				s.Remove(id)
				delete(m, id)
			}
		}
	}
	compareIndex(c, s, m, ids, "before closing")
	closeIt()
	open()
	compareIndex(c, s, m, ids, "after the last reopening")
	s.Close()
	c.count("steps", int64(steps))
	c.count("sessions", int64(sessions))
	if changes > 0 && sessions > 1 {
		c.eval("%x", byteHash(data))
	} else {
		c.eval("")
	}
	c.sample("%d steps over %d ids, %d overwritten or removed, %d sessions, %d entries in the end", steps, len(ids),
		changes, sessions, len(m))
}

func sameMap(a, b map[uint64]uint64) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || v != w {
			return false
		}
	}
	return true
}

func genIndexMap(r *rand.Rand) (map[uint64]uint64, []uint64) {
	n := genSize(r, 600)
	if r.Intn(60) == 0 {
		n = 1000 + r.Intn(4000)
		if d := dictSize(r, 600, 10000); d > 0 && r.Intn(3) == 0 {
			n = d + r.Intn(3)
		}
	}
	ids := genIDs(r, n)
	m := make(map[uint64]uint64)
	for _, id := range ids {
		m[id] = genID(r)
	}
	return m, ids
}

func copyMap(m map[uint64]uint64) map[uint64]uint64 {
	n := make(map[uint64]uint64, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

// Opens an image; it must be one of the maps or be reported as corrupted.
func checkIndexImage(c *kase, fac domain.IndexStorageFactory, img []byte, maps []map[uint64]uint64, ids []uint64, when string) string {
	f := newMemFile(img)
	s, err := fac.Open(rws{f}, f)
	if err != nil {
		c.check(errors.Is(err, domain.NewCorruptedFileError()), "%s: the damaged index isn't reported as corrupted: %v", when, err)
		c.check(f.closed > 0, "%s: the file is left open after the error", when)
		return "corrupted"
	}
	for i, m := range maps {
		match := true
		for id, idx := range m {
			got, ok := s.Get(id)
			if !ok || got != idx {
				match = false
				break
			}
		}
		for _, id := range ids {
			if _, in := m[id]; !in {
				if _, ok := s.Get(id); ok {
					match = false
					break
				}
			}
		}
		if match {
			// The whole contents, including the IDs not known here
			c.check(s.Close() == nil, "%s: closing failed", when)
			_, got, err := decIndex(f.data)
			c.check(err == nil && sameMap(got, m), "%s: the reopened index has %d entries (%v), expected %d", when, len(got), err, len(m))
			return fmt.Sprintf("map %d", i)
		}
	}
	c.fail("%s: the index opens without an error, but contains neither the old nor the new entries", when)
	return ""
}

// Runs a session on the index file.
func indexSession(c *kase, s domain.IndexStorage, m map[uint64]uint64, ids []uint64) []uint64 {
	steps := genSize(c.Rand, 300)
	for i := 0; i < steps; i++ {
		if len(ids) == 0 || c.Intn(3) == 0 {
			ids = append(ids, genID(c.Rand))
		}
		id := ids[c.Intn(len(ids))]
		if c.Intn(3) == 0 {
			s.Remove(id)
			delete(m, id)
		} else {
			idx := genID(c.Rand)
			s.Put(id, idx)
			m[id] = idx
		}
	}
	return ids
}

func indexCrashCase(c *kase, fac domain.IndexStorageFactory) {
	old, ids := genIndexMap(c.Rand)
	var base []byte
	if c.Intn(5) > 0 {
		base = encIndex(0, ids, old)
		if c.Intn(4) == 0 { // entries that were removed long ago
			base = append(base, make([]byte, 16*c.Intn(20))...)
		}
	} else {
		old, ids = map[uint64]uint64{}, nil
	}
	file := newMemFile(base)
	s, err := fac.Open(rws{file}, file)
	c.check(err == nil, "open: %v", err)
	m := copyMap(old)
	ids = indexSession(c, s, m, ids)
	c.check(s.Close() == nil, "close failed")
	results := map[string]int{}
	crashImages(c, base, file.ops, func(k, torn int, img []byte) bool {
		when := fmt.Sprintf("crash at file operation %d of %d (%d bytes of it written)", k, len(file.ops), torn)
		res := checkIndexImage(c, fac, img, []map[uint64]uint64{m, old}, ids, when)
		results[res]++
		if len(m) > 0 {
			c.eval("%x", byteHash(img))
		} else {
			c.eval("")
		}
		c.count("crash_points", 1)
		return true
	})
	c.count("crash_points_reported_as_corrupted", int64(results["corrupted"]))
	c.sample("%d entries, then %d, %d file operations: %v", len(old), len(m), len(file.ops), results)
}

func indexFaultCase(c *kase, fac domain.IndexStorageFactory) {
	old, ids := genIndexMap(c.Rand)
	base := encIndex(0, ids, old)
	probe := newMemFile(base)
	s, err := fac.Open(rws{probe}, probe)
	c.check(err == nil, "open: %v", err)
	c.check(s.Close() == nil, "close failed")
	hits := 0
	for at := 0; at < probe.nth+2; at++ {
		f := newMemFile(base)
		hit := ""
		at, burst := at, 1+c.Intn(2)
		f.fault = func(nth int, kind string, size int) (int, error) {
			if nth >= at && nth < at+burst {
				hit = kind
				if kind == "write" && size > 0 {
					return c.Intn(size), errInjected
				}
				return 0, errInjected
			}
			return size, nil
		}
		m := copyMap(old)
		s, err := fac.Open(rws{f}, f)
		when := fmt.Sprintf("fault in operation %d", at)
		if err == nil {
			compareIndex(c, s, old, ids, when+", opened nevertheless")
			all := indexSession(c, s, m, ids)
			err = s.Close()
			if err == nil {
				lock, got, derr := decIndex(f.data)
				c.check(derr == nil && lock == 0 && sameMap(got, m),
					"%s (%s): closed without an error, but the file isn't complete (locked: %d, %v)", when, hit, lock, derr)
			}
			c.check(f.closed > 0, "%s (%s): the file is left open after closing", when, hit)
			checkIndexImage(c, fac, f.data, []map[uint64]uint64{m, old}, all, when+" ("+hit+")")
		} else {
			c.check(hit != "", "open failed without any fault: %v", err)
			c.check(f.closed > 0, "%s (%s): the file is left open after the error", when, hit)
			checkIndexImage(c, fac, f.data, []map[uint64]uint64{m, old}, ids, when+" ("+hit+")")
		}
		if hit != "" {
			hits++
			c.eval("%x %d %d", byteHash(base), at, len(m))
		} else {
			c.eval("")
		}
	}
	c.count("faults_hit", int64(hits))
	c.sample("%d entries, %d operations failed in turn", len(old), hits)
}
