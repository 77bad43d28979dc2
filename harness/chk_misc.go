package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"runtime"
	"sync"

	"recengine/internal/domain"
	"recengine/internal/infra/delta"
	"recengine/internal/infra/index"
	"recengine/internal/infra/recdb"
)

func init() {
	register("C20", "exploration",
		"files that are random, truncated, spliced, mutated at random bytes or at the count fields (counts up to 2^32-1) are "+
			"opened, recovered and iterated, one at a time, watching panics, memory allocated (at most 4 MB + 400 times the "+
			"input), CPU time and the number of entries returned; registry files likewise; non-trivial: every input; distinct by contents",
		func(r *run) {
			r.casesN("delta", r.n(6000, 200000), 1, malformedDelta)
			r.casesN("index", r.n(6000, 200000), 1, malformedIndex)
			r.casesN("recdb", r.n(6000, 200000), 1, malformedRecdb)
			r.casesN("registry", r.n(3000, 60000), 1, malformedRegistry)
		})
	register("C25", "exploration",
		"independent stores, iterators and profiles made by the same factories and protocols are used by up to 16 "+
			"goroutines at a time under the race detector, each compared with its own model; "+
			"distinct by the operations applied",
		func(r *run) {
			df, xf := delta.NewStorageFactory(), index.NewStorageFactory()
			r.casesN("mixed", r.n(700, 20000), 16, func(c *kase) {
				switch c.Intn(10) {
				case 0, 1:
					deltaModelCase(c, df, 30)
				case 2, 3:
					indexModelCase(c, xf, 30, false)
				case 4:
					recdbFileCase(c)
				case 5:
					recdbRewriteCase(c)
				case 6:
					recdbPiecesCase(c)
				case 7:
					recdbCapacityCase(c)
				case 8:
					deltaCrashCase(c, df, 0)
				default:
					profileCase(c, 40)
					similarityCase(c, 1+genSize(c.Rand, 120))
				}
			})
			r.casesN("sharedprotocol", r.n(60, 1500), 4, sharedProtocolCase)
		})
	register("C26", "exploration",
		"files written by the code are decoded by an independent decoder and files written by an independent encoder are "+
			"opened by the code, for random contents; databases are also opened and created by path; headers, entries and "+
			"checksums are compared byte by byte; "+
			"non-trivial: at least one entry; distinct by contents",
		func(r *run) {
			r.cases("delta", r.n(4000, 100000), formatDelta)
			r.cases("index", r.n(4000, 100000), formatIndex)
			r.cases("recdb", r.n(4000, 100000), formatRecdb)
			r.cases("primitives", r.n(4000, 100000), formatPrimitives)
			r.cases("openfile", r.n(250, 5000), formatOpenFile)
		})
}

// Damages a valid file in one of many ways; counts are the offsets of its 32-bit counts.
func malform(c *kase, valid []byte, counts []int) []byte {
	b := append([]byte{}, valid...)
	rounds := 1 + c.Intn(3)
	for i := 0; i < rounds; i++ {
		switch c.Intn(8) {
		case 0:
			b = b[:c.Intn(len(b)+1)]
		case 1:
			for k := 0; k < 1+c.Intn(4) && len(b) > 0; k++ {
				b[c.Intn(len(b))] = byte(c.Intn(256))
			}
		case 2, 3:
			off := counts[c.Intn(len(counts))]
			if off+4 <= len(b) {
				n := c.Uint32() >> uint(c.Intn(32))
				if c.Intn(3) == 0 {
					n = []uint32{0, 1, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe, 0x20000000, 0x1fffffff, 0x10000000}[c.Intn(9)]
				}
				copy(b[off:], appendU32(nil, n))
			}
		case 4:
			n := c.Intn(200)
			if c.Intn(2) == 0 {
				n = c.Intn(20)
			}
			tail := make([]byte, n)
			c.Read(tail)
			b = append(b, tail...)
		case 5:
			if len(b) > 2 {
				i := c.Intn(len(b))
				j := i + c.Intn(len(b)-i)
				b = append(append(append([]byte{}, b[:j]...), b[i:j]...), b[j:]...)
			}
		case 6:
			if len(b) > 2 {
				i := c.Intn(len(b))
				j := i + c.Intn(len(b)-i)
				b = append(b[:i], b[j:]...)
			}
		default:
			if c.Intn(4) == 0 {
				b = make([]byte, c.Intn(120))
				c.Read(b)
			}
		}
		if len(b) > 1<<16 {
			b = b[:1<<16]
		}
	}
	return b
}

// Runs f and checks the memory it allocates.
func (c *kase) bounded(what string, input []byte, f func()) {
	var before, after runtime.MemStats
	runtime.ReadMemStats(&before)
	f()
	runtime.ReadMemStats(&after)
	used := after.TotalAlloc - before.TotalAlloc
	limit := uint64(4<<20) + 400*uint64(len(input))
	c.check(used <= limit, "%s of a malformed file of %d bytes (%x) allocated %d bytes", what, len(input), clipBytes(input), used)
}

func clipBytes(b []byte) []byte {
	if len(b) > 80 {
		return b[:80]
	}
	return b
}

func malformedDelta(c *kase) {
	pool := genDeltaPool(c.Rand)
	var recs []deltaRec
	for i := c.Intn(12); i > 0; i-- {
		recs = append(recs, pool.rec(c.Rand))
	}
	b := malform(c, encDelta(byte(c.Intn(2)), recs), []int{10})
	c.log("input %x", b)
	fac := delta.NewStorageFactory()
	var s domain.DeltaStorage
	var err error
	f := newMemFile(b)
	how := c.Intn(4)
	c.bounded("handling", b, func() {
		switch how {
		case 0:
			s, err = fac.Open(f)
		case 1:
			err = fac.Recover(f)
		case 2:
			out := newMemFile(nil)
			err = delta.NewProtocol().RecoverTo(bytes.NewReader(b), out)
			if err == nil {
				_, _, e := decDelta(out.data)
				c.check(e == nil, "recovery made an inconsistent file: %v", e)
			}
		default:
			s, err = fac.OpenMaybeRecover(f)
		}
		if err == nil && s != nil {
			s.GetUserCount()
			n := s.GetTotalItemCount()
			c.check(n <= len(b)/deltaEntry, "%d entries were found in %d bytes", n, len(b))
			for _, r := range recs {
				s.Get(r.user, r.item)
			}
			s.Add(domain.DeltaOpAdd, 1, 2)
			c.check(s.Close() == nil, "closing failed")
			locked, got, e := decDelta(f.data)
			c.check(e == nil || how == 0 || c.damagedEntry(f.data), "the closed file is inconsistent: %v", e)
			_ = got
			c.check(locked == 0, "the closed file is locked")
		}
	})
	if err == nil {
		c.count("accepted_delta_inputs", 1)
	} else {
		c.count("refused_delta_inputs", 1)
	}
	c.eval("%x %d", byteHash(b), how)
	c.sample("%d bytes -> %v", len(b), err)
}

// True if the file is complete, but has entries with wrong checksums (an
// unlocked file isn't verified when it's opened).
func (c *kase) damagedEntry(b []byte) bool {
	_, _, err := decDelta(b)
	return err != nil && len(b) >= deltaHdr && bytes.Contains([]byte(err.Error()), []byte("checksum"))
}

func malformedIndex(c *kase) {
	m, ids := genIndexMap(c.Rand)
	if len(ids) > 40 {
		ids = ids[:40]
	}
	b := malform(c, encIndex(byte(c.Intn(2)), ids, m), []int{8})
	c.log("input %x", b)
	f := newMemFile(b)
	var err error
	c.bounded("opening", b, func() {
		var s domain.IndexStorage
		s, err = index.NewStorageFactory().Open(f, f)
		if err == nil {
			for _, id := range ids {
				s.Get(id)
			}
			s.Put(1, 2)
			c.check(s.Close() == nil, "closing failed")
			locked, _, e := decIndex(f.data)
			// (the version of an existing file is kept by nobody: the header is rewritten)
			c.check(e == nil && locked == 0, "the closed file is inconsistent: locked %d, %v", locked, e)
		}
	})
	if err == nil {
		c.count("accepted_index_inputs", 1)
	} else {
		c.count("refused_index_inputs", 1)
	}
	c.eval("%x", byteHash(b))
	c.sample("%d bytes -> %v", len(b), err)
}

func malformedRecdb(c *kase) {
	n := c.Intn(5)
	recs := make([]likeRec, n)
	counts := []int{15}
	off := recdbHdr
	for i := range recs {
		l := likeRec{user: genID(c.Rand), likes: genItems(c.Rand, c.Intn(6)), dislikes: genItems(c.Rand, c.Intn(6))}
		l.capacity = uint32(l.size() + c.Intn(150))
		recs[i] = l
		counts = append(counts, off, off+13, off+17+8*len(l.likes))
		off += int(l.capacity)
	}
	b := malform(c, encRecdb(byte(c.Intn(2)), recs), counts)
	c.log("input %x", b)
	var err error
	entries := 0
	c.bounded("iterating", b, func() {
		var it recdb.Iterator
		it, err = recdb.NewIterator(rws{newMemFile(b)}, newRecdb())
		if err != nil {
			return
		}
		for it.HasNext() && err == nil {
			var e *recdb.Entry
			e, err = it.Next()
			if err == nil {
				entries++
				c.check(e != nil && e.Data != nil, "an entry without data and without an error")
				p, ok := e.Data.(*domain.Profile)
				c.check(ok && p != nil && 21+8*(len(p.Likes)+len(p.Dislikes)) <= int(e.Capacity),
					"an entry of capacity %d with more data than fits was returned", e.Capacity)
				if c.Intn(3) == 0 {
					c.check(it.SetPrevious(e) == nil, "setting the entry just read failed")
				}
				c.check(entries <= len(b)/21, "%d entries were read from %d bytes", entries, len(b))
			}
		}
	})
	if len(b) > recdbHdr {
		c.bounded("reading an entry", b, func() {
			e := &recdb.Entry{}
			newRecdb().ReadEntry(e, bytes.NewReader(b[recdbHdr:]))
		})
	}
	if err == nil {
		c.count("accepted_recdb_inputs", 1)
	} else {
		c.count("refused_recdb_inputs", 1)
	}
	c.eval("%x", byteHash(b))
	c.sample("%d bytes, %d entries -> %v", len(b), entries, err)
}

// Protocol values have no state: many goroutines may use the same ones.
func sharedProtocolCase(c *kase) {
	dp, xp, rp := delta.NewProtocol(), index.NewProtocol(), newRecdb()
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		recs := genLikeRecs(c, 3)
		drecs := []deltaRec{{'+', genID(c.Rand), genID(c.Rand)}, {'-', genID(c.Rand), genID(c.Rand)}}
		id, idx := genID(c.Rand), genID(c.Rand)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, l := range recs {
				var buf bytes.Buffer
				_, err := rp.WriteEntry(l.entry(), &buf)
				if err != nil || !bytes.Equal(buf.Bytes(), encLike(l)) {
					c.report("an entry written while others write differs from the format (%v)", err)
					return
				}
				e := &recdb.Entry{}
				_, err = rp.ReadEntry(e, &buf)
				if err != nil || diffEntry(e, l) != "" {
					c.report("an entry read while others read: %v %s", err, diffEntry(e, l))
					return
				}
			}
			for _, d := range drecs {
				var buf bytes.Buffer
				e := delta.Entry{Op: domain.DeltaOp(d.op), UserID: d.user, ItemID: d.item}
				if err := dp.WriteEntry(&e, &buf); err != nil || !bytes.Equal(buf.Bytes(), encDeltaRec(d)) {
					c.report("a delta entry written concurrently differs from the format (%v)", err)
					return
				}
				src, dst := encDelta(1, drecs), newMemFile(nil)
				if err := dp.RecoverTo(bytes.NewReader(src), dst); err != nil || !bytes.Equal(dst.data, encDelta(0, drecs)) {
					c.report("a delta file recovered concurrently differs from the expected one (%v)", err)
					return
				}
			}
			var buf bytes.Buffer
			if _, err := xp.WriteEntry(&index.Entry{ID: id, Index: idx}, &buf); err != nil ||
				!bytes.Equal(buf.Bytes(), appendU64(appendU64(nil, id), idx)) {
				c.report("an index entry written concurrently differs from the format (%v)", err)
				return
			}
			var xe index.Entry
			if _, err := xp.ReadEntry(&xe, &buf); err != nil || xe.ID != id || xe.Index != idx {
				c.report("an index entry read concurrently: %v %v", xe, err)
				return
			}
			for k := 0; k < 5; k++ {
				if err := sharedHeaders(dp, xp, rp, recs, uint32(id), byte(id)&1); err != nil {
					c.report("used concurrently: %v", err)
					return
				}
			}
		}()
		c.eval("%d %d", id, idx)
	}
	wg.Wait()
}

// Writes and reads what isn't an entry, and iterates.
func sharedHeaders(dp delta.Protocol, xp index.Protocol, rp recdb.Protocol, recs []likeRec, n uint32, locked byte) error {
	f := newMemFile(nil)
	dh := delta.Header{Version: delta.Version, Locked: locked, NumEntries: n}
	if err := dp.WritePrefix(f); err != nil {
		return err
	}
	if err := dp.WriteHeader(&dh, f); err != nil {
		return err
	}
	f.Seek(0, io.SeekStart)
	if err := dp.ReadPrefix(f); err != nil {
		return err
	}
	var dh2 delta.Header
	if err := dp.ReadHeader(&dh2, f); err != nil || dh2 != dh {
		return fmt.Errorf("the header %v became %v, %v", dh, dh2, err)
	}
	f = newMemFile(nil)
	xh := index.Header{Version: index.Version, Locked: locked, NumEntries: n}
	if _, err := xp.WritePrefix(f); err != nil {
		return err
	}
	if _, err := xp.WriteHeader(&xh, f); err != nil {
		return err
	}
	f.Seek(0, io.SeekStart)
	if _, err := xp.ReadPrefix(f); err != nil {
		return err
	}
	var xh2 index.Header
	if _, err := xp.ReadHeader(&xh2, f); err != nil || xh2 != xh {
		return fmt.Errorf("the header %v became %v, %v", xh, xh2, err)
	}
	f = newMemFile(nil)
	rh := recdb.Header{Version: recdb.Version, EntryType: [8]byte{'x', byte(n)}, Locked: locked, NumEntries: n}
	if _, err := rp.WritePrefix(f); err != nil {
		return err
	}
	if _, err := rp.WriteHeader(&rh, f); err != nil {
		return err
	}
	f.Seek(0, io.SeekStart)
	if _, err := rp.ReadPrefix(f); err != nil {
		return err
	}
	var rh2 recdb.Header
	if _, err := rp.ReadHeader(&rh2, f); err != nil || rh2 != rh {
		return fmt.Errorf("the header %v became %v, %v", rh, rh2, err)
	}
	// The marks, in files of their own
	for kind, valid := range [][]byte{encDelta(locked, nil), encIndex(locked, nil, nil), encRecdb(locked, recs)} {
		f = newMemFile(valid)
		for _, mark := range []bool{locked != 0, true, false, true} {
			var err error
			var got bool
			switch kind {
			case 0:
				if err = dp.WriteLocked(mark, f); err == nil {
					got, err = dp.IsLocked(f)
				}
			case 1:
				if err = xp.WriteLocked(mark, rws{f}); err == nil {
					got, err = xp.IsLocked(rws{f})
				}
			default:
				if err = rp.WriteLocked(mark, rws{f}); err == nil {
					got, err = rp.IsLocked(rws{f})
				}
			}
			if err != nil || got != mark {
				return fmt.Errorf("the mark %v became %v, %v", mark, got, err)
			}
		}
	}
	f = newMemFile(encRecdb(0, recs))
	it, err := recdb.NewIterator(rws{f}, rp)
	if err != nil {
		return err
	}
	for round := 0; round < 2; round++ {
		for _, l := range recs {
			e, err := it.Next()
			if err != nil || diffEntry(e, l) != "" {
				return fmt.Errorf("an iterator: %v, %s", err, diffEntry(e, l))
			}
			if err = it.SetPrevious(e); err != nil {
				return err
			}
		}
		if err = it.Rewind(); err != nil {
			return err
		}
	}
	if !bytes.Equal(f.data, encRecdb(0, recs)) {
		return errors.New("rewriting the entries as they are changed the file")
	}
	return nil
}

func formatDelta(c *kase) {
	fac := delta.NewStorageFactory()
	pool := genDeltaPool(c.Rand)
	var recs []deltaRec
	for i := genSize(c.Rand, 300); i > 0; i-- {
		recs = append(recs, pool.rec(c.Rand))
	}
	// The code reads what the format describes
	f := newMemFile(encDelta(0, recs))
	s, err := fac.Open(f)
	c.check(err == nil, "a valid file of %d entries can't be opened: %v", len(recs), err)
	m := newDeltaModel(recs)
	compareDelta(c, s, m, "after opening an independently written file")
	// What it writes is what the format describes
	extra := c.Intn(40)
	for i := 0; i < extra; i++ {
		r := pool.rec(c.Rand)
		s.Add(domain.DeltaOp(r.op), r.user, r.item)
		m.add(r)
	}
	c.check(s.Close() == nil, "closing failed")
	m.flush()
	locked, got, err := decDelta(f.data)
	c.check(err == nil, "the file doesn't follow the format: %v", err)
	c.check(locked == 0, "the lock flag of a closed file is %d", locked)
	c.check(len(f.data) == deltaHdr+len(got)*deltaEntry, "%d entries in a file of %d bytes", len(got), len(f.data))
	c.check(len(got) >= len(recs), "%d entries became %d", len(recs), len(got))
	for i := range recs {
		c.check(got[i] == recs[i], "entry %d was %v, it became %v", i, recs[i], got[i])
	}
	last := map[pair]byte{}
	for _, r := range got {
		last[pair{r.user, r.item}] = r.op
	}
	for _, p := range m.keys() {
		op, ok := m.get(p)
		o, has := last[p]
		c.check(ok == has && (!ok || op == o), "pair %v is %c in the file (%v), expected %c", p, o, has, op)
	}
	c.check(len(last) == len(m.keys()), "%d pairs in the file, expected %d", len(last), len(m.keys()))
	if len(got) > 0 {
		c.eval("%x", byteHash(f.data))
	} else {
		c.eval("")
	}
	c.sample("%d entries + %d operations = %d entries", len(recs), extra, len(got))
}

func formatIndex(c *kase) {
	fac := index.NewStorageFactory()
	m, ids := genIndexMap(c.Rand)
	f := newMemFile(encIndex(0, ids, m))
	s, err := fac.Open(f, f)
	c.check(err == nil, "a valid file of %d entries can't be opened: %v", len(ids), err)
	compareIndex(c, s, m, nil, "after opening an independently written file")
	indexSession(c, s, m, ids)
	c.check(s.Close() == nil, "closing failed")
	locked, got, err := decIndex(f.data)
	c.check(err == nil, "the file doesn't follow the format: %v", err)
	c.check(locked == 0, "the lock flag of a closed file is %d", locked)
	c.check(sameMap(m, got), "the file has %d entries that differ from the expected %d", len(got), len(m))
	if len(got) > 0 {
		c.eval("%x", byteHash(f.data))
	} else {
		c.eval("")
	}
	c.sample("%d entries -> %d", len(ids), len(got))
}

func formatRecdb(c *kase) {
	recs := genLikeRecs(c, c.Intn(5))
	f := writeRecdb(c, recs)
	c.check(bytes.Equal(f.data, encRecdb(0, recs)), "the written database differs from the format")
	it, err := recdb.NewIterator(rws{newMemFile(encRecdb(0, recs))}, newRecdb())
	c.check(err == nil, "an independently written database can't be iterated: %v", err)
	for i, l := range recs {
		e, err := it.Next()
		c.check(err == nil, "entry %d: %v", i, err)
		d := diffEntry(e, l)
		c.check(d == "", "entry %d: %s", i, d)
	}
	if len(recs) > 0 {
		c.eval("%x", byteHash(f.data))
	} else {
		c.eval("")
	}
}

// A database that is opened or created by its path.
func formatOpenFile(c *kase) {
	d := c.dir()
	defer c.rmdir(d)
	proto := newRecdb()
	opener, ok := proto.(recdbOpener)
	if !ok {
		c.eval("")
		return
	}
	path := d + "f"
	want := encRecdb(0, nil)
	var recs []likeRec
	if c.Intn(2) == 0 {
		recs = genLikeRecs(c, c.Intn(5))
		want = encRecdb(0, recs)
		c.check(os.WriteFile(path, want, 0644) == nil, "harness: a file can't be written")
	}
	for i := 1 + c.Intn(3); i > 0; i-- {
		file, err := opener.OpenOrCreateFile(path)
		c.check(err == nil, "a database of %d entries can't be opened: %v", len(recs), err)
		defer file.Close()
		// It's read from its beginning
		_, err = proto.ReadPrefix(file)
		c.check(err == nil, "the prefix of an opened database of %d entries can't be read: %v", len(recs), err)
		var hdr recdb.Header
		_, err = proto.ReadHeader(&hdr, file)
		c.check(err == nil && hdr.NumEntries == uint32(len(recs)) && hdr.Locked == 0,
			"the header of an opened database of %d entries is read as %v, %v", len(recs), hdr, err)
		it, err := recdb.NewIterator(file, proto)
		c.check(err == nil, "an opened database of %d entries can't be iterated: %v", len(recs), err)
		for i, l := range recs {
			e, err := it.Next()
			c.check(err == nil, "entry %d: %v", i, err)
			diff := diffEntry(e, l)
			c.check(diff == "", "entry %d: %s", i, diff)
		}
		c.check(!it.HasNext(), "more than the %d entries of an opened database", len(recs))
		c.check(bytes.Equal(readFileIfAny(path), want), "a database of %d entries holds something else after opening it", len(recs))
	}
	if len(recs) > 0 {
		c.eval("%x", byteHash(want))
	} else {
		c.eval("")
	}
}

func formatPrimitives(c *kase) {
	v, locked, n := byte(c.Intn(256)), byte(c.Intn(256)), c.Uint32()>>uint(c.Intn(32))
	// Delta
	dp := delta.NewProtocol()
	r := deltaRec{byte(c.Intn(256)), genID(c.Rand), genID(c.Rand)}
	var buf bytes.Buffer
	c.check(dp.WritePrefix(&buf) == nil && buf.String() == "RECDELTA", "delta prefix %q", buf.String())
	c.check(dp.ReadPrefix(&buf) == nil && buf.Len() == 0, "delta prefix isn't recognized")
	hdr := delta.Header{Version: v, Locked: locked, NumEntries: n}
	c.check(dp.WriteHeader(&hdr, &buf) == nil && bytes.Equal(buf.Bytes(), appendU32([]byte{v, locked}, n)), "delta header % x", buf.Bytes())
	var hdr2 delta.Header
	c.check(dp.ReadHeader(&hdr2, &buf) == nil && hdr == hdr2 && buf.Len() == 0, "delta header %v read as %v", hdr, hdr2)
	e := delta.Entry{Op: domain.DeltaOp(r.op), UserID: r.user, ItemID: r.item, Checksum: byte(c.Intn(256))}
	c.check(dp.WriteEntry(&e, &buf) == nil && bytes.Equal(buf.Bytes(), encDeltaRec(r)), "delta entry %v is written as % x", r, buf.Bytes())
	var e2 delta.Entry
	c.check(dp.ReadEntry(&e2, &buf) == nil && buf.Len() == 0, "delta entry can't be read")
	c.check(byte(e2.Op) == r.op && e2.UserID == r.user && e2.ItemID == r.item && e2.Checksum == encDeltaRec(r)[17],
		"delta entry %v is read as %v", r, e2)
	c.check(dp.ValidateEntryChecksum(&e2), "the checksum of a written entry is wrong")
	// Any change of one byte is detected
	b := encDeltaRec(r)
	b[c.Intn(len(b))] += byte(1 + c.Intn(255))
	var e3 delta.Entry
	c.check(dp.ReadEntry(&e3, bytes.NewReader(b)) == nil, "a damaged delta entry can't be read")
	c.check(!dp.ValidateEntryChecksum(&e3), "a change of one byte of an entry isn't detected: % x", b)
	// Index
	xp := index.NewProtocol()
	buf.Reset()
	k, err := xp.WritePrefix(&buf)
	c.check(err == nil && k == 6 && buf.String() == "RECIDX", "index prefix %q (%d)", buf.String(), k)
	k, err = xp.ReadPrefix(&buf)
	c.check(err == nil && k == 6 && buf.Len() == 0, "index prefix isn't recognized")
	xh := index.Header{Version: v, Locked: locked, NumEntries: n}
	k, err = xp.WriteHeader(&xh, &buf)
	c.check(err == nil && k == 6 && bytes.Equal(buf.Bytes(), appendU32([]byte{v, locked}, n)), "index header % x (%d)", buf.Bytes(), k)
	var xh2 index.Header
	k, err = xp.ReadHeader(&xh2, &buf)
	c.check(err == nil && k == 6 && xh == xh2, "index header %v read as %v", xh, xh2)
	xe := index.Entry{ID: r.user, Index: r.item}
	k, err = xp.WriteEntry(&xe, &buf)
	c.check(err == nil && k == 16 && bytes.Equal(buf.Bytes(), appendU64(appendU64(nil, r.user), r.item)), "index entry % x (%d)", buf.Bytes(), k)
	var xe2 index.Entry
	k, err = xp.ReadEntry(&xe2, &buf)
	c.check(err == nil && k == 16 && xe == xe2, "index entry %v read as %v", xe, xe2)
	// Database
	rp := newRecdb()
	buf.Reset()
	k, err = rp.WritePrefix(&buf)
	c.check(err == nil && k == 5 && buf.String() == "RECDB", "database prefix %q (%d)", buf.String(), k)
	k, err = rp.ReadPrefix(&buf)
	c.check(err == nil && k == 5, "database prefix isn't recognized")
	rh := recdb.Header{Version: v, Locked: locked, NumEntries: n}
	c.Read(rh.EntryType[:])
	k, err = rp.WriteHeader(&rh, &buf)
	want := appendU32(append(append([]byte{v}, rh.EntryType[:]...), locked), n)
	c.check(err == nil && k == 14 && bytes.Equal(buf.Bytes(), want), "database header % x (%d)", buf.Bytes(), k)
	var rh2 recdb.Header
	k, err = rp.ReadHeader(&rh2, &buf)
	c.check(err == nil && k == 14 && rh == rh2, "database header %v read as %v", rh, rh2)
	// A wrong prefix is refused
	for _, p := range []string{"RECDELTA", "RECIDX", "RECDB"} {
		b := []byte(p)
		b[c.Intn(len(b))] ^= byte(1 + c.Intn(255))
		b = append(b, make([]byte, 8)...)
		var err error
		switch p {
		case "RECDELTA":
			err = dp.ReadPrefix(bytes.NewReader(b))
		case "RECIDX":
			_, err = xp.ReadPrefix(bytes.NewReader(b))
		default:
			_, err = rp.ReadPrefix(bytes.NewReader(b))
		}
		c.check(err != nil, "%q is taken for %q", b, p)
	}
	c.eval("%v %d %d", r, n, v)
}

var _ = fmt.Sprint
var _ = os.Getenv
