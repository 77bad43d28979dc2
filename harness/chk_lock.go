package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"recengine/internal/domain"
	"recengine/internal/infra/delta"
	"recengine/internal/infra/index"
	"recengine/internal/infra/recdb"
)

func init() {
	register("C15", "fault_enumeration",
		"sessions on delta, index and database files observed after every file operation: whenever the file claims to "+
			"be cleanly closed it is complete, whenever it is in use a second opening is refused and changes nothing; "+
			"non-trivial: the session changed the file; distinct by image",
		func(r *run) {
			r.cases("delta", r.n(500, 15000), lockDeltaCase)
			r.cases("deltarecovery", r.n(500, 15000), lockDeltaRecoveryCase)
			r.cases("index", r.n(500, 15000), lockIndexCase)
			r.cases("recdb", r.n(1500, 30000), lockRecdbCase)
			r.cases("flag", r.n(1500, 30000), lockFlagCase)
		})
}

func lockDeltaCase(c *kase) {
	fac := delta.NewStorageFactory()
	pool := genDeltaPool(c.Rand)
	n := genSize(c.Rand, 260)
	recs := make([]deltaRec, n)
	for i := range recs {
		recs[i] = pool.rec(c.Rand)
	}
	var base []byte
	if c.Intn(6) > 0 {
		base = encDelta(0, recs)
	} else {
		recs = nil
	}
	file := newMemFile(base)
	s, err := fac.Open(file)
	c.check(err == nil, "open: %v", err)
	opened := len(file.ops)
	m := newDeltaModel(recs)
	refused := func(when string) {
		other := newMemFile(file.data)
		_, err := fac.Open(other)
		c.check(err != nil, "%s: a file that is in use was opened once more", when)
		c.check(bytes.Equal(other.data, file.data), "%s: the refused opening changed the file", when)
		c.count("refused_openings", 1)
	}
	refused("right after opening")
	steps, rare := 2+c.Intn(30), 4
	if c.Intn(30) == 0 {
		steps = deltaBigSize(c)
		pool, rare = genBigPool(c.Rand, steps), steps
	}
	for i := 0; i < steps; i++ {
		if c.Intn(rare) == 0 {
			c.check(s.Flush() == nil, "flush failed")
			m.flush()
			refused("after a flush")
		} else {
			rec := pool.rec(c.Rand)
			s.Add(domain.DeltaOp(rec.op), rec.user, rec.item)
			m.add(rec)
		}
	}
	c.check(s.Close() == nil, "close failed")
	m.flush()
	crashImages(c, base, file.ops, func(k, torn int, img []byte) bool {
		if len(img) < deltaHdr {
			return true
		}
		when := fmt.Sprintf("after file operation %d of %d (+%d bytes), %d of them to open", k, len(file.ops), torn, opened)
		lock, got, err := decDelta(img)
		if lock == 0 {
			c.check(err == nil, "%s: the file is unlocked but inconsistent: %v", when, err)
			if len(got) == len(recs) && (k < opened || len(m.flushed) == len(recs)) {
				compareRecs(c, got, recs, when)
			} else {
				compareRecs(c, got, m.flushed, when)
			}
		}
		_, err = fac.Open(newMemFile(img))
		if lock != 0 {
			c.check(err != nil, "%s: a locked file was opened", when)
		}
		if len(m.flushed) > len(recs) {
			c.eval("%x", byteHash(img))
		} else {
			c.eval("")
		}
		return true
	})
	c.check(file.data[9] == 0, "the file is locked after closing")
	c.sample("delta: %d entries, then %d, %d file operations", len(recs), len(m.flushed), len(file.ops))
}

// Recovery must not declare the file clean until it is.
func lockDeltaRecoveryCase(c *kase) {
	fac := delta.NewStorageFactory()
	pool := genDeltaPool(c.Rand)
	n := 1 + genSize(c.Rand, 400)
	if c.Intn(20) == 0 {
		n = 2000 + c.Intn(3000)
	}
	recs := make([]deltaRec, n)
	for i := range recs {
		recs[i] = pool.rec(c.Rand)
	}
	base := encDelta(1, recs)
	want := append([]deltaRec{}, recs...)
	for d := c.Intn(4); d > 0; d-- { // drop some entries
		i := c.Intn(n)
		e := base[deltaHdr+i*deltaEntry:][:deltaEntry]
		e[17]++
		want[i].op = 0
	}
	var intact []deltaRec
	for i, r := range want {
		if r.op != 0 {
			if byteSum(base[deltaHdr+i*deltaEntry:][:17]) != base[deltaHdr+i*deltaEntry+17] {
				continue
			}
			intact = append(intact, r)
		}
	}
	// Several increments of the same checksum never wrap around here
	base = append(base, make([]byte, c.Intn(deltaEntry))...)
	file := newMemFile(base)
	how := c.Intn(2)
	if how == 0 {
		err := fac.Recover(file)
		c.check(err == nil, "recovery failed: %v", err)
		c.check(file.data[9] == 0, "the recovered file is locked")
	} else {
		_, err := fac.OpenMaybeRecover(file)
		c.check(err == nil, "open: %v", err)
		c.check(file.data[9] != 0, "the opened file isn't locked")
	}
	crashImages(c, base, file.ops, func(k, torn int, img []byte) bool {
		if len(img) < deltaHdr {
			return true
		}
		when := fmt.Sprintf("at operation %d of %d of recovery (+%d bytes)", k, len(file.ops), torn)
		lock, got, err := decDelta(img)
		if lock == 0 {
			c.check(err == nil, "%s: the file is unlocked but inconsistent: %v", when, err)
			compareRecs(c, got, intact, when)
			c.count("unlocked_images", 1)
		}
		c.eval("%x", byteHash(img))
		return true
	})
	c.sample("delta recovery: %d of %d entries intact, %d file operations", len(intact), n, len(file.ops))
}

func lockIndexCase(c *kase) {
	fac := index.NewStorageFactory()
	old, ids := genIndexMap(c.Rand)
	var base []byte
	if c.Intn(6) > 0 {
		base = encIndex(0, ids, old)
	} else {
		old, ids = map[uint64]uint64{}, nil
	}
	file := newMemFile(base)
	s, err := fac.Open(rws{file}, file)
	c.check(err == nil, "open: %v", err)
	refused := func(when string) {
		other := newMemFile(file.data)
		_, err := fac.Open(rws{other}, other)
		c.check(err != nil, "%s: a file that is in use was opened once more", when)
		c.check(errors.Is(err, domain.NewCorruptedFileError()), "%s: %v isn't a corrupted file error", when, err)
		c.check(bytes.Equal(other.data, file.data), "%s: the refused opening changed the file", when)
		c.count("refused_openings", 1)
	}
	refused("right after opening")
	m := copyMap(old)
	ids = indexSession(c, s, m, ids)
	refused("in a session")
	c.check(s.Close() == nil, "close failed")
	crashImages(c, base, file.ops, func(k, torn int, img []byte) bool {
		if len(img) < indexHdr {
			return true
		}
		when := fmt.Sprintf("after file operation %d of %d (+%d bytes)", k, len(file.ops), torn)
		lock, got, err := decIndex(img)
		if lock == 0 {
			c.check(err == nil, "%s: the file is unlocked but inconsistent: %v", when, err)
			c.check(sameMap(got, old) || sameMap(got, m), "%s: the file is unlocked, but its %d entries are neither the "+
				"%d old nor the %d new ones", when, len(got), len(old), len(m))
		} else {
			f := newMemFile(img)
			_, err := fac.Open(rws{f}, f)
			c.check(errors.Is(err, domain.NewCorruptedFileError()), "%s: opening a locked file: %v", when, err)
		}
		if len(m) > 0 {
			c.eval("%x", byteHash(img))
		} else {
			c.eval("")
		}
		return true
	})
	c.check(file.data[7] == 0, "the file is locked after closing")
	c.sample("index: %d entries, then %d, %d file operations", len(old), len(m), len(file.ops))
}

func lockRecdbCase(c *kase) {
	recs := genLikeRecs(c, c.Intn(5))
	proto := recdb.NewProtocol(recdb.NewLikeProtocol())
	locked := byte(c.Intn(2))
	if locked == 1 {
		locked = byte(1 + c.Intn(255))
	}
	img := encRecdb(locked, recs)
	f := newMemFile(img)
	it, err := recdb.NewIterator(rws{f}, proto)
	if locked != 0 {
		c.check(err != nil && errors.Is(err, domain.NewCorruptedFileError()), "iterating over a locked database: %v", err)
	} else {
		c.check(err == nil, "iterating over an unlocked database: %v", err)
		c.check(it.HasNext() == (len(recs) > 0), "HasNext of %d entries is %v", len(recs), it.HasNext())
	}
	c.check(bytes.Equal(f.data, img), "creating an iterator changed the file")
	c.eval("%x", byteHash(img))
	c.sample("database of %d entries, lock byte %d", len(recs), locked)
}

// The functions that set and get the flag leave everything else alone.
func lockFlagCase(c *kase) {
	type flagger interface {
		WriteLocked(locked bool, file io.WriteSeeker) error
		IsLocked(file io.ReadSeeker) (bool, error)
	}
	var p flagger
	var img []byte
	off := 0
	switch c.Intn(3) {
	case 0:
		p, img, off = delta.NewProtocol(), encDelta(0, []deltaRec{{'+', genID(c.Rand), genID(c.Rand)}}), 9
	case 1:
		m, ids := genIndexMap(c.Rand)
		p, img, off = index.NewProtocol(), encIndex(0, ids, m), 7
	default:
		p, img, off = recdb.NewProtocol(recdb.NewLikeProtocol()), encRecdb(0, genLikeRecs(c, 2)), 14
	}
	img[off] = byte(c.Intn(3))
	f := newMemFile(img)
	pos := int64(c.Intn(len(img) + 3))
	f.Seek(pos, io.SeekStart)
	f.ops = nil
	for i := 0; i < 3; i++ {
		got, err := p.IsLocked(rws{f})
		c.check(err == nil && got == (f.data[off] != 0), "IsLocked = %v, %v with the lock byte %d", got, err, f.data[off])
		c.check(f.pos == pos, "IsLocked moved the file position from %d to %d", pos, f.pos)
		to := c.Intn(2) == 0
		err = p.WriteLocked(to, rws{f})
		c.check(err == nil, "WriteLocked: %v", err)
		c.check(f.pos == pos, "WriteLocked moved the file position from %d to %d", pos, f.pos)
		c.check((f.data[off] != 0) == to, "the lock byte is %d after WriteLocked(%v)", f.data[off], to)
		img[off] = f.data[off]
		c.check(bytes.Equal(img, f.data), "WriteLocked changed something besides the lock byte")
	}
	// Failing operations of the file
	for i := 0; i < 3; i++ {
		at := f.nth + c.Intn(4)
		hit := false
		f.fault = func(nth int, kind string, size int) (int, error) {
			if nth == at {
				hit = true
				return 0, errInjected
			}
			return size, nil
		}
		to := c.Intn(2) == 0
		var err error
		if i == 0 {
			_, err = p.IsLocked(rws{f})
		} else {
			err = p.WriteLocked(to, rws{f})
		}
		f.fault = nil
		c.check(hit == (err != nil), "an operation of the file failed: %v, but the function returned %v", hit, err)
		if i > 0 {
			c.check(err != nil || (f.data[off] != 0) == to, "the lock byte is %d after WriteLocked(%v)", f.data[off], to)
			img[off] = f.data[off]
		}
		c.check(bytes.Equal(img, f.data), "something besides the lock byte was changed (fault %v)", hit)
		f.Seek(pos, io.SeekStart)
	}
	c.eval("%x %d", byteHash(img), pos)
}
