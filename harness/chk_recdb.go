package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"recengine/internal/domain"
	"recengine/internal/infra/recdb"
	"testing/iotest"
)

func genLikeRec(r *rand.Rand) likeRec {
	max := 300
	if r.Intn(40) == 0 {
		max = 9000
	}
	l := likeRec{user: genID(r), likes: genItems(r, genSize(r, max)), dislikes: genItems(r, genSize(r, max))}
	if r.Intn(2000) == 0 {
		// Counts that don't fit into 16 bits
		n := 65530 + r.Intn(10000)
		l.likes = genItems(r, n)
		if r.Intn(2) == 0 {
			l.likes, l.dislikes = l.dislikes, l.likes
		}
	}
	if r.Intn(4) == 0 {
		l.deleted = 1
	}
	size := l.size()
	switch r.Intn(6) {
	case 0:
	case 1:
		size += r.Intn(20)
	case 2:
		size += size / 2
	case 3:
		size += []int{95, 99, 100, 101, 199, 200, 201, 255, 256, 1000}[r.Intn(10)]
	default:
		size += genSize(r, 5000)
	}
	if r.Intn(50) == 0 {
		size += 65536 + r.Intn(70000)
	}
	l.capacity = uint32(size)
	return l
}

func genItems(r *rand.Rand, n int) []uint64 {
	a := make([]uint64, n)
	for i := range a {
		a[i] = genID(r)
	}
	return a
}

func genLikeRecs(c *kase, n int) []likeRec {
	recs := make([]likeRec, n)
	for i := range recs {
		recs[i] = genLikeRec(c.Rand)
	}
	return recs
}

func (l likeRec) entry() *recdb.Entry {
	return &recdb.Entry{Capacity: l.capacity, Deleted: l.deleted, Data: &domain.Profile{
		UserID: l.user, Likes: append([]uint64{}, l.likes...), Dislikes: append([]uint64{}, l.dislikes...)}}
}

func sameItems(a, b []uint64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// Compares a decoded entry with the expected one.
func diffEntry(e *recdb.Entry, l likeRec) string {
	if e == nil {
		return "no entry"
	}
	p, ok := e.Data.(*domain.Profile)
	if !ok || p == nil {
		return fmt.Sprintf("the data is %T", e.Data)
	}
	switch {
	case e.Capacity != l.capacity:
		return fmt.Sprintf("capacity %d, expected %d", e.Capacity, l.capacity)
	case e.Deleted != l.deleted:
		return fmt.Sprintf("deleted flag %d, expected %d", e.Deleted, l.deleted)
	case p.UserID != l.user:
		return fmt.Sprintf("user %d, expected %d", p.UserID, l.user)
	case !sameItems(p.Likes, l.likes):
		return fmt.Sprintf("%d likes %v, expected %d likes %v", len(p.Likes), short(p.Likes), len(l.likes), short(l.likes))
	case !sameItems(p.Dislikes, l.dislikes):
		return fmt.Sprintf("%d dislikes %v, expected %d dislikes %v", len(p.Dislikes), short(p.Dislikes), len(l.dislikes), short(l.dislikes))
	}
	return ""
}

func short(a []uint64) []uint64 {
	if len(a) > 8 {
		return a[:8]
	}
	return a
}

func init() {
	register("C18", "exploration",
		"random entries (0 to 9000 items per list, capacities from exact to 130 KB of padding) are written, "+
			"concatenated, iterated and rewound, through readers that return data in pieces and writers that fail; "+
			"non-trivial: items and padding are present; distinct by file contents",
		func(r *run) {
			r.cases("file", r.n(2500, 60000), recdbFileCase)
			r.cases("many", r.n(2, 10), func(c *kase) { recdbManyCase(c, false) })
			r.cases("pieces", r.n(2000, 40000), recdbPiecesCase)
			r.cases("capacity", r.n(4000, 60000), recdbCapacityCase)
			r.cases("writefault", r.n(600, 10000), recdbWriteFaultCase)
			r.casesN("huge", r.n(4, 16), 2, recdbHugeCase)
		})
	register("C19", "exploration",
		"random interleavings of Next, SetPrevious (fitting, oversized, with another capacity) and Rewind over databases "+
			"of up to 40 (and of 65 thousand) entries compared byte by byte with a model file; non-trivial: an entry was rewritten and the "+
			"iteration went on; distinct by final contents",
		func(r *run) {
			r.cases("rewrite", r.n(5000, 120000), recdbRewriteCase)
			r.cases("many", r.n(2, 20), func(c *kase) { recdbManyCase(c, true) })
			r.cases("fault", r.n(500, 8000), recdbRewriteFaultCase)
			r.cases("readfault", r.n(500, 8000), recdbReadFaultCase)
		})
}

func newRecdb() recdb.Protocol { return recdb.NewProtocol(recdb.NewLikeProtocol()) }

// Writes a database with the code under test.
func writeRecdb(c *kase, recs []likeRec) *memFile {
	f := newMemFile(nil)
	proto := newRecdb()
	c.check(proto.Create(f) == nil, "creating a database failed")
	c.check(len(f.data) == recdbHdr, "a new database has %d bytes", len(f.data))
	_, err := recdb.NewIterator(rws{newMemFile(f.data)}, proto)
	c.check(err == nil, "a new database can't be iterated: %v", err)
	f.Seek(0, io.SeekEnd)
	for i, l := range recs {
		before := len(f.data)
		n, err := proto.WriteEntry(l.entry(), f)
		c.check(err == nil, "writing entry %d: %v", i, err)
		c.check(n == int(l.capacity) && len(f.data)-before == n, "entry %d of capacity %d: %d reported, %d written",
			i, l.capacity, n, len(f.data)-before)
	}
	hdr := recdb.Header{Version: recdb.Version, EntryType: recdb.NewLikeProtocol().GetEntryType(), NumEntries: uint32(len(recs))}
	f.Seek(5, io.SeekStart)
	_, err = proto.WriteHeader(&hdr, f)
	c.check(err == nil, "writing the header: %v", err)
	return f
}

func recdbFileCase(c *kase) {
	n := c.Intn(12)
	if c.Intn(20) == 0 {
		n = 60 + c.Intn(300)
	}
	recs := genLikeRecs(c, n)
	items, padding := 0, 0
	for _, l := range recs {
		items += len(l.likes) + len(l.dislikes)
		padding += int(l.capacity) - l.size()
	}
	f := writeRecdb(c, recs)
	proto := newRecdb()
	it, err := recdb.NewIterator(rws{newMemFile(f.data)}, proto)
	c.check(err == nil, "iterating: %v", err)
	kept := make([]*recdb.Entry, 0)
	for pass := 0; pass < 2; pass++ {
		stop := len(recs)
		if pass == 0 && c.Intn(3) == 0 {
			stop = c.Intn(len(recs) + 1)
		}
		for i := 0; i < stop; i++ {
			c.check(it.HasNext(), "pass %d: only %d of %d entries", pass, i, len(recs))
			e, err := it.Next()
			c.check(err == nil, "pass %d, entry %d of %d: %v", pass, i, len(recs), err)
			d := diffEntry(e, recs[i])
			c.check(d == "", "pass %d, entry %d of %d: %s", pass, i, len(recs), d)
			if pass == 1 {
				kept = append(kept, e)
			}
		}
		if stop == len(recs) {
			c.check(!it.HasNext(), "pass %d: more than %d entries", pass, len(recs))
			_, err = it.Next()
			c.check(err != nil, "pass %d: Next after the last entry succeeded", pass)
		}
		c.check(it.Rewind() == nil, "rewind failed")
	}
	_ = kept
	if items > 0 && padding > 0 {
		c.eval("%x", byteHash(f.data))
	} else {
		c.eval("")
	}
	c.count("entries", int64(len(recs)))
	c.sample("%d entries, %d items, %d bytes of padding", len(recs), items, padding)
}

// More entries than fit into 16 bits
func recdbManyCase(c *kase, rewrite bool) {
	n := 65530 + c.Intn(20)
	if rewrite {
		n += 100
	}
	recs := make([]likeRec, n)
	for i := range recs {
		l := likeRec{user: uint64(i), likes: genItems(c.Rand, c.Intn(3)), dislikes: genItems(c.Rand, c.Intn(2))}
		if i == n/2 {
			l.likes, l.dislikes = genItems(c.Rand, 65500+c.Intn(2000)), genItems(c.Rand, 65500+c.Intn(2000))
		}
		l.capacity = uint32(l.size() + c.Intn(3))
		recs[i] = l
	}
	f := newMemFile(encRecdb(0, recs))
	it, err := recdb.NewIterator(rws{f}, newRecdb())
	c.check(err == nil, "iterating: %v", err)
	rewrites := 0
	for i := range recs {
		c.check(it.HasNext(), "only %d of %d entries", i, n)
		e, err := it.Next()
		c.check(err == nil, "entry %d of %d: %v", i, n, err)
		d := diffEntry(e, recs[i])
		c.check(d == "", "entry %d of %d: %s", i, n, d)
		if rewrite && (c.Intn(1000) == 0 || i > 65500 && c.Intn(4) == 0) {
			recs[i] = mutateRec(c.Rand, recs[i], true)
			c.check(it.SetPrevious(recs[i].entry()) == nil, "setting entry %d of %d: %v", i, n, err)
			rewrites++
		}
	}
	c.check(!it.HasNext(), "more than %d entries", n)
	c.check(bytes.Equal(f.data, encRecdb(0, recs)), "after %d rewrites the file of %d entries isn't what was set", rewrites, n)
	c.count("entries", int64(n))
	c.eval("%d %d", n, recs[0].capacity)
}

// Counts what is written to it and keeps the beginning
type headWriter struct {
	head  []byte
	total int64
	wrong bool
}

func (w *headWriter) Write(b []byte) (int, error) {
	w.total += int64(len(b))
	keep := min(len(b), 1<<18-len(w.head))
	w.head = append(w.head, b[:keep]...)
	for _, x := range b[keep:] {
		if x != 0 {
			w.wrong = true
		}
	}
	return len(b), nil
}

// The beginning of something followed by zeros
type zeroReader struct {
	head []byte
	left int64
}

func (z *zeroReader) Read(b []byte) (int, error) {
	if len(z.head) > 0 {
		n := copy(b, z.head)
		z.head = z.head[n:]
		return n, nil
	}
	if z.left == 0 {
		return 0, io.EOF
	}
	if int64(len(b)) > z.left {
		b = b[:z.left]
	}
	for i := range b {
		b[i] = 0
	}
	z.left -= int64(len(b))
	return len(b), nil
}

// Capacities that don't fit into 31 bits
func recdbHugeCase(c *kase) {
	l := genLikeRecs(c, 1)[0]
	l.capacity = []uint32{1<<31 - 1, 1 << 31, 1<<31 + 7, 1<<32 - 1}[c.index%4]
	exact := l
	exact.capacity = uint32(l.size())
	want := encLike(exact)
	binary.BigEndian.PutUint32(want, l.capacity)
	c.log("capacity %d", l.capacity)
	w := &headWriter{}
	n, err := newRecdb().WriteEntry(l.entry(), w)
	c.check(err == nil && n == int(l.capacity), "writing an entry of capacity %d: %d, %v", l.capacity, n, err)
	c.check(w.total == int64(l.capacity) && !w.wrong, "an entry of capacity %d: %d bytes were written (not only zeros after the data: %v)", l.capacity, w.total, w.wrong)
	for i, x := range w.head {
		if i < len(want) && x != want[i] || i >= len(want) && x != 0 {
			c.fail("byte %d of an entry of capacity %d is %d", i, l.capacity, x)
		}
	}
	e := &recdb.Entry{}
	z := &zeroReader{append([]byte{}, want...), int64(l.capacity) - int64(len(want)) + 3}
	n, err = newRecdb().ReadEntry(e, z)
	c.check(err == nil && n == int(l.capacity), "reading an entry of capacity %d: %d, %v", l.capacity, n, err)
	d := diffEntry(e, l)
	c.check(d == "" && z.left == 3, "an entry of capacity %d: %s, %d bytes left of 3", l.capacity, d, z.left)
	c.eval("%d %x", l.capacity, byteHash(want))
}

type pieceReader struct {
	r   io.Reader
	rnd *rand.Rand
}

func (p *pieceReader) Read(b []byte) (int, error) {
	if len(b) > 1 {
		b = b[:1+p.rnd.Intn(min(len(b), 64))]
	}
	return p.r.Read(b)
}

func recdbPiecesCase(c *kase) {
	recs := genLikeRecs(c, 1+c.Intn(4))
	var data []byte
	for _, l := range recs {
		data = append(data, encLike(l)...)
	}
	var r io.Reader = bytes.NewReader(data)
	kind := c.Intn(4)
	switch kind {
	case 0:
		r = iotest.OneByteReader(r)
	case 1:
		r = iotest.HalfReader(r)
	case 2:
		r = iotest.DataErrReader(r)
	default:
		r = &pieceReader{r, c.Rand}
	}
	proto := newRecdb()
	for i, l := range recs {
		e := &recdb.Entry{}
		n, err := proto.ReadEntry(e, r)
		c.check(err == nil, "entry %d of %d (reader %d): %v", i, len(recs), kind, err)
		c.check(n == int(l.capacity), "entry %d: %d bytes read of %d", i, n, l.capacity)
		d := diffEntry(e, l)
		c.check(d == "", "entry %d (reader %d): %s", i, kind, d)
	}
	// Every proper prefix of the last entry is incomplete
	last := recs[len(recs)-1]
	if last.capacity < 20000 {
		b := encLike(last)
		cut := c.Intn(len(b))
		e := &recdb.Entry{}
		_, err := proto.ReadEntry(e, bytes.NewReader(b[:cut]))
		c.check(err != nil, "an entry cut from %d to %d bytes was read without an error", len(b), cut)
	}
	c.eval("%x %d", byteHash(data), kind)
}

func recdbCapacityCase(c *kase) {
	l := genLikeRec(c.Rand)
	proto := newRecdb()
	e := l.entry()
	size, err := proto.PredictEntrySize(e)
	c.check(err == nil && size == l.size(), "size of an entry with %d items: %d, %v, expected %d",
		len(l.likes)+len(l.dislikes), size, err, l.size())
	capacity, err := proto.PredictEntryCapacity(e)
	c.check(err == nil && capacity >= size, "capacity %d is predicted for an entry of %d bytes (%v)", capacity, size, err)
	// The predicted capacity is usable
	l.capacity = uint32(capacity)
	var buf bytes.Buffer
	n, err := proto.WriteEntry(l.entry(), &buf)
	c.check(err == nil && n == capacity && buf.Len() == capacity, "writing into the predicted capacity %d: %d, %v", capacity, n, err)
	c.check(bytes.Equal(buf.Bytes(), encLike(l)), "the written entry differs from the format")
	got := &recdb.Entry{}
	_, err = proto.ReadEntry(got, &buf)
	c.check(err == nil, "reading back: %v", err)
	d := diffEntry(got, l)
	c.check(d == "", "reading back: %s", d)
	// Too small capacities are refused before anything is written
	small := l
	small.capacity = uint32(c.Intn(l.size()))
	if c.Intn(2) == 0 {
		small.capacity = uint32(l.size() - 1)
	}
	buf.Reset()
	_, err = proto.WriteEntry(small.entry(), &buf)
	c.check(err != nil, "an entry of %d bytes was written with capacity %d", l.size(), small.capacity)
	c.check(buf.Len() == 0, "%d bytes of an entry that doesn't fit were written", buf.Len())
	// The smallest possible capacity is accepted
	exact := l
	exact.capacity = uint32(l.size())
	buf.Reset()
	_, err = proto.WriteEntry(exact.entry(), &buf)
	c.check(err == nil && bytes.Equal(buf.Bytes(), encLike(exact)), "an entry with the exact capacity wasn't written: %v", err)
	// Data that can't be written
	buf.Reset()
	var what any
	if c.Intn(2) == 0 {
		what = "text"
	}
	_, err = proto.WriteEntry(&recdb.Entry{Capacity: 100, Data: what}, &buf)
	c.check(err != nil && buf.Len() == 0, "an entry with data of a wrong type was written")
	c.eval("%d %d %d", l.user, len(l.likes), len(l.dislikes))
}

type failingWriter struct {
	left int
	n    int
}

func (w *failingWriter) Write(b []byte) (int, error) {
	if len(b) > w.left {
		n := w.left
		w.left = 0
		w.n += n
		return n, errInjected
	}
	w.left -= len(b)
	w.n += len(b)
	return len(b), nil
}

func recdbWriteFaultCase(c *kase) {
	l := genLikeRec(c.Rand)
	for i := 0; i < 8; i++ {
		w := &failingWriter{left: c.Intn(int(l.capacity))}
		_, err := newRecdb().WriteEntry(l.entry(), w)
		c.check(err != nil, "an entry of capacity %d was written without an error, but only %d bytes went through", l.capacity, w.n)
		w = &failingWriter{left: c.Intn(recdbHdr)}
		err = newRecdb().Create(w)
		c.check(err != nil, "a database was created without an error, but only %d bytes of the header went through", w.n)
		c.eval("%d %d %d", l.user, l.capacity, w.n)
	}
}

// Changes an entry; the size limit may be exceeded on purpose.
func mutateRec(r *rand.Rand, l likeRec, fit bool) likeRec {
	m := l
	m.user = genID(r)
	m.deleted = byte(r.Intn(2))
	room := (int(l.capacity) - 21) / 8
	if fit {
		total := r.Intn(room + 1)
		if r.Intn(3) == 0 {
			total = room
		}
		k := r.Intn(total + 1)
		m.likes, m.dislikes = genItems(r, k), genItems(r, total-k)
	} else {
		total := room + 1 + r.Intn(40)
		k := r.Intn(total + 1)
		m.likes, m.dislikes = genItems(r, k), genItems(r, total-k)
	}
	return m
}

func recdbRewriteCase(c *kase) {
	n := 1 + c.Intn(8)
	if c.Intn(8) == 0 {
		n = 40
	}
	if c.Intn(120) == 0 {
		n = 120 + c.Intn(300)
		if d := dictSize(c.Rand, 8, 500); d > 0 && c.Intn(3) == 0 {
			n = d + 1 + c.Intn(10)
		}
	}
	recs := genLikeRecs(c, n)
	f := newMemFile(encRecdb(0, recs))
	it, err := recdb.NewIterator(rws{f}, newRecdb())
	c.check(err == nil, "iterating: %v", err)
	expect := func(when string) {
		want := encRecdb(0, recs)
		if !bytes.Equal(want, f.data) {
			i := 0
			for i < len(want) && i < len(f.data) && want[i] == f.data[i] {
				i++
			}
			c.fail("%s: the file (%d bytes) differs from the expected one (%d bytes) at offset %d", when, len(f.data), len(want), i)
		}
	}
	pos, rewrites, refusals := 0, 0, 0
	var returned *recdb.Entry // by Next, if nothing else happened since
	for step := 0; step < 4*n; step++ {
		switch k := c.Intn(10); {
		case k == 0 && c.Intn(4+n/4) == 0:
			c.check(it.Rewind() == nil, "rewind failed")
			c.log("rewind")
			pos, returned = 0, nil
			c.check(it.SetPrevious(recs[0].entry()) != nil, "an entry was set before any was read")
			expect("after setting an entry before the first one")
		case k < 5 && pos > 0:
			kind := c.Intn(6)
			old := recs[pos-1]
			switch kind {
			case 5:
				// The entry returned last with another capacity
				if returned == nil {
					continue
				}
				returned.Capacity += uint32(1 + c.Intn(50))
				err := it.SetPrevious(returned)
				c.check(err != nil, "the returned entry was set with capacity %d in place of %d", returned.Capacity, old.capacity)
				c.log("changed capacity refused at %d", pos-1)
				expect("after refusing the returned entry with another capacity")
				refusals++
				returned = nil
			case 4:
				// The entry returned last after a change
				if returned == nil {
					continue
				}
				now := mutateRec(c.Rand, old, true)
				p := returned.Data.(*domain.Profile)
				p.UserID, p.Likes, p.Dislikes = now.user, now.likes, now.dislikes
				returned.Deleted = now.deleted
				recs[pos-1] = now
				err := it.SetPrevious(returned)
				c.check(err == nil, "setting entry %d of %d after changing it: %v", pos-1, n, err)
				c.log("changed entry %d", pos-1)
				expect(fmt.Sprintf("after changing entry %d of %d", pos-1, n))
				rewrites++
				returned = nil
			case 0:
				if old.capacity > 100000 {
					continue
				}
				bad := mutateRec(c.Rand, old, false)
				err := it.SetPrevious(bad.entry())
				c.check(err != nil, "an entry of %d bytes was set in place of one with capacity %d", bad.size(), old.capacity)
				c.log("oversized entry refused at %d", pos-1)
				expect("after refusing an oversized entry")
				refusals++
			case 1:
				bad := mutateRec(c.Rand, old, true)
				bad.capacity = uint32(bad.size()) + uint32(c.Intn(300))
				if bad.capacity == old.capacity {
					bad.capacity++
				}
				err := it.SetPrevious(bad.entry())
				c.check(err != nil, "an entry of capacity %d was set in place of one with capacity %d", bad.capacity, old.capacity)
				c.log("other capacity refused at %d", pos-1)
				expect("after refusing an entry with another capacity")
				refusals++
			default:
				recs[pos-1] = mutateRec(c.Rand, old, true)
				e := recs[pos-1].entry()
				err := it.SetPrevious(e)
				c.check(err == nil, "setting entry %d of %d: %v", pos-1, n, err)
				c.log("set entry %d", pos-1)
				expect(fmt.Sprintf("after setting entry %d of %d", pos-1, n))
				rewrites++
			}
		default:
			c.check(it.HasNext() == (pos < n), "HasNext at %d of %d is %v", pos, n, it.HasNext())
			e, err := it.Next()
			if pos == n {
				c.check(err != nil, "Next after the last entry succeeded")
				c.check(it.Rewind() == nil, "rewind failed")
				c.log("rewind at the end")
				pos, returned = 0, nil
				continue
			}
			c.check(err == nil, "entry %d of %d after %d rewrites: %v", pos, n, rewrites, err)
			d := diffEntry(e, recs[pos])
			c.check(d == "", "entry %d of %d after %d rewrites and %d refusals: %s", pos, n, rewrites, refusals, d)
			c.log("next %d", pos)
			returned = e
			pos++
		}
	}
	expect("in the end")
	if rewrites > 0 {
		c.eval("%x", byteHash(f.data))
	} else {
		c.eval("")
	}
	c.count("rewrites", int64(rewrites))
	c.count("refusals", int64(refusals))
	c.sample("%d entries, %d rewrites, %d refusals", n, rewrites, refusals)
}

// A failed rewrite is reported and doesn't touch other entries.
func recdbRewriteFaultCase(c *kase) {
	n := 2 + c.Intn(5)
	recs := genLikeRecs(c, n)
	base := encRecdb(0, recs)
	target := 1 + c.Intn(n-1)
	repl := mutateRec(c.Rand, recs[target-1], true)
	if bytes.Equal(encLike(repl), encLike(recs[target-1])) {
		return
	}
	for at := 0; at < 40; at++ {
		f := newMemFile(base)
		it, err := recdb.NewIterator(rws{f}, newRecdb())
		c.check(err == nil, "iterating: %v", err)
		for i := 0; i < target; i++ {
			_, err = it.Next()
			c.check(err == nil, "next: %v", err)
		}
		start := f.nth
		hit := ""
		at := at
		f.fault = func(nth int, kind string, size int) (int, error) {
			if nth-start == at {
				hit = kind
				if kind == "write" && size > 0 {
					return c.Intn(size), errInjected
				}
				return 0, errInjected
			}
			return size, nil
		}
		err = it.SetPrevious(repl.entry())
		f.fault = nil
		if hit == "" {
			c.check(err == nil, "set: %v", err)
			break
		}
		from := recdbHdr
		for i := 0; i < target-1; i++ {
			from += int(recs[i].capacity)
		}
		to := from + int(recs[target-1].capacity)
		if err == nil {
			c.check(bytes.Equal(f.data[from:to], encLike(repl)), "a fault in %s was hidden, but the entry isn't written", hit)
		}
		c.check(len(f.data) == len(base) && bytes.Equal(f.data[:from], base[:from]) && bytes.Equal(f.data[to:], base[to:]),
			"a failed rewrite (%s) touched other entries", hit)
		c.eval("%x %d", byteHash(base), at)
	}
}

// Operations of the iterator fail at random; whatever it does return or change must be right.
func recdbReadFaultCase(c *kase) {
	n := 2 + c.Intn(6)
	if c.Intn(3) == 0 {
		n = 30
	}
	recs := genLikeRecs(c, n)
	f := newMemFile(encRecdb(0, recs))
	it, err := recdb.NewIterator(rws{f}, newRecdb())
	c.check(err == nil, "iterating: %v", err)
	faults := 0
	rate := 2 + c.Intn(6)
	f.fault = func(nth int, kind string, size int) (int, error) {
		if kind != "write" && c.Intn(rate) == 0 {
			faults++
			c.log("%s fails", kind)
			return 0, errInjected
		}
		if kind == "read" && size > 1 && c.Intn(2) == 0 {
			return 1 + c.Intn(size), nil
		}
		return size, nil
	}
	pos, good, failures := 0, 0, 0
	current := false // an entry has been returned that may be replaced
	for step := 0; step < 6*n; step++ {
		faults = 0
		switch k := c.Intn(12); {
		case k == 0:
			c.log("rewind")
			err := it.Rewind()
			c.check(err == nil || faults > 0, "rewinding failed: %v", err)
			if err != nil {
				failures++
				// It's unknown whether it has been done, so do it until it has
				for i := 0; err != nil; i++ {
					c.check(i < 10000, "rewinding never succeeds")
					err = it.Rewind()
				}
			}
			pos, current = 0, false
		case k < 4 && current:
			now := mutateRec(c.Rand, recs[pos-1], true)
			c.log("set entry %d", pos-1)
			err := it.SetPrevious(now.entry())
			c.check(err == nil || faults > 0, "setting entry %d: %v", pos-1, err)
			if err == nil {
				recs[pos-1] = now
				good++
			} else {
				failures++
				// Nothing else may have changed
				old := recs[pos-1]
				recs[pos-1] = now
				if !bytes.Equal(f.data, encRecdb(0, recs)) {
					recs[pos-1] = old
				}
			}
		default:
			if pos == n {
				continue
			}
			c.log("next %d", pos)
			e, err := it.Next()
			c.check(err == nil || faults > 0, "entry %d of %d after %d failures: %v", pos, n, failures, err)
			if err != nil {
				failures++
				// Trying again gives the same entry
				continue
			}
			d := diffEntry(e, recs[pos])
			c.check(d == "", "entry %d of %d after %d failures: %s", pos, n, failures, d)
			pos++
			current = true
			good++
		}
		c.check(bytes.Equal(f.data, encRecdb(0, recs)), "after %d failures the file differs from what was set", failures)
	}
	c.count("failures", int64(failures))
	if failures > 0 && good > 0 {
		c.eval("%x %d", byteHash(f.data), failures)
	} else {
		c.eval("")
	}
	c.sample("%d entries, %d successes and %d failures", n, good, failures)
}

// Malformed entries for the other checks.
func corruptEntryCounts(b []byte, r *rand.Rand) {
	if len(b) >= 17 {
		binary.BigEndian.PutUint32(b[13:], r.Uint32()>>uint(r.Intn(32)))
	}
}

var _ = errors.New
