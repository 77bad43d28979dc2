package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
)

// Independent implementations of the on-disk formats, written from the format
// description (see properties.jsonl), not from the code under test.

const (
	deltaHdr   = 14
	deltaEntry = 18
	indexHdr   = 12
	indexEntry = 16
	recdbHdr   = 19
)

type deltaRec struct {
	op   byte
	user uint64
	item uint64
}

func (d deltaRec) String() string { return fmt.Sprintf("%c%d:%d", d.op, d.user, d.item) }

func byteSum(b []byte) byte {
	s := byte(0)
	for _, x := range b {
		s += x
	}
	return s
}

func encDeltaRec(r deltaRec) []byte {
	b := make([]byte, deltaEntry)
	b[0] = r.op
	binary.BigEndian.PutUint64(b[1:], r.user)
	binary.BigEndian.PutUint64(b[9:], r.item)
	b[17] = byteSum(b[:17])
	return b
}

func encDelta(locked byte, recs []deltaRec) []byte {
	b := []byte("RECDELTA")
	b = append(b, 1, locked)
	b = appendU32(b, uint32(len(recs)))
	for _, r := range recs {
		b = append(b, encDeltaRec(r)...)
	}
	return b
}

func appendU32(b []byte, n uint32) []byte {
	return append(b, byte(n>>24), byte(n>>16), byte(n>>8), byte(n))
}

func appendU64(b []byte, n uint64) []byte {
	return appendU32(appendU32(b, uint32(n>>32)), uint32(n))
}

// Decodes a delta file strictly by its header.
func decDelta(b []byte) (locked byte, recs []deltaRec, err error) {
	if len(b) < deltaHdr || !bytes.Equal(b[:8], []byte("RECDELTA")) {
		return 0, nil, fmt.Errorf("no delta header in %d bytes", len(b))
	}
	if b[8] != 1 {
		return 0, nil, fmt.Errorf("delta version %d", b[8])
	}
	n := int(binary.BigEndian.Uint32(b[10:]))
	if len(b) < deltaHdr+n*deltaEntry {
		return b[9], nil, fmt.Errorf("the header declares %d entries, but the file has %d bytes", n, len(b))
	}
	for i := 0; i < n; i++ {
		e := b[deltaHdr+i*deltaEntry:][:deltaEntry]
		if byteSum(e[:17]) != e[17] {
			return b[9], nil, fmt.Errorf("wrong checksum of entry %d", i)
		}
		recs = append(recs, deltaRec{e[0], binary.BigEndian.Uint64(e[1:]), binary.BigEndian.Uint64(e[9:])})
	}
	return b[9], recs, nil
}

func encIndex(locked byte, ids []uint64, m map[uint64]uint64) []byte {
	b := []byte("RECIDX")
	b = append(b, 1, locked)
	b = appendU32(b, uint32(len(ids)))
	for _, id := range ids {
		b = appendU64(appendU64(b, id), m[id])
	}
	return b
}

func decIndex(b []byte) (locked byte, m map[uint64]uint64, err error) {
	if len(b) < indexHdr || !bytes.Equal(b[:6], []byte("RECIDX")) {
		return 0, nil, fmt.Errorf("no index header in %d bytes", len(b))
	}
	if b[6] != 1 {
		return 0, nil, fmt.Errorf("index version %d", b[6])
	}
	n := int(binary.BigEndian.Uint32(b[8:]))
	if len(b) < indexHdr+n*indexEntry {
		return b[7], nil, fmt.Errorf("the header declares %d entries, but the file has %d bytes", n, len(b))
	}
	m = make(map[uint64]uint64)
	for i := 0; i < n; i++ {
		e := b[indexHdr+i*indexEntry:]
		id := binary.BigEndian.Uint64(e)
		if _, dup := m[id]; dup {
			return b[7], nil, fmt.Errorf("id %d twice", id)
		}
		m[id] = binary.BigEndian.Uint64(e[8:])
	}
	return b[7], m, nil
}

type likeRec struct {
	capacity uint32
	deleted  byte
	user     uint64
	likes    []uint64
	dislikes []uint64
}

func (l likeRec) size() int { return 5 + 16 + 8*(len(l.likes)+len(l.dislikes)) }

func encLike(l likeRec) []byte {
	b := appendU32(nil, l.capacity)
	b = append(b, l.deleted)
	b = appendU64(b, l.user)
	b = appendU32(b, uint32(len(l.likes)))
	for _, x := range l.likes {
		b = appendU64(b, x)
	}
	b = appendU32(b, uint32(len(l.dislikes)))
	for _, x := range l.dislikes {
		b = appendU64(b, x)
	}
	return append(b, make([]byte, int(l.capacity)-len(b))...)
}

func encRecdb(locked byte, recs []likeRec) []byte {
	b := []byte("RECDB")
	b = append(b, 1)
	b = append(b, "LIKE    "...)
	b = append(b, locked)
	b = appendU32(b, uint32(len(recs)))
	for _, r := range recs {
		b = append(b, encLike(r)...)
	}
	return b
}
