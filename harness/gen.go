package main

import "math/rand"

var edgeIDs = []uint64{0, 1, 2, 100, 127, 128, 254, 255, 256, 257, 32767, 32768, 65535, 65536,
	1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<53 - 1, 1 << 53, 1<<53 + 1,
	1<<63 - 1, 1 << 63, 1<<63 + 1, 1<<64 - 2, 1<<64 - 1}

// An ID that is often a boundary value.
func genID(r *rand.Rand) uint64 {
	if r.Intn(16) == 0 {
		return dictInt(r)
	}
	switch r.Intn(4) {
	case 0:
		return edgeIDs[r.Intn(len(edgeIDs))]
	case 1:
		return uint64(r.Intn(300))
	case 2:
		return r.Uint64()
	default:
		return r.Uint64() >> uint(r.Intn(64))
	}
}

func genIDs(r *rand.Rand, n int) []uint64 {
	if n <= 300 && r.Intn(8) == 0 {
		return relatedIDs(r, n)
	}
	ids := make([]uint64, 0, n)
	seen := make(map[uint64]bool)
	for len(ids) < n {
		id := genID(r)
		if n > 60 && len(ids) > n/2 {
			id = r.Uint64()
		}
		if !seen[id] {
			seen[id] = true
			ids = append(ids, id)
		}
	}
	return ids
}

// A size that is often near a boundary.
func genSize(r *rand.Rand, max int) int {
	edges := []int{0, 1, 2, 3, 4, 99, 100, 101, 127, 128, 226, 227, 228, 255, 256, 257, 511, 512, 1023, 1024, 4095, 4096, 4097}
	n := 0
	if r.Intn(12) == 0 {
		if n = dictSize(r, 3, max); n > 0 {
			return min(max, n-1+r.Intn(3))
		}
	}
	switch r.Intn(4) {
	case 0:
		n = edges[r.Intn(len(edges))]
	case 1:
		n = r.Intn(max + 1)
	default:
		n = r.Intn(12)
	}
	if n > max {
		n = r.Intn(max + 1)
	}
	return n
}
