package main

import (
	"encoding/json"
	"math/rand"
	"os"
)

// The numbers and words in the code under test: values that it may treat in a special way. They only
// say which inputs are worth trying; what is expected of the code never depends on them.
var dict = loadDict()

type literals struct {
	Ints   []uint64
	Floats []float64
	Words  []string
}

func loadDict() *literals {
	d := &literals{}
	if data, err := os.ReadFile(os.Getenv("VERIF_DICT")); err == nil {
		if err = json.Unmarshal(data, d); err != nil {
			panic(err)
		}
	}
	return d
}

// A number of the code, or one next to it.
func dictInt(r *rand.Rand) uint64 {
	if len(dict.Ints) == 0 {
		return genID(r)
	}
	v := dict.Ints[r.Intn(len(dict.Ints))]
	switch r.Intn(4) {
	case 0:
		return v - 1
	case 1:
		return v + 1
	}
	return v
}

// A number of the code in the given range, or 0 if there is none.
func dictSize(r *rand.Rand, min, max int) int {
	var sizes []int
	for _, v := range dict.Ints {
		if v >= uint64(min) && v <= uint64(max) {
			sizes = append(sizes, int(v))
		}
	}
	if len(sizes) == 0 {
		return 0
	}
	return sizes[r.Intn(len(sizes))]
}

// A factor between 0 and 1 about one of the code's.
func dictFactor(r *rand.Rand) float32 {
	if len(dict.Floats) == 0 {
		return r.Float32()
	}
	f := float32(dict.Floats[r.Intn(len(dict.Floats))]) * []float32{1, 1, 0.99999, 1.00001, 0.5}[r.Intn(5)]
	if !(f >= 0 && f <= 1) {
		return r.Float32()
	}
	return f
}

// A word of the code that is a valid name of a namespace, or "a".
func dictName(r *rand.Rand) string {
	if len(dict.Words) == 0 {
		return "a"
	}
	w := dict.Words[r.Intn(len(dict.Words))]
	if !validName(w) {
		return "a"
	}
	return w
}

// IDs with the same differences again and again: numbers of the code, or powers of two.
func relatedIDs(r *rand.Rand, n int) []uint64 {
	base, a, b := uint64(r.Intn(3)), dictInt(r), uint64(1)<<uint(r.Intn(64))
	switch r.Intn(4) {
	case 0:
		base = r.Uint64()
	case 1:
		a = 1
	case 2:
		b = dictInt(r)
	}
	var ids []uint64
	seen := map[uint64]bool{}
	for tries := 0; len(ids) < n; tries++ {
		id := base + uint64(r.Intn(3+n/3))*a + uint64(r.Intn(3))*b
		if tries > 4*n {
			id = genID(r)
		}
		if !seen[id] {
			seen[id] = true
			ids = append(ids, id)
		}
	}
	return ids
}
