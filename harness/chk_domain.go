package main

import (
	"fmt"
	"io"
	"math"
	"math/big"
	"math/rand"
	"os"
	"recengine/internal/domain"
	"recengine/internal/helpers"
	"sort"
)

func init() {
	register("C21", "exploration",
		"random sequences of likes, dislikes, their removals and queries on a profile against a pair of sets; few or "+
			"many items, 64-bit boundary values; non-trivial: an item changed sides or was removed; distinct by final "+
			"contents",
		func(r *run) {
			r.cases("sets", r.n(20000, 400000), func(c *kase) { profileCase(c, 10+genSize(c.Rand, 300)) })
			r.cases("large", r.n(30, 400), func(c *kase) { profileCase(c, 20000) })
			r.cases("ordered", r.n(60, 1000), profileOrderedCase)
			r.cases("bulk", r.n(12, 200), profileBulkCase)
		})
	register("C22", "exploration",
		"random pairs of profiles (empty, equal, disjoint, nested, of up to 10000 items) and dislike factors against the formula in "+
			"exact rational arithmetic, symmetry, self-similarity, range and independence of the arguments; "+
			"non-trivial: the profiles overlap; distinct by (overlaps, sizes, factor)",
		func(r *run) {
			r.cases("pairs", r.n(30000, 600000), func(c *kase) { similarityCase(c, 1+genSize(c.Rand, 120)) })
			r.cases("large", r.n(300, 6000), func(c *kase) { similarityCase(c, 1000+c.Intn(9000)) })
			r.cases("bulk", r.n(16, 200), func(c *kase) { similarityCase(c, 60000+c.Intn(200000)) })
		})
	register("C23", "exploration",
		"random sorted arrays (duplicates, extremes of the type, lengths up to 6000) of 11 numeric types and strings "+
			"against linear-scan versions of search, insertion and removal; non-trivial: the array isn't empty; "+
			"distinct by (type, array, value)",
		func(r *run) { r.cases("arrays", r.n(120000, 1500000), arraysCase) })
	register("C24", "exploration",
		"random sequences of reads, writes, seeks and truncations of an in-memory file buffer against a byte-slice model "+
			"and, for the operations both define, an operating system file; non-trivial: it was written in the middle "+
			"and truncated; distinct by final contents",
		func(r *run) {
			r.cases("model", r.n(30000, 400000), func(c *kase) { fileBufferCase(c, false) })
			r.cases("osfile", r.n(1000, 10000), func(c *kase) { fileBufferCase(c, true) })
		})
}

func profileCase(c *kase, steps int) {
	ids := genIDs(c.Rand, 1+genSize(c.Rand, steps))
	user := genID(c.Rand)
	p := domain.NewProfile(user)
	model := make(map[uint64]int)
	moved := 0
	verify := func() {
		var likes, dislikes []uint64
		for id, q := range model {
			if q == 1 {
				likes = append(likes, id)
			} else if q == -1 {
				dislikes = append(dislikes, id)
			}
		}
		sort.Slice(likes, func(i, j int) bool { return likes[i] < likes[j] })
		sort.Slice(dislikes, func(i, j int) bool { return dislikes[i] < dislikes[j] })
		c.check(p.UserID == user, "the user ID changed")
		c.check(sameItems(p.Likes, likes), "likes %v, expected %v", short(p.Likes), short(likes))
		c.check(sameItems(p.Dislikes, dislikes), "dislikes %v, expected %v", short(p.Dislikes), short(dislikes))
	}
	for i := 0; i < steps; i++ {
		id := ids[c.Intn(len(ids))]
		old := model[id]
		k := c.Intn(10)
		c.log("op %d of %d", k, id)
		switch {
		case k < 3:
			p.Like(id)
			model[id] = 1
		case k < 6:
			p.Dislike(id)
			model[id] = -1
		case k == 6:
			p.Unlike(id)
			if old == 1 {
				model[id] = 0
			}
		case k == 7:
			p.Undislike(id)
			if old == -1 {
				model[id] = 0
			}
		case k == 8:
			p.RemoveItem(id)
			model[id] = 0
		}
		if old != 0 && model[id] != old {
			moved++
		}
		q := id
		if c.Intn(2) == 0 {
			q = genID(c.Rand)
		}
		c.check(p.QualifyItem(q) == model[q], "item %d is qualified as %d, expected %d", q, p.QualifyItem(q), model[q])
		c.check(p.QualifyItem(id) == model[id], "item %d is qualified as %d, expected %d", id, p.QualifyItem(id), model[id])
		if steps < 400 {
			verify()
		}
	}
	verify()
	for id, q := range model {
		c.check(p.QualifyItem(id) == q, "item %d is qualified as %d, expected %d", id, p.QualifyItem(id), q)
	}
	if moved > 0 {
		c.eval("%v %v", p.Likes, p.Dislikes)
	} else {
		c.eval("")
	}
	c.sample("%d operations on %d items, %d moved, %d likes and %d dislikes in the end", steps, len(ids), moved,
		len(p.Likes), len(p.Dislikes))
}

// Items that come in order, or from both ends or the middle, into one large list.
// Few operations on a profile with more items than 16 bits can count.
func profileBulkCase(c *kase) {
	n := []int{32766, 65534, 131070}[c.index%3] + c.Intn(4)
	step := uint64(1) << uint(c.Intn(40))
	p := domain.NewProfile(9)
	want := make([]int, n+40)
	for i := 0; i < n; i++ {
		switch q := c.Intn(4); {
		case c.index%2 == 0 && q > 0 || q == 3:
			p.Likes = append(p.Likes, uint64(i)*step)
			want[i] = 1
		default:
			p.Dislikes = append(p.Dislikes, uint64(i)*step)
			want[i] = -1
		}
	}
	if c.Intn(2) == 0 {
		p.Likes, p.Dislikes = sortedSet(append(append([]uint64{}, p.Likes...), p.Dislikes...)), []uint64{}
		for i := range want[:n] {
			want[i] = 1
		}
	}
	verify := func() {
		var lists [2][]uint64
		for i, q := range want {
			if q > 0 {
				lists[0] = append(lists[0], uint64(i)*step)
			} else if q < 0 {
				lists[1] = append(lists[1], uint64(i)*step)
			}
		}
		c.check(sameItems(p.Likes, lists[0]), "the %d likes aren't the %d put there", len(p.Likes), len(lists[0]))
		c.check(sameItems(p.Dislikes, lists[1]), "the %d dislikes aren't the %d put there", len(p.Dislikes), len(lists[1]))
	}
	for i := 0; i < 120; i++ {
		k := []int{c.Intn(n), n - c.Intn(3), n + i%40, c.Intn(8)}[c.Intn(4)]
		id := uint64(k) * step
		switch c.Intn(4) {
		case 0:
			p.Like(id)
			want[k] = 1
		case 1:
			p.Dislike(id)
			want[k] = -1
		case 2:
			p.RemoveItem(id)
			want[k] = 0
		}
		c.check(p.QualifyItem(id) == want[k], "item %d is qualified as %d, expected %d", k, p.QualifyItem(id), want[k])
		if i%8 == 7 {
			verify()
		}
	}
	verify()
	c.eval("%d %d", n, step)
	c.count("items", int64(n))
}

func profileOrderedCase(c *kase) {
	n := []int{600, 1100, 2100, 4200, 5000}[c.Intn(5)]
	if d := dictSize(c.Rand, 100, 20000); d > 0 && c.Intn(4) == 0 {
		n = d + c.Intn(40)
	}
	p := domain.NewProfile(7)
	step := uint64(1) << uint(c.Intn(50))
	way, side := c.Intn(4), c.Intn(3)
	want := map[uint64]int{}
	put := func(id uint64, q int) {
		if q > 0 {
			p.Like(id)
		} else {
			p.Dislike(id)
		}
		want[id] = q
	}
	verify := func() {
		var lists [2][]uint64
		for id, q := range want {
			if q > 0 {
				lists[0] = append(lists[0], id)
			} else if q < 0 {
				lists[1] = append(lists[1], id)
			}
		}
		c.check(sameItems(p.Likes, sortedSet(lists[0])), "way %d: the %d likes aren't the %d put there", way, len(p.Likes), len(lists[0]))
		c.check(sameItems(p.Dislikes, sortedSet(lists[1])), "way %d: the %d dislikes aren't the %d put there", way, len(p.Dislikes), len(lists[1]))
	}
	for i := 0; i < n; i++ {
		k := i
		switch way {
		case 1:
			k = n - i
		case 2:
			if i&1 == 1 {
				k = 2*n - i
			}
		case 3:
			k = n/2 + i/2
			if i&1 == 1 {
				k = n/2 - i/2
			}
		}
		q := 1 - side
		if side == 2 {
			q = 1 - 2*(i&1)
		} else if side == 1 {
			q = -1
		}
		put(uint64(k)*step, q)
		c.check(p.QualifyItem(uint64(k)*step) == q, "item %d was put on the other side", k)
		if n-i < 4 || i&(i+1) == 0 || c.Intn(100) == 0 {
			verify()
		}
	}
	verify()
	ids := sortedSet(append(append([]uint64{}, p.Likes...), p.Dislikes...))
	for i := 0; i < n/2; i++ {
		id := ids[c.Intn(len(ids))]
		switch c.Intn(3) {
		case 0:
			p.RemoveItem(id)
			want[id] = 0
		case 1:
			put(id, 1)
		default:
			put(id, -1)
		}
		c.check(p.QualifyItem(id) == want[id], "item %d is qualified as %d, expected %d", id, p.QualifyItem(id), want[id])
		if c.Intn(100) == 0 {
			verify()
		}
	}
	verify()
	c.eval("%d %d %d %d", n, way, side, step)
}

func sortedSet(ids []uint64) []uint64 {
	a := append([]uint64{}, ids...)
	sort.Slice(a, func(i, j int) bool { return a[i] < a[j] })
	return a
}

func subset(r *rand.Rand, ids []uint64, p float64) []uint64 {
	var a []uint64
	for _, id := range ids {
		if r.Float64() < p {
			a = append(a, id)
		}
	}
	return sortedSet(a)
}

func overlap(a, b []uint64) int {
	m := make(map[uint64]bool)
	for _, x := range a {
		m[x] = true
	}
	n := 0
	for _, x := range b {
		if m[x] {
			n++
		}
	}
	return n
}

func similarityCase(c *kase, items int) {
	pool := genIDs(c.Rand, items)
	gen := func() domain.Profile {
		ps := []float64{0, 0.1, 0.5, 0.9, 1}
		all := subset(c.Rand, pool, ps[c.Intn(5)])
		q := ps[c.Intn(5)]
		p := domain.Profile{UserID: genID(c.Rand)}
		for _, id := range all {
			if c.Float64() < q {
				p.Likes = append(p.Likes, id)
			} else {
				p.Dislikes = append(p.Dislikes, id)
			}
		}
		return p
	}
	a, b := gen(), gen()
	switch c.Intn(6) {
	case 0:
		b = a
	case 1:
		b.Likes = a.Likes
	case 2:
		b.Likes, b.Dislikes = a.Dislikes, a.Likes
	}
	f := []float32{0, 1, 0.5, c.Float32(), float32(c.Intn(11)) / 10, 1e-6, math.SmallestNonzeroFloat32, dictFactor(c.Rand)}[c.Intn(8)]
	desc := fmt.Sprintf("%d and %d likes (%d common), %d and %d dislikes (%d common), factor %g",
		len(a.Likes), len(b.Likes), overlap(a.Likes, b.Likes),
		len(a.Dislikes), len(b.Dislikes), overlap(a.Dislikes, b.Dislikes), f)
	al, ad := append([]uint64{}, a.Likes...), append([]uint64{}, a.Dislikes...)
	bl, bd := append([]uint64{}, b.Likes...), append([]uint64{}, b.Dislikes...)
	got := a.ComputeSimilarity(b, f)
	c.check(sameItems(a.Likes, al) && sameItems(a.Dislikes, ad) && sameItems(b.Likes, bl) && sameItems(b.Dislikes, bd),
		"%s: computing similarity changed a profile", desc)
	want := similarity(&a, &b, f)
	c.check(!math.IsNaN(float64(got)) && got >= 0 && got <= 100.001, "%s: similarity %v is out of range", desc, got)
	// Factors so small that their products vanish or lose precision only have to stay in range
	tiny := f > 0 && f < 1e-30
	if !tiny {
		c.check(math.Abs(float64(got)-want) < 1e-2, "%s: similarity %v, expected %v", desc, got, want)
	}
	back := b.ComputeSimilarity(a, f)
	c.check(math.Abs(float64(got)-float64(back)) < 1e-3, "%s: similarity isn't symmetric: %v and %v", desc, got, back)
	if len(a.Likes) > 0 || (len(a.Dislikes) > 0 && f > 0 && !tiny) {
		self := a.ComputeSimilarity(a, f)
		c.check(math.Abs(float64(self)-100) < 1e-2, "%s: similarity with itself is %v", desc, self)
	}
	if got > 0 && want < 100 {
		c.eval("%s", desc)
	} else {
		c.eval("")
	}
	c.sample("%s: %v", desc, got)
}

// 100 * (common likes + f * common dislikes) / (all likes + f * all dislikes)
func similarity(a, b *domain.Profile, f float32) float64 {
	lc, dc := overlap(a.Likes, b.Likes), overlap(a.Dislikes, b.Dislikes)
	lu, du := len(a.Likes)+len(b.Likes)-lc, len(a.Dislikes)+len(b.Dislikes)-dc
	factor := new(big.Rat).SetFloat64(float64(f))
	num := new(big.Rat).Add(new(big.Rat).SetInt64(int64(lc)), new(big.Rat).Mul(factor, new(big.Rat).SetInt64(int64(dc))))
	den := new(big.Rat).Add(new(big.Rat).SetInt64(int64(lu)), new(big.Rat).Mul(factor, new(big.Rat).SetInt64(int64(du))))
	if den.Sign() == 0 {
		return 0
	}
	v, _ := new(big.Rat).Mul(new(big.Rat).Quo(num, den), new(big.Rat).SetInt64(100)).Float64()
	return v
}

// The sorted arrays of one type. dist is ordered like the distance of its arguments.
func arrayOps[T helpers.Numeric](c *kase, name string, gen func() T, dist func(a, b T) uint64) {
	n := genSize(c.Rand, 300)
	if c.Intn(3) == 0 {
		n = c.Intn(6)
	} else if c.Intn(100) == 0 {
		n = genSize(c.Rand, 6000)
	}
	pool := make([]T, 1+c.Intn(n+2))
	for i := range pool {
		pool[i] = gen()
	}
	a := make([]T, n)
	for i := range a {
		a[i] = pool[c.Intn(len(pool))]
	}
	unique := c.Intn(2) == 0
	sort.Slice(a, func(i, j int) bool { return a[i] < a[j] })
	if unique {
		u := a[:0]
		for i, x := range a {
			if i == 0 || x != u[len(u)-1] {
				u = append(u, x)
			}
		}
		a = u
	}
	v := pool[c.Intn(len(pool))]
	if c.Intn(2) == 0 {
		v = gen()
	}
	desc := fmt.Sprintf("%s %v, value %v", name, clip(fmt.Sprint(a), 300), v)
	present := false
	for _, x := range a {
		if x == v {
			present = true
		}
	}
	orig := append([]T{}, a...)
	same := func(x []T) bool {
		if len(x) != len(orig) {
			return false
		}
		for i := range x {
			if x[i] != orig[i] {
				return false
			}
		}
		return true
	}
	i := helpers.IndexOf(a, v)
	c.check((i >= 0) == present && (!present || a[i] == v && !contains(a[:i], v)), "%s: IndexOf is %d", desc, i)
	i = helpers.BinaryIndexOf(a, v)
	c.check((i >= 0) == present && (!present || a[i] == v), "%s: BinaryIndexOf is %d", desc, i)
	if len(a) == 0 {
		c.check(helpers.BinaryIndexOfClosest(a, v) == -1, "%s: BinaryIndexOfClosest of nothing", desc)
	} else {
		i = helpers.BinaryIndexOfClosest(a, v)
		c.check(i >= 0 && i < len(a), "%s: BinaryIndexOfClosest is %d", desc, i)
		for _, x := range a {
			c.check(dist(a[i], v) <= dist(x, v), "%s: BinaryIndexOfClosest is %d (%v), but %v is closer",
				desc, i, a[i], x)
		}
	}
	c.check(same(a), "%s: searching changed the array", desc)
	{
		for kind := 0; kind < 2; kind++ {
			var got []T
			in := make([]T, len(a), len(a)+c.Intn(3))
			copy(in, a)
			grow := 1
			if kind == 0 {
				got = helpers.InsertSavingOrder(in, v)
			} else {
				got = helpers.PutSavingOrder(in, v)
				if present {
					grow = 0
				}
			}
			c.check(len(got) == len(a)+grow, "%s: %d elements after insertion (kind %d)", desc, len(got), kind)
			want := append([]T{}, orig...)
			if grow == 1 {
				want = append(want, v)
				sort.Slice(want, func(i, j int) bool { return want[i] < want[j] })
			}
			for j := range want {
				c.check(want[j] == got[j], "%s: element %d is %v after insertion (kind %d), expected %v", desc, j, got[j], kind, want[j])
			}
		}
	}
	// Insertion and removal by index
	at := c.Intn(len(a) + 1)
	in := make([]T, len(a), len(a)+c.Intn(3))
	copy(in, a)
	got := helpers.Insert(in, at, v)
	c.check(len(got) == len(a)+1, "%s: Insert at %d gives %d elements", desc, at, len(got))
	for j := range got {
		want := v
		if j < at {
			want = orig[j]
		} else if j > at {
			want = orig[j-1]
		}
		c.check(got[j] == want, "%s: Insert at %d: element %d is %v, expected %v", desc, at, j, got[j], want)
	}
	if len(a) > 0 {
		at = c.Intn(len(a))
		got = helpers.RemoveSavingOrder(append([]T{}, a...), at)
		c.check(len(got) == len(a)-1, "%s: removal of %d leaves %d elements", desc, at, len(got))
		for j := range got {
			want := orig[j]
			if j >= at {
				want = orig[j+1]
			}
			c.check(got[j] == want, "%s: removal of %d: element %d is %v, expected %v", desc, at, j, got[j], want)
		}
		got = helpers.Remove(append([]T{}, a...), at)
		c.check(len(got) == len(a)-1, "%s: Remove of %d leaves %d elements", desc, at, len(got))
		sort.Slice(got, func(i, j int) bool { return got[i] < got[j] })
		for j := range got {
			want := orig[j]
			if j >= at {
				want = orig[j+1]
			}
			c.check(got[j] == want, "%s: Remove of %d keeps wrong elements", desc, at)
		}
		c.eval("%s", desc)
	} else {
		c.eval("")
	}
	c.sample("%s", desc)
}

func contains[T comparable](a []T, v T) bool {
	for _, x := range a {
		if x == v {
			return true
		}
	}
	return false
}

// The distance of two integers of any type but uint64, without overflow
func intDist[T int8 | int16 | int32 | int | int64 | uint8 | uint16 | uint32](a, b T) uint64 {
	if a < b {
		return uint64(int64(b)) - uint64(int64(a))
	}
	return uint64(int64(a)) - uint64(int64(b))
}

// The order of the distances of floats, which goes on beyond the range of the type
func floatDist(a, b float64) uint64 {
	if a == b {
		return 0
	}
	if d := math.Abs(a - b); !math.IsInf(d, 0) {
		return math.Float64bits(d)
	}
	return math.Float64bits(math.Inf(1)) + math.Float64bits(math.Abs(a/2-b/2))
}

// A float of one of the kinds: of moderate size, or extreme ones, or moderate ones with infinities
func genFloat(r *rand.Rand, kind int, extremes []float64) float64 {
	if kind == 1 && r.Intn(2) == 0 {
		return extremes[r.Intn(len(extremes))] * float64(r.Intn(5)) / 4
	}
	if kind == 2 && r.Intn(4) == 0 {
		return math.Inf(r.Intn(2)*2 - 1)
	}
	if r.Intn(3) == 0 {
		return float64(r.Intn(20)) / 4
	}
	return r.NormFloat64() * math.Pow(10, float64(r.Intn(20)))
}

func arraysCase(c *kase) {
	r := c.Rand
	switch c.Intn(12) {
	case 0:
		arrayOps(c, "uint64", func() uint64 { return genID(r) }, func(a, b uint64) uint64 {
			if a < b {
				return b - a
			}
			return a - b
		})
	case 1:
		arrayOps(c, "uint8", func() uint8 { return uint8(genID(r)) }, intDist[uint8])
	case 2:
		arrayOps(c, "uint16", func() uint16 { return uint16(genID(r)) }, intDist[uint16])
	case 3:
		arrayOps(c, "uint32", func() uint32 { return uint32(genID(r)) }, intDist[uint32])
	case 4:
		arrayOps(c, "int", func() int { return int(genID(r)) }, intDist[int])
	case 5:
		arrayOps(c, "int8", func() int8 { return int8(genID(r)) }, intDist[int8])
	case 6:
		arrayOps(c, "int64", func() int64 { return int64(genID(r)) }, intDist[int64])
	case 7:
		arrayOps(c, "int16", func() int16 { return int16(genID(r)) }, intDist[int16])
	case 8:
		arrayOps(c, "int32", func() int32 { return int32(genID(r)) }, intDist[int32])
	case 9:
		extremes := []float64{math.MaxFloat64, -math.MaxFloat64, math.MaxFloat64 / 2, -math.MaxFloat64 / 2,
			math.MaxFloat64 * 0.9, -math.MaxFloat64 * 0.9, math.SmallestNonzeroFloat64, 0}
		kind := c.Intn(3)
		arrayOps(c, "float64", func() float64 {
			return genFloat(r, kind, extremes)
		}, floatDist)
	case 10:
		extremes := []float64{math.MaxFloat32, -math.MaxFloat32, math.MaxFloat32 / 2, -math.MaxFloat32 / 2,
			math.MaxFloat32 * 0.9, -math.MaxFloat32 * 0.9, math.SmallestNonzeroFloat32, 0}
		kind := c.Intn(3)
		arrayOps(c, "float32", func() float32 {
			return float32(genFloat(r, kind, extremes))
		}, func(a, b float32) uint64 {
			// Rounded as in the type of the two unless it exceeds its range
			if d := float64(a - b); !math.IsInf(d, 0) && !math.IsNaN(d) {
				return floatDist(d, 0)
			}
			return floatDist(float64(a), float64(b))
		})
	default:
		n := genSize(r, 60)
		a := make([]string, n)
		gen := func() string {
			b := make([]byte, r.Intn(4))
			for i := range b {
				b[i] = "ab\x00\xffz"[r.Intn(5)]
			}
			return string(b)
		}
		for i := range a {
			a[i] = gen()
		}
		sort.Strings(a)
		v := gen()
		i := helpers.BinaryIndexOf(a, v)
		c.check((i >= 0) == contains(a, v) && (i < 0 || a[i] == v), "BinaryIndexOf(%q, %q) = %d", a, v, i)
		i = helpers.IndexOf(a, v)
		c.check((i >= 0) == contains(a, v) && (i < 0 || a[i] == v), "IndexOf(%q, %q) = %d", a, v, i)
		if n > 0 {
			c.eval("%q %q", a, v)
		} else {
			c.eval("")
		}
	}
}

func fileBufferCase(c *kase, withOS bool) {
	var model []byte
	var pos int
	if c.Intn(2) == 0 {
		model = make([]byte, c.Intn(200))
		c.Read(model)
	}
	var init []byte
	if model != nil {
		init = append([]byte{}, model...)
	}
	fb := helpers.NewFileBuffer(init)
	var file *os.File
	if withOS {
		dir := c.dir()
		defer c.rmdir(dir)
		err := os.WriteFile(dir+"f", model, 0600)
		c.check(err == nil, "%v", err)
		file, err = os.OpenFile(dir+"f", os.O_RDWR, 0600)
		c.check(err == nil, "%v", err)
		defer file.Close()
	}
	middle, cuts := 0, 0
	for i := 0; i < 5+c.Intn(40); i++ {
		switch c.Intn(5) {
		case 0:
			b := make([]byte, 1+c.Intn(60))
			if c.Intn(30) == 0 {
				b = make([]byte, 5000)
			}
			if c.Intn(15) == 0 {
				n, err := fb.Read(b[:0])
				c.check(n == 0 && (err == nil || (err == io.EOF && pos >= len(model))), "reading nothing at %d of %d: %d, %v", pos, len(model), n, err)
			}
			n, err := fb.Read(b)
			c.log("read %d at %d of %d: %d, %v", len(b), pos, len(model), n, err)
			if pos >= len(model) {
				c.check(n == 0 && err == io.EOF, "reading at the end: %d, %v", n, err)
			} else {
				want := min(len(b), len(model)-pos)
				c.check(err == nil && n > 0 && n <= want, "reading %d of %d: %d, %v", len(b), len(model)-pos, n, err)
				c.check(n == want, "reading %d of %d: %d", len(b), len(model)-pos, n)
				c.check(string(b[:n]) == string(model[pos:pos+n]), "wrong data read at %d", pos)
				pos += n
			}
			if withOS {
				b2 := make([]byte, len(b))
				n2, err2 := file.Read(b2)
				c.check(n2 == n && (err == nil) == (err2 == nil) && string(b[:n]) == string(b2[:n]),
					"the buffer reads %d, %v, a file reads %d, %v", n, err, n2, err2)
			}
		case 1:
			b := make([]byte, c.Intn(60))
			if c.Intn(20) == 0 {
				b = make([]byte, 3000)
			}
			c.Read(b)
			n, err := fb.Write(b)
			c.log("write %d at %d of %d: %d, %v", len(b), pos, len(model), n, err)
			c.check(n == len(b) && err == nil, "writing %d bytes: %d, %v", len(b), n, err)
			if pos < len(model) {
				middle++
			}
			model = applyOp(model, fileOp{kind: "write", off: int64(pos), data: b}, -1)
			pos += len(b)
			if withOS {
				file.Write(b)
			}
			for j := range b {
				b[j] ^= 0xff // the buffer must have its own copy
			}
		case 2, 3:
			whence := c.Intn(3)
			to := c.Intn(len(model) + 1)
			if c.Intn(3) == 0 {
				to = len(model)
			}
			off := int64(to)
			switch whence {
			case io.SeekCurrent:
				off -= int64(pos)
			case io.SeekEnd:
				off -= int64(len(model))
			}
			if c.Intn(20) == 0 {
				bad := []int{-1, 3, 4, 100}[c.Intn(4)]
				_, err := fb.Seek(off, bad)
				c.check(err != nil, "seeking relative to %d succeeded", bad)
				break
			}
			if c.Intn(12) == 0 { // behind the end
				beyond := int64(len(model)-to) + 1 + int64(c.Intn(60))
				if c.Intn(4) == 0 {
					beyond = []int64{1 << 31, 1<<32 + 1, 1 << 40, math.MaxInt64 - int64(to) - int64(len(model))}[c.Intn(4)]
				}
				n, err := fb.Seek(off+beyond, whence)
				c.log("seek %d, %d behind the end: %d, %v", off+beyond, whence, n, err)
				if err != nil {
					break
				}
				c.check(n == int64(to)+beyond, "seeking to %d of %d: %d", int64(to)+beyond, len(model), n)
				if beyond < 1<<20 && c.Intn(3) > 0 {
					pos = int(n)
				} else {
					_, err = fb.Seek(int64(pos), io.SeekStart)
					c.check(err == nil, "seeking back to %d: %v", pos, err)
				}
				if withOS {
					file.Seek(int64(pos), io.SeekStart)
				}
				break
			}
			if c.Intn(12) == 0 { // before the beginning
				off -= int64(to) + 1 + int64(c.Intn(3))
				_, err := fb.Seek(off, whence)
				c.check(err != nil, "seeking before the beginning succeeded")
				if withOS {
					_, err = file.Seek(off, whence)
					c.check(err != nil, "the model is wrong")
				}
				break
			}
			n, err := fb.Seek(off, whence)
			c.log("seek %d, %d: %d, %v", off, whence, n, err)
			c.check(err == nil && n == int64(to), "seeking to %d (%d from %d) of %d: %d, %v", to, off, whence, len(model), n, err)
			pos = to
			if withOS {
				n2, err := file.Seek(off, whence)
				c.check(err == nil && n2 == n, "a file seeks to %d", n2)
			}
		case 4:
			size := c.Intn(len(model) + 40)
			if c.Intn(4) == 0 {
				size = len(model)
			}
			c.log("truncate %d to %d at %d", len(model), size, pos)
			err := fb.Truncate(int64(size))
			c.check(err == nil, "truncating: %v", err)
			if size < len(model) {
				cuts++
			}
			model = append([]byte{}, applyOp(model, fileOp{kind: "truncate", size: int64(size)}, -1)...)
			// A position past the new end either moves to it or stays, as a file's does
			if pos > size {
				cur, err := fb.Seek(0, io.SeekCurrent)
				c.check(err == nil && (cur == int64(size) || cur == int64(pos)),
					"position %d (%v) after truncating to %d at %d", cur, err, size, pos)
				pos = int(cur)
			}
			if withOS {
				file.Truncate(int64(size))
				file.Seek(int64(pos), io.SeekStart)
			}
			c.check(fb.Truncate(-1) != nil, "a negative size was accepted")
		}
		c.check(fb.Len() == len(model), "length %d, expected %d", fb.Len(), len(model))
		c.check(string(fb.Bytes()) == string(model), "wrong contents after step %d", i)
		cur, err := fb.Seek(0, io.SeekCurrent)
		c.check(err == nil && cur == int64(pos), "position %d (%v), expected %d", cur, err, pos)
	}
	c.check(fb.Close() == nil, "close failed")
	_, err1 := fb.Read(make([]byte, 1))
	_, err2 := fb.Write([]byte{1})
	_, err3 := fb.Seek(0, io.SeekStart)
	err4 := fb.Truncate(0)
	c.check(err1 != nil && err2 != nil && err3 != nil && err4 != nil, "a closed buffer can be used: %v, %v, %v, %v", err1, err2, err3, err4)
	c.check(string(fb.Bytes()) == string(model), "closing changed the contents")
	if middle > 0 && cuts > 0 {
		c.eval("%x", byteHash(model))
	} else {
		c.eval("")
	}
	c.sample("%d writes in the middle, %d cuts, %d bytes in the end", middle, cuts, len(model))
}
