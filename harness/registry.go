package main

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"sync"

	"recengine/internal/domain"
	"recengine/internal/domain/valueobjects"
	"recengine/internal/infra/delta"
	"recengine/internal/infra/index"
)

var envMutex sync.Mutex

// A namespace service keeping its files in the directory.
func newService(dir string) *domain.NamespaceService {
	envMutex.Lock()
	defer envMutex.Unlock()
	os.Setenv("REC_PATH", dir)
	return domain.NewNamespaceService(context.Background(), delta.NewStorageFactory(), index.NewStorageFactory())
}

// What the registry knows about a namespace.
type nsState struct {
	Name    string
	Type    string
	Max     uint
	Dislike float32
}

func stateOf(ns domain.Namespace) nsState {
	return nsState{ns.GetName().Value(), ns.GetType().Value(), ns.GetMaxSimilarProfiles(), ns.GetDislikeFactor()}
}

func statesOf(s *domain.NamespaceService) []nsState {
	a := []nsState{}
	for _, ns := range s.GetNamespaces() {
		a = append(a, stateOf(ns))
	}
	return a
}

// The names identify the namespaces, their order means nothing.
func asMap(a []nsState) (map[string]nsState, error) {
	m := make(map[string]nsState)
	for _, s := range a {
		if _, dup := m[s.Name]; dup {
			return nil, fmt.Errorf("two namespaces are named %q", s.Name)
		}
		m[s.Name] = s
	}
	return m, nil
}

func sameStates(a, b map[string]nsState) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || v != w {
			return false
		}
	}
	return true
}

func copyStates(m map[string]nsState) map[string]nsState {
	r := make(map[string]nsState, len(m))
	for k, v := range m {
		r[k] = v
	}
	return r
}

// What a new process sees in the directory.
func restart(dir string) (map[string]nsState, error) {
	s := newService(dir)
	if err := s.LoadNamespaces(); err != nil {
		return nil, err
	}
	return asMap(statesOf(s))
}

// The same for a registry that may never have been saved: without one there's nothing to load, which is not the
// same as finding something else.
func restartOrFresh(dir string) (map[string]nsState, error) {
	_, err := os.Stat(dir + "namespaces.json")
	missing := os.IsNotExist(err)
	m, err := restart(dir)
	if err != nil && missing {
		return map[string]nsState{}, nil
	}
	return m, err
}

func mustName(s string) valueobjects.NamespaceName {
	n, err := valueobjects.ParseNamespaceName(s)
	if err != nil {
		panic(failure{fmt.Sprintf("the name %q is refused: %v", s, err)})
	}
	return n
}

const nameFirst = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
const nameRest = nameFirst + "0123456789_-"

func (c *kase) genName() string {
	if c.Intn(24) == 0 {
		return dictName(c.Rand)
	}
	if c.Intn(3) > 0 {
		return []string{"a", "A", "b", "ab", "a-b", "a_b", "ns1", "Movies", "movies", "z9"}[c.Intn(10)]
	}
	b := []byte{nameFirst[c.Intn(len(nameFirst))]}
	n := c.Intn(12)
	if c.Intn(20) == 0 {
		n = 100 + c.Intn(100)
	}
	if c.Intn(60) == 0 {
		n = []int{31, 62, 63, 64, 126, 127, 128, 200, 253, 254, 255, 256, 299, 999, 1023, 1024, 4095, 4096}[c.Intn(18)]
	}
	for i := 0; i < n; i++ {
		b = append(b, nameRest[c.Intn(len(nameRest))])
	}
	return string(b)
}

func (c *kase) genMax() uint {
	if c.Intn(8) == 0 {
		return uint(dictInt(c.Rand))
	}
	return []uint{0, 1, 2, 7, 100, 999, 1000, 1001, 1 << 31, 1<<32 - 1, 1 << 32, 1<<53 + 1, 1<<63 - 1, 1<<64 - 1}[c.Intn(14)]
}

func (c *kase) genFactor() float32 {
	if c.Intn(8) == 0 {
		return dictFactor(c.Rand)
	}
	switch c.Intn(4) {
	case 0:
		return []float32{0, 1, 0.5, 0.1, 1e-45, 1.1754944e-38, 0.99999994, 1e-7}[c.Intn(8)]
	case 1:
		return float32(c.Intn(1000)) / 1000
	}
	return c.Float32()
}

// A change of the registry.
type nsOp struct {
	kind string // create, update or delete
	name string
	new  string
	max  uint
	fac  float32
}

func (o nsOp) String() string {
	return fmt.Sprintf("%s %s -> %s max %d factor %v", o.kind, o.name, o.new, o.max, o.fac)
}

func (c *kase) genOp(names func() string) nsOp {
	kind := []string{"create", "create", "update", "update", "delete"}[c.Intn(5)]
	o := nsOp{kind: kind, name: names(), new: names(), max: c.genMax(), fac: c.genFactor()}
	if kind == "update" && c.Intn(3) == 0 {
		o.new = o.name
	}
	return o
}

// Applies the operation to the service.
func (o nsOp) apply(s *domain.NamespaceService) (domain.Namespace, error) {
	switch o.kind {
	case "create":
		return s.CreateNamespace(&domain.NamespaceCreateRequest{Name: mustName(o.name),
			Type: valueobjects.MakeLikeNamespaceType(), MaxSimilarProfiles: o.max, DislikeFactor: o.fac})
	case "update":
		return s.UpdateNamespace(mustName(o.name), &domain.NamespaceUpdateRequest{Name: mustName(o.new),
			MaxSimilarProfiles: o.max, DislikeFactor: o.fac})
	}
	return nil, s.DeleteNamespace(mustName(o.name))
}

// Applies the operation to the model; false if it must be refused.
func (o nsOp) model(m map[string]nsState) bool {
	cur, exists := m[o.name]
	switch o.kind {
	case "create":
		if exists {
			return false
		}
		max := o.max
		if max == 0 {
			max = 1000
		}
		m[o.name] = nsState{o.name, "like", max, o.fac}
	case "update":
		if !exists {
			return false
		}
		if _, taken := m[o.new]; taken && o.new != o.name {
			return false
		}
		delete(m, o.name)
		cur.Name = o.new
		cur.Dislike = o.fac
		if o.max != 0 {
			cur.Max = o.max
		}
		m[o.new] = cur
	default:
		if !exists {
			return false
		}
		delete(m, o.name)
	}
	return true
}

// Loads a malformed registry: it's refused as a whole, or what it says is taken.
func malformedRegistry(c *kase) {
	d := c.dir()
	defer c.rmdir(d)
	src := newService(d)
	for i := c.Intn(4); i > 0; i-- {
		c.genOp(c.genName).apply(src)
	}
	valid, _ := os.ReadFile(d + "namespaces.json")
	if len(valid) == 0 {
		valid = []byte("[]")
	}
	var b []byte
	switch c.Intn(6) {
	case 0:
		b = malform(c, valid, []int{0})
	case 1:
		b = valid[:c.Intn(len(valid))]
	case 2:
		depth := 1 + c.Intn(20000)
		b = append(bytesOf('[', depth), bytesOf(']', c.Intn(depth+1))...)
	case 3:
		b = []byte([]string{"null", "{}", "[null]", "[{}]", `[{"name":""}]`, `[{"name":"a"}]`, `[{"name":"a","type":"hate"}]`,
			`[{"name":1}]`, `[{"name":"a","type":"like","maxSimilarProfiles":-1}]`, `[{"name":"a","type":"like","dislikeFactor":1e400}]`,
			`[{"name":"../x","type":"like"}]`, `[{"name":"a/b","type":"like"}]`, `[{"name":"a\u0000","type":"like"}]`, "[[]]", `["a"]`, "1", `"x"`, "",
			`[{"name":"a\n","type":"like"}]`, `[{"name":"a","type":"like"},{"name":"/etc/x","type":"like"}]`}[c.Intn(20)])
	case 4:
		var v any
		if json.Unmarshal(valid, &v) == nil {
			mutateJSON(c, v)
			b, _ = json.Marshal(v)
		}
	default:
		b = make([]byte, c.Intn(200))
		c.Read(b)
	}
	c.log("input %q", clip(string(b), 2000))
	if err := os.WriteFile(d+"namespaces.json", b, 0644); err != nil {
		panic(err)
	}
	s := newService(d)
	var err error
	c.bounded("loading", b, func() { err = s.LoadNamespaces() })
	list := s.GetNamespaces()
	if err != nil {
		c.check(len(list) == 0, "a registry that was refused (%v) left %d namespaces", err, len(list))
	}
	c.check(len(list) <= len(b)/4, "%d namespaces were loaded from %d bytes", len(list), len(b))
	for _, ns := range list {
		_, e := valueobjects.ParseNamespaceName(ns.GetName().Value())
		c.check(e == nil, "a namespace with the name %q was loaded", ns.GetName().Value())
		_, e = valueobjects.ParseNamespaceType(ns.GetType().Value())
		c.check(e == nil, "a namespace of the type %q was loaded", ns.GetType().Value())
	}
	if err == nil {
		c.count("accepted_registries", 1)
	} else {
		c.count("refused_registries", 1)
	}
	c.eval("%x", byteHash(b))
	c.sample("%q -> %d namespaces, %v", clip(string(b), 100), len(list), err)
}

func bytesOf(b byte, n int) []byte {
	a := make([]byte, n)
	for i := range a {
		a[i] = b
	}
	return a
}

func mutateJSON(c *kase, v any) {
	switch v := v.(type) {
	case []any:
		for i := range v {
			if c.Intn(4) == 0 {
				v[i] = randomJSON(c)
			} else {
				mutateJSON(c, v[i])
			}
		}
	case map[string]any:
		for k := range v {
			if c.Intn(4) == 0 {
				v[k] = randomJSON(c)
			}
		}
		if c.Intn(4) == 0 {
			v["name"] = []any{"../../x", "a b", "", nil, 5, "-a", "a.b", "A"}[c.Intn(8)]
		}
	}
}

func randomJSON(c *kase) any {
	return []any{nil, true, 0, -1, 1.5, 1e300, "", "like", "LIKE", "x y", []any{}, []any{1}, map[string]any{}, "a"}[c.Intn(14)]
}
