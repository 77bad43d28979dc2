package main

import (
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"strings"
	"sync/atomic"
	"time"

	"recengine/internal/api/shard/endpoints"
	"recengine/internal/domain"
	"recengine/internal/domain/valueobjects"

	"github.com/gin-gonic/gin"
)

// The REST interface without a network, or that of a program.
type restClient struct {
	h   http.Handler
	srv *server
	c   *kase // if not nil, requests are spelled in various ways

	slow bool // a slow request has been sent
}

const nsPath = "/api/v1/namespaces"

func newRest(s *domain.NamespaceService) *restClient {
	e := gin.New()
	e.RedirectTrailingSlash = false
	endpoints.NewNamespaceEndpoint(s).RegisterRoutes(e)
	return &restClient{h: e}
}

// Another spelling of the same path: some letters of the name are escaped.
func (c *kase) respell(target string) string {
	if !strings.HasPrefix(target, nsPath+"/") || c.Intn(3) != 0 {
		return target
	}
	name := target[len(nsPath)+1:]
	out := ""
	for i := 0; i < len(name); i++ {
		b := name[i]
		letter := b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b >= '0' && b <= '9'
		if letter && (i < 1 || name[i-1] != '%') && (i < 2 || name[i-2] != '%') && c.Intn(3) == 0 {
			out += fmt.Sprintf([]string{"%%%02x", "%%%02X"}[c.Intn(2)], b)
		} else {
			out += name[i : i+1]
		}
	}
	if c.Intn(4) == 0 {
		out += "?" + []string{"", "name=zz", "namespace=b", "x=%00"}[c.Intn(4)]
	}
	return nsPath + "/" + out
}

// Another spelling of the same JSON object: blanks around it.
func (c *kase) reblank(body string) string {
	if c.Intn(4) == 0 {
		blank := []string{" ", "\n", "\r\n\t", strings.Repeat(" ", 5000)}[c.Intn(4)]
		if c.Intn(2) == 0 {
			return blank + body
		}
		return body + blank
	}
	return body
}

// A body of unknown length that comes in pieces.
type piecewise struct {
	r    *strings.Reader
	size int
}

func (p *piecewise) Read(b []byte) (int, error) {
	if len(b) > p.size {
		b = b[:p.size]
	}
	return p.r.Read(b)
}

// A body whose second half comes after some time.
type lateBody struct {
	r    *strings.Reader
	wait time.Duration
	half bool
}

func (b *lateBody) Read(p []byte) (int, error) {
	if n := b.r.Len() / 2; !b.half {
		b.half = true
		if n > 0 && n < len(p) {
			return b.r.Read(p[:n])
		}
	}
	if b.wait > 0 {
		time.Sleep(b.wait)
		b.wait = 0
	}
	return b.r.Read(p)
}

func (a *restClient) do(method, target, body string) (int, []byte) {
	var content io.Reader = strings.NewReader(body)
	kind := "application/json"
	if c := a.c; c != nil {
		target = c.respell(target)
		if body != "" {
			body = c.reblank(body)
			content = strings.NewReader(body)
			spelling := c.Intn(4)
			if a.srv != nil && !a.slow && c.Intn(40) == 0 {
				a.slow = true
				content = &lateBody{r: strings.NewReader(body), wait: 2500 * time.Millisecond}
				spelling = 1
			}
			switch spelling {
			case 0:
				content = &piecewise{strings.NewReader(body), []int{1, 7, 4096}[c.Intn(3)]}
			case 1:
				kind = "application/json; charset=utf-8"
			}
		}
	}
	if a.srv != nil {
		return a.srv.send(a.c, method, target, content, kind)
	}
	req := httptest.NewRequest(method, target, content)
	req.Header.Set("Content-Type", kind)
	w := httptest.NewRecorder()
	a.h.ServeHTTP(w, req)
	return w.Code, w.Body.Bytes()
}

func (a *restClient) code(method, name, body string) int {
	target := nsPath
	if name != "" {
		target += "/" + url.PathEscape(name)
	}
	code, _ := a.do(method, target, body)
	return code
}

// What the REST interface shows of a namespace.
type nsView struct {
	Name string
	Type string
	Max  uint
}

func parseView(c *kase, data []byte, what string) nsView {
	var m map[string]any
	d := json.NewDecoder(strings.NewReader(string(data)))
	d.UseNumber()
	c.check(d.Decode(&m) == nil, "%s: the body isn't a JSON object: %q", what, data)
	return viewOf(c, m, what)
}

func viewOf(c *kase, m map[string]any, what string) nsView {
	var v nsView
	var ok1, ok2 bool
	v.Name, ok1 = m["name"].(string)
	v.Type, ok2 = m["type"].(string)
	n, ok3 := m["maxSimilarProfiles"].(json.Number)
	c.check(ok1 && ok2 && ok3, "%s: the body lacks fields: %v", what, m)
	_, err := fmt.Sscan(n.String(), &v.Max)
	c.check(err == nil, "%s: maxSimilarProfiles is %v", what, n)
	return v
}

func (a *restClient) list(c *kase) []nsView {
	code, body := a.do("GET", nsPath, "")
	c.check(code == 200, "listing: status %d", code)
	var l []map[string]any
	d := json.NewDecoder(strings.NewReader(string(body)))
	d.UseNumber()
	c.check(d.Decode(&l) == nil && l != nil, "listing: the body isn't a JSON array: %q", body)
	views := []nsView{}
	for _, m := range l {
		views = append(views, viewOf(c, m, "listing"))
	}
	return views
}

func init() {
	register("C04", "exploration",
		"random request sequences (valid, boundary, invalid and malformed bodies; existing, missing and invalid names; with "+
			"restarts; in various spellings) against the routed handlers and the program itself are compared with a sequential model: status, body, list, and what is "+
			"persisted; non-trivial: requests of both outcomes; distinct by the responses",
		func(r *run) {
			r.cases("requests", r.n(1500, 40000), restCase)
			r.cases("bulk", r.n(6, 60), restBulkCase)
			r.cases("long", r.n(1, 12), restLongCase)
			bin := buildServer(r)
			r.casesN("server", r.n(24, 400), 8, func(c *kase) { serverRestCase(c, bin) })
		})
	register("C05", "exploration",
		"random strings (near-misses, separators, control and Unicode characters) are parsed as names and compared with the "+
			"documented grammar; hostile names come in through paths, bodies and registry files while every file operation "+
			"of the process is recorded and confined; non-trivial: hostile; distinct by string",
		func(r *run) {
			r.cases("grammar", r.n(20000, 400000), nameGrammarCase)
			r.casesN("files", r.n(300, 6000), 1, containmentCase)
			r.virtual("engine", r.n(1500, 20000), engineFilesCase)
		})
}

// A request and what must come out of it.
type restPlan struct {
	method string
	target string
	body   string
	codes  []int // acceptable statuses
	view   *nsView
	list   bool
}

// A JSON body of the fields; invalid says that it must be refused.
func (c *kase) genBody(name string, create bool) (body string, o nsOp, invalid bool) {
	o = nsOp{kind: "update", new: name, max: c.genMax(), fac: c.genFactor()}
	fields := []string{}
	add := func(k, v string) { fields = append(fields, fmt.Sprintf("%q:%s", k, v)) }
	quoted, _ := json.Marshal(name)
	if c.Intn(6) == 0 && name != "" {
		quoted = []byte(fmt.Sprintf("\"\\u%04x%s\"", name[0], name[1:]))
	}
	switch c.Intn(14) {
	case 0:
		invalid = true
	case 1:
		bad := []string{`""`, "null", "5", "[]", `"A"`, `"a b"`, `"a/b"`, `"../a"`, `"a.b"`, `"é"`, `"a\u0000"`, `"1a"`, `"a\n"`, `"-a"`}
		add("name", bad[c.Intn(len(bad))])
		invalid = true
	default:
		add("name", string(quoted))
	}
	if create {
		switch c.Intn(14) {
		case 0:
			invalid = true
		case 1:
			bad := []string{`""`, `"LIKE"`, `"dislike"`, "1", "null", `"like "`}
			add("type", bad[c.Intn(len(bad))])
			invalid = true
		default:
			add("type", `"like"`)
		}
	}
	switch c.Intn(8) {
	case 0:
		o.max = 0
	case 1:
		bad := []string{`-1`, `"5"`, `1.5`, `18446744073709551616`, "{}"}
		add("maxSimilarProfiles", bad[c.Intn(len(bad))])
		invalid = true
	default:
		if o.max == 0 {
			o.max = 1
		}
		add("maxSimilarProfiles", fmt.Sprint(o.max))
	}
	switch c.Intn(12) {
	case 0:
		invalid = true
	case 1:
		bad := []string{"-0.001", "1.001", "2", `"0.5"`, "null", "1e39", "-1", "[0]"}
		add("dislikeFactor", bad[c.Intn(len(bad))])
		invalid = true
	default:
		f, _ := json.Marshal(o.fac)
		add("dislikeFactor", string(f))
	}
	c.Shuffle(len(fields), func(i, j int) { fields[i], fields[j] = fields[j], fields[i] })
	body = "{" + strings.Join(fields, ",") + "}"
	if c.Intn(20) == 0 {
		bad := []string{"", "{", "[" + body + "]", "null", "\"x\"", body[:len(body)-1], "\xff\xfe"}
		body = bad[c.Intn(len(bad))]
		invalid = true
	}
	return
}

// Requests among many namespaces.
func restBulkCase(c *kase) {
	d := c.dir()
	defer c.rmdir(d)
	n := []int{101, 257, 513, 1001, 1025, 4100}[c.index%6] + c.Intn(3)
	m := map[string]nsState{}
	s := newService(d)
	var names []string
	var records []map[string]any
	for i := 0; i < n; i++ {
		st := nsState{fmt.Sprintf("n%d", i), "like", c.genMax(), c.genFactor()}
		if st.Max == 0 {
			st.Max = 1000
		}
		m[st.Name] = st
		names = append(names, st.Name)
		records = append(records, map[string]any{"name": st.Name, "type": st.Type, "maxSimilarProfiles": st.Max, "dislikeFactor": st.Dislike})
	}
	data, err := json.Marshal(records)
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(d+"namespaces.json", data, 0644); err != nil {
		panic(err)
	}
	c.check(s.LoadNamespaces() == nil, "loading of %d namespaces failed", n)
	api := newRest(s)
	list := func(when string) {
		views := api.list(c)
		c.check(len(views) == len(m), "%s: %d of %d namespaces are listed", when, len(views), len(m))
		for _, v := range views {
			st, ok := m[v.Name]
			c.check(ok && v == nsView{st.Name, st.Type, st.Max}, "%s: %v is listed, expected %v", when, v, st)
		}
	}
	list("after loading")
	for i := 0; i < 12; i++ {
		name := names[c.Intn(len(names))]
		if i%3 == 0 {
			name = names[len(names)-1]
		}
		code, data := api.do("GET", nsPath+"/"+name, "")
		c.check(code == 200, "getting one of %d namespaces: status %d", n, code)
		st := m[name]
		c.check(parseView(c, data, "GET") == nsView{st.Name, st.Type, st.Max}, "one of %d namespaces: %s, expected %v", n, data, st)
		body, o, invalid := c.genBody(fmt.Sprintf("e%d", i), true)
		o.kind, o.name = "create", fmt.Sprintf("e%d", i)
		if c.Intn(2) == 0 {
			body, o, invalid = c.genBody(name, false)
			o.name = name
			code, data = api.do("PUT", nsPath+"/"+name, body)
		} else {
			code, data = api.do("POST", nsPath, body)
		}
		before := copyStates(m)
		if !invalid && o.model(m) {
			c.check(code/100 == 2, "%v among %d namespaces: status %d %s, %s", o, n, code, clip(body, 200), data)
		} else {
			m = before
			c.check(code/100 == 4, "%v among %d namespaces: status %d %s, %s", o, n, code, clip(body, 200), data)
		}
	}
	list("in the end")
	compareRestarted(c, d, m, "in the end")
	c.eval("%d", n)
	c.count("namespaces", int64(n))
}

func restCase(c *kase) {
	d := c.dir()
	defer c.rmdir(d)
	s := newService(d)
	api := newRest(s)
	api.c = c
	restSequence(c, d, api, 3+c.Intn(25), func() (map[string]nsState, error) { return asMap(statesOf(s)) }, func() *restClient {
		s = newService(d)
		c.check(s.LoadNamespaces() == nil, "loading failed")
		api := newRest(s)
		api.c = c
		return api
	})
}

// Many requests to one service.
func restLongCase(c *kase) {
	d := c.dir()
	defer c.rmdir(d)
	s := newService(d)
	api := newRest(s)
	steps := []int{70000, 1000, 3000, 10000}[c.index%4] + c.Intn(1000)
	restSequence(c, d, api, steps, func() (map[string]nsState, error) { return asMap(statesOf(s)) }, func() *restClient { return api })
	c.count("long_sequences_requests", int64(steps))
}

// The same requests to the program itself.
func serverRestCase(c *kase, bin string) {
	d := c.dir()
	defer c.rmdir(d)
	data := filepath.Join(d, "data") + "/"
	s := startServer(c, bin, d)
	defer func() { s.stop() }()
	current := func() (map[string]nsState, error) { return restartOrFresh(data) }
	restSequence(c, data, &restClient{srv: s, c: c}, 20+c.Intn(60), current, func() *restClient {
		if c.Intn(4) == 0 {
			s.stop()
			s = startServer(c, bin, d)
		}
		return &restClient{srv: s, c: c}
	})
	out := s.output()
	c.check(!strings.Contains(out, "DATA RACE"), "a data race:\n%s", out)
	c.check(s.alive(), "the program has ended: %v\n%s", s.err, out)
	c.count("server_cases", 1)
}

// A sequence of requests, compared with the model. The registry is kept in d, and current tells what is in it; reopen
// begins anew over the same directory.
func restSequence(c *kase, d string, api *restClient, steps int, current func() (map[string]nsState, error), reopen func() *restClient) {
	m := map[string]nsState{}
	pool := []string{"a", "b", "movies", "z9", "ab1", "x0"}[:2+c.Intn(4)]
	if c.Intn(8) == 0 {
		pool[0] = strings.Repeat("n", []int{32, 33, 63, 64, 65, 127, 128, 129, 250, 255, 256, 257, 1000, 1025, 4097}[c.Intn(15)])
		if d := dictSize(c.Rand, 3, 5000); d > 0 && c.Intn(4) == 0 {
			pool[0] = strings.Repeat("n", d+c.Intn(2))
		}
		c.log("the name of %d letters", len(pool[0]))
	}
	if w := strings.ToLower(dictName(c.Rand)); c.Intn(3) == 0 && !strings.ContainsAny(w, "_-") && !strings.Contains(" "+strings.Join(pool, " ")+" ", " "+w+" ") {
		pool[1] = w
		c.log("the name %q", w)
	}
	accepted, refused := 0, 0
	trace := ""
	dirty := false
	for step := steps; step > 0; step-- {
		atomic.AddInt64(&c.r.progress, 1)
		name := pool[c.Intn(len(pool))]
		var code int
		var data []byte
		what := ""
		switch c.Intn(8) {
		case 0:
			what = "GET list"
			views := api.list(c)
			want := map[string]nsView{}
			for _, st := range m {
				want[st.Name] = nsView{st.Name, st.Type, st.Max}
			}
			got := map[string]nsView{}
			for _, v := range views {
				got[v.Name] = v
			}
			c.check(len(views) == len(m) && reflect.DeepEqual(got, want), "the list is %v, expected %v", views, m)
			code = 200
		case 1:
			what = "GET " + name
			code, data = api.do("GET", nsPath+"/"+name, "")
			if st, ok := m[name]; ok {
				c.check(code == 200, "%s: status %d", what, code)
				v := parseView(c, data, what)
				c.check(v == nsView{st.Name, st.Type, st.Max}, "%s: %v, expected %v", what, v, st)
			} else {
				c.check(code == 404, "%s, which doesn't exist: status %d", what, code)
			}
		case 2:
			bad := []string{"a%20b", "%00", "1a", "-a", "a.b", "a%2e", "..%2fa", "a%0a", "%C3%A9", "_", "a'b"}
			method := []string{"GET", "PUT"}[c.Intn(2)]
			what = method + " " + bad[c.Intn(len(bad))]
			body := `{"name":"b","dislikeFactor":0.5}`
			code, data = api.do(method, nsPath+"/"+strings.SplitN(what, " ", 2)[1], body)
			c.check(code >= 400 && code < 500, "%s: status %d", what, code)
			refused++
		case 3, 4, 5:
			body, o, invalid := c.genBody(name, true)
			o.kind, o.name = "create", name
			what = "POST " + body
			c.log("%s", what)
			code, data = api.do("POST", nsPath, body)
			before := copyStates(m)
			if !invalid && o.model(m) {
				c.check(code == 201, "%s: status %d %s", what, code, data)
				v := parseView(c, data, what)
				st := m[name]
				c.check(v == nsView{st.Name, st.Type, st.Max}, "%s: %v, expected %v", what, v, st)
				accepted++
				dirty = true
			} else {
				m = before
				c.check(code >= 400 && code < 500, "%s must be refused: status %d %s", what, code, data)
				refused++
			}
		default:
			newName := name
			if c.Intn(2) == 0 {
				newName = pool[c.Intn(len(pool))]
			}
			body, o, invalid := c.genBody(newName, false)
			o.name = name
			what = "PUT " + name + " " + body
			c.log("%s", what)
			code, data = api.do("PUT", nsPath+"/"+name, body)
			before := copyStates(m)
			_, exists := m[name]
			if !invalid && o.model(m) {
				c.check(code == 200, "%s: status %d %s", what, code, data)
				v := parseView(c, data, what)
				st := m[newName]
				c.check(v == nsView{st.Name, st.Type, st.Max}, "%s: %v, expected %v", what, v, st)
				accepted++
				dirty = true
			} else {
				m = before
				c.check(code >= 400 && code < 500, "%s must be refused: status %d %s", what, code, data)
				if !exists {
					c.check(code == 404 || (invalid && code == 400), "%s of a missing namespace: status %d", what, code)
				}
				refused++
			}
		}
		if code >= 400 && len(data) > 0 {
			c.check(json.Valid(data) || code == 404, "%s: the error isn't JSON: %q", what, data)
		}
		if len(trace) < 1<<16 {
			trace += fmt.Sprintf("%s=%d;", what, code)
		}
		got, err := current()
		c.check(err == nil && sameStates(got, m), "after %s (%d): %s %v", what, code, diffStates(got, m), err)
		if dirty && c.Intn(4+steps/100) == 0 {
			compareRestarted(c, d, m, fmt.Sprintf("after %s (%d)", what, code))
			if c.Intn(2) == 0 {
				api = reopen()
			}
		}
	}
	if dirty {
		compareRestarted(c, d, m, "in the end")
	}
	if accepted > 0 && refused > 0 {
		c.eval("%s", trace)
	} else {
		c.eval("")
	}
	c.count("accepted_requests", int64(accepted))
	c.count("refused_requests", int64(refused))
	c.sample("%s", clip(trace, 500))
}

var nameGrammar = regexp.MustCompile(`\A[a-zA-Z][a-zA-Z0-9_\-]*\z`)

// Names in bodies are restricted further.
var bodyName = regexp.MustCompile(`\A[a-z][a-z0-9]*\z`)

func validName(s string) bool {
	if s == "" || !strings.ContainsRune(nameFirst, rune(s[0])) {
		return false
	}
	for i := 0; i < len(s); i++ {
		if !strings.Contains(nameRest, s[i:i+1]) {
			return false
		}
	}
	return true
}

func (c *kase) genHostileName() string {
	switch c.Intn(6) {
	case 5:
		if c.Intn(20) == 0 {
			// Long ones
			b := make([]byte, []int{62, 63, 64, 100, 127, 128, 254, 255, 256, 300, 999, 1000, 1024, 4096, 70000}[c.Intn(15)])
			for i := range b {
				b[i] = nameRest[c.Intn(len(nameRest))]
			}
			b[0] = 'a'
			if c.Intn(3) == 0 {
				b[c.Intn(len(b))] = '.'
			} else if c.Intn(2) == 0 {
				for i := range b {
					b[i] = "abcxyz019"[c.Intn(9)]
				}
				b[0] = 'a'
			}
			return string(b)
		}
	case 0:
		return []string{"", ".", "..", "/", "../x", "..\\x", "a/b", "a\\b", "/etc/x", "a/../../x", "a\x00", "a\x00b", "a\n", "\na", "a\r", "a b",
			" a", "a ", "a.", ".a", "a.b", "%2e%2e", "1", "1a", "-", "-a", "_", "_a", "é", "aé", "a\u202e", "а", "Ａ", "a\u0301", "a:b", "C:", "a*", "~", "$HOME", "a;b", "a\tb", "\u2028", "aK", "\u212A", "ſ"}[c.Intn(45)]
	case 1:
		return c.genName()
	case 2:
		b := []byte(c.genName())
		b[c.Intn(len(b))] = byte(c.Intn(256))
		return string(b)
	case 3:
		b := []byte(c.genName())
		i := c.Intn(len(b) + 1)
		return string(b[:i]) + string(rune(c.Intn(0x3000))) + string(b[i:])
	case 4:
		return strings.Repeat("../", 1+c.Intn(4)) + c.genName()
	}
	b := make([]byte, c.Intn(6))
	for i := range b {
		b[i] = byte(32 + c.Intn(96))
	}
	return string(b)
}

func nameGrammarCase(c *kase) {
	s := c.genHostileName()
	n, err := valueobjects.ParseNamespaceName(s)
	want := validName(s)
	c.check(want == nameGrammar.MatchString(s), "the oracles differ about %q", s)
	c.check((err == nil) == want, "the name %q: %v, expected validity %v", s, err, want)
	if want {
		c.check(n.Value() == s, "the name %q became %q", s, n.Value())
	}
	t := []string{"like", "Like", "", "likes", " like", s}[c.Intn(6)]
	nt, err := valueobjects.ParseNamespaceType(t)
	c.check((err == nil) == (t == "like"), "the type %q: %v", t, err)
	if err == nil {
		c.check(nt.Value() == t && nt == valueobjects.MakeLikeNamespaceType(), "the type %q became %q", t, nt.Value())
	}
	c.eval("%s", s)
	c.sample("%q %v", s, want)
}

// Records every file operation that could change anything and lets nothing out of the directory.
type fsJail struct {
	dir     string
	touched map[string]int
	escaped []string
}

func (j *fsJail) hook(o fsOp) (int, error) {
	if o.op == "read" || o.op == "seek" || (o.op == "write" && (o.name == os.DevNull || strings.HasPrefix(o.name, "/dev/std"))) {
		return o.size, nil
	}
	if o.op == "open" && o.flag&(os.O_WRONLY|os.O_RDWR|os.O_CREATE|os.O_TRUNC|os.O_APPEND) == 0 {
		return o.size, nil
	}
	if !inside(j.dir, o.name) {
		j.escaped = append(j.escaped, o.op+" "+o.name)
		return 0, os.ErrPermission
	}
	j.touched[strings.TrimPrefix(o.name, j.dir)]++
	return o.size, nil
}

// Runs f while every operation of the process is confined. Single-threaded only.
func (c *kase) jailed(dir string, f func()) *fsJail {
	if !osHooked {
		panic("package os isn't instrumented")
	}
	j := &fsJail{dir: dir, touched: map[string]int{}}
	fsAnywhere.Lock()
	fsAnywhere.hook = j.hook
	fsAnywhere.Unlock()
	currentJail = j
	defer func() {
		currentJail = nil
		fsAnywhere.Lock()
		fsAnywhere.hook = nil
		fsAnywhere.Unlock()
	}()
	f()
	c.check(len(j.escaped) == 0, "file operations out of the configured directory: %v", j.escaped)
	return j
}

func containmentCase(c *kase) {
	base := c.dir()
	defer c.rmdir(base)
	d := base + "data/"
	os.Mkdir(d, 0755)
	os.WriteFile(base+"outside", []byte("x"), 0644)
	var j *fsJail
	accepted := 0
	hostile := 0
	j = c.jailed(d, func() {
		path := d
		if c.Intn(2) == 0 {
			path = base + "data"
		}
		s := newService(path)
		api := newRest(s)
		for i := 0; i < 12; i++ {
			name := c.genHostileName()
			c.log("name %q", name)
			quoted, _ := json.Marshal(name)
			var code int
			var body string // the name as the JSON says it, if it's in the body
			json.Unmarshal(quoted, &body)
			taken := map[string]bool{}
			for _, st := range statesOf(s) {
				taken[st.Name] = true
			}
			switch c.Intn(4) {
			case 0:
				code, _ = api.do("POST", nsPath, fmt.Sprintf(`{"name":%s,"type":"like","dislikeFactor":0.5}`, quoted))
				want := bodyName.MatchString(body) && !taken[body]
				c.check((code == 201) == want, "creating %q (taken: %v): status %d", body, taken[body], code)
			case 1:
				code, _ = api.do("GET", nsPath+"/"+url.PathEscape(name), "")
				switch {
				case !validName(name):
					c.check(code >= 400, "GET of the name %q: status %d", name, code)
				case taken[name]:
					c.check(code == 200, "GET of %q: status %d", name, code)
				default:
					c.check(code == 404, "GET of %q, which doesn't exist: status %d", name, code)
				}
			case 2:
				code, _ = api.do("PUT", nsPath+"/"+url.PathEscape(name), `{"name":"b","dislikeFactor":0.5}`)
			default:
				api.do("POST", nsPath, `{"name":"b","type":"like","dislikeFactor":0.5}`)
				code, _ = api.do("PUT", nsPath+"/b", fmt.Sprintf(`{"name":%s,"dislikeFactor":0.5}`, quoted))
				want := bodyName.MatchString(body) && (!taken[body] || body == "b")
				c.check((code == 200) == want, "renaming b to %q (taken: %v): status %d", body, taken[body], code)
			}
			c.check(code < 500, "name %q: status %d", name, code)
			if code < 300 {
				accepted++
				c.check(validName(name), "the name %q is accepted", name)
			}
			if !validName(name) {
				hostile++
			}
			c.eval("%s", name)
		}
		for _, st := range statesOf(s) {
			c.check(validName(st.Name), "there is a namespace named %q", st.Name)
		}
		// A tampered registry
		name := c.genHostileName()
		quoted, _ := json.Marshal(name)
		json.Unmarshal(quoted, &name) // invalid UTF-8 is replaced
		c.log("registry with %q", name)
		os.WriteFile(d+"namespaces.json", []byte(fmt.Sprintf(`[{"name":%s,"type":"like","maxSimilarProfiles":5,"dislikeFactor":0.5}]`, quoted)), 0644)
		s = newService(path)
		err := s.LoadNamespaces()
		c.check((err == nil) == validName(name), "a registry with the name %q: %v", name, err)
		c.check(err != nil || len(s.GetNamespaces()) == 1, "a registry with one namespace gave %d", len(s.GetNamespaces()))
		for _, ns := range s.GetNamespaces() {
			c.check(validName(ns.GetName().Value()), "a namespace named %q was loaded", ns.GetName().Value())
		}
		form := c.malformedForm()
		c.log("registry %q", form)
		os.WriteFile(d+"namespaces.json", []byte(form), 0644)
		if c.Intn(2) == 0 {
			s = newService(path)
		}
		before := statesOf(s)
		err = s.LoadNamespaces()
		c.check(err != nil, "the registry %q is accepted, with %d namespaces", form, len(s.GetNamespaces()))
		c.check(reflect.DeepEqual(statesOf(s), before), "the refused registry %q gave %d namespaces", form, len(s.GetNamespaces()))
		c.eval("%s", form)
	})
	entries, err := os.ReadDir(base)
	c.check(err == nil && len(entries) == 2, "files appeared beside the configured directory: %v", entries)
	c.count("hostile_names", int64(hostile))
	c.count("accepted_names", int64(accepted))
	c.sample("files touched: %v", j.touched)
}

// A registry with an error that isn't in a name. Its first namespaces may be in order.
func (c *kase) malformedForm() string {
	const good = `{"name":"g%d","type":"like","maxSimilarProfiles":5,"dislikeFactor":0.5}`
	var some []string
	for i := c.Intn(4); i > 0; i-- {
		some = append(some, fmt.Sprintf(good, i))
	}
	list := func(more string) string { return "[" + strings.Join(append(some, more), ",") + "]" }
	switch c.Intn(6) {
	case 0:
		all := list(fmt.Sprintf(good, 9))
		return all[:c.Intn(len(all))]
	case 1:
		return list(fmt.Sprintf(good, 9)) + []string{"x", "]", "[]", "{}", "\n[]\n", "\x00", ",", "5", list(fmt.Sprintf(good, 8))}[c.Intn(9)]
	case 2:
		return []string{"", " ", "\n", "{}", "5", "x", `"like"`, "true", "]", "[,]", "\x00", "[[]]", "[5]", `["a"]`, "{" + fmt.Sprintf(good, 1) + "}"}[c.Intn(15)]
	case 3:
		// An unsuitable value
		value := [][2]string{{`"like"`, `"unknown"`}, {`"like"`, `""`}, {`"like"`, `7`}, {`"like"`, `"Like "`}, {`:5`, `:-1`}, {`:5`, `:1.5`}, {`:5`, `:1e30`},
			{`:5`, `:"5"`}, {`:5`, `:18446744073709551616`}, {`:5`, `:[5]`}, {`0.5`, `"0.5"`}, {`0.5`, `1e39`}, {`0.5`, `{}`}, {`0.5`, `0,5`},
			{`"g9"`, `9`}, {`"g9"`, `null`}, {`"g9"`, `["g9"]`}, {`"g9"`, `""`}, {`:`, `=`}, {`}`, `]`}}[c.Intn(20)]
		return list(strings.Replace(fmt.Sprintf(good, 9), value[0], value[1], 1))
	case 4:
		// Something is missing
		return list([]string{`{"type":"like","maxSimilarProfiles":5,"dislikeFactor":0.5}`, `{"name":"g9","maxSimilarProfiles":5,"dislikeFactor":0.5}`,
			`{}`, `,`, `null`}[c.Intn(5)])
	default:
		all := []byte(list(fmt.Sprintf(good, 9)))
		all[c.Intn(len(all))] = byte(c.Intn(32))
		if json.Valid(all) {
			return "[" + string(all)
		}
		return string(all)
	}
}

// A different name that looks almost the same.
func (c *kase) nearName(name string) string {
	b := []byte(name)
	switch c.Intn(5) {
	case 0:
		// Many characters in common
		long := strings.Repeat(name+"-x_", 250/len(name)+1)[:[]int{14, 15, 30, 31, 32, 62, 63, 64, 99, 100, 126, 127, 128, 150, 199, 200, 220, 240, 244}[c.Intn(19)]]
		return long + string(nameRest[c.Intn(len(nameRest))])
	case 1:
		return name + []string{"-", "_", "x", "0", "-1", "_delta", "-index"}[c.Intn(7)]
	case 2:
		if len(b) > 1 {
			return string(b[:len(b)-1])
		}
	case 3:
		i := c.Intn(len(b))
		for k := 0; k < len(b) && !strings.ContainsRune("-_", rune(b[i])); k++ {
			i = (i + 1) % len(b)
		}
		switch {
		case b[i] == '-':
			b[i] = '_'
		case b[i] == '_':
			b[i] = '-'
		default:
			return name + "-" // its near names differ in this
		}
		return string(b)
	}
	// Another case
	for k := 0; k < 20; k++ {
		i := c.Intn(len(b))
		if l := b[i] | 0x20; l >= 'a' && l <= 'z' {
			b[i] ^= 0x20
			return string(b)
		}
	}
	return name + "x"
}

// The files of a namespace are its own and are in the configured directory.
func engineFilesCase(c *kase) {
	base := c.dir()
	defer c.rmdir(base)
	d := base + "data/"
	os.Mkdir(d, 0755)
	names := []string{c.genName(), c.genName()}
	if c.Intn(3) == 0 {
		names[0] = c.nearName(names[0]) // this may be long, or contain what's changed below
	}
	if c.Intn(20) == 0 {
		names[0] = "namespaces"
	}
	if c.Intn(3) > 0 {
		names[1] = c.nearName(names[0])
	}
	if names[0] == names[1] {
		names[1] += "x"
	}
	if c.Intn(2) == 0 {
		names[0], names[1] = names[1], names[0]
	}
	started := 0
	files := []map[string]int{}
	j := c.jailed(d, func() {
		for _, n := range names {
			before := map[string]int{}
			e := newEngine(c, engineOpts{dir: d, name: n})
			j := currentJail
			for k, v := range j.touched {
				before[k] = v
			}
			if err := e.start(); err != nil {
				c.check(len(n) > 200, "namespace %q can't be started: %v", n, err)
				files = append(files, nil)
				continue
			}
			started++
			for i := uint64(0); i < 3; i++ {
				c.check(e.ns.Like(i, i) == nil, "like failed")
			}
			e.ns.Stop()
			e.waitClosed()
			touched := map[string]int{}
			for k, v := range j.touched {
				if v != before[k] {
					touched[k] = v
				}
			}
			files = append(files, touched)
		}
	})
	for k := range files[0] {
		c.check(files[1][k] == 0, "the namespaces %q and %q use the same file %s", names[0], names[1], k)
	}
	for k := range j.touched {
		c.check(!strings.HasPrefix(k, d+"namespaces.json"), "the namespaces %q use the file of the registry", names)
	}
	if started < 2 {
		c.eval("") // their names are too long for the file system
		return
	}
	c.check(len(files[0]) > 0 && len(files[1]) > 0, "no files were used: %v", j.touched)
	c.eval("%v", names)
	c.sample("%q: %v", names[0], files[0])
}

var currentJail *fsJail
