package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"recengine/internal/api/shard"
)

func init() {
	register("C06", "exploration",
		"the real program, built with the race detector, runs on the loopback network: random requests, SIGTERM or SIGINT "+
			"with and without requests in flight, SIGKILL in the middle of concurrent changes, restarts, occupied ports, "+
			"configuration from the environment and from the .env file; distinct by configuration and outcome",
		func(r *run) {
			bin := buildServer(r)
			r.cases("config", r.n(2000, 40000), configCase)
			r.casesN("lifecycle", r.n(24, 400), 6, func(c *kase) { lifecycleCase(c, bin) })
			r.casesN("kill", r.n(24, 400), 6, func(c *kase) { killCase(c, bin) })
			r.casesN("listen", r.n(8, 60), 4, func(c *kase) { listenFailCase(c, bin) })
			r.casesN("unreadable", r.n(18, 120), 6, func(c *kase) { unreadableCase(c, bin) })
			r.casesN("stuck", r.n(2, 8), 2, func(c *kase) { stuckCase(c, bin) })
		})
}

// Builds the program with the race detector.
func buildServer(r *run) string {
	bin := filepath.Join(os.Getenv("VERIF_WORK"), "recengine-server")
	cmd := exec.Command("go", "build", "-race", "-buildvcs=false", "-o", bin, ".")
	cmd.Dir = os.Getenv("VERIF_REPO")
	if out, err := cmd.CombinedOutput(); err != nil {
		fmt.Fprintf(os.Stderr, "the server doesn't build: %v\n%s\n", err, out)
		os.Exit(3)
	}
	atomic.AddInt64(&r.progress, 1)
	return bin
}

func configCase(c *kase) {
	envMutex.Lock()
	defer envMutex.Unlock()
	defer os.Unsetenv("REC_HOST")
	defer os.Unsetenv("REC_PORT")
	set := func(k, v string, present bool) {
		if present {
			os.Setenv(k, v)
		} else {
			os.Unsetenv(k)
		}
	}
	host := []string{"", "localhost", "127.0.0.1", "0.0.0.0", "example.org", "::1", "[::1]", "::", "fe80::1%eth0", "2001:db8::a"}[c.Intn(10)]
	port := []string{"", "0", "1", "80", "3000", "8080", "65535", "-1", "-80", "x", "80x", " 80", "8o8o", "99999999999999999999", "0x50", "1.5"}[c.Intn(16)]
	if c.Intn(3) == 0 {
		port = strconv.Itoa(c.Intn(65536))
	}
	set("REC_HOST", host, host != "" || c.Intn(2) == 0)
	set("REC_PORT", port, port != "" || c.Intn(2) == 0)
	var defaults *shard.Config
	wantHost, wantPort := "localhost", 8080
	if c.Intn(2) == 0 {
		defaults = &shard.Config{Host: "dflt", Port: 1 + c.Intn(60000)}
		wantHost, wantPort = defaults.Host, defaults.Port
	}
	if host != "" {
		wantHost = host
	}
	if n, err := strconv.Atoi(port); err == nil && n >= 0 {
		wantPort = n
	}
	got := shard.NewConfigFromEnv(defaults)
	c.check(got != nil && got.Host == wantHost && got.Port == wantPort, "REC_HOST=%q REC_PORT=%q defaults %v gave %v, expected %s and %d",
		host, port, defaults, got, wantHost, wantPort)
	if strings.Contains(wantHost, ":") {
		h, p, err := net.SplitHostPort(got.GetHostPort())
		c.check(err == nil && h == strings.Trim(wantHost, "[]") && p == strconv.Itoa(wantPort), "the address of %q and %d is %q", wantHost, wantPort, got.GetHostPort())
	} else {
		c.check(got.GetHostPort() == fmt.Sprintf("%s:%d", wantHost, wantPort), "the address is %q", got.GetHostPort())
	}
	if defaults != nil {
		c.check(defaults.Host == "dflt", "the defaults were changed")
	}
	c.eval("%q %q %v", host, port, defaults != nil)
}

var portMutex sync.Mutex
var portMarks []net.Listener
var nextPort = 20000 + os.Getpid()%4000

// A port nobody listens on; outside of the range of ephemeral ports.
func freePort() int {
	portMutex.Lock()
	defer portMutex.Unlock()
	for {
		nextPort++
		if nextPort > 32000 {
			nextPort = 20000
		}
		// Another check that runs now doesn't use it either; kept for some time
		mark, err := net.Listen("unix", fmt.Sprintf("@verif-port-%d", nextPort))
		if errors.Is(err, syscall.EADDRINUSE) {
			continue
		}
		if err == nil {
			portMarks = append(portMarks, mark)
			if len(portMarks) > 200 {
				portMarks[0].Close()
				portMarks = portMarks[1:]
			}
		}
		l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", nextPort))
		if err == nil {
			l.Close()
			return nextPort
		}
	}
}

type server struct {
	cmd    *exec.Cmd
	host   string
	port   int
	out    *bytes.Buffer
	mu     sync.Mutex
	exited chan struct{}
	err    error
	client *http.Client
}

// Starts the program in its own directory; the variables not in .env are given in the environment.
func launch(c *kase, bin, dir string, port int, viaFile bool) *server {
	return launchOn(c, bin, dir, "127.0.0.1", port, viaFile)
}

func launchOn(c *kase, bin, dir, host string, port int, viaFile bool) *server {
	cwd := filepath.Join(dir, "cwd")
	os.MkdirAll(cwd, 0755)
	data := filepath.Join(dir, "data")
	os.MkdirAll(data, 0755)
	vars := []string{"REC_HOST=" + host, fmt.Sprintf("REC_PORT=%d", port), "REC_PATH=" + data}
	s := &server{host: strings.Trim(host, "[]"), port: port, out: &bytes.Buffer{}, exited: make(chan struct{})}
	s.cmd = exec.Command(bin)
	s.cmd.Dir = cwd
	env := []string{"GIN_MODE=release", "GORACE=exitcode=66", "PATH=" + os.Getenv("PATH"), "HOME=" + dir}
	file := ""
	decoys := []string{"REC_HOST=256.0.0.1", "REC_PORT=1", "REC_PATH=" + filepath.Join(dir, "decoy")}
	for i, v := range vars {
		if viaFile {
			file += v + "\n"
			continue
		}
		env = append(env, v)
		if c.Intn(2) == 0 {
			// What the environment says takes precedence
			file += decoys[i] + "\n"
		}
	}
	if err := os.WriteFile(filepath.Join(cwd, ".env"), []byte(file), 0644); err != nil {
		panic(err)
	}
	s.cmd.Env = env
	w := &lockedWriter{s: s}
	s.cmd.Stdout, s.cmd.Stderr = w, w
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	go func() {
		s.err = s.cmd.Wait()
		close(s.exited)
	}()
	s.client = &http.Client{Transport: &http.Transport{DisableKeepAlives: c.Intn(2) == 0}, Timeout: 60 * time.Second}
	return s
}

type lockedWriter struct{ s *server }

func (w *lockedWriter) Write(b []byte) (int, error) {
	w.s.mu.Lock()
	defer w.s.mu.Unlock()
	if w.s.out.Len() < 1<<20 {
		w.s.out.Write(b)
	}
	return len(b), nil
}

func (s *server) output() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	o := s.out.String()
	if len(o) > 3000 {
		o = "..." + o[len(o)-3000:]
	}
	return o
}

// Waits until it accepts connections. False if it ended instead.
func (s *server) ready(c *kase) bool {
	for i := 0; i < 1200; i++ {
		select {
		case <-s.exited:
			return false
		default:
		}
		conn, err := net.DialTimeout("tcp", s.addr(), time.Second)
		if err == nil {
			conn.Close()
			atomic.AddInt64(&c.r.progress, 1)
			return true
		}
		time.Sleep(50 * time.Millisecond)
	}
	s.cmd.Process.Kill()
	c.fail("the program neither listens nor ends:\n%s", s.output())
	return false
}

func startServer(c *kase, bin, dir string) *server {
	for try := 0; ; try++ {
		s := launchOn(c, bin, dir, hosts[c.Intn(len(hosts))], freePort(), c.Intn(2) == 0)
		if s.ready(c) {
			s.listensElsewhere(c)
			return s
		}
		if try < 3 && strings.Contains(s.output(), "address already in use") {
			continue
		}
		c.fail("the program ended (%v) instead of serving:\n%s", s.err, s.output())
	}
}

// The addresses of this machine that may be listened at.
var hosts = func() []string {
	l := []string{"127.0.0.1", "127.0.0.1", "localhost", "127.0.0.2"}
	if n, err := net.Listen("tcp", "[::1]:0"); err == nil {
		n.Close()
		l = append(l, "::1", "[::1]")
	}
	return l
}()

// It must listen at no other address than the one that was configured.
func (s *server) listensElsewhere(c *kase) {
	if s.host == "localhost" {
		return
	}
	for _, h := range []string{"127.0.0.1", "127.0.0.3", "::1"} {
		if h == s.host {
			continue
		}
		other := net.JoinHostPort(h, strconv.Itoa(s.port))
		conn, err := net.DialTimeout("tcp", other, time.Second)
		if err != nil {
			continue
		}
		conn.Close()
		s.stop()
		if conn, err := net.DialTimeout("tcp", other, time.Second); err == nil {
			conn.Close()
			c.inconclusive("another program listens at %s", other)
		}
		c.fail("the program, configured to listen at %s, listens at %s, too", s.addr(), other)
	}
}

func (s *server) addr() string { return net.JoinHostPort(s.host, strconv.Itoa(s.port)) }

func (s *server) do(method, path, body string) (int, []byte, error) {
	req, err := http.NewRequest(method, "http://"+s.addr()+path, strings.NewReader(body))
	if err != nil {
		return 0, nil, err
	}
	req.Header.Set("Content-Type", "application/json")
	resp, err := s.client.Do(req)
	if err != nil {
		return 0, nil, err
	}
	defer resp.Body.Close()
	data, err := io.ReadAll(resp.Body)
	return resp.StatusCode, data, err
}

// Sends a request in one of several ways.
func (s *server) send(c *kase, method, target string, content io.Reader, kind string) (int, []byte) {
	req, err := http.NewRequest(method, "http://"+s.addr()+target, content)
	if err != nil {
		panic(err)
	}
	if method == "POST" || method == "PUT" {
		req.Header.Set("Content-Type", kind)
		if c.Intn(8) == 0 {
			req.Header.Set("Expect", "100-continue")
		}
	}
	req.Close = c.Intn(8) == 0
	resp, err := s.client.Do(req)
	c.check(err == nil, "%s %s gets no response: %v\n%s", method, target, err, s.output())
	defer resp.Body.Close()
	data, err := io.ReadAll(resp.Body)
	c.check(err == nil, "the response to %s %s ends early: %v", method, target, err)
	return resp.StatusCode, data
}

func (s *server) list(c *kase) map[string]nsView {
	code, body, err := s.do("GET", nsPath, "")
	c.check(err == nil && code == 200, "listing: status %d, %v\n%s", code, err, s.output())
	var l []map[string]any
	d := json.NewDecoder(bytes.NewReader(body))
	d.UseNumber()
	c.check(d.Decode(&l) == nil, "listing: %q", body)
	m := map[string]nsView{}
	for _, x := range l {
		v := viewOf(c, x, "listing")
		m[v.Name] = v
	}
	c.check(len(m) == len(l), "listing: a name twice in %q", body)
	return m
}

// Waits for the end of the process; the exit code, -1 if it was killed.
func (s *server) wait(c *kase, why string) int {
	for i := 0; ; i++ {
		select {
		case <-s.exited:
			atomic.AddInt64(&c.r.progress, 1)
			return s.cmd.ProcessState.ExitCode()
		case <-time.After(time.Second):
			atomic.AddInt64(&c.r.progress, 1)
		}
		if i == 90 {
			s.cmd.Process.Kill()
			c.fail("the program doesn't end: %s\n%s", why, s.output())
		}
	}
}

func (s *server) stop() {
	s.cmd.Process.Kill()
	<-s.exited
}

// A request whose handler has begun: the server has asked for the body.
type openRequest struct {
	conn net.Conn
	r    *bufio.Reader
	body string
}

func (s *server) beginRequest(c *kase, method, path, body string) *openRequest {
	conn, err := net.Dial("tcp", s.addr())
	c.check(err == nil, "connecting: %v", err)
	conn.SetDeadline(time.Now().Add(90 * time.Second))
	fmt.Fprintf(conn, "%s %s HTTP/1.1\r\nHost: x\r\nContent-Type: application/json\r\nContent-Length: %d\r\nExpect: 100-continue\r\nConnection: close\r\n\r\n",
		method, path, len(body))
	r := bufio.NewReader(conn)
	line, err := r.ReadString('\n')
	c.check(err == nil && strings.Contains(line, "100"), "the server doesn't read the body: %q %v", line, err)
	r.ReadString('\n')
	return &openRequest{conn, r, body}
}

func (q *openRequest) finish() (int, error) {
	defer q.conn.Close()
	if _, err := io.WriteString(q.conn, q.body); err != nil {
		return 0, err
	}
	resp, err := http.ReadResponse(q.r, nil)
	if err != nil {
		return 0, err
	}
	defer resp.Body.Close()
	_, err = io.ReadAll(resp.Body)
	return resp.StatusCode, err
}

func createBody(name string, max uint) string {
	return fmt.Sprintf(`{"name":%q,"type":"like","maxSimilarProfiles":%d,"dislikeFactor":0.25}`, name, max)
}

func lifecycleCase(c *kase, bin string) {
	d := c.dir()
	defer c.rmdir(d)
	want := map[string]nsView{}
	log := ""
	for session := 0; session < 2; session++ {
		s := startServer(c, bin, d)
		defer s.stop()
		got := s.list(c)
		c.check(fmt.Sprint(got) == fmt.Sprint(want), "session %d begins with %v, expected %v", session, got, want)
		for i := c.Intn(6); i > 0; i-- {
			name := fmt.Sprintf("n%d", c.Intn(8))
			if v, ok := want[name]; ok {
				nn := fmt.Sprintf("n%d", c.Intn(8))
				max := uint(1 + c.Intn(100))
				code, data, err := s.do("PUT", nsPath+"/"+name, fmt.Sprintf(`{"name":%q,"maxSimilarProfiles":%d,"dislikeFactor":0}`, nn, max))
				_, taken := want[nn]
				if taken && nn != name {
					c.check(err == nil && code >= 400 && code < 500, "renaming to a taken name: %d %v", code, err)
				} else {
					c.check(err == nil && code == 200, "updating: %d %v %s", code, err, data)
					delete(want, name)
					v.Name, v.Max = nn, max
					want[nn] = v
				}
			} else {
				code, data, err := s.do("POST", nsPath, createBody(name, uint(5+i)))
				c.check(err == nil && code >= 200 && code < 300, "creating: %d %v %s", code, err, data)
				want[name] = nsView{name, "like", uint(5 + i)}
			}
		}
		// Requests in flight
		inflight := c.Intn(3)
		var open []*openRequest
		for i := 0; i < inflight; i++ {
			name := fmt.Sprintf("f%ds%d", i, session)
			max := uint(7)
			if old := fmt.Sprintf("n%d", i); want[old].Name != "" {
				v := want[old]
				max += v.Max
				open = append(open, s.beginRequest(c, "PUT", nsPath+"/"+old, fmt.Sprintf(`{"name":%q,"maxSimilarProfiles":%d,"dislikeFactor":1}`, name, max)))
				delete(want, old)
			} else {
				open = append(open, s.beginRequest(c, "POST", nsPath, createBody(name, max)))
			}
			want[name] = nsView{name, "like", max}
		}
		sig := []os.Signal{syscall.SIGTERM, syscall.SIGINT}[c.Intn(2)]
		signalled := time.Now()
		s.cmd.Process.Signal(sig)
		if inflight > 0 {
			time.Sleep(time.Duration(c.Intn([]int{100, 1500, 3500}[c.Intn(3)])) * time.Millisecond)
			if time.Since(signalled) > 4500*time.Millisecond {
				c.inconclusive("the machine is too slow to finish requests within the grace period")
			}
			c.check(s.alive(), "the program ended with %d requests in flight:\n%s", inflight, s.output())
			// It takes a moment until it has noticed the signal
			for s.accepts() {
				if time.Since(signalled) > 4*time.Second {
					c.fail("%v after %v the program still accepts connections", time.Since(signalled), sig)
				}
				time.Sleep(20 * time.Millisecond)
			}
			for _, q := range open {
				code, err := q.finish()
				if time.Since(signalled) > 4500*time.Millisecond {
					c.inconclusive("the machine is too slow to finish requests within the grace period")
				}
				c.check(err == nil && code >= 200 && code < 300, "a request in flight during the shutdown: %d %v\n%s", code, err, s.output())
			}
		}
		code := s.wait(c, "after "+sig.String())
		c.check(code == 0, "the program ended with %d after %v (%d requests were in flight):\n%s", code, sig, inflight, s.output())
		_, err := net.DialTimeout("tcp", s.addr(), time.Second)
		c.check(err != nil, "the port is still open")
		log += fmt.Sprintf("%v %d %d;", sig, inflight, len(want))
	}
	s := startServer(c, bin, d)
	defer s.stop()
	got := s.list(c)
	c.check(fmt.Sprint(got) == fmt.Sprint(want), "after the restarts there is %v, expected %v", got, want)
	c.eval("%d %s", c.index, log)
	c.sample("%s", log)
}

func (s *server) alive() bool {
	select {
	case <-s.exited:
		return false
	default:
		return true
	}
}

func (s *server) accepts() bool {
	conn, err := net.DialTimeout("tcp", s.addr(), time.Second)
	if err == nil {
		conn.Close()
	}
	return err == nil
}

// Acknowledged changes survive a killed process.
func killCase(c *kase, bin string) {
	d := c.dir()
	defer c.rmdir(d)
	const clients = 3
	// What every client has made of its own namespaces, the last request being perhaps not finished
	type owned struct{ before, after map[string]nsView }
	states := make([]owned, clients)
	for k := range states {
		states[k] = owned{map[string]nsView{}, map[string]nsView{}}
	}
	acked := 0
	verify := func(s *server) {
		got := s.list(c)
		for k := range states {
			mine := map[string]nsView{}
			for n, v := range got {
				if strings.HasPrefix(n, fmt.Sprintf("k%d", k)) {
					mine[n] = v
					delete(got, n)
				}
			}
			st := &states[k]
			shown := fmt.Sprint(mine)
			c.check(shown == fmt.Sprint(st.before) || shown == fmt.Sprint(st.after),
				"after the process was killed, client %d's namespaces are %v, while they were %v, or with its last request %v", k, mine, st.before, st.after)
			st.before = mine
		}
		c.check(len(got) == 0, "%v appeared from nowhere", got)
	}
	for session := 0; session < 2; session++ {
		s := startServer(c, bin, d)
		defer s.stop()
		verify(s)
		var wg sync.WaitGroup
		for k := 0; k < clients; k++ {
			wg.Add(1)
			go func(k int, rnd *rand.Rand) {
				defer wg.Done()
				st := &states[k]
				for i := 0; i < 400; i++ {
					st.after = map[string]nsView{}
					var names []string
					for n, v := range st.before {
						st.after[n] = v
						names = append(names, n)
					}
					sort.Strings(names)
					n := fmt.Sprintf("k%ds%di%d", k, session, i)
					v := nsView{n, "like", uint(1 + rnd.Intn(1000))}
					method, path, body := "POST", nsPath, createBody(n, v.Max)
					if len(names) > 0 && rnd.Intn(2) == 0 {
						old := names[rnd.Intn(len(names))]
						delete(st.after, old)
						if rnd.Intn(2) == 0 {
							v.Name = old
						}
						method, path = "PUT", nsPath+"/"+old
						body = fmt.Sprintf(`{"name":%q,"maxSimilarProfiles":%d,"dislikeFactor":0.5}`, v.Name, v.Max)
					}
					st.after[v.Name] = v
					code, _, err := s.do(method, path, body)
					if code >= 200 && code < 300 {
						st.before = st.after
						c.nolock.Lock()
						acked++
						c.nolock.Unlock()
					}
					if err != nil {
						return
					}
				}
			}(k, rand.New(rand.NewSource(c.Int63())))
		}
		time.Sleep(time.Duration(c.Intn(250)) * time.Millisecond)
		s.cmd.Process.Kill()
		wg.Wait()
		<-s.exited
	}
	s := startServer(c, bin, d)
	defer s.stop()
	verify(s)
	total := 0
	for k := range states {
		total += len(states[k].before)
	}
	c.eval("%d %d", acked, total)
	c.count("acknowledged_before_kill", int64(acked))
	c.sample("%d acknowledged, %d namespaces", acked, total)
}

// A program that can't serve ends and says so.
func listenFailCase(c *kase, bin string) {
	d := c.dir()
	defer c.rmdir(d)
	var s *server
	why := ""
	if c.index%3 == 2 {
		why = "a port out of range"
		s = launch(c, bin, d, 70000+c.Intn(1000), c.Intn(2) == 0)
	} else {
		why = "an occupied port"
		port := freePort()
		l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", port))
		if err != nil {
			c.inconclusive("%v", err)
		}
		defer l.Close()
		s = launch(c, bin, d, port, c.Intn(2) == 0)
	}
	defer s.stop()
	code := s.wait(c, why)
	c.check(code != 0 && code != 66 && code != -1, "the program ended with %d, though it can't listen (%s):\n%s", code, why, s.output())
	c.check(!strings.Contains(s.output(), "goroutine "), "the program crashed with %s:\n%s", why, s.output())
	c.eval("%s %d", why, c.index)
	c.sample("%s: %d", why, code)
}

// A registry that can't be read is kept as it is, for it may be repaired.
func unreadableCase(c *kase, bin string) {
	d := c.dir()
	defer c.rmdir(d)
	s := startServer(c, bin, d)
	defer s.stop()
	n := 1 + c.Intn(5)
	for i := 0; i < n; i++ {
		code, data, err := s.do("POST", nsPath, createBody(fmt.Sprintf("n%d", i), uint(5+i)))
		c.check(err == nil && code == 201, "creating: %d %v %s", code, err, data)
	}
	want := s.list(c)
	s.cmd.Process.Signal(syscall.SIGTERM)
	s.wait(c, "after SIGTERM")
	// The program may be the only one to know the name of the file
	data := filepath.Join(d, "data")
	files, err := os.ReadDir(data)
	c.check(err == nil, "%v", err)
	path := ""
	var good []byte
	for _, f := range files {
		b, err := os.ReadFile(filepath.Join(data, f.Name()))
		if err == nil && bytes.Contains(b, []byte(`"n0"`)) {
			c.check(path == "", "the registry is in two files: %v", files)
			path, good = filepath.Join(data, f.Name()), b
		}
	}
	c.check(path != "", "no file has the registry: %v", files)
	bad := append([]byte{}, good...)
	how := ""
	switch c.index % 6 {
	case 0:
		for n := 0; n == 0 || json.Valid(bad); n++ {
			bad = good[:c.Intn(len(good))]
		}
		how = fmt.Sprintf("cut to %d of %d bytes", len(bad), len(good))
	case 1:
		i := c.Intn(len(bad))
		how = fmt.Sprintf("%q at %d replaced by a zero byte", bad[i], i)
		bad[i] = 0
	case 2:
		bad = bytes.Replace(bad, []byte(`"n0"`), []byte(`"0n/"`), 1)
		how = "an invalid name"
	case 3:
		bad = nil
		how = "empty"
	case 4:
		bad = append(bad, []string{"x", "]", string(good)}[c.Intn(3)]...)
		how = "something behind the end"
	default:
		bad = bytes.Replace(bad, []byte(`"like"`), []byte(`"unknown"`), 1)
		how = "an unknown type"
	}
	c.check(!bytes.Equal(good, bad), "the registry isn't damaged: %q", good)
	c.check(os.WriteFile(path, bad, 0644) == nil, "write")
	s = launch(c, bin, d, freePort(), c.Intn(2) == 0)
	defer s.stop()
	served := s.ready(c)
	if served {
		s.do("POST", nsPath, createBody("other", 3))
		s.do("PUT", nsPath+"/other", `{"name":"other2","dislikeFactor":0}`)
		s.cmd.Process.Signal(syscall.SIGTERM)
	}
	code := s.wait(c, "after starting with a damaged registry")
	c.check(code != 66 && code != -1, "the program ended with %d:\n%s", code, s.output())
	got, err := os.ReadFile(path)
	c.check(err == nil && bytes.Equal(got, bad), "the registry that couldn't be read (%s) was replaced: %q became %q, %v\n%s", how, bad, got, err, s.output())
	c.check(os.WriteFile(path, good, 0644) == nil, "write")
	s = startServer(c, bin, d)
	defer s.stop()
	c.check(fmt.Sprint(s.list(c)) == fmt.Sprint(want), "the repaired registry isn't read as it was")
	c.eval("%s %d", how, n)
	c.count("unreadable_registries", 1)
	c.sample("%s: served %v, exit %d", how, served, code)
}

// A client that never finishes its request can't prevent the shutdown.
func stuckCase(c *kase, bin string) {
	d := c.dir()
	defer c.rmdir(d)
	s := startServer(c, bin, d)
	defer s.stop()
	q := s.beginRequest(c, "POST", nsPath, createBody("a", 1))
	defer q.conn.Close()
	s.cmd.Process.Signal(syscall.SIGTERM)
	code := s.wait(c, "a client that never finishes its request is connected")
	c.check(code != -1 && code != 66, "the program ended with %d:\n%s", code, s.output())
	s2 := startServer(c, bin, d)
	defer s2.stop()
	c.check(len(s2.list(c)) == 0, "an unfinished request took effect")
	c.eval("%d", c.index)
}
