package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
)

func init() {
	register("C32", "exploration",
		"requests with bodies whose fields are each right, missing, null, of the wrong type or out of their range, bodies that aren't JSON, and names that are "+
			"invalid, missing or taken are sent one after another and by several clients at once; the errors told are compared with what was made wrong; "+
			"non-trivial: something was refused; distinct by requests",
		func(r *run) {
			r.cases("refusals", r.n(2500, 60000), refusalCase)
			r.casesN("refusals-at-once", r.n(150, 3000), 4, parallelRefusalCase)
		})
}

// A request that must be refused, or may be accepted (with the fields at fault being empty).
type flawedRequest struct {
	method, target, body string
	code                 int // 0: any 4xx
	// What is told: a message (with this in it), or the fields and something of what is told about them
	plain   bool
	message string
	fields  map[string]string
	may     map[string]bool // Fields that may be named as well
}

const required = "required" // What is said of a missing field, in whatever words

func pick(rnd *rand.Rand, s ...string) string { return s[rnd.Intn(len(s))] }

// taken are the names of the namespaces there are; free is a valid name of none.
func genFlawed(rnd *rand.Rand, taken []string, free string) flawedRequest {
	f := flawedRequest{method: "POST", target: nsPath, fields: map[string]string{}, may: map[string]bool{}}
	name := free
	conflict := false
	if rnd.Intn(2) == 0 {
		f.method = "PUT"
		of := taken[rnd.Intn(len(taken))]
		f.target += "/" + of
		switch rnd.Intn(8) {
		case 0:
			f.target = nsPath + "/" + free + "x"
			f.code, f.plain, f.message = 404, true, "not found"
		case 1:
			f.target = nsPath + "/" + pick(rnd, "1a", "a.b", "a%20b", "%C3%A9", "-", "a%00")
			f.code, f.plain = 400, true
		default:
			name = of
			if rnd.Intn(4) == 0 {
				name = taken[rnd.Intn(len(taken))]
				conflict = name != of
			} else if rnd.Intn(3) == 0 {
				name = free
			}
		}
	} else if rnd.Intn(5) == 0 {
		name = taken[rnd.Intn(len(taken))]
		conflict = true
	}
	var parts []string
	malformed := false
	add := func(k, v string) { parts = append(parts, fmt.Sprintf("%q:%s", k, v)) }
	flaw := func(field, invalid, told string, wrongTypes ...string) bool {
		switch rnd.Intn(9) {
		case 0:
			f.fields[field] = required
			switch rnd.Intn(3) {
			case 0:
				add(field, "null")
			case 1:
				if field != "dislikeFactor" {
					add(field, `""`)
				}
			}
		case 1, 2:
			f.fields[field] = told
			add(field, invalid)
		case 3:
			if rnd.Intn(4) > 0 {
				return false
			}
			malformed = true
			add(field, wrongTypes[rnd.Intn(len(wrongTypes))])
		default:
			return false
		}
		return true
	}
	digit := false
	if !flaw("name", pick(rnd, `"A"`, `"a b"`, `"a/b"`, `"a.b"`, `"é"`, `"a\u0000"`, `"aB"`, `"a\n"`, `"-a"`, `"a_b"`, `"9A"`), "", "5", "[]", "true", `{"a":1}`) {
		if rnd.Intn(8) == 0 {
			digit = true
			name = pick(rnd, "1a", "9", "0movies")
		}
		add("name", `"`+name+`"`)
	}
	if f.method == "PUT" {
		if rnd.Intn(6) == 0 {
			add("type", pick(rnd, `"like"`, `"other"`, "null"))
		}
	} else if !flaw("type", pick(rnd, `"LIKE"`, `"dislike"`, `"like "`, `"likes"`, `"l"`), "like", "1", "[]", "{}") {
		add("type", `"like"`)
	}
	if rnd.Intn(25) == 0 {
		malformed = true
		add("maxSimilarProfiles", pick(rnd, "-1", `"5"`, "1.5", "18446744073709551616", "{}"))
	} else if rnd.Intn(3) > 0 {
		add("maxSimilarProfiles", pick(rnd, "0", "1", "1000", "null"))
	}
	low := rnd.Intn(2) == 0
	v, told := pick(rnd, "1.001", "2", "1e30", "1.0000002"), "1"
	if low {
		v, told = pick(rnd, "-0.001", "-1", "-1e30", "-1e-40"), "0"
	}
	if !flaw("dislikeFactor", v, told, `"0.5"`, "1e39", "[0]", "true") {
		add("dislikeFactor", pick(rnd, "0", "1", "0.5", "-0", "1e-3"))
	}
	rnd.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
	f.body = "{" + strings.Join(parts, ",") + "}"
	if rnd.Intn(20) == 0 {
		malformed = true
		f.body = pick(rnd, "", "{", "["+f.body+"]", `"x"`, f.body[:len(f.body)-1], "\xff\xfe", "name=a", "7")
	}
	if f.plain {
		return f
	}
	f.code = 400
	switch {
	case malformed:
		// It's told what doesn't suit
		f.plain = true
	case len(f.fields) > 0:
		if digit {
			f.may["name"] = true
		}
	case digit:
		f.fields["name"] = ""
	case conflict:
		f.code, f.plain, f.message = 0, true, "taken"
	}
	return f
}

// Compares an answer with what must be told; the empty string if it does.
func (f *flawedRequest) judge(code int, data []byte) string {
	var m map[string]json.RawMessage
	if err := json.Unmarshal(data, &m); err != nil {
		return "the answer isn't a JSON object"
	}
	if !f.plain && len(f.fields) == 0 {
		_, ok := m["name"]
		if code/100 != 2 || !ok || m["error"] != nil || m["errors"] != nil || m["message"] != nil {
			return "it wasn't accepted"
		}
		return ""
	}
	if code/100 != 4 || f.code != 0 && code != f.code {
		return "the status is wrong"
	}
	if f.plain {
		var s string
		if json.Unmarshal(m["message"], &s) != nil || s == "" || !strings.Contains(strings.ToLower(s), f.message) {
			return fmt.Sprintf("there's no message %q", f.message)
		}
		return ""
	}
	var kind string
	var list []struct{ Field, Message string }
	if json.Unmarshal(m["error"], &kind) != nil || kind != "validation" || json.Unmarshal(m["errors"], &list) != nil {
		return "there's no list of errors"
	}
	missing := map[string]string{}
	for k, told := range f.fields {
		missing[strings.ToLower(k)] = told
	}
	for _, e := range list {
		field := strings.ToLower(e.Field)
		told, ok := missing[field]
		if !ok {
			if f.may[field] {
				continue
			}
			return fmt.Sprintf("%s isn't wrong, or named again", e.Field)
		}
		delete(missing, field)
		message := strings.ToLower(e.Message)
		if strings.Contains(message, required) != (told == required) {
			return fmt.Sprintf("%s is missing or isn't", e.Field)
		}
		if message == "" || strings.Contains(message, "unknown") || !strings.Contains(message, told) {
			return fmt.Sprintf("%s: it isn't told what's wrong with it (%s)", e.Field, told)
		}
		less := strings.Contains(message, "less") || strings.Contains(message, "at most")
		greater := strings.Contains(message, "greater") || strings.Contains(message, "at least")
		if told == "0" && less || told == "1" && greater {
			return fmt.Sprintf("%s: the opposite is told of what's wrong with it (%s)", e.Field, told)
		}
	}
	if len(missing) > 0 {
		return fmt.Sprintf("%v is wrong, too", missing)
	}
	return ""
}

func (f *flawedRequest) String() string {
	var l []string
	for k, v := range f.fields {
		l = append(l, k+" "+v)
	}
	sort.Strings(l)
	return fmt.Sprintf("%s %s %s (wrong: %s %s)", f.method, f.target, f.body, strings.Join(l, ", "), f.message)
}

func refusalCase(c *kase) {
	d := c.dir()
	defer c.rmdir(d)
	s := newService(d)
	api := newRest(s)
	taken := []string{"aa", "bb", "cc"}[:1+c.Intn(3)]
	for _, n := range taken {
		o := nsOp{kind: "create", name: n, max: 5, fac: 0.5}
		_, err := o.apply(s)
		c.check(err == nil, "creating %s: %v", n, err)
	}
	trace, refused := "", 0
	for i := 0; i < 12; i++ {
		free := fmt.Sprintf("f%d", i)
		f := genFlawed(c.Rand, taken, free)
		c.log("%v", &f)
		code, data := api.do(f.method, f.target, f.body)
		wrong := f.judge(code, data)
		c.check(wrong == "", "%v was answered with %d %s: %s", &f, code, data, wrong)
		trace += f.String()
		if code >= 400 {
			refused++
			continue
		}
		taken = nil
		for _, ns := range s.GetNamespaces() {
			taken = append(taken, ns.GetName().Value())
		}
	}
	if refused > 0 {
		c.eval("%x", byteHash([]byte(trace)))
	} else {
		c.eval("")
	}
	c.count("refused_requests", int64(refused))
	c.sample("%s", clip(trace, 500))
}

func parallelRefusalCase(c *kase) {
	d := c.dir()
	defer c.rmdir(d)
	s := newService(d)
	api := newRest(s)
	taken := []string{"aa", "bb", "cc"}
	for _, n := range taken {
		o := nsOp{kind: "create", name: n, max: 5, fac: 0.5}
		_, err := o.apply(s)
		c.check(err == nil, "creating %s: %v", n, err)
	}
	var wg sync.WaitGroup
	total := 0
	for k := 2 + c.Intn(7); k > 0; k-- {
		rnd := rand.New(rand.NewSource(c.Int63()))
		var requests []flawedRequest
		for len(requests) < 25 {
			f := genFlawed(rnd, taken, fmt.Sprintf("f%d", len(requests)))
			if f.plain || len(f.fields) > 0 {
				requests = append(requests, f)
			}
		}
		total += len(requests)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, f := range requests {
				code, data := api.do(f.method, f.target, f.body)
				if wrong := f.judge(code, data); wrong != "" {
					c.report("%v was answered among others with %d %s: %s", &f, code, data, wrong)
					return
				}
			}
		}()
	}
	wg.Wait()
	c.check(len(s.GetNamespaces()) == len(taken), "refused requests changed the registry")
	c.eval("%d %d", c.index, total)
	c.count("refused_requests", int64(total))
}
