package harness

import (
	"bufio"
	"bytes"
	_ "embed"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"strings"

	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/server/httprest"
)

// The JavaScript client, as the server hands it out, run by node with a stand-in for what a browser offers.

//go:embed js/driver.js
var jsDriver string

type jsProc struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	script string
	busy   bool // an operation is under way
}

var jsLive *jsProc

func jsProcess() *jsProc {
	if jsLive != nil && !jsLive.busy {
		return jsLive
	}
	if jsLive != nil { // a case ended in the middle of an operation
		jsLive.cmd.Process.Kill()
		jsLive.cmd.Wait()
	}
	p := &jsProc{cmd: exec.Command("node", "--stack-size=4000", "-e", jsDriver)}
	p.cmd.Stderr = os.Stderr
	var err error
	if p.in, err = p.cmd.StdinPipe(); err != nil {
		panic(err)
	}
	o, err := p.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	p.out = bufio.NewReaderSize(o, 1<<16)
	if err := p.cmd.Start(); err != nil {
		panic("INCONCLUSIVE: node cannot be started: " + err.Error())
	}
	jsLive = p
	return p
}

func (p *jsProc) write(v any) {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	if _, err := p.in.Write(append(b, '\n')); err != nil {
		panic("node: " + err.Error())
	}
}

func (p *jsProc) read(v any) {
	b, err := p.out.ReadBytes('\n')
	if err != nil {
		panic("node: " + err.Error())
	}
	if err := json.Unmarshal(b, v); err != nil {
		panic(fmt.Sprintf("node: %v in %q", err, b))
	}
}

// js is a page that uses the client against a handler.
type js struct {
	proc    *jsProc
	handler http.Handler
	base    string
	origin  string                      // of the page; "" when it comes from the server itself
	alter   func(*http.Response)        // what happens to answers on the way
	sleep   func(ms float64)            // when the client waits
	refuse  func(r *http.Request) error // requests that do not get through
	reqs    int
	proper  func() bool // answers have been well-formed, if not true: then the client has to call back
	// the server may break down: then there is no answer
	tolerant bool
}

type (
	jsAny    = map[string]any
	jsResult struct {
		Calls  [][]json.RawMessage
		Errors []string
		Each   [][2]json.RawMessage
	}
	jsHead struct {
		Size any    `json:"size"`
		Root string `json:"root"`
	}
	jsMapHead struct {
		Root     string  `json:"root"`
		Mutation *jsHead `json:"mutation"`
		Size     any     `json:"size,omitempty"`
	}
	jsState struct {
		Map  *jsMapHead `json:"map"`
		Thl  *jsHead    `json:"thl"`
		Size any        `json:"size,omitempty"`
	}
	jsEntry struct {
		Data string
		Leaf *string
	}
)

// latin is the JavaScript client's form of a byte string.
func latin(b []byte) string {
	rs := make([]rune, len(b))
	for i, c := range b {
		rs[i] = rune(c)
	}
	return string(rs)
}

func unlatin(t tb, s string) []byte {
	t.Helper()
	b := make([]byte, 0, len(s))
	for _, r := range s {
		if r > 255 {
			t.Fatalf("%q is not a byte string", s)
		}
		b = append(b, byte(r))
	}
	return b
}

func latins(l [][]byte) []string {
	rv := make([]string, len(l))
	for i := range l {
		rv[i] = latin(l[i])
	}
	return rv
}

// A handler takes long to make, so there is one.
var (
	jsTarget  = &struct{ server }{}
	jsHandler http.Handler
)

func newJS(t tb, srv server) *js {
	if jsHandler == nil {
		jsHandler = httprest.CreateRESTHandler(jsTarget, nil, nil)
	}
	jsTarget.server = srv
	h := jsHandler
	rec := httptest.NewRecorder()
	h.ServeHTTP(rec, httptest.NewRequest("GET", "/continusec.js", nil))
	if rec.Code != 200 || !strings.HasPrefix(rec.Header().Get("Content-Type"), "text/javascript") {
		t.Fatalf("the server does not hand out its JavaScript client: status %d, %s", rec.Code, rec.Header())
	}
	j := &js{proc: jsProcess(), handler: h, base: "http://h"}
	if s := rec.Body.String(); j.proc.script != s {
		j.proc.write(jsAny{"script": s})
		r := j.finish(t)
		if len(r.Errors) > 0 {
			t.Fatalf("the JavaScript client does not load: %v", r.Errors)
		}
		j.proc.script = s
	}
	return j
}

func (j *js) finish(t tb) *jsResult {
	j.proc.busy = true
	for sleeps := 0; ; {
		var m struct {
			Xhr *struct {
				Method, URL, Body string
				Headers           [][2]string
			}
			Sleep *float64
			Done  *jsResult
		}
		j.proc.read(&m)
		switch {
		case m.Done != nil:
			j.proc.busy = false
			return m.Done
		case m.Sleep != nil:
			if j.sleep != nil {
				j.sleep(*m.Sleep)
			} else if sleeps++; sleeps > 200 {
				t.Fatalf("the client still waits, though nothing changes, after %d requests", j.reqs)
			}
			j.proc.write(1)
		case m.Xhr != nil:
			j.reqs++
			progress()
			j.proc.write(j.exchange(t, m.Xhr.Method, m.Xhr.URL, m.Xhr.Headers, unlatin(t, m.Xhr.Body)))
		}
	}
}

// exchange does what a browser does with a request of the page's script.
func (j *js) exchange(t tb, method, url string, headers [][2]string, body []byte) jsAny {
	path, ok := strings.CutPrefix(url, j.base)
	if !ok {
		return jsAny{"error": "another host"}
	}
	send := func(method string, h http.Header, body []byte) *http.Response {
		req, err := http.NewRequest(method, "http://h"+path, bytes.NewReader(body))
		noErr(t, err, "%s %s", method, path)
		req.RequestURI = path
		req.Header = h
		if req.Body == nil || req.Body == http.NoBody {
			req.Body = io.NopCloser(bytes.NewReader(nil))
		}
		if j.refuse != nil {
			if err := j.refuse(req); err != nil {
				return nil
			}
		}
		rec := httptest.NewRecorder()
		if func() (broke bool) {
			if j.tolerant {
				defer func() { broke = recover() != nil }()
			}
			j.handler.ServeHTTP(rec, req)
			return false
		}() {
			return nil
		}
		return rec.Result()
	}
	list := func(r *http.Response, name string) map[string]bool {
		m := map[string]bool{}
		for _, v := range r.Header.Values(name) {
			for _, x := range strings.Split(v, ",") {
				m[strings.ToLower(strings.TrimSpace(x))] = true
			}
		}
		return m
	}
	allowed := func(r *http.Response) bool {
		o := r.Header.Get("Access-Control-Allow-Origin")
		return o == "*" || o == j.origin
	}
	h := http.Header{}
	for _, x := range headers {
		h.Add(x[0], x[1])
	}
	if j.origin != "" {
		h.Set("Origin", j.origin)
		ask := []string{}
		for n, v := range h {
			switch n {
			case "Origin", "Accept":
			case "Content-Type":
				if !strings.HasPrefix(v[0], "text/plain") {
					ask = append(ask, strings.ToLower(n))
				}
			default:
				ask = append(ask, strings.ToLower(n))
			}
		}
		if len(ask) > 0 || (method != "GET" && method != "POST" && method != "HEAD") {
			p := http.Header{"Origin": {j.origin}, "Access-Control-Request-Method": {method}}
			if len(ask) > 0 {
				p.Set("Access-Control-Request-Headers", strings.Join(ask, ","))
			}
			r := send("OPTIONS", p, nil)
			if r == nil || r.StatusCode < 200 || r.StatusCode > 299 || !allowed(r) {
				return jsAny{"error": "preflight"}
			}
			ms, hs := list(r, "Access-Control-Allow-Methods"), list(r, "Access-Control-Allow-Headers")
			if method != "GET" && method != "POST" && method != "HEAD" && !ms[strings.ToLower(method)] && !ms["*"] {
				return jsAny{"error": "preflight refuses " + method}
			}
			for _, x := range ask {
				if !hs[x] && (x == "authorization" || !hs["*"]) {
					return jsAny{"error": "preflight refuses " + x}
				}
			}
		}
	}
	r := send(method, h, body)
	if r == nil {
		return jsAny{"error": "no connection"}
	}
	if j.alter != nil {
		j.alter(r)
	}
	if j.origin != "" && !allowed(r) {
		return jsAny{"error": "origin"}
	}
	b, err := io.ReadAll(r.Body)
	noErr(t, err, "body")
	hs := [][2]string{}
	exposed := list(r, "Access-Control-Expose-Headers")
	for n, vs := range r.Header {
		if j.origin != "" && !exposed["*"] && !exposed[strings.ToLower(n)] && n != "Content-Type" && n != "Content-Length" {
			continue
		}
		for _, v := range vs {
			hs = append(hs, [2]string{n, v})
		}
	}
	return jsAny{"status": r.StatusCode, "headers": hs, "body": latin(b)}
}

// do performs one operation of the client.
func (j *js) do(t tb, op jsAny) *jsResult {
	t.Helper()
	if op["base"] == nil {
		op["base"] = j.base
	}
	j.proc.write(op)
	r := j.finish(t)
	if j.proper != nil && j.proper() {
		r.well(t, "%v", op["op"])
	}
	return r
}

// ok: the operation succeeded, calling back once; its result is put into v.
func (r *jsResult) ok(t tb, v any, what string, a ...any) {
	t.Helper()
	r.well(t, what, a...)
	if string(r.Calls[0][0]) != `"success"` {
		t.Fatalf("%s failed: %s", fmt.Sprintf(what, a...), r.Calls[0][1])
	}
	if v != nil {
		if err := json.Unmarshal(r.Calls[0][1], v); err != nil {
			t.Fatalf("%s: %v in %s", fmt.Sprintf(what, a...), err, r.Calls[0][1])
		}
	}
}

// well: it called back exactly once, with no exception left over.
func (r *jsResult) well(t tb, what string, a ...any) {
	t.Helper()
	if len(r.Errors) > 0 {
		t.Fatalf("%s: uncaught %s", fmt.Sprintf(what, a...), r.Errors[0])
	}
	if len(r.Calls) != 1 {
		t.Fatalf("%s called back %d times: %s", fmt.Sprintf(what, a...), len(r.Calls), r.Calls)
	}
}

func (r *jsResult) fails(t tb, reason string, what string, a ...any) {
	t.Helper()
	r.well(t, what, a...)
	if string(r.Calls[0][0]) != `"failure"` || reason != "" && string(r.Calls[0][1]) != `"`+reason+`"` {
		t.Fatalf("%s: %s, want failure %s", fmt.Sprintf(what, a...), r.Calls[0], reason)
	}
}

// absent: the client has no such helper.
func (r *jsResult) absent() bool {
	return len(r.Errors) == 0 && len(r.Calls) == 1 && string(r.Calls[0][0]) == `"absent"`
}

// succeeded: some success was reported, which is put into v.
func (r *jsResult) succeeded(t tb, v any) bool {
	for _, c := range r.Calls {
		if string(c[0]) == `"success"` {
			if len(r.Calls) > 1 {
				t.Fatalf("called back %d times: %s", len(r.Calls), r.Calls)
			}
			if v != nil {
				noErr(t, json.Unmarshal(c[1], v), "%s", c[1])
			}
			return true
		}
	}
	return false
}

func toJSHead(h *pb.LogTreeHashResponse) *jsHead {
	if h == nil {
		return nil
	}
	return &jsHead{Size: h.TreeSize, Root: latin(h.RootHash)}
}

// back: a size that is no integer comes back as -1.
func (h *jsHead) back(t tb) *pb.LogTreeHashResponse {
	if h == nil {
		return nil
	}
	n := int64(-1)
	if f, ok := h.Size.(float64); ok && f == float64(int64(f)) {
		n = int64(f)
	}
	return &pb.LogTreeHashResponse{TreeSize: n, RootHash: unlatin(t, h.Root)}
}
