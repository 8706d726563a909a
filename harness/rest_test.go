package harness

import (
	"bufio"
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"maps"
	"net/http"
	"net/http/httptest"
	"os"
	"reflect"
	"slices"
	"strconv"
	"strings"
	"testing"

	"github.com/continusec/verifiabledatastructures/mutator/instant"
	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/server/httprest"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"golang.org/x/net/context"
	"pgregory.net/rapid"
)

// ---- C25: doc/REST-API.md as an executable model ----

type ctxKey struct{}

// ctxOracle allows API key and name if the context is the one made from the request.
type ctxOracle struct {
	key  string
	want string // value the context must carry
	seen int
	bad  string
}

func (o *ctxOracle) VerifyAllowed(ctx context.Context, account, apiKey, objectName string, p pb.Permission) (*verifiable.AccessModifier, error) {
	o.seen++
	if v, _ := ctx.Value(ctxKey{}).(string); v != o.want {
		o.bad = fmt.Sprintf("context carries %q, want %q", v, o.want)
	}
	if apiKey != o.key {
		return nil, verifiable.ErrNotAuthorized
	}
	return &verifiable.AccessModifier{FieldFilter: verifiable.AllFields}, nil
}

type restWorld struct {
	k    *kase
	st   *refStore
	s    server // unrestricted
	o    *ctxOracle
	base string // of a real HTTP server, or ""
	h    http.Handler
	objs []*object
	n    int
	gets []string // paths answered
	form uint64   // decides how requests are written
}

type restReply struct {
	what   string
	status int
	header http.Header
	body   []byte
}

// call issues a raw HTTP request.
func (w *restWorld) call(t tb, method, path string, body []byte, headers ...string) restReply {
	w.n++
	w.k.Op("%s %s %s", method, path[:min(len(path), 100)], short(body))
	w.o.want = fmt.Sprintf("request %d", w.n)
	headers = append(headers, "X-Test-Context", w.o.want)
	form := w.form * uint64(w.n) * 0x9e3779b97f4a7c15 >> 20
	if len(body) > 0 {
		if ct := []string{"", "", "", "application/x-www-form-urlencoded", "application/json", "text/plain; charset=utf-8", "multipart/form-data; boundary=x"}[form%7]; ct != "" {
			headers = append(headers, "Content-Type", ct)
		}
	}
	chunk := 0
	if len(body) > 0 && form/7%4 == 3 {
		chunk = 1 + int(form/28%uint64(len(body)))
		w.k.Class("chunked")
	}
	what := fmt.Sprintf("%s %s %s %q chunks of %d", method, path, short(body), headers, chunk)
	var resp *http.Response
	if w.base != "" {
		req, err := http.NewRequest(method, w.base+path, bytes.NewReader(body))
		noErr(t, err, "request %s", what)
		if chunk > 0 {
			req.ContentLength = -1
		}
		for i := 0; i < len(headers); i += 2 {
			req.Header.Set(headers[i], headers[i+1])
		}
		resp, err = http.DefaultClient.Do(req)
		noErr(t, err, "%s", what)
		defer resp.Body.Close()
	} else {
		var raw bytes.Buffer
		fmt.Fprintf(&raw, "%s %s HTTP/1.1\r\nHost: h\r\n", method, path)
		for i := 0; i < len(headers); i += 2 {
			fmt.Fprintf(&raw, "%s: %s\r\n", headers[i], headers[i+1])
		}
		if chunk > 0 {
			raw.WriteString("Transfer-Encoding: chunked\r\n\r\n")
			for i := 0; i < len(body); i += chunk {
				c := body[i:min(i+chunk, len(body))]
				fmt.Fprintf(&raw, "%x\r\n%s\r\n", len(c), c)
			}
			raw.WriteString("0\r\n\r\n")
		} else {
			fmt.Fprintf(&raw, "Content-Length: %d\r\n\r\n%s", len(body), body)
		}
		req, err := http.ReadRequest(bufio.NewReader(&raw))
		noErr(t, err, "request %s", what)
		rec := httptest.NewRecorder()
		w.h.ServeHTTP(rec, req)
		resp = rec.Result()
	}
	b, err := io.ReadAll(resp.Body)
	noErr(t, err, "body of %s", what)
	if w.o.bad != "" {
		t.Fatalf("%s: %s", what, w.o.bad)
	}
	if method == "GET" && resp.StatusCode == 200 {
		w.gets = append(w.gets, path)
	}
	return restReply{what, resp.StatusCode, resp.Header, b}
}

func (r restReply) want(t tb, status int) {
	t.Helper()
	if r.status != status {
		t.Fatalf("%s: status %d (%s), want %d", r.what, r.status, short(r.body), status)
	}
}

// into decodes a JSON answer without using the repository's types; unknown members are an error.
func (r restReply) into(t tb, v any) {
	t.Helper()
	r.want(t, 200)
	d := json.NewDecoder(bytes.NewReader(r.body))
	d.DisallowUnknownFields()
	if err := d.Decode(v); err != nil || d.More() {
		t.Fatalf("%s: answer %s: %v", r.what, short(r.body), err)
	}
}

type (
	restAck  struct{ Leaf_hash []byte }
	restLeaf struct {
		Leaf_input, Extra_data []byte
		Format                 int
	}
	restEntries struct{ Values []restLeaf }
	restHead    struct {
		Tree_size int64
		Root_hash []byte
	}
	restMapHead struct {
		Root_hash    []byte
		Mutation_log restHead
	}
	restConsistency struct {
		From_size, Tree_size int64
		Audit_path           [][]byte
	}
	restInclusion struct {
		Leaf_index, Tree_size int64
		Audit_path            [][]byte
	}
)

func (l restLeaf) leaf() *pb.LeafData {
	return &pb.LeafData{LeafInput: l.Leaf_input, ExtraData: l.Extra_data, Format: pb.DataFormat(l.Format)}
}

func restSuffix(t *rapid.T) string {
	return oneOf(t, "format", "", "", "/xjson", "/xjson/redactable", "/extra", "/extra")
}

// payload draws a body for a format, and the leaf data that it stands for (nil: malformed; redactable forms only by value).
func payload(t *rapid.T, k *kase, format string) (body []byte, leaf *pb.LeafData, value any) {
	malformed := pick(t, "malformed", 8) == 0
	switch format {
	case "":
		body = genBytes(pick(t, "big", 20) == 0).Draw(t, "body")
		return body, &pb.LeafData{LeafInput: body}, nil
	case "/xjson", "/xjson/redactable":
		if malformed {
			return []byte(oneOf(t, "badjson", "", "{", "{\"a\":1}}", "nope", "{\"a\":1,}", "[1 2]", "{'a':1}", "\"\\x\"", "tru", "{\"a\":1} x", "\xff")), nil, nil
		}
		value = genJSONValue(t, 3)
		if format != "/xjson" {
			m, ok := value.(map[string]any)
			if !ok {
				m = map[string]any{"v": value}
			}
			value = m
		}
		if value == nil { // a bare null is not used
			value = map[string]any{}
		}
		body = jsonText(t, value)
		return body, &pb.LeafData{LeafInput: refObjectHash(value), ExtraData: body, Format: pb.DataFormat_JSON}, value
	default:
		if malformed {
			return []byte(oneOf(t, "badextra", "", "{", "[]", "1", `{"leaf_input":"!"}`, `{"leaf_input":7}`, `{"leaf_input":"YQ"}`, `{"extra_data":{}}`, `{"format":"JSON"}`, `{"leaf_input":"YQ=="}}`)), nil, nil
		}
		leaf = cloneLeaf(genLeaf(false, true).Draw(t, "leaf"))
		in := base64.StdEncoding.EncodeToString(leaf.LeafInput)
		ex := base64.StdEncoding.EncodeToString(leaf.ExtraData)
		switch {
		case leaf.Format == pb.DataFormat_JSON:
			body = fmt.Appendf(nil, `{"leaf_input": %q, "extra_data":%q,"format":1}`, in, ex)
		case len(leaf.ExtraData) == 0 && pick(t, "omit", 2) == 0:
			body = fmt.Appendf(nil, `{"leaf_input":%q}`, in)
		default:
			body = fmt.Appendf(nil, "{\n\"extra_data\":%q, \"leaf_input\": %q}", ex, in)
		}
		return body, leaf, nil
	}
}

// checkRedactable checks that l is a redactable form of value.
func checkRedactable(t tb, l *pb.LeafData, value any) {
	t.Helper()
	var form any
	noErr(t, json.Unmarshal(l.ExtraData, &form), "redactable form %s", short(l.ExtraData))
	eqBytes(t, l.LeafInput, refObjectHash(form), "leaf input of a redactable form")
	if l.Format != pb.DataFormat_JSON {
		t.Fatalf("redactable form is not marked as JSON: %v", l)
	}
	plain, err := verifiable.ShedRedactedJSONFields(l.ExtraData)
	noErr(t, err, "shedding %s", short(l.ExtraData))
	var got any
	noErr(t, json.Unmarshal(plain, &got), "shed form %s", short(plain))
	if !reflect.DeepEqual(got, value) {
		t.Fatalf("redactable form of %v is %s, which sheds to %s", value, l.ExtraData, plain)
	}
	checkNonces(t, form, value)
}

// checkNonces checks that every member of an object has been replaced by [nonce, value] with a nonce of its own.
func checkNonces(t tb, form, value any) {
	t.Helper()
	switch v := value.(type) {
	case map[string]any:
		f, ok := form.(map[string]any)
		if !ok || len(f) != len(v) {
			t.Fatalf("redactable form of %v is %v", value, form)
		}
		seen := map[string]bool{}
		for key, x := range v {
			p, ok := f[key].([]any)
			if !ok || len(p) != 2 {
				t.Fatalf("member %q of a redactable form: %v", key, f[key])
			}
			nonce, ok := p[0].(string)
			if !ok || len(nonce) < 16 || seen[nonce] {
				t.Fatalf("nonce of member %q of a redactable form: %v", key, p[0])
			}
			seen[nonce] = true
			checkNonces(t, p[1], x)
		}
	case []any:
		f, ok := form.([]any)
		if !ok || len(f) != len(v) {
			t.Fatalf("redactable form of %v is %v", value, form)
		}
		for i := range v {
			checkNonces(t, f[i], v[i])
		}
	default:
		if !reflect.DeepEqual(form, value) {
			t.Fatalf("redactable form of %v is %v", value, form)
		}
	}
}

func (w *restWorld) logPath(t *rapid.T, o *object) (string, *refTree, func(i int64) *pb.LeafData) {
	if !o.isMap {
		return "/v2/account/" + o.account + "/log/" + o.name, &o.lm.tree, func(i int64) *pb.LeafData { return o.lm.entries[i] }
	}
	l, name := o.vmap(w.s, "").MutationLog(), "mutation"
	if pick(t, "treehead", 2) == 0 {
		l, name = o.vmap(w.s, "").TreeHeadLog(), "treehead"
	}
	m := readLogModel(t, l, o.Size())
	return "/v2/account/" + o.account + "/map/" + o.name + "/log/" + name, &m.tree, func(i int64) *pb.LeafData { return m.entries[i] }
}

func number(t *rapid.T, label string, n int64) (string, int64, bool) {
	switch pick(t, label+"-kind", 10) {
	case 0:
		return oneOf(t, label, "9223372036854775808", "99999999999999999999", "18446744073709551616", "18446744073709551617"), 0, false
	case 1:
		v := genPosition(t, label, n)
		return oneOf(t, label+"-zeros", "0", "00", "000000000000000000000000") + strconv.FormatInt(v, 10), v, true
	}
	v := genPosition(t, label, n)
	return strconv.FormatInt(v, 10), v, true
}

// read issues one documented read of o and checks the answer.
func (w *restWorld) read(t *rapid.T, o *object, auth []string) {
	k := w.k
	n := o.Size()
	if o.isMap && pick(t, "mapread", 3) > 0 {
		sizeText, sz, fits := number(t, "size", n)
		if pick(t, "head", 3) == 0 {
			sizeText, sz, fits = "head", 0, true
		}
		eff, ok := size(sz, n)
		p := "/v2/account/" + o.account + "/map/" + o.name + "/tree/" + sizeText
		if pick(t, "root", 3) == 0 {
			k.NT("map-head")
			r := w.call(t, "GET", p, nil, auth...)
			if !ok || !fits {
				r.want(t, 400)
				return
			}
			var h restMapHead
			r.into(t, &h)
			eqBytes(t, h.Root_hash, o.mm.roots[eff], "%s: root hash", r.what)
			if h.Mutation_log.Tree_size != eff {
				t.Fatalf("%s: %+v, want size %d", r.what, h, eff)
			}
			if eff > 0 {
				eqBytes(t, h.Mutation_log.Root_hash, (&refTree{leaves: o.acks}).Root(eff), "%s: mutation log root", r.what)
			}
			return
		}
		keyText, key, good := w.key(t, o)
		format := oneOf(t, "format", "", "", "/xjson", "/extra")
		r := w.call(t, "GET", p+"/key/"+keyText+format, nil, auth...)
		k.NT("value" + format)
		if !ok || !good || !fits {
			r.want(t, 400)
			return
		}
		r.want(t, 200)
		leaf := o.mm.Get(key, eff)
		if leaf == nil {
			leaf = &pb.LeafData{}
		}
		r.data(t, format, leaf)
		ts := r.header["X-Verified-Treesize"]
		if len(ts) != 1 || ts[0] != strconv.FormatInt(eff, 10) {
			t.Fatalf("%s: X-Verified-Treesize is %q, want %d", r.what, ts, eff)
		}
		path := make([][]byte, 256)
		for _, line := range r.header["X-Verified-Proof"] {
			for _, e := range strings.Split(line, ",") { // lines may be joined on their way
				d, hx, _ := strings.Cut(strings.TrimSpace(e), "/")
				i, err := strconv.Atoi(d)
				h, err2 := hex.DecodeString(hx)
				if err != nil || err2 != nil || i < 0 || i > 255 || len(h) != 32 || path[i] != nil {
					t.Fatalf("%s: proof header %q", r.what, line)
				}
				path[i] = h
			}
		}
		if !refVerifyMap(key, leaf.LeafInput, path, o.mm.roots[eff]) {
			t.Fatalf("%s: the value does not verify with the proof in the headers (%q)", r.what, r.header["X-Verified-Proof"])
		}
		if len(r.header["X-Verified-Proof"]) > 1 {
			k.NT("proof-headers")
		}
		return
	}
	prefix, tree, entry := w.logPath(t, o)
	switch pick(t, "logread", 8) {
	case 0:
		text, i, fits := number(t, "number", n)
		format := oneOf(t, "format", "", "/xjson", "/extra")
		r := w.call(t, "GET", prefix+"/entry/"+text+format, nil, auth...)
		k.NT("entry" + format)
		if !fits || i >= n {
			r.want(t, 400)
			return
		}
		r.want(t, 200)
		r.data(t, format, entry(i))
	case 1:
		a, lo, fits := number(t, "first", n)
		b, hi, fits2 := number(t, "last", n)
		r := w.call(t, "GET", prefix+"/entries/"+a+"-"+b+oneOf(t, "format", "", "/xjson", "/extra"), nil, auth...)
		k.NT("entries")
		if hi == 0 {
			hi = n
		}
		if !fits || !fits2 || hi > n || lo >= hi {
			r.want(t, 400)
			return
		}
		var e restEntries
		r.into(t, &e)
		if int64(len(e.Values)) != hi-lo {
			t.Fatalf("%s: %d entries, want %d", r.what, len(e.Values), hi-lo)
		}
		for i, v := range e.Values {
			eqLeaf(t, v.leaf(), entry(lo+int64(i)), "%s: entry %d", r.what, i)
		}
	case 2:
		text, sz, fits := number(t, "size", n)
		if pick(t, "head", 3) == 0 {
			text, sz, fits = "head", 0, true
		}
		eff, ok := size(sz, n)
		r := w.call(t, "GET", prefix+"/tree/"+text, nil, auth...)
		k.NT("head")
		if !fits || !ok {
			r.want(t, 400)
			return
		}
		var h restHead
		r.into(t, &h)
		if h.Tree_size != eff {
			t.Fatalf("%s: %+v, want size %d", r.what, h, eff)
		}
		if eff > 0 {
			eqBytes(t, h.Root_hash, tree.Root(eff), "%s: root", r.what)
		}
	case 3, 4:
		a, from, fits := number(t, "from", n)
		b, sz, fits2 := number(t, "size", n)
		eff, ok := size(sz, n)
		r := w.call(t, "GET", prefix+"/tree/"+b+"/consistency/"+a, nil, auth...)
		k.NT("consistency")
		if !fits || !fits2 || !ok || from < 1 || from >= eff {
			r.want(t, 400)
			return
		}
		var c restConsistency
		r.into(t, &c)
		if c.From_size != from || c.Tree_size != eff {
			t.Fatalf("%s: %+v, want sizes %d and %d", r.what, c, from, eff)
		}
		eqPath(t, c.Audit_path, tree.Proof(from, eff), "%s: proof", r.what)
	default:
		text, sz, fits := number(t, "size", n)
		eff, ok := size(sz, n)
		var sel string
		idx, good := n, true
		switch pick(t, "by", 4) {
		case 0:
			var f bool
			sel, idx, f = number(t, "index", n)
			fits = fits && f
		case 1: // a string, often one that is an entry
			s := oneOf(t, "string", "foo", "bar", "leaf-1", "leaf-5", "A_b-0", "x")
			if !o.isMap && n > 0 && pick(t, "own", 2) == 0 {
				if li := o.lm.entries[between(t, "which", 0, n-1)].LeafInput; plainName(string(li)) {
					s = string(li)
				}
			}
			if i, ok := o.lm.index[s]; ok {
				idx = int64(i)
			}
			sel = "s/" + s
		default:
			h := expand(uint64(pick(t, "seed", 100)), 32)
			if n > 0 && pick(t, "known", 4) > 0 {
				idx = between(t, "which", 0, n-1)
				h = tree.leaves[idx]
			}
			sel = "h/" + hex.EncodeToString(h)
			if pick(t, "oddhex", 12) == 0 {
				sel, good = sel[:len(sel)-1], false
			}
		}
		r := w.call(t, "GET", prefix+"/tree/"+text+"/inclusion/"+sel, nil, auth...)
		if len(sel) > 1 && sel[1] == '/' {
			k.NT("inclusion/" + sel[:1])
		} else {
			k.NT("inclusion/index")
		}
		switch {
		case !good || !fits:
			r.want(t, 400)
		case !ok && idx >= n: // wrong in two ways
			if r.status != 400 && r.status != 404 {
				t.Fatalf("%s: status %d", r.what, r.status)
			}
		case !ok:
			r.want(t, 400)
		case idx >= n:
			r.want(t, 404)
		case idx >= eff:
			r.want(t, 400)
		default:
			var p restInclusion
			r.into(t, &p)
			if p.Leaf_index != idx || p.Tree_size != eff {
				t.Fatalf("%s: %+v, want index %d in %d", r.what, p, idx, eff)
			}
			eqPath(t, p.Audit_path, tree.Path(idx, eff), "%s: path", r.what)
		}
	}
}

// data checks the body of a single value or entry.
func (r restReply) data(t tb, format string, leaf *pb.LeafData) {
	t.Helper()
	switch format {
	case "":
		eqBytes(t, r.body, leaf.LeafInput, "%s: body", r.what)
	case "/xjson":
		eqBytes(t, r.body, leaf.ExtraData, "%s: body", r.what)
	default:
		var l restLeaf
		r.into(t, &l)
		eqLeaf(t, l.leaf(), leaf, "%s: body", r.what)
	}
}

func plainName(s string) bool {
	for _, c := range s {
		if !strings.ContainsRune("0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ-_", c) {
			return false
		}
	}
	return s != ""
}

// key draws a key of the pool (or another) in one of its spellings.
func (w *restWorld) key(t *rapid.T, o *object) (text string, key []byte, good bool) {
	key = oneOf(t, "key", o.keys...)
	if pick(t, "otherkey", 6) == 0 {
		key = []byte(oneOf(t, "unknown", "zzz", "Foo", "0", "a-b_c"))
	}
	if plainName(string(key)) && pick(t, "string", 2) == 0 {
		return "s/" + string(key), key, true
	}
	text = "h/" + hex.EncodeToString(key)
	if pick(t, "oddkey", 20) == 0 {
		return text[:len(text)-1] + strings.Repeat("0", 2*(len(key)%2)), nil, false
	}
	return text, key, true
}

// write issues one documented write and checks its effect; without authority it must have none.
func (w *restWorld) write(t *rapid.T, o *object, auth []string, authorised bool) {
	k := w.k
	if !o.isMap {
		format := restSuffix(t)
		body, leaf, value := payload(t, k, format)
		r := w.call(t, "POST", "/v2/account/"+o.account+"/log/"+o.name+"/entry"+format, body, auth...)
		k.NT("add" + format)
		if leaf == nil {
			if authorised || r.status != 401 {
				r.want(t, 400)
			}
			return
		}
		if !authorised {
			r.want(t, 401)
			return
		}
		var a restAck
		r.into(t, &a)
		if format == "/xjson/redactable" {
			if i, ok := o.lm.index[string(refObjectHash(value))]; ok && bytes.Equal(a.Leaf_hash, o.lm.tree.leaves[i]) {
				return // without members there are no nonces, so it can be there already
			}
			e, err := o.log(w.s, "").Entry(bg, o.Size())
			noErr(t, err, "entry added by %s", r.what)
			checkRedactable(t, e, value)
			leaf = e
		}
		eqBytes(t, a.Leaf_hash, refLeafHash(leaf.LeafInput), "%s: leaf hash", r.what)
		o.lm.Add(leaf)
		return
	}
	keyText, key, good := w.key(t, o)
	p := "/v2/account/" + o.account + "/map/" + o.name + "/key/" + keyText
	var mu mapMut
	var r restReply
	var value any
	format := ""
	if pick(t, "delete", 4) == 0 {
		mu = mapMut{Action: "delete", Key: key}
		r = w.call(t, "DELETE", p, nil, auth...)
		k.NT("delete")
	} else {
		format = restSuffix(t)
		var body []byte
		body, mu.Value, value = payload(t, k, format)
		mu.Action, mu.Key = "set", key
		if mu.Value == nil {
			good = false
		}
		headers := auth
		k.NT("set" + format)
		if pick(t, "conditional", 3) == 0 {
			mu.Action = "update"
			name := oneOf(t, "header", "X-Previous-LeafHash", "X-Previous-Leafhash", "x-previous-leafhash", "X-PREVIOUS-LEAFHASH")
			switch pick(t, "prev", 5) {
			case 0:
				mu.Prev = refLeafHash(nil) // no value
			case 1:
				mu.Prev = expand(uint64(pick(t, "seed", 50)), 32)
			case 2:
				if pick(t, "bad", 2) == 0 {
					headers = append(headers[:len(headers):len(headers)], name, oneOf(t, "badprev", "abc", "xyz", "0g", "12 34"))
					good = false
					break
				}
				fallthrough
			default:
				mu.Prev = refLeafHash(o.mm.Get(key, o.Size()).GetLeafInput())
			}
			if mu.Prev != nil {
				headers = append(headers[:len(headers):len(headers)], name, hex.EncodeToString(mu.Prev))
			}
			k.NT("conditional")
		}
		r = w.call(t, "PUT", p+format, body, headers...)
	}
	if !good {
		if authorised || r.status != 401 {
			r.want(t, 400)
		}
		return
	}
	if !authorised {
		r.want(t, 401)
		return
	}
	var a restAck
	r.into(t, &a)
	e, err := o.vmap(w.s, "").MutationLog().Entry(bg, o.Size())
	noErr(t, err, "mutation made by %s", r.what)
	eqBytes(t, a.Leaf_hash, refLeafHash(e.LeafInput), "%s: leaf hash", r.what)
	if format == "/xjson/redactable" {
		mj := decodeJSON[jsonMutation](t, e.ExtraData, "mutation")
		if mj.Value == nil {
			t.Fatalf("%s: mutation without a value: %s", r.what, e.ExtraData)
		}
		mu.Value = &pb.LeafData{LeafInput: mj.Value.LeafInput, ExtraData: mj.Value.ExtraData, Format: pb.DataFormat(mj.Value.Format)}
		checkRedactable(t, mu.Value, value)
	}
	o.acks = append(o.acks, a.Leaf_hash)
	o.mm.Apply(mu)
}

var undocumented = []string{"DELETE /v2/account/A/log/N/entry/0", "PUT /v2/account/A/log/N/entry", "POST /v2/account/A/log/N/entry/0", "POST /v2/account/A/map/N/key/s/foo", "DELETE /v2/account/A/log/N", "DELETE /v2/account/A/map/N",
	"POST /v2/account/A/map/N/log/mutation/entry", "POST /v2/account/A/map/N/log/treehead/entry", "POST /v2/account/A/map/N/log/mutation/entry/extra", "PUT /v2/account/A/map/N/tree/head/key/s/foo", "POST /v2/account/A/log/N/entries/0-1", "DELETE /v2/account/A/map/N/tree/head/key/s/foo",
	"PUT /v1/account/A/map/N/key/s/foo", "POST /v2/account/A/log/N/entry/nonsense", "PATCH /v2/account/A/map/N/key/s/foo", "PUT /v2/account/A/map/N/key/foo", "POST /v2/account/A/log/N", "DELETE /v2/account/A/map/N/key/s/foo/extra",
	"GET /v2/account/A/map/N/key/s/foo", "GET /v2/account/A/log/N/entry/-1", "GET /v2/account/A/log/N/tree/-1", "GET /v2/account/A/log/N/entry", "GET /v2/account/A/log/N/tree/1/inclusion/-1", "GET /v2/account/A/log/N/tree/1/consistency/-1", "GET /v2/account/A/nothing/N/tree/head"}

func TestC25_Routes(t *testing.T) {
	check(t, 16000, 220000, func(t *rapid.T) {
		k := newCase("C25")
		w := &restWorld{k: k, st: newRefStore(), o: &ctxOracle{key: oneOf(t, "apikey", restKeys...)}, form: rapid.Uint64().Draw(t, "form")}
		w.s = newService(w.st, &instant.Mutator{Writer: w.st}, nil)
		w.h = httprest.CreateRESTHandler(newService(w.st, &instant.Mutator{Writer: w.st}, w.o), func(r *http.Request) context.Context {
			return context.WithValue(context.Background(), ctxKey{}, r.Header.Get("X-Test-Context"))
		}, nil)
		if pick(t, "sockets", 40) == 0 {
			srv := httptest.NewServer(w.h)
			defer srv.Close()
			defer http.DefaultClient.CloseIdleConnections()
			w.base = srv.URL
			k.Class("socket")
		}
		var auth []string
		if w.o.key != "" {
			auth = []string{oneOf(t, "authheader", "Authorization", "authorization"), "Key " + w.o.key}
		}
		var keys [][]byte
		for _, key := range genKeyPool(6).Draw(t, "pool") {
			if len(key) > 0 {
				keys = append(keys, key)
			}
		}
		keys = append(keys, []byte("foo"))
		account := oneOf(t, "account", restAccounts...)
		for i := 1 + pick(t, "objects", 3); i > 0; i-- {
			o := newObject(account, oneOf(t, "name", restNames...), pick(t, "map", 2) == 0, keys)
			for _, x := range w.objs {
				if x.name == o.name && x.isMap == o.isMap {
					o = nil
					break
				}
			}
			if o != nil {
				w.objs = append(w.objs, o)
			}
		}
		w.objs = append(w.objs, newObject(oneOf(t, "account2", restAccounts...)+"5", w.objs[0].name, w.objs[0].isMap, keys))
		for i := 4 + pick(t, "steps", 40); i > 0; i-- {
			o := w.objs[pick(t, "obj", len(w.objs))]
			switch pick(t, "step", 8) {
			case 0, 1, 2:
				w.write(t, o, auth, true)
			case 3:
				a := oneOf(t, "wrongauth", []string{}, []string{"Authorization", "Key wrong"}, []string{"Authorization", "Basic " + w.o.key}, []string{"Authorization", "Bearer x"}, []string{"X-Authorization", "Key " + w.o.key}, []string{"Authorization", w.o.key + "x"})
				if w.o.key == "" {
					a = []string{"Authorization", "Key wrong"}
				}
				before := w.st.Clone()
				if pick(t, "write", 2) == 0 {
					w.write(t, o, a, false)
				} else {
					p := "/v2/account/" + o.account + map[bool]string{true: "/map/", false: "/log/"}[o.isMap] + o.name + "/tree/head"
					if len(w.gets) > 0 && pick(t, "answered before", 4) > 0 {
						p = oneOf(t, "answered", w.gets...)
						k.Class("answered-to-another-key")
					}
					r := w.call(t, "GET", p, nil, a...)
					r.want(t, 401)
					if len(r.body) > 0 {
						t.Fatalf("%s: refused with a body: %s", r.what, r.body)
					}
				}
				if !w.st.equal(before) {
					t.Fatalf("a refused request changed stored data")
				}
				k.NT("unauthorised")
			case 4:
				m, p, _ := strings.Cut(oneOf(t, "undocumented", undocumented...), " ")
				p = strings.NewReplacer("A", o.account, "N", o.name).Replace(p)
				before := w.st.Clone()
				r := w.call(t, m, p, []byte("x"), auth...)
				if r.status < 300 {
					t.Fatalf("%s: status %d", r.what, r.status)
				}
				if !w.st.equal(before) {
					t.Fatalf("%s changed stored data", r.what)
				}
				k.Class("undocumented")
			default:
				before := w.st.Clone()
				w.read(t, o, auth)
				if !w.st.equal(before) {
					t.Fatalf("a read changed stored data")
				}
			}
		}
		for _, o := range w.objs {
			k.Op("%s %d", o, o.Size())
			o.full(t, w.s, "", 4)
		}
		k.Op("%d requests", w.n)
		k.Done()
	})
}

// Pages need no key and have no effect, nor do the requests by which a browser asks whether it may.
func TestC25_Pages(t *testing.T) {
	pages := map[string][2]string{"/": {"index.html", "text/html"}, "/continusec.js": {"continusec.js", "text/javascript"}, "/log.js": {"log.js", "text/javascript"},
		"/favicon.ico": {"favicon.ico", "image/x-icon"}, "/logo.png": {"logo.png", "image/png"}, "/main.css": {"main.css", "text/css"}}
	want := map[string][]byte{}
	for p, f := range pages {
		b, err := os.ReadFile("/repo/assets/static/" + f[0])
		noErr(t, err, "page")
		want[p] = b
	}
	check(t, 2000, 20000, func(t *rapid.T) {
		k := newCase("C25")
		k.Class("pages")
		w := &restWorld{k: k, st: newRefStore(), o: &ctxOracle{key: "key"}}
		w.s = newService(w.st, &instant.Mutator{Writer: w.st}, nil)
		w.h = httprest.CreateRESTHandler(newService(w.st, &instant.Mutator{Writer: w.st}, w.o), func(r *http.Request) context.Context {
			return context.WithValue(context.Background(), ctxKey{}, r.Header.Get("X-Test-Context"))
		}, nil)
		keys := [][]byte{[]byte("foo")}
		w.objs = []*object{newObject("1", "n", false, keys), newObject("1", "n", true, keys)}
		auth := []string{"Authorization", "Key key"}
		for i := 1 + pick(t, "steps", 12); i > 0; i-- {
			o := w.objs[pick(t, "obj", 2)]
			before := w.st.Clone()
			h := [][]string{nil, auth, {"Authorization", "Key wrong"}}[pick(t, "auth", 3)]
			origin := oneOf(t, "origin", "", "http://other.example", "null")
			if origin != "" {
				h = append(slices.Clone(h), "Origin", origin)
			}
			switch pick(t, "step", 3) {
			case 0:
				w.write(t, o, auth, true)
				continue
			case 1:
				p := oneOf(t, "page", slices.Sorted(maps.Keys(pages))...)
				r := w.call(t, "GET", p, nil, h...)
				r.want(t, 200)
				if ct, _, _ := strings.Cut(r.header.Get("Content-Type"), ";"); ct != pages[p][1] {
					t.Fatalf("%s has type %q", p, ct)
				}
				eqBytes(t, r.body, want[p], "page %s", p)
				k.NT("page")
			default:
				p := oneOf(t, "path", "/", "/continusec.js", "/v2/account/1/log/n/entry", "/v2/account/1/map/n/key/h/666f6f", "/v2/account/1/map/n/key/s/foo/xjson", "/v2/account/1/log/n/tree/head", "/v2/account/1/log/n/entries/0-3/extra")
				m := oneOf(t, "method", "GET", "POST", "PUT", "DELETE", "")
				if m != "" {
					h = append(slices.Clone(h), "Access-Control-Request-Method", m, "Access-Control-Request-Headers", oneOf(t, "headers", "authorization", "Authorization, Content-Type", "accept"))
				}
				r := w.call(t, "OPTIONS", p, nil, h...)
				if origin != "" && m != "" { // a browser asks
					if r.status >= 300 || r.header.Get("Access-Control-Allow-Origin") != "*" {
						t.Fatalf("%s: status %d, headers %v", r.what, r.status, r.header)
					}
				} else if r.status >= 500 {
					t.Fatalf("%s: status %d", r.what, r.status)
				}
				k.NT("options")
			}
			if !w.st.equal(before) {
				t.Fatalf("a request for a page changed stored data")
			}
		}
		for _, o := range w.objs {
			o.full(t, w.s, "", 2)
		}
		k.Done()
	})
}
