package harness

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"math"
	"net/http"
	"net/http/httptest"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/continusec/verifiabledatastructures/mutator/batch"
	"github.com/continusec/verifiabledatastructures/mutator/instant"
	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/server/httprest"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
)

// ---- C21 ----

// robustWorld is a service with a few objects that are watched while arbitrary requests arrive.
type robustWorld struct {
	st    *refStore
	s     server
	batch bool
	objs  []*object
	wild  map[*object]bool // objects that had accepted mutations outside the model
	keys  [][]byte
}

func newRobustWorld(t *rapid.T, k *kase, names ...string) *robustWorld {
	w := &robustWorld{st: newRefStore(), wild: map[*object]bool{}, keys: genKeyPool(4).Draw(t, "pool")}
	w.batch = pick(t, "batch", 3) == 0
	m := verifiable.MutatorService(&instant.Mutator{Writer: w.st})
	if w.batch {
		k.Class("batch")
		m = (&batch.Mutator{Writer: w.st, BatchSize: oneOf(t, "batchSize", 1, 3, 10), Timeout: 100 * time.Microsecond, BufferSize: oneOf(t, "buffer", 0, 8)}).MustCreate()
	}
	w.s = newService(w.st, m, nil)
	for i := 0; i < 2*len(names); i++ {
		w.objs = append(w.objs, newObject("1", names[i/2], i%2 == 1, w.keys))
	}
	for _, o := range w.objs {
		for i := pick(t, "initial", 5); i > 0; i-- {
			o.step(t, k, w.s, "")
		}
	}
	w.settle(t)
	return w
}

// settle waits for the batch mutator.
func (w *robustWorld) settle(t tb) {
	if w.batch {
		for _, o := range w.objs {
			if !w.wild[o] {
				o.awaitSize(t, w.s, o.Size(), 20*time.Second)
			}
		}
	}
}

// check compares everything with the models; an object with unusual mutations must pass an audit.
func (w *robustWorld) check(t tb) {
	for _, o := range w.objs {
		if !w.wild[o] {
			o.full(t, w.s, "", 3)
			continue
		}
		o.audit(t, w.s)
	}
}

// audit runs the client's audit over everything a map holds.
func (o *object) audit(t tb, s server) {
	vm := o.vmap(s, "")
	h, err := vm.TreeHead(bg, 0)
	noErr(t, err, "head of %s", o)
	if h.MutationLog.TreeSize == 0 {
		return
	}
	ms, err := vm.VerifiedMapState(bg, nil, 0)
	noErr(t, err, "state of %s", o)
	noErr(t, vm.VerifyMap(bg, nil, ms, nil, nil), "audit of %s", o)
}

func oddString(t *rapid.T, label string, usual ...string) string {
	if pick(t, label+"-usual", 6) > 0 {
		return oneOf(t, label, usual...)
	}
	return oneOf(t, label, "", "0", "-1", "*", "/", "..", "a b", "\x00", "日本", "log", strings.Repeat("n", 5000), redacted, redacted+"zz", "%s%n", "'; DROP", "\n", "set", "SET", "Update", "delete ")
}

func oddInt(t *rapid.T, label string, n int64) int64 {
	switch pick(t, label+"-kind", 5) {
	case 0:
		return oneOf[int64](t, label, math.MinInt64, math.MinInt64+1, math.MaxInt64, math.MaxInt64-1, -1, -2, 1<<31, 1<<32, 1<<62, 1<<62+1, -1<<31, 1<<20, 1<<40)
	case 1:
		return n + between(t, label, -1, 2)
	default:
		return between(t, label, 0, max(1, n))
	}
}

func (w *robustWorld) account(t *rapid.T) *pb.AccountRef {
	switch pick(t, "accountref", 16) {
	case 0:
		return nil
	case 1:
		return &pb.AccountRef{}
	}
	return &pb.AccountRef{Id: oddString(t, "account", "1"), ApiKey: oddString(t, "apikey", "", "k")}
}

func (w *robustWorld) logRef(t *rapid.T, o *object) *pb.LogRef {
	if pick(t, "logref", 16) == 0 {
		return nil
	}
	lt := pb.LogType_STRUCT_TYPE_LOG
	if o.isMap {
		lt = oneOf(t, "maplog", pb.LogType_STRUCT_TYPE_MUTATION_LOG, pb.LogType_STRUCT_TYPE_TREEHEAD_LOG)
	}
	if pick(t, "oddtype", 8) == 0 {
		lt = oneOf[pb.LogType](t, "type", 0, 1, 2, 3, -1, 99, math.MaxInt32, math.MinInt32)
	}
	return &pb.LogRef{Account: w.account(t), Name: oddString(t, "name", o.name), LogType: lt}
}

func (w *robustWorld) mapRef(t *rapid.T, o *object) *pb.MapRef {
	if pick(t, "mapref", 16) == 0 {
		return nil
	}
	return &pb.MapRef{Account: w.account(t), Name: oddString(t, "name", o.name)}
}

func oddBytes(t *rapid.T, label string) []byte {
	switch pick(t, label+"-kind", 8) {
	case 0:
		return nil
	case 1:
		return []byte{}
	case 2:
		return expand(uint64(pick(t, label, 100)), oneOf(t, label+"-len", 31, 32, 33, 64, 1000, 100000))
	}
	return genBytes(false).Draw(t, label)
}

func oddLeaf(t *rapid.T) *pb.LeafData {
	switch pick(t, "leafdata", 8) {
	case 0:
		return nil
	case 1:
		return &pb.LeafData{}
	}
	return &pb.LeafData{LeafInput: oddBytes(t, "input"), ExtraData: oddBytes(t, "extra"), Format: oneOf[pb.DataFormat](t, "format", 0, 0, 0, 1, 2, -1, math.MaxInt32)}
}

// request draws any request; done is called with the response to a successful one.
func (w *robustWorld) request(t *rapid.T, k *kase) (what string, do func(s server) (proto.Message, error), done func(m proto.Message)) {
	o := w.objs[pick(t, "obj", len(w.objs))]
	n := o.Size()
	none := func(proto.Message) {}
	find := func(account *pb.AccountRef, name string, isMap bool) *object {
		for _, x := range w.objs {
			if account.GetId() == x.account && name == x.name && isMap == x.isMap {
				return x
			}
		}
		return nil
	}
	var q proto.Message
	switch pick(t, "operation", 9) {
	case 0:
		r := &pb.LogAddEntryRequest{Log: w.logRef(t, o), Value: oddLeaf(t)}
		q, do = r, func(s server) (proto.Message, error) { m, err := s.LogAddEntry(bg, r); return m, err }
		done = func(proto.Message) {
			if x := find(r.GetLog().GetAccount(), r.GetLog().GetName(), false); x != nil {
				x.lm.Add(r.Value)
			}
		}
	case 1:
		r := &pb.LogFetchEntriesRequest{Log: w.logRef(t, o), First: oddInt(t, "first", n), Last: oddInt(t, "last", n)}
		q, do, done = r, func(s server) (proto.Message, error) { m, err := s.LogFetchEntries(bg, r); return m, err }, none
	case 2:
		r := &pb.LogTreeHashRequest{Log: w.logRef(t, o), TreeSize: oddInt(t, "size", n)}
		q, do, done = r, func(s server) (proto.Message, error) { m, err := s.LogTreeHash(bg, r); return m, err }, none
	case 3:
		r := &pb.LogInclusionProofRequest{Log: w.logRef(t, o), TreeSize: oddInt(t, "size", n), LeafIndex: oddInt(t, "index", n)}
		if pick(t, "hash", 2) == 0 {
			r.MtlHash = oddBytes(t, "mtl")
			if !o.isMap && n > 0 && pick(t, "known", 2) == 0 {
				r.MtlHash = o.lm.tree.leaves[pick(t, "leaf", int(n))]
			}
		}
		q, do, done = r, func(s server) (proto.Message, error) { m, err := s.LogInclusionProof(bg, r); return m, err }, none
	case 4:
		r := &pb.LogConsistencyProofRequest{Log: w.logRef(t, o), FromSize: oddInt(t, "from", n), TreeSize: oddInt(t, "size", n)}
		q, do, done = r, func(s server) (proto.Message, error) { m, err := s.LogConsistencyProof(bg, r); return m, err }, none
	case 5, 6:
		r := &pb.MapSetValueRequest{Map: w.mapRef(t, o)}
		if pick(t, "mutation", 10) > 0 {
			r.Mutation = &pb.MapMutation{Action: oddString(t, "action", "set", "delete", "update"), Key: oddBytes(t, "key"), Value: oddLeaf(t)}
			if pick(t, "poolkey", 2) == 0 {
				r.Mutation.Key = w.keys[pick(t, "which", len(w.keys))]
			}
			if r.Mutation.Action == "update" || pick(t, "oddprev", 8) == 0 {
				r.Mutation.PreviousLeafHash = oddBytes(t, "prev")
			}
			if r.Mutation.Action == "delete" && pick(t, "plain", 2) == 0 {
				r.Mutation.Value = nil
			}
			if pick(t, "ts", 8) == 0 {
				r.Mutation.Timestamp = oddString(t, "timestamp", "2017-04-20T09:09:25.865086412+10:00")
			}
		}
		q, do = r, func(s server) (proto.Message, error) { m, err := s.MapSetValue(bg, r); return m, err }
		done = func(m proto.Message) {
			x := find(r.GetMap().GetAccount(), r.GetMap().GetName(), true)
			if x == nil {
				return
			}
			mu := r.Mutation
			if mu.Action == "delete" && mu.Value != nil || mu.Action != "update" && len(mu.PreviousLeafHash) > 0 {
				w.wild[x] = true
				k.NT("wild-mutation")
				return
			}
			x.acks = append(x.acks, m.(*pb.MapSetValueResponse).LeafHash)
			x.mm.Apply(mapMut{Action: mu.Action, Key: mu.Key, Value: mu.Value, Prev: mu.PreviousLeafHash})
		}
	case 7:
		r := &pb.MapGetValueRequest{Map: w.mapRef(t, o), Key: oddBytes(t, "key"), TreeSize: oddInt(t, "size", n)}
		q, do, done = r, func(s server) (proto.Message, error) { m, err := s.MapGetValue(bg, r); return m, err }, none
	default:
		r := &pb.MapTreeHashRequest{Map: w.mapRef(t, o), TreeSize: oddInt(t, "size", n)}
		q, do, done = r, func(s server) (proto.Message, error) { m, err := s.MapTreeHash(bg, r); return m, err }, none
	}
	what = fmt.Sprint(q)
	return fmt.Sprintf("%T %s", q, what[:min(300, len(what))]), do, done
}

func TestC21_Requests(t *testing.T) {
	check(t, 8000, 120000, func(t *rapid.T) {
		k := newCase("C21")
		w := newRobustWorld(t, k, "x")
		for i := 1 + pick(t, "requests", 20); i > 0; i-- {
			what, do, done := w.request(t, k)
			s, via := w.s, "in process"
			switch pick(t, "via", 6) {
			case 0:
				s, via = grpcClient(w.s), "gRPC"
			case 1:
				s, via = restClient(w.s, nil), "REST"
			}
			k.Op("%s: %s", via, what)
			before := w.st.Clone()
			m, err := do(s)
			if err != nil {
				k.NT("refused")
				if !w.batch && !w.st.equal(before) {
					t.Fatalf("%s %s was answered %v and changed stored data", via, what, err)
				}
				continue
			}
			if isNilMsg(m) {
				t.Fatalf("%s %s: neither a response nor an error", via, what)
			}
			k.NT("answered")
			done(m)
			if pick(t, "glance", 6) == 0 && !w.batch {
				for _, o := range w.objs {
					if !w.wild[o] {
						o.glance(t, w.s, "")
					}
				}
			}
		}
		w.settle(t)
		w.check(t)
		// and normal traffic goes on
		for _, o := range w.objs {
			if !w.wild[o] {
				o.step(t, k, w.s, "")
			}
		}
		w.settle(t)
		w.check(t)
		k.Done()
	})
}

// ---- raw HTTP ----

var httpSegments = []string{"v2", "account", "1", "log", "map", "x", "entry", "entries", "tree", "key", "h", "s", "head", "inclusion", "consistency", "mutation", "treehead", "extra", "xjson", "redactable",
	"0", "2", "00", "-1", "1-2", "0-0", "5-1", "9223372036854775807", "9223372036854775808", "18446744073709551616", "99999999999999999999999", "9223372036854775807-9223372036854775807", "0-9223372036854775807",
	"61", "6", "zz", "AB", "..", ".", "", "%2F", "%00", "%", "%zz", "日本", "a%20b", "*", "~", "index.html", "favicon.ico", "main.css", strings.Repeat("a", 3000), "0-1-2", "1e3", "+1", "0x1", "v1"}

var httpRoutes = []string{
	"/v2/account/1/log/x/entry", "/v2/account/1/log/x/entry/xjson", "/v2/account/1/log/x/entry/xjson/redactable", "/v2/account/1/log/x/entry/extra",
	"/v2/account/1/log/x/entry/0", "/v2/account/1/log/x/entry/9223372036854775807", "/v2/account/1/log/x/entry/0/xjson", "/v2/account/1/log/x/entry/1/extra", "/v2/account/1/log/x/entries/0-2", "/v2/account/1/log/x/entries/0-9223372036854775807/extra",
	"/v2/account/1/log/x/entries/1-0/xjson", "/v2/account/1/log/x/tree/head", "/v2/account/1/log/x/tree/1", "/v2/account/1/log/x/tree/1/inclusion/0", "/v2/account/1/log/x/tree/0/inclusion/h/6e340b9cffb37a989ca544e6bb780a2c78901d3fb33738768511a30617afa01d",
	"/v2/account/1/log/x/tree/0/inclusion/h/abc", "/v2/account/1/log/x/tree/2/inclusion/s/foo", "/v2/account/1/log/x/tree/2/consistency/1", "/v2/account/1/log/x/tree/9223372036854775807/consistency/1",
	"/v2/account/1/map/x/log/mutation/entry/0", "/v2/account/1/map/x/log/mutation/entry", "/v2/account/1/map/x/log/mutation/tree/head", "/v2/account/1/map/x/log/treehead/entries/0-3", "/v2/account/1/map/x/log/treehead/tree/1/inclusion/0",
	"/v2/account/1/map/x/key/s/foo", "/v2/account/1/map/x/key/h/666f6f", "/v2/account/1/map/x/key/h/666", "/v2/account/1/map/x/key/s/foo/xjson", "/v2/account/1/map/x/key/h/00/extra", "/v2/account/1/map/x/key/s/foo/xjson/redactable",
	"/v2/account/1/map/x/tree/head/key/s/foo", "/v2/account/1/map/x/tree/0/key/h/666f6f/extra", "/v2/account/1/map/x/tree/1/key/h/666f6f/xjson", "/v2/account/1/map/x/tree/head", "/v2/account/1/map/x/tree/99999999999999999999/key/s/foo",
	"/", "/continusec.js", "/favicon.ico", "/log.js", "/logo.png", "/main.css", "*", "/v2", "//",
}

func genHTTPPath(t *rapid.T) string {
	switch pick(t, "pathkind", 6) {
	case 0: // segments at random
		p := ""
		for i := pick(t, "segments", 10); i > 0; i-- {
			p += "/" + oneOf(t, "segment", httpSegments...)
		}
		return p
	case 1, 2: // a route with a segment replaced, inserted or removed
		s := strings.Split(oneOf(t, "route", httpRoutes...), "/")
		i := pick(t, "at", len(s))
		switch pick(t, "edit", 4) {
		case 0:
			s = append(s[:i:i], s[min(len(s), i+1):]...)
		case 1:
			s = append(s[:i:i], append([]string{oneOf(t, "segment", httpSegments...)}, s[i:]...)...)
		default:
			s[i] = oneOf(t, "segment", httpSegments...)
		}
		return strings.Join(s, "/")
	}
	p := oneOf(t, "route", httpRoutes...)
	if pick(t, "query", 12) == 0 {
		p += oneOf(t, "suffix", "?", "?a=b", "#x", "/", "//", ";", "?%zz")
	}
	return p
}

func genHTTPBody(t *rapid.T) []byte {
	switch pick(t, "body", 8) {
	case 0:
		return nil
	case 1:
		return genBytes(false).Draw(t, "bytes")
	case 2:
		return jsonText(t, genJSONValue(t, 3))
	case 3:
		return []byte(oneOf(t, "json", "null", "{}", "[]", "{", "\"\"", "0", `{"leaf_input":1}`, `{"leaf_input":"!"}`, `{"leaf_input":null,"extra_data":[]}`, `{"format":"JSON"}`, `{"format":-1}`, `{"format":99999999999}`,
			`{"leaf_input":"YWJj","extra_data":"YWJj","format":1}`, `{"Leaf_Input":"YQ=="}`, `{"leaf_input":"YQ"}`, `{"a":"`+redacted+`"}`, `{"a":"`+redacted+`00"}`, `"`+redacted+`zz"`, strings.Repeat("[", 2000)+strings.Repeat("]", 2000), strings.Repeat("[", 20000), `{"a":1e400}`, `{"a":1,"a":2}`))
	case 4:
		return []byte(`{"leaf_input":"` + "YWJj" + `","extra_data":"eyJhIjoxfQ=="}`)
	default:
		return []byte(oneOf(t, "text", "foo", "bar", "x", "0"))
	}
}

func genHeaders(t *rapid.T) string {
	h := ""
	for i := pick(t, "headers", 4); i > 0; i-- {
		h += oneOf(t, "header", "Authorization: Key k", "Authorization: Key ", "Authorization: Key a b", "authorization: key k", "Authorization: Basic Og==", "Authorization:", "X-Previous-LeafHash: ",
			"X-Previous-LeafHash: 6e340b9cffb37a989ca544e6bb780a2c78901d3fb33738768511a30617afa01d", "X-Previous-LeafHash: xyz", "X-Previous-LeafHash: abc", "x-previous-leafhash:   00  ", "X-Previous-LeafHash: "+strings.Repeat("0", 20000),
			"Content-Type: application/json", "Content-Type: multipart/form-data", "Origin: http://x", "Access-Control-Request-Method: PUT", "Access-Control-Request-Method: TRACE", "Access-Control-Request-Headers: X-Previous-LeafHash",
			"Expect: 100-continue", "Accept-Encoding: gzip", "Range: bytes=0-0", "X-HTTP-Method-Override: PUT", "If-None-Match: *") + "\r\n"
	}
	return h
}

func TestC21_HTTP(t *testing.T) {
	check(t, 12000, 160000, func(t *rapid.T) {
		k := newCase("C21")
		k.Class("http")
		w := newRobustWorld(t, k, "x", "y") // the objects named y are never written to
		h := httprest.CreateRESTHandler(w.s, nil, nil)
		touched := map[*object]int{}
		for i := 1 + pick(t, "requests", 12); i > 0; i-- {
			method := oneOf(t, "method", "GET", "GET", "GET", "POST", "POST", "PUT", "PUT", "DELETE", "OPTIONS", "HEAD", "PATCH", "TRACE", "CONNECT", "get", "X")
			path := genHTTPPath(t)
			body := genHTTPBody(t)
			var raw bytes.Buffer
			fmt.Fprintf(&raw, "%s %s HTTP/1.1\r\nHost: h\r\n%s", method, path, genHeaders(t))
			switch pick(t, "framing", 8) {
			case 0:
				fmt.Fprintf(&raw, "Transfer-Encoding: chunked\r\n\r\n%x\r\n%s\r\n0\r\n\r\n", len(body), body)
			case 1: // less than announced
				fmt.Fprintf(&raw, "Content-Length: %d\r\n\r\n%s", len(body)+1+pick(t, "missing", 9), body)
			case 2:
				raw.WriteString("\r\n")
				body = nil
			default:
				fmt.Fprintf(&raw, "Content-Length: %d\r\n\r\n%s", len(body), body)
			}
			req, err := http.ReadRequest(bufio.NewReader(bytes.NewReader(raw.Bytes())))
			line := fmt.Sprintf("%s %.200s %.60q", method, path, body)
			if err != nil { // net/http answers these itself
				k.Class("unparsable")
				continue
			}
			k.Op("%s", line)
			before := w.st.Clone()
			rec := httptest.NewRecorder()
			h.ServeHTTP(rec, req)
			resp := rec.Result()
			io.Copy(io.Discard, resp.Body)
			k.NT(method + "-" + strconv.Itoa(resp.StatusCode))
			writes := (method == "POST" || method == "PUT" || method == "DELETE") && resp.StatusCode == 200
			if w.batch {
				if writes {
					for _, o := range w.objs[:2] {
						touched[o]++
					}
				}
				continue
			}
			if !writes && !w.st.equal(before) {
				t.Fatalf("%s was answered with status %d and changed stored data", line, resp.StatusCode)
			}
			if writes {
				for _, o := range w.objs[:2] {
					touched[o]++
				}
			}
		}
		if w.batch {
			// a marker: whatever was accepted before is applied by the time it is
			o := w.objs[2]
			o.add(t, w.s, "", leafFor(7777))
		}
		w.settle2(t, w.objs[2:])
		for _, o := range w.objs {
			if touched[o] == 0 {
				o.full(t, w.s, "", 3)
				continue
			}
			// what was there stays there, in an object that passes audits
			if o.isMap {
				vm := o.vmap(w.s, "")
				o.audit(t, w.s)
				if n := o.Size(); n > 0 {
					c := &mapCase{vm: vm, m: o.mm, acks: o.acks}
					c.checkMapHead(t, n, nil)
					for _, key := range o.keys {
						c.checkProof(t, key, n)
					}
				}
				continue
			}
			l := o.log(w.s, "")
			hd, err := l.TreeHead(bg, 0)
			noErr(t, err, "head of %s", o)
			m := readLogModel(t, l, hd.TreeSize)
			for i, e := range o.lm.entries {
				eqLeaf(t, m.entries[i], e, "entry %d", i)
			}
			fullLog(t, "after odd requests", l, m, 3)
		}
		k.Done()
	})
}

func (w *robustWorld) settle2(t tb, objs []*object) {
	for _, o := range objs {
		o.awaitSize(t, w.s, o.Size(), 20*time.Second)
	}
}
