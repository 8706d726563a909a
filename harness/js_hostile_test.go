package harness

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"maps"
	"net/http"
	"net/http/httptest"
	"regexp"
	"slices"
	"strconv"
	"strings"
	"testing"

	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"pgregory.net/rapid"
)

// ---- C30: the JavaScript client against a server that lies ----

// Numbers in JavaScript are whole up to here.
const jsMax = int64(1) << 53

func jsPage(t *rapid.T) *js {
	return newJS(t, newService(newRefStore(), nil, nil))
}

func (r *jsResult) verdict(t tb, what string) bool {
	t.Helper()
	r.well(t, what)
	return string(r.Calls[0][0]) == `"success"`
}

func TestC30_Inclusion(t *testing.T) {
	check(t, 60000, 1000000, func(t *rapid.T) {
		k := newCase("C30")
		j := jsPage(t)
		c := genInclusion(t, k, jsMax)
		r := j.do(t, jsAny{"op": "proofVerify", "proof": jsAny{"leaf": latin(c.leaf), "size": c.pSize, "index": c.pIndex, "path": latins(c.path)},
			"head": &jsHead{Size: c.hSize, Root: latin(c.root)}})
		k.Class("proof")
		c.done(t, k, r.verdict(t, "verification of an inclusion proof"))
	})
}

func TestC30_Consistency(t *testing.T) {
	check(t, 60000, 1000000, func(t *rapid.T) {
		k := newCase("C30")
		j := jsPage(t)
		c := genConsistency(t, k, jsMax)
		r := j.do(t, jsAny{"op": "consistencyVerify", "proof": jsAny{"first": c.pf, "size": c.ps, "path": latins(c.path)},
			"a": &jsHead{Size: c.hf, Root: latin(c.r1)}, "b": &jsHead{Size: c.hs, Root: latin(c.r2)}})
		k.Class("proof")
		c.done(t, k, r.verdict(t, "verification of a consistency proof"))
	})
}

// hostileJS is a page that uses the client against a server that lies, on the way or by itself.
func hostileJS(t *rapid.T, k *kase, x *tamperer, n int64) *js {
	j := newJS(t, x)
	j.tolerant = true
	j.proper = func() bool {
		for _, did := range x.log {
			if !strings.HasSuffix(did, "from the fork") {
				return false
			}
		}
		return j.alter == nil
	}
	switch pick(t, "http", 8) {
	case 7: // a log between two sizes
		x.split, x.budget = false, 0
		j.alter = func(*http.Response) {}
		j.handler = &halfSizes{h: j.handler, done: func(what string) {
			k.NT("half-sizes")
			x.log = append(x.log, what)
		}}
	case 0, 1:
		at, call := pick(t, "at", 4), -1
		x.split, x.budget = false, 0
		j.alter = func(r *http.Response) {
			if call++; call != at {
				return
			}
			body, _ := io.ReadAll(r.Body)
			var did string
			if pick(t, "number", 2) == 0 {
				body, did = alterNumber(t, body)
			} else {
				body, did = alterHTTP(t, r, body, n)
			}
			if did != "" {
				k.NT("http-altered")
				x.log = append(x.log, did)
			}
			setBody(r, body)
		}
	}
	return j
}

// halfSizes serves logs with sizes that are not whole, by what it knows about the size below, and keeps to what it said.
type halfSizes struct {
	h    http.Handler
	done func(string)
}

var (
	halfSize = regexp.MustCompile(`/([0-9]+)\.5(/|$)`)
	headPath = regexp.MustCompile(`/tree/(0|[0-9]+\.5)$`)
)

func (s *halfSizes) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	path := r.URL.Path
	q := r.Clone(r.Context())
	q.URL.Path, q.URL.RawPath = halfSize.ReplaceAllString(halfSize.ReplaceAllString(path, "/$1$2"), "/$1$2"), ""
	rec := httptest.NewRecorder()
	s.h.ServeHTTP(rec, q)
	body := rec.Body.Bytes()
	var o map[string]any
	if rec.Code == 200 && json.Unmarshal(body, &o) == nil {
		half := func(o map[string]any, f string) {
			n, ok := o[f].(float64)
			if str, is := o[f].(string); is {
				v, err := strconv.ParseFloat(str, 64)
				n, ok = v, err == nil
			}
			if ok {
				o[f] = n + 0.5
				s.done(fmt.Sprintf("%s: %s is %v", path, f, o[f]))
			}
		}
		if headPath.MatchString(path) {
			if m, ok := o["mutation_log"].(map[string]any); ok {
				half(m, "tree_size")
			} else {
				half(o, "tree_size")
			}
		} else {
			for f, part := range map[string]string{"tree_size": "/tree/", "from_size": "/consistency/"} {
				if i := strings.Index(path, part); i >= 0 && strings.HasSuffix(strings.SplitN(path[i+len(part):], "/", 2)[0], ".5") {
					half(o, f)
				}
			}
		}
		body, _ = json.Marshal(o)
	}
	for n, v := range rec.Header() {
		if n != "Content-Length" {
			w.Header()[n] = v
		}
	}
	w.WriteHeader(rec.Code)
	_, _ = w.Write(body)
}

// alterNumber puts something that is not a whole number where one is expected.
func alterNumber(t *rapid.T, body []byte) ([]byte, string) {
	var o map[string]any
	if json.Unmarshal(body, &o) != nil {
		return body, ""
	}
	fs := []string{"tree_size", "leaf_index", "from_size"} // left out when 0
	for _, f := range fs[:3] {
		if _, ok := o[f]; ok {
			fs = append(fs, f, f)
		}
	}
	f := oneOf(t, "field", fs...)
	v := oneOf(t, "number", any(json.RawMessage("1e999")), any(1.5), any(2.5), any(0.5), any("x"), any(true), any([]any{3}), any(-1), any(-0.5), any(float64(1<<32)), any(float64(1<<32+1)), any("0x3"), any(""))
	if x, ok := o[f].(float64); ok && pick(t, "near", 2) == 0 {
		v = x + oneOf(t, "by", 0.5, -0.5, 1<<32, 1<<31, 1, -1)
	}
	if m, ok := o["mutation_log"].(map[string]any); ok {
		m["tree_size"] = v
	} else {
		o[f] = v
	}
	b, err := json.Marshal(o)
	noErr(t, err, "json")
	return b, fmt.Sprintf("%s is %v", f, v)
}

// A number in JSON that has no value is no reason to hang, nor is there anything that it hashes to.
func TestC30_Huge(t *testing.T) {
	check(t, 2000, 20000, func(t *rapid.T) {
		k := newCase("C30")
		k.Class("huge")
		j := jsPage(t)
		v, in := jsValue(t, 2), oneOf(t, "in", `%s`, `[%s]`, `{"a":%s}`, `[[1],{"b":%s},%s]`, `{"c":["x",%s]}`)
		text := strings.ReplaceAll(in, "%s", oneOf(t, "number", "1e999", "-1e999", "1e309", "-2E+400", strings.Repeat("9", 320), "1.8e308", "123456789e301"))
		if strings.HasPrefix(in, "[[") {
			text = strings.Replace(in, "%s", string(jsonText(t, v)), 1)
			text = strings.Replace(text, "%s", "1e400", 1)
		}
		k.Op("%s", text)
		r := j.do(t, jsOp("objectHash", "text", text))
		if r.succeeded(t, nil) {
			t.Fatalf("object hash of %s: %s", text, r.Calls)
		}
		if r = j.do(t, jsOp("leafHash", "entry", jsAny{"kind": "json", "data": text})); r.succeeded(t, nil) {
			t.Fatalf("leaf hash of %s: %s", text, r.Calls)
		}
		k.NT("refused")
		k.Done()
	})
}

func jsOp(op string, kv ...any) jsAny {
	q := jsAny{"op": op, "account": "7", "key": "key", "name": "log"}
	for i := 0; i < len(kv); i += 2 {
		q[kv[i].(string)] = kv[i+1]
	}
	return q
}

func TestC30_Log(t *testing.T) {
	check(t, 16000, 200000, func(t *rapid.T) {
		k := newCase("C30")
		f := oneOf[jsFactory](t, "factory", "raw", "json")
		w := genWorlds(t, k, nil, false, func(w *world) { w.json = f == "json" })
		logs := []*logModel{w[0].logm, w[1].logm}
		A := w[0].logm
		n := A.Size()
		x := newTamperer(t, k, w)
		x.json = f == "json"
		defer x.close()
		j := hostileJS(t, k, x, n)
		s := between(t, "size", 1, n)
		head := A.head(s)
		fail := func(f string, a ...any) {
			t.Fatalf("%s; log of %d; server did: %v", fmt.Sprintf(f, a...), n, x.log)
		}
		switch op := pick(t, "op", 8); op {
		case 0, 1:
			var lh []byte
			if rapid.Bool().Draw(t, "member") {
				lh = A.tree.leaves[pick(t, "entry", int(n))]
			} else {
				lh = oneOf(t, "lh", refLeafHash([]byte("absent")), w[1].logm.tree.leaves[w[1].logm.Size()-1], A.head(s).RootHash, refEmptyLeaf)
			}
			if j.do(t, jsOp("verifyInclusion", "head", toJSHead(head), "leaf", latin(lh))).succeeded(t, nil) {
				k.Class("succeeded")
				ok := false
				for _, l := range A.tree.leaves[:s] {
					ok = ok || bytes.Equal(l, lh)
				}
				if !ok {
					fail("inclusion of a hash that is not in the first %d entries accepted", s)
				}
			}
			k.Op("inclusion")
		case 2:
			a, b := head, logs[pick(t, "world", 2)]
			bh := b.head(between(t, "other", 1, b.Size()))
			if pick(t, "garbage", 4) == 0 {
				bh.RootHash = flip(t, bh.RootHash)
			}
			if rapid.Bool().Draw(t, "swap") {
				a, bh = bh, a
			}
			if j.do(t, jsOp("verifyConsistency", "a", toJSHead(a), "b", toJSHead(bh))).succeeded(t, nil) {
				k.Class("succeeded")
				if !(a.TreeSize == bh.TreeSize && bytes.Equal(a.RootHash, bh.RootHash)) && !sameHistory(logs, a, bh) {
					fail("heads %d and %d of different histories accepted", a.TreeSize, bh.TreeSize)
				}
			}
			k.Op("consistency")
		case 3, 4:
			prev := head
			for i := 0; i < 4; i++ {
				var r *jsResult
				want := int64(0)
				if rapid.Bool().Draw(t, "latest") {
					r = j.do(t, jsOp("latestHead", "prev", toJSHead(prev)))
				} else {
					want = between(t, "want", 0, n+3)
					r = j.do(t, jsOp("verifiedHead", "prev", toJSHead(prev), "size", want))
				}
				var jh jsHead
				if !r.succeeded(t, &jh) {
					continue
				}
				k.Class("succeeded")
				h := jh.back(t)
				if !(h.TreeSize == prev.TreeSize && bytes.Equal(h.RootHash, prev.RootHash)) && !sameHistory(logs, prev, h) {
					fail("head %v accepted after head %d of another history", jh.Size, prev.TreeSize)
				}
				if want > 0 && h.TreeSize != want {
					fail("head %v accepted as the head of %d", jh.Size, want)
				}
				prev = h
			}
			k.Op("follow")
		case 5:
			P := logs[pick(t, "proof of", 4)/3] // 1 in 4 for the fork
			i := between(t, "index", 0, P.Size()-1)
			ps := between(t, "proofsize", i+1, P.Size())
			p := &pb.LogInclusionProofResponse{LeafIndex: i, TreeSize: ps, AuditPath: P.tree.Path(i, ps)}
			lh := P.tree.leaves[i]
			if P != A && pick(t, "with its head", 3) > 0 {
				j.alter, x.split, x.after, x.budget = nil, true, 0, 0
			} else if rapid.Bool().Draw(t, "badproof") {
				p.AuditPath = clonePath(p.AuditPath)
				x.log = append(x.log, "proof "+tamperFields(t, p.ProtoReflect()))
				p.TreeSize, p.LeafIndex = p.TreeSize%jsMax, p.LeafIndex%jsMax
			}
			var jh jsHead
			if j.do(t, jsOp("supplied", "prev", toJSHead(head), "proof", jsAny{"leaf": latin(lh), "size": p.TreeSize, "index": p.LeafIndex, "path": latins(p.AuditPath)})).succeeded(t, &jh) {
				k.Class("succeeded")
				h := jh.back(t)
				if !sameHistory(logs, head, h) {
					fail("supplied proof: head %v of another history accepted after %d", jh.Size, s)
				}
				if !proves(logs, h, i, lh) || p.LeafIndex != i {
					fail("supplied proof for index %d accepted for the entry at %d (head %d)", p.LeafIndex, i, h.TreeSize)
				}
			}
			k.Op("supplied")
		default:
			var prev *pb.LogTreeHashResponse
			ps := int64(0)
			if pick(t, "prev", 3) > 0 {
				ps = between(t, "prevsize", 0, n)
				prev = A.head(ps)
			}
			hm := A
			if pick(t, "forkhead", 5) == 0 {
				hm = w[1].logm
				head = hm.head(between(t, "forksize", 1, hm.Size()))
			}
			r := j.do(t, jsOp("verifyEntries", "prev", toJSHead(prev), "head", toJSHead(head), "factory", f))
			for i, c := range r.Each {
				if string(c[0]) != fmt.Sprint(ps+int64(i)) {
					fail("audit from %d calls back for %s, number %d", ps, c[0], i)
				}
			}
			if r.succeeded(t, nil) && head.TreeSize > ps {
				k.Class("succeeded")
				if ps > 0 && !sameHistory(logs, prev, head) {
					fail("audit from %d to head %d of another history succeeded", ps, head.TreeSize)
				}
				if int64(len(r.Each)) != head.TreeSize-ps {
					fail("audit from %d to %d showed %d entries", ps, head.TreeSize, len(r.Each))
				}
				for i, c := range r.Each {
					var e jsEntry
					noErr(t, json.Unmarshal(c[1], &e), "entry")
					what := fmt.Sprintf("audit from %d to %d (server did: %v), entry %d", ps, head.TreeSize, x.log, ps+int64(i))
					if want := hm.entries[ps+int64(i)]; f == "raw" {
						eqBytes(t, unlatin(t, e.Data), want.LeafInput, "%s", what)
					} else {
						eqJSON(t, []byte(e.Data), want.ExtraData, what)
					}
				}
			}
			k.Op("audit")
		}
		k.Op("%v n=%d s=%d", x.log, n, s)
		k.Done()
	})
}

func toJSState(s *verifiable.MapTreeState) *jsState {
	if s == nil {
		return nil
	}
	return &jsState{Map: &jsMapHead{Root: latin(s.MapTreeHead.RootHash), Mutation: toJSHead(s.MapTreeHead.MutationLog)}, Thl: toJSHead(s.TreeHeadLogTreeHead)}
}

func (s *jsState) back(t tb) *verifiable.MapTreeState {
	return &verifiable.MapTreeState{MapTreeHead: &pb.MapTreeHashResponse{RootHash: unlatin(t, s.Map.Root), MutationLog: s.Map.Mutation.back(t)}, TreeHeadLogTreeHead: s.Thl.back(t)}
}

func TestC30_Map(t *testing.T) {
	check(t, 10000, 120000, func(t *rapid.T) {
		k := newCase("C30")
		var pool [][]byte
		for _, key := range genKeyPool(8).Draw(t, "pool") {
			if len(key) > 0 {
				pool = append(pool, key)
			}
		}
		pool = append(pool, []byte("foo"))
		w := genWorlds(t, k, pool, true)
		A := w[0]
		n := A.mm.Size()
		x := newTamperer(t, k, w)
		defer x.close()
		j := hostileJS(t, k, x, n)
		fail := func(f string, a ...any) {
			t.Fatalf("%s; map of %d; server did: %v", fmt.Sprintf(f, a...), n, x.log)
		}
		s := between(t, "size", 1, n)
		st := A.state(s, between(t, "heads", s, n))
		op := func(op string, kv ...any) *jsResult {
			q := jsOp(op, kv...)
			q["name"] = "m"
			return j.do(t, q)
		}
		switch pick(t, "op", 5) {
		case 0, 1:
			key := pool[pick(t, "key", len(pool))]
			var e jsEntry
			if op("verifiedGet", "mapKey", latin(key), "state", toJSState(st), "factory", "raw").succeeded(t, &e) {
				k.Class("succeeded")
				if got := unlatin(t, e.Data); !bytes.Equal(got, A.mm.Get(key, s).GetLeafInput()) {
					fail("verified get of %s at %d accepted %s", short(key), s, short(got))
				}
			}
			k.Op("get")
		default:
			prev := st
			if pick(t, "nilprev", 4) == 0 {
				prev = nil
			}
			for i := 0; i < 3; i++ {
				var r *jsResult
				want := int64(0)
				if rapid.Bool().Draw(t, "latest") {
					r = op("latestState", "prev", toJSState(prev))
				} else {
					want = between(t, "want", 0, n+2)
					r = op("verifiedState", "prev", toJSState(prev), "size", want)
				}
				var js jsState
				if !r.succeeded(t, &js) || js.Map == nil {
					continue
				}
				k.Class("succeeded")
				nst := js.back(t)
				if !A.stateOK(nst) && !w[1].stateOK(nst) {
					fail("map state %d that never existed accepted (previous %v)", nst.TreeSize(), prev != nil)
				}
				if prev != nil && (!sameHistory([]*logModel{A.mut, w[1].mut}, prev.MapTreeHead.MutationLog, nst.MapTreeHead.MutationLog) ||
					!sameHistory([]*logModel{A.thl, w[1].thl}, prev.TreeHeadLogTreeHead, nst.TreeHeadLogTreeHead)) {
					fail("map state %d of another history accepted after %d", nst.TreeSize(), prev.TreeSize())
				}
				if want > 0 && nst.TreeSize() != want {
					fail("map state %d accepted as that of %d", nst.TreeSize(), want)
				}
				prev = nst
			}
			k.Op("follow")
		}
		k.Op("%v n=%d s=%d", x.log, n, s)
		k.Done()
	})
}

func TestC30_Path(t *testing.T) {
	check(t, 6000, 100000, func(t *rapid.T) {
		k := newCase("C30")
		hostilePath(t, k, func(srv server, prev, head *pb.LogTreeHashResponse) (got []string, err error) {
			j := newJS(t, srv)
			r := j.do(t, jsOp("verifyEntries", "prev", toJSHead(prev), "head", toJSHead(head), "factory", "raw"))
			r.well(t, "audit")
			for _, x := range r.Each {
				got = append(got, string(x[0]))
			}
			if !r.succeeded(t, nil) {
				err = errors.New(string(r.Calls[0][1]))
			}
			return got, err
		})
	})
}

// A document can be shown with parts redacted, but not as another one with other members or elements by dividing
// the hashes that make up its own otherwise.
func TestC30_Redacted(t *testing.T) {
	check(t, 6000, 100000, func(t *rapid.T) {
		k := newCase("C30")
		k.Class("redacted-otherwise")
		j := jsPage(t)
		hide := func(b []byte) string { return redacted + hex.EncodeToString(b) }
		var v any
		var parts [][]byte // what is hashed for it, in pieces
		known := map[string]any{}
		add := func(x any) {
			h := refObjectHash(x)
			known[string(h)] = x
			parts = append(parts, h)
		}
		isList := pick(t, "list", 2) == 0
		n := 1 + pick(t, "n", 4)
		if isList {
			l := []any{}
			for i := 0; i < n; i++ {
				l = append(l, jsValue(t, 1))
				add(l[i])
			}
			v = l
		} else {
			m := map[string]any{}
			for i := 0; i < n; i++ {
				m[oneOf(t, "key", "a", "b", "name", "x", "admin")] = oneOf[any](t, "value", "a", "b", "x", "yes", 1.0, nil, true)
			}
			ks := slices.Sorted(maps.Keys(m))
			slices.SortFunc(ks, func(a, b string) int { return bytes.Compare(refObjectHash(a), refObjectHash(b)) })
			for _, key := range ks {
				add(key)
				add(m[key])
			}
			v = m
		}
		whole := bytes.Join(parts, nil)
		same := pick(t, "same", 5) == 0
		// other pieces of it, most of them between the hashes
		var at []int
		for i := pick(t, "cuts", 2*n+2); i > 0 && !same; i-- {
			c := between(t, "cut", 0, int64(len(whole)))
			if pick(t, "ragged", 4) > 0 {
				c = c / 32 * 32
			}
			at = append(at, int(c))
		}
		for c := 32; same && c < len(whole); c += 32 {
			at = append(at, c)
		}
		if !isList && len(at)%2 == 0 { // members have two
			at = append(at, oneOf(t, "extra", 0, len(whole)))
		}
		slices.Sort(at)
		var pieces [][]byte
		from := 0
		for _, c := range append(at, len(whole)) {
			pieces = append(pieces, whole[from:c])
			from = c
		}
		show := func(b []byte) any {
			if x, ok := known[string(b)]; ok && pick(t, "show", 2) == 0 {
				return x
			}
			return hide(b)
		}
		proper := true // every piece is one of the hashes, in its own place
		for _, p := range pieces {
			proper = proper && len(p) == 32
		}
		proper = proper && len(pieces) == len(parts)
		var w any
		if isList {
			l := []any{}
			for _, p := range pieces {
				l = append(l, show(p))
			}
			w = l
		} else {
			m := map[string]any{}
			for i := 0; i+1 < len(pieces); i += 2 {
				key, ok := show(pieces[i]).(string)
				if !ok {
					key = hide(pieces[i])
				}
				for _, was := m[key]; was; _, was = m[key] {
					key += "0" // an odd digit
				}
				m[key] = show(pieces[i+1])
			}
			w = m
		}
		text := jsonText(t, w)
		k.Op("%v as %s", v, text)
		want := refLeafHash(refObjectHash(v))
		var s string
		r := j.do(t, jsOp("leafHash", "entry", jsAny{"kind": oneOf(t, "kind", "json", "redacted"), "data": string(text)}))
		if r.succeeded(t, &s) && s == latin(want) && !proper {
			t.Fatalf("%s has the leaf hash of %v", text, v)
		}
		if proper {
			if !r.succeeded(t, &s) || s != latin(want) {
				t.Fatalf("%s, redacted from %v, has another leaf hash: %s", text, v, r.Calls)
			}
		} else {
			k.NT("refused")
		}
		k.Done()
	})
}
