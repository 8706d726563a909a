package harness

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"errors"
	"fmt"
	"maps"
	"net/http"
	"reflect"
	"slices"
	"strings"
	"testing"

	"github.com/continusec/verifiabledatastructures/mutator/instant"
	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"golang.org/x/net/context"
	"pgregory.net/rapid"
)

// ---- C29: the JavaScript client against an honest server ----

// keyOracle allows one API key.
type keyOracle string

func (o keyOracle) VerifyAllowed(ctx context.Context, account, apiKey, objectName string, p pb.Permission) (*verifiable.AccessModifier, error) {
	if apiKey != string(o) {
		return nil, verifiable.ErrNotAuthorized
	}
	return &verifiable.AccessModifier{FieldFilter: verifiable.AllFields}, nil
}

// jsFactory is a way to read an entry: what its data and leaf hash are.
type jsFactory string

func (f jsFactory) check(t tb, e *jsEntry, want *pb.LeafData, what string) {
	t.Helper()
	if e.Leaf == nil {
		t.Fatalf("%s: no leaf hash", what)
	}
	eqBytes(t, unlatin(t, *e.Leaf), refLeafHash(want.GetLeafInput()), "%s as %s: leaf hash of %s (%s)", what, f, short(want.GetLeafInput()), want.GetExtraData())
	switch f {
	case "raw":
		eqBytes(t, unlatin(t, e.Data), want.GetLeafInput(), "%s: data", what)
	case "json", "mutation":
		if e.Data != string(want.GetExtraData()) {
			t.Fatalf("%s as JSON is %q, want %q", what, e.Data, want.GetExtraData())
		}
	case "redacted":
		plain, err := verifiable.ShedRedactedJSONFields(want.GetExtraData())
		if err != nil { // not made redactable
			break
		}
		eqJSON(t, []byte(e.Data), plain, what)
	}
}

func eqJSON(t tb, got, want []byte, what string) {
	t.Helper()
	var a, b any
	if err := json.Unmarshal(got, &a); err != nil {
		t.Fatalf("%s: %v in %q", what, err, got)
	}
	noErr(t, json.Unmarshal(want, &b), "%s: %s", what, want)
	if !reflect.DeepEqual(a, b) && !bytes.Equal(refObjectHash(a), refObjectHash(b)) { // the sign of zero may go
		t.Fatalf("%s is %s, want %s", what, got, want)
	}
}

// jsOK: what the JavaScript client is given as text is in Unicode normal form C (it normalises what it hashes).
var jsStrings = []string{"", "a", "b", "foo", "name", "日本", "é", "ÿ", "Ā", "😀", "\x00", "\n\t\"\\/", "<&>", "\u2028", "***REDACTED***", "x " + redacted, "0", "null", "true",
	strings.Repeat("long ", 60), "leaf_input", "value", "a,b", "*", "constructor", "toString", "length", "__proto__", "1", "10", "\u007f", "\u0080", "\uffff", "\U0010ffff"}

func jsValue(t *rapid.T, depth int) any {
	salt := pick(t, "strings", 16)
	return rename(genJSONValue(t, depth), func(s string) string {
		if strings.Contains(s, "\u0301") {
			return "e"
		}
		if h := sha256.Sum256([]byte(fmt.Sprint(salt, s))); salt > 0 && len(s) < 5 && h[0] < 200 {
			return jsStrings[int(h[1])%len(jsStrings)]
		}
		return s
	})
}

func rename(v any, f func(string) string) any {
	switch x := v.(type) {
	case string:
		return f(x)
	case []any:
		for i := range x {
			x[i] = rename(x[i], f)
		}
	case map[string]any:
		m := map[string]any{}
		for _, k := range slices.Sorted(maps.Keys(x)) {
			m[f(k)] = rename(x[k], f)
		}
		return m
	}
	return v
}

// jsSubmission draws something to submit through the client: the entry, and the leaf it stands for (redactable: nil, and the value).
func jsSubmission(t *rapid.T, k *kase, asJSON, large bool) (jsAny, *pb.LeafData, any) {
	if large {
		n := 50000 + pick(t, "len", 14)*pick(t, "len", 14)*10000 // as it is, and then in base64 and hexadecimal
		fill := string(latin(expand(rapid.Uint64().Draw(t, "fill"), n)))
		k.NT("large")
		if !asJSON {
			b := unlatin(t, fill)
			return jsAny{"kind": "raw", "data": fill}, &pb.LeafData{LeafInput: b}, nil
		}
		var v any = map[string]any{"s": oneOf(t, "text", strings.Repeat("x", n), strings.Repeat("\u65e5", n/3), string([]rune(fill)[:n/2]))}
		switch pick(t, "shape", 3) {
		case 0:
			l := make([]any, n/40)
			for i := range l {
				l[i] = float64(i)
			}
			v = map[string]any{"l": l}
		case 1:
			m := map[string]any{}
			for i := 0; i < n/100; i++ {
				m[fmt.Sprint("member", i)] = float64(i)
			}
			v = m
		}
		b, err := json.Marshal(v)
		noErr(t, err, "json")
		if pick(t, "redactable", 3) == 0 {
			return jsAny{"kind": "redactable", "data": string(b)}, nil, v
		}
		return jsAny{"kind": "json", "data": string(b)}, &pb.LeafData{LeafInput: refObjectHash(v), ExtraData: b, Format: pb.DataFormat_JSON}, v
	}
	if !asJSON {
		b := genLeaf(pick(t, "big", 30) == 0, true).Draw(t, "leaf").LeafInput
		k.Class("raw")
		return jsAny{"kind": "raw", "data": latin(b)}, &pb.LeafData{LeafInput: b}, nil
	}
	v := jsValue(t, 3)
	if pick(t, "redactable", 3) == 0 {
		if _, ok := v.(map[string]any); !ok {
			v = map[string]any{"v": v}
		}
		k.NT("redactable")
		return jsAny{"kind": "redactable", "data": string(jsonText(t, v))}, nil, v
	}
	if v == nil {
		v = map[string]any{}
	}
	b := jsonText(t, v)
	k.Class("json")
	return jsAny{"kind": "json", "data": string(b)}, &pb.LeafData{LeafInput: refObjectHash(v), ExtraData: b, Format: pb.DataFormat_JSON}, v
}

type jsWorld struct {
	large bool
	k     *kase
	j     *js
	s     server // unrestricted
	key   string
	objs  []*jsObject
}

type jsObject struct {
	*object
	json bool // entries and values are JSON
}

func (w *jsWorld) op(o *object, op string, kv ...any) jsAny {
	q := jsAny{"op": op, "account": o.account, "key": w.key, "name": o.name}
	for i := 0; i < len(kv); i += 2 {
		q[kv[i].(string)] = kv[i+1]
	}
	return q
}

func (w *jsWorld) write(t *rapid.T, o *jsObject) {
	k := w.k
	if o.isMap && pick(t, "delete", 4) == 0 {
		key := oneOf(t, "key", o.keys...)
		k.Op("del %s", short(key))
		var lh string
		w.j.do(t, w.op(o.object, "del", "mapKey", latin(key))).ok(t, &lh, "delete of %s", short(key))
		o.mm.Apply(mapMut{Action: "delete", Key: key})
		e, err := o.vmap(w.s, w.key).MutationLog().Entry(bg, o.Size()-1)
		noErr(t, err, "mutation")
		eqBytes(t, unlatin(t, lh), refLeafHash(e.LeafInput), "leaf hash of a delete of %s", short(key))
		k.NT("deleted")
		return
	}
	entry, leaf, value := jsSubmission(t, k, o.json, w.large)
	var lh string
	k.Op("%v %s", entry["kind"], short([]byte(entry["data"].(string))))
	if !o.isMap {
		w.j.do(t, w.op(o.object, "add", "entry", entry)).ok(t, &lh, "add of %q", entry)
		h := unlatin(t, lh)
		if leaf == nil {
			for i, x := range o.lm.tree.leaves { // without members there are no nonces, so it can be there already
				if bytes.Equal(x, h) {
					leaf = o.lm.entries[i]
				}
			}
			if leaf == nil {
				e, err := o.log(w.s, w.key).Entry(bg, o.Size())
				noErr(t, err, "entry added")
				checkRedactable(t, e, value)
				leaf = e
			}
		}
		eqBytes(t, h, refLeafHash(leaf.LeafInput), "leaf hash of an add of %q", entry)
		o.lm.Add(leaf)
		return
	}
	key := oneOf(t, "key", o.keys...)
	w.j.do(t, w.op(o.object, "set", "mapKey", latin(key), "entry", entry)).ok(t, &lh, "set of %s to %q", short(key), entry)
	e, err := o.vmap(w.s, w.key).MutationLog().Entry(bg, o.Size())
	noErr(t, err, "mutation")
	eqBytes(t, unlatin(t, lh), refLeafHash(e.LeafInput), "leaf hash of a set of %s", short(key))
	if leaf == nil {
		mj := decodeJSON[jsonMutation](t, e.ExtraData, "mutation")
		leaf = &pb.LeafData{LeafInput: mj.Value.LeafInput, ExtraData: mj.Value.ExtraData, Format: pb.DataFormat(mj.Value.Format)}
		checkRedactable(t, leaf, value)
	}
	o.mm.Apply(mapMut{Action: "set", Key: key, Value: leaf})
}

func (h *jsHead) want(t tb, m *logModel, n int64, what string) {
	t.Helper()
	eqHead(t, h, m.head(n), what)
}

func eqHead(t tb, h *jsHead, want *pb.LogTreeHashResponse, what string) {
	t.Helper()
	if h == nil {
		t.Fatalf("%s: no head", what)
	}
	b := h.back(t)
	if b.TreeSize != want.TreeSize || !bytes.Equal(b.RootHash, want.RootHash) {
		t.Fatalf("%s: head %v %x, want %d %x", what, h.Size, b.RootHash, want.TreeSize, want.RootHash)
	}
}

// readLog has the client ask one thing of a log.
func (w *jsWorld) readLog(t *rapid.T, o *object, kind string, m *logModel, formats []jsFactory) {
	k, n := w.k, m.Size()
	f := oneOf(t, "factory", formats...)
	if kind != "" {
		k.NT(kind)
	}
	op := func(name string, kv ...any) *jsResult {
		return w.j.do(t, w.op(o, name, append(kv, "kind", kind, "factory", f)...))
	}
	var h jsHead
	what := fmt.Sprintf("%s log of %d, ", kind, n)
	size := between(t, "size", min(1, n), n)
	switch c := pick(t, "logop", 16); {
	case c == 15: // what can't be
		i := n + between(t, "beyond", 0, 3)
		var prev *pb.LogTreeHashResponse
		if n > 0 && pick(t, "prev", 2) == 0 {
			prev = m.head(between(t, "of", 1, n))
		}
		absent := latin(refLeafHash([]byte("not in any log")))
		var r *jsResult
		switch pick(t, "refused", 8) {
		case 0:
			what += fmt.Sprint("entry ", i)
			r = op("entry", "index", i)
		case 1:
			what += fmt.Sprintf("verified head %d after %v", i+1, prev)
			r = op("verifiedHead", "prev", toJSHead(prev), "size", i+1)
		case 2:
			what += fmt.Sprintf("inclusion of an absent entry in %d", size)
			r = op("inclusion", "size", size, "leaf", absent)
		case 3:
			what += fmt.Sprintf("inclusion of %d in %d", i, size)
			r = op("inclusionByIndex", "size", size, "index", i)
		case 4:
			what += fmt.Sprintf("absent entry in %d", size)
			r = op("verifyInclusion", "head", toJSHead(m.head(size)), "leaf", absent)
		case 5:
			a, b := int64(0), size
			if pick(t, "swap", 2) == 0 {
				a, b = b, a
			}
			what += fmt.Sprintf("consistency of heads %d and %d", a, b)
			r = op("verifyConsistency", "a", toJSHead(m.head(a)), "b", toJSHead(m.head(b)))
		case 6:
			a := between(t, "first", 0, n)
			what += fmt.Sprintf("consistency from %d to %d", a, i+1)
			r = op("consistency", "first", a, "size", i+1)
		default:
			what += fmt.Sprintf("audit to a head of %d that is not", i+1)
			r = op("verifyEntries", "prev", toJSHead(prev), "head", toJSHead(&pb.LogTreeHashResponse{TreeSize: i + 1, RootHash: refLeafHash(nil)}))
		}
		k.Op("refused %s", what)
		r.fails(t, "", "%s", what)
		k.NT("refused")
	case c == 0:
		s := between(t, "head", 0, n)
		k.Op("head %d", s)
		op("logHead", "size", s).ok(t, &h, what+"head %d", s)
		if s == 0 {
			s = n
		}
		h.want(t, m, s, what)
	case c == 1:
		s := n + 1 + between(t, "beyond", 0, 3)
		k.Op("head %d of %d", s, n)
		op("logHead", "size", s).fails(t, "CONTINUSEC_INVALID_RANGE_ERROR", what+"head %d", s)
	case c == 2 && n > 0:
		i := between(t, "index", 0, n-1)
		k.Op("entry %d", i)
		var e jsEntry
		op("entry", "index", i).ok(t, &e, what+"entry %d", i)
		f.check(t, &e, m.entries[i], what+fmt.Sprint("entry ", i))
		k.NT("entry")
	case c == 3 && n > 0:
		a := between(t, "first", 0, n-1)
		b := between(t, "last", a+1, n)
		k.Op("entries %d-%d", a, b)
		r := op("entries", "first", a, "last", b)
		r.ok(t, nil, what+"entries %d-%d", a, b)
		r.entries(t, f, m, a, b, what)
	case c == 4 || c == 5:
		var prev *pb.LogTreeHashResponse
		a := between(t, "prev", 0, size)
		if a > 0 || pick(t, "emptyprev", 2) == 0 {
			prev = m.head(a)
		}
		k.Op("audit %d-%d", a, size)
		r := op("verifyEntries", "prev", toJSHead(prev), "head", toJSHead(m.head(size)))
		r.ok(t, nil, what+"audit from %d to %d", a, size)
		r.entries(t, f, m, a, size, what)
		if a > 0 && a < size {
			k.NT("audit")
		}
	case c == 6 && n > 0:
		i := between(t, "index", 0, size-1)
		k.Op("inclusion %d of %d", i, size)
		var p struct {
			Leaf        *string
			Size, Index int64
			Path        []string
		}
		r := op("inclusion", "size", size, "leaf", latin(m.tree.leaves[i]))
		byIndex := pick(t, "byindex", 2) == 0
		if byIndex {
			r = op("inclusionByIndex", "size", size, "index", i)
		}
		r.ok(t, &p, what+"inclusion of %d in %d", i, size)
		if p.Size != size || p.Index != i || !reflect.DeepEqual(p.Path, latins(m.tree.Path(i, size))) || !byIndex && (p.Leaf == nil || *p.Leaf != latin(m.tree.leaves[i])) {
			t.Fatalf("%sproof of %d in %d: %+v", what, i, size, p)
		}
		k.NT("inclusion")
	case c == 7 || c == 8:
		if n == 0 {
			break
		}
		i := between(t, "index", 0, n-1)
		k.Op("included %d of %d", i, size)
		kv := []any{"head", toJSHead(m.head(size)), "leaf", latin(m.tree.leaves[i])}
		if e := m.entries[i]; pick(t, "asentry", 2) == 0 {
			kv = []any{"head", toJSHead(m.head(size)), "entry", jsAny{"kind": f, "data": map[bool]string{true: latin(e.LeafInput), false: string(e.ExtraData)}[f == "raw"]}}
		}
		r := op("verifyInclusion", kv...)
		if i < size {
			r.ok(t, nil, what+"inclusion of %d in %d", i, size)
			k.NT("inclusion")
		} else {
			r.fails(t, "", what+"inclusion of %d in %d", i, size)
		}
	case c == 9 && n > 1:
		b := between(t, "b", 2, n)
		a := between(t, "a", 1, b-1)
		k.Op("consistency %d %d", a, b)
		var p struct {
			First, Size int64
			Path        []string
		}
		op("consistency", "first", a, "size", b).ok(t, &p, what+"consistency of %d and %d", a, b)
		if p.First != a || p.Size != b || !reflect.DeepEqual(p.Path, latins(m.tree.Proof(a, b))) {
			t.Fatalf("%sproof from %d to %d: %+v", what, a, b, p)
		}
		k.NT("consistency")
	case c == 10 && n > 0:
		a, b := between(t, "a", 1, n), between(t, "b", 1, n)
		k.Op("consistent %d %d", a, b)
		op("verifyConsistency", "a", toJSHead(m.head(a)), "b", toJSHead(m.head(b))).ok(t, nil, what+"consistency of %d and %d", a, b)
		k.NT("consistency")
	case c == 11:
		var prev *pb.LogTreeHashResponse
		if pick(t, "prev", 4) > 0 {
			prev = m.head(between(t, "of", 0, n))
		}
		k.Op("latest after %d", prev.GetTreeSize())
		op("latestHead", "prev", toJSHead(prev)).ok(t, &h, what+"latest head after %v", prev)
		h.want(t, m, n, what)
		k.NT("followed")
	case c == 12:
		var prev *pb.LogTreeHashResponse
		if pick(t, "prev", 4) > 0 {
			prev = m.head(between(t, "of", 0, n))
		}
		k.Op("head %d after %d", size, prev.GetTreeSize())
		op("verifiedHead", "prev", toJSHead(prev), "size", size).ok(t, &h, what+"head %d after %v", size, prev)
		h.want(t, m, size, what)
		k.NT("followed")
	case c == 13 && n > 0:
		var prev *pb.LogTreeHashResponse
		if pick(t, "prev", 4) > 0 {
			prev = m.head(between(t, "of", 0, n))
		}
		i := between(t, "index", 0, size-1)
		k.Op("supplied %d of %d after %d", i, size, prev.GetTreeSize())
		op("supplied", "prev", toJSHead(prev), "proof", jsAny{"leaf": latin(m.tree.leaves[i]), "size": size, "index": i, "path": latins(m.tree.Path(i, size))}).
			ok(t, &h, what+"supplied proof of %d in %d after %v", i, size, prev)
		h.want(t, m, size, what)
		k.NT("supplied")
	case c == 14 && n > 0:
		i := between(t, "index", 0, n-1)
		k.Op("block %d", i)
		op("block", "leaf", latin(m.tree.leaves[i])).ok(t, &h, what+"waiting for %d", i)
		h.want(t, m, n, what)
	}
}

func (r *jsResult) entries(t tb, f jsFactory, m *logModel, a, b int64, what string) {
	t.Helper()
	if int64(len(r.Each)) != b-a {
		t.Fatalf("%s: %d entries from %d to %d", what, len(r.Each), a, b)
	}
	for x, v := range r.Each {
		i := a + int64(x)
		if string(v[0]) != fmt.Sprint(i) {
			t.Fatalf("%s: entry %d comes as %s", what, i, v[0])
		}
		var e jsEntry
		noErr(t, json.Unmarshal(v[1], &e), "%s", v[1])
		f.check(t, &e, m.entries[i], what+fmt.Sprint("entry ", i))
	}
}

func toJSMapHead(m *mapModel, mut *logModel, n int64) *jsMapHead {
	return &jsMapHead{Root: latin(m.roots[n]), Mutation: toJSHead(mut.head(n))}
}

func (h *jsMapHead) want(t tb, m *mapModel, mut *logModel, n int64, what string) {
	t.Helper()
	if h == nil {
		t.Fatalf("%s: no map head", what)
	}
	eqHead(t, h.Mutation, mut.head(n), what+" mutation log")
	eqBytes(t, unlatin(t, h.Root), m.roots[n], "%s: map root of %d", what, n)
	if s, _ := h.Size.(float64); int64(s) != n {
		t.Fatalf("%s: size %v, want %d", what, h.Size, n)
	}
}

func (w *jsWorld) readMap(t *rapid.T, o *jsObject) {
	k, n := w.k, o.Size()
	vm := o.vmap(w.s, w.key)
	if pick(t, "maplogs", 3) == 0 {
		if pick(t, "which", 2) == 0 {
			w.readLog(t, o.object, "mutation", readLogModel(t, vm.MutationLog(), n), []jsFactory{"raw", "mutation"})
		} else {
			w.readLog(t, o.object, "treehead", readLogModel(t, vm.TreeHeadLog(), n), []jsFactory{"raw", "json"})
		}
		return
	}
	f := jsFactory("raw")
	if o.json {
		f = oneOf[jsFactory](t, "factory", "raw", "json", "redacted")
	}
	op := func(name string, kv ...any) *jsResult {
		return w.j.do(t, w.op(o.object, name, append(kv, "factory", f)...))
	}
	mut, thl := readLogModel(t, vm.MutationLog(), n), readLogModel(t, vm.TreeHeadLog(), n)
	size := between(t, "size", min(1, n), n)
	key := oneOf(t, "key", o.keys...)
	what := fmt.Sprintf("map of %d, ", n)
	state := func(s, heads int64) *jsState {
		return &jsState{Map: toJSMapHead(o.mm, mut, s), Thl: toJSHead(thl.head(heads))}
	}
	var h jsMapHead
	var st jsState
	switch c := pick(t, "mapop", 11); {
	case c == 10: // what can't be
		s := n + 1 + between(t, "beyond", 0, 3)
		var prev *jsState
		if n > 0 && pick(t, "prev", 2) == 0 {
			prev = state(size, size)
		}
		var r *jsResult
		switch pick(t, "refused", 2) {
		case 0:
			what += fmt.Sprintf("get of %s at %d", short(key), s)
			r = op("get", "mapKey", latin(key), "size", s)
		default:
			what += fmt.Sprintf("state %d", s)
			r = op("verifiedState", "prev", prev, "size", s)
		}
		k.Op("refused %s", what)
		r.fails(t, "", "%s", what)
		k.NT("refused")
	case c == 0:
		s := between(t, "head", 0, n)
		k.Op("map head %d", s)
		op("mapHead", "size", s).ok(t, &h, what+"head %d", s)
		if s == 0 {
			s = n
		}
		h.want(t, o.mm, mut, s, what)
	case c == 1:
		s := n + 1 + between(t, "beyond", 0, 3)
		k.Op("map head %d of %d", s, n)
		op("mapHead", "size", s).fails(t, "CONTINUSEC_INVALID_RANGE_ERROR", what+"head %d", s)
	case c == 2 || c == 3:
		s := between(t, "at", 0, n)
		at := s
		if s == 0 {
			at = n
		}
		k.Op("get %s at %d", short(key), s)
		v := o.mm.Get(key, at)
		if v == nil && f == "redacted" {
			f = "raw"
		}
		var g struct {
			Key      string
			Value    jsEntry
			Size     int64
			Path     []*string
			Verified bool
		}
		op("get", "mapKey", latin(key), "size", s, "head", toJSMapHead(o.mm, mut, at)).ok(t, &g, what+"get of %s at %d", short(key), s)
		f.check(t, &g.Value, v, what+fmt.Sprintf("value of %s at %d", short(key), s))
		if g.Key != latin(key) || g.Size != at || len(g.Path) != 256 || !g.Verified {
			t.Fatalf("%sget of %s at %d: %+v", what, short(key), s, g)
		}
		k.NT("get")
	case c == 4 || c == 5:
		if n == 0 {
			break
		}
		k.Op("verified %s at %d", short(key), size)
		v := o.mm.Get(key, size)
		if v == nil && f == "redacted" {
			f = "raw"
		}
		var e jsEntry
		op("verifiedGet", "mapKey", latin(key), "state", state(size, between(t, "heads", size, n))).ok(t, &e, what+"verified get of %s at %d", short(key), size)
		f.check(t, &e, v, what+fmt.Sprintf("verified value of %s at %d", short(key), size))
		k.NT("get")
	case c == 6:
		s := between(t, "want", 0, n)
		k.Op("block size %d", s)
		op("blockSize", "size", s).ok(t, &h, what+"waiting for %d", s)
		h.want(t, o.mm, mut, n, what)
	default:
		var prev *jsState
		ps := int64(-1)
		if n > 0 && pick(t, "prev", 4) > 0 {
			ps = between(t, "of", 1, n)
			prev = state(ps, between(t, "prevheads", ps, n))
		}
		if c == 7 {
			k.Op("latest state after %d", ps)
			op("latestState", "prev", prev).ok(t, &st, what+"latest state after %d", ps)
			size = n
		} else {
			k.Op("state %d after %d", size, ps)
			op("verifiedState", "prev", prev, "size", size).ok(t, &st, what+"state %d after %d", size, ps)
		}
		if n == 0 {
			if st.Map != nil || st.Thl != nil {
				t.Fatalf("%sstate %+v of an empty map", what, st)
			}
			break
		}
		st.Map.want(t, o.mm, mut, size, what+"state")
		if tn := st.Thl.back(t).TreeSize; tn < size || tn > n {
			t.Fatalf("%sstate %d after %d has %d tree heads", what, size, ps, tn)
		}
		st.Thl.want(t, thl, st.Thl.back(t).TreeSize, what+"tree heads")
		k.NT("state")
	}
}

func TestC29_Use(t *testing.T) {
	check(t, 6000, 100000, func(t *rapid.T) {
		k := newCase("C29")
		st := newRefStore()
		w := &jsWorld{k: k, key: oneOf(t, "apikey", "key", "", "K")}
		w.s = newService(st, &instant.Mutator{Writer: st}, keyOracle(w.key))
		w.j = newJS(t, w.s)
		if pick(t, "origin", 3) == 0 {
			w.j.origin = "https://page.example"
			k.Class("other-origin")
		}
		var keys [][]byte
		for _, key := range genKeyPool(6).Draw(t, "pool") {
			if len(key) > 0 {
				keys = append(keys, key)
			}
		}
		keys = append(keys, []byte("foo"))
		for i := 1 + pick(t, "objects", 2); i > 0; i-- {
			w.objs = append(w.objs, &jsObject{newObject(oneOf(t, "account", "0", "7", "1234567890"), fmt.Sprintf("%s%d", oneOf(t, "name", "log", "a-b_c", "0"), i), pick(t, "map", 2) == 0, keys), pick(t, "json", 2) == 0})
		}
		for i := 4 + pick(t, "steps", 30); i > 0; i-- {
			o := w.objs[pick(t, "obj", len(w.objs))]
			switch pick(t, "step", 4) {
			case 0:
				for x := 1 + pick(t, "many", 4); x > 0; x-- {
					w.write(t, o)
				}
			case 1, 2:
				if o.isMap {
					w.readMap(t, o)
				} else if o.json {
					w.readLog(t, o.object, "", o.lm, []jsFactory{"raw", "json", "redacted"})
				} else {
					w.readLog(t, o.object, "", o.lm, []jsFactory{"raw"})
				}
			default:
				if o.isMap || pick(t, "run", 3) > 0 {
					break
				}
				for x := pick(t, "n", 40); x > 0; x-- {
					v := jsAny{"n": float64(x), "of": o.name}
					b, _ := json.Marshal(v)
					l := &pb.LeafData{LeafInput: []byte(fmt.Sprint(x))}
					if o.json {
						l = &pb.LeafData{LeafInput: refObjectHash(map[string]any(v)), ExtraData: b, Format: pb.DataFormat_JSON}
					}
					o.add(t, w.s, w.key, l)
				}
			}
		}
		for _, o := range w.objs {
			o.full(t, w.s, w.key, 3)
		}
		k.Op("%d requests", w.j.reqs)
		k.Done()
	})
}

// Entries and values of up to some MB.
func TestC29_Large(t *testing.T) {
	check(t, 100, 2000, func(t *rapid.T) {
		k := newCase("C29")
		st := newRefStore()
		w := &jsWorld{k: k, key: "key", large: true}
		w.s = newService(st, &instant.Mutator{Writer: st}, keyOracle(w.key))
		w.j = newJS(t, w.s)
		keys := [][]byte{[]byte("foo"), {1, 2, 3}}
		o := &jsObject{newObject("7", "big", pick(t, "map", 2) == 0, keys), pick(t, "json", 2) == 0}
		for i := 1 + pick(t, "n", 2); i > 0; i-- {
			w.write(t, o)
		}
		for i := 1 + pick(t, "reads", 5); i > 0; i-- {
			if o.isMap {
				w.readMap(t, o)
			} else if o.json {
				w.readLog(t, o.object, "", o.lm, []jsFactory{"raw", "json", "redacted"})
			} else {
				w.readLog(t, o.object, "", o.lm, []jsFactory{"raw"})
			}
		}
		o.full(t, w.s, w.key, 1)
		k.Done()
	})
}

// ---- what the client works out without a server ----

func (j *js) value(t tb, v any, what string, kv ...any) bool {
	t.Helper()
	r := j.do(t, jsOp(kv[0].(string), kv[1:]...))
	if r.absent() {
		return false
	}
	r.ok(t, v, what)
	return true
}

func TestC29_Hash(t *testing.T) {
	check(t, 16000, 300000, func(t *rapid.T) {
		k := newCase("C29")
		k.Class("hash")
		j := jsPage(t)
		str := func(want []byte, what string, kv ...any) {
			t.Helper()
			var s string
			if j.value(t, &s, what, kv...) {
				eqBytes(t, unlatin(t, s), want, "%s", what)
			}
		}
		switch pick(t, "what", 6) {
		case 0: // bytes
			b := genBytes(pick(t, "big", 20) == 0).Draw(t, "bytes")
			k.Op("raw %s", short(b))
			str(refLeafHash(b), "leaf hash of raw "+short(b), "leafHash", "entry", jsAny{"kind": "raw", "data": latin(b)})
			str(b, "data of raw "+short(b), "data", "entry", jsAny{"kind": "raw", "data": latin(b)})
			if len(b) > 0 {
				k.NT("bytes")
			}
		case 1: // the path of a key
			key := genBytes(false).Draw(t, "key")
			var got []bool
			if !j.value(t, &got, "key path", "keyPath", "mapKey", latin(key)) {
				return
			}
			h := sha256.Sum256(key)
			if len(got) != 256 {
				t.Fatalf("path of %s has %d elements", short(key), len(got))
			}
			for i, r := range got {
				if r != (h[i/8]>>(7-i%8)&1 == 1) {
					t.Fatalf("path of %s goes astray at %d", short(key), i)
				}
			}
			k.NT("path")
			k.Op("path of %s", short(key))
		case 2: // a map head as an entry of the tree head log
			h := &pb.MapTreeHashResponse{RootHash: expand(rapid.Uint64().Draw(t, "root"), 32), MutationLog: &pb.LogTreeHashResponse{
				TreeSize: 1 + genSize(t, "size")%(jsMax-1), RootHash: expand(rapid.Uint64().Draw(t, "mroot"), 32)}}
			l, err := verifiable.CreateJSONLeafDataFromProto(h)
			noErr(t, err, "leaf data of a map head")
			str(refLeafHash(l.LeafInput), fmt.Sprint("leaf hash of ", h), "mapHeadHash",
				"head", &jsMapHead{Root: latin(h.RootHash), Mutation: toJSHead(h.MutationLog)})
			k.NT("map-head")
			k.Op("map head of %d", h.MutationLog.TreeSize)
		default: // JSON
			v := jsValue(t, 4)
			text := jsonText(t, v)
			k.Op("%s", text)
			str(refObjectHash(v), "object hash of "+string(text), "objectHash", "text", string(text))
			want := refLeafHash(refObjectHash(v))
			str(want, "leaf hash of "+string(text), "leafHash", "entry", jsAny{"kind": "json", "data": string(text)})
			var d string
			j.value(t, &d, "data of JSON", "data", "entry", jsAny{"kind": "json", "data": string(text)})
			if d != string(text) {
				t.Fatalf("data of %q is %q", text, d)
			}
			if len(text) > 2 {
				k.NT("json")
			}
			// made redactable by the server, then redacted
			l, err := verifiable.CreateRedactableJSONLeafData(text)
			noErr(t, err, "redactable %s", text)
			var r any
			noErr(t, json.Unmarshal(l.ExtraData, &r), "json")
			rr, left := redactSome(t, k, r, v, map[string]bool{})
			rt := jsonText(t, rr)
			str(refLeafHash(l.LeafInput), fmt.Sprintf("leaf hash of %s, redacted from %s", rt, l.ExtraData), "leafHash", "entry", jsAny{"kind": "redacted", "data": string(rt)})
			j.value(t, &d, "data of redacted JSON", "data", "entry", jsAny{"kind": "redacted", "data": string(rt)})
			lb, err := json.Marshal(left)
			noErr(t, err, "json")
			eqJSON(t, []byte(d), lb, string(rt)+" without its redacted members")
			// a member that is not a pair of nonce and value has no value to show
			if m, ok := r.(map[string]any); ok && len(m) > 0 {
				m = maps.Clone(m)
				key := oneOf(t, "malformed", slices.Sorted(maps.Keys(m))...)
				m[key] = oneOf[any](t, "as", []any{}, []any{"n"}, []any{"n", "v", "x"}, []any{"n", m[key], m[key]}, "plain", "", 1.5, true, map[string]any{})
				mt := jsonText(t, m)
				if r := j.do(t, jsOp("data", "entry", jsAny{"kind": "redacted", "data": string(mt)})); r.succeeded(t, nil) && string(r.Calls[0][1]) != `"(undefined)"` {
					t.Fatalf("%s, which is not made redactable, is shown as %s", mt, r.Calls[0][1])
				}
			}
			// something else does not hash alike
			if w := other(t, v); !bytes.Equal(refObjectHash(w), refObjectHash(v)) {
				var s string
				wt := jsonText(t, w)
				j.value(t, &s, "object hash", "objectHash", "text", string(wt))
				if s == latin(refObjectHash(v)) {
					t.Fatalf("%s and %s hash alike", text, wt)
				}
			}
		}
		k.Done()
	})
}

// ---- waiting ----

func TestC29_Wait(t *testing.T) {
	check(t, 4000, 60000, func(t *rapid.T) {
		k := newCase("C29")
		k.Class("wait")
		st := newRefStore()
		s := newService(st, &instant.Mutator{Writer: st}, keyOracle("key"))
		j := newJS(t, s)
		isMap := pick(t, "map", 3) == 0
		keys := [][]byte{[]byte("foo"), []byte("bar"), {0xff, 0}}
		w := &jsWorld{k: k, j: j, s: s, key: "key"}
		o := newObject("7", "log", isMap, keys)
		seq := 0
		grow := func() {
			if isMap {
				key := keys[seq%len(keys)]
				l := &pb.LeafData{LeafInput: []byte(fmt.Sprint(seq))}
				_, err := o.vmap(s, "key").Set(bg, key, l)
				noErr(t, err, "set")
				o.mm.Apply(mapMut{Action: "set", Key: key, Value: l})
			} else {
				o.add(t, s, "key", &pb.LeafData{LeafInput: []byte(fmt.Sprint(seq))})
			}
			seq++
		}
		if pick(t, "some", 4) > 0 {
			for i := pick(t, "before", 12); i > 0; i-- {
				grow()
			}
		}
		// what is waited for comes with the entry target; until then the log grows as the client sleeps, or between its requests
		begin := o.Size()
		target := between(t, "target", 0, begin+8)
		var sleeps []float64
		reqs := 0
		plan := make([]byte, 12)
		for i := range plan {
			plan[i] = byte(pick(t, "growth", 4))
		}
		between := pick(t, "between", 2) == 0
		sizes := []int64{}
		j.sleep = func(ms float64) {
			if len(sleeps) > 200 {
				t.Fatalf("still waiting for entry %d of %d: %v", target, o.Size(), sleeps)
			}
			n := int(plan[len(sleeps)%len(plan)])
			if len(sleeps) > 40 { // it does come
				n = max(n, 1)
			}
			for ; n > 0; n-- {
				grow()
			}
			sleeps = append(sleeps, ms)
			sizes = append(sizes, o.Size())
		}
		j.refuse = func(*http.Request) error {
			reqs++
			if between && reqs < 20 && plan[reqs%len(plan)] == 3 {
				grow()
				k.NT("grew-between-requests")
			}
			return nil
		}
		k.Op("waiting for %d of %d, %v, %v", target, begin, plan, between)
		what := fmt.Sprintf("waiting for entry %d from %d", target, begin)
		if target >= begin {
			k.NT("waited")
		}
		if isMap {
			var h jsMapHead
			j.do(t, w.op(o, "blockSize", "size", target+1)).ok(t, &h, what)
			n := h.Mutation.back(t).TreeSize
			if n <= target || n > o.Size() {
				t.Fatalf("%s: head %d of %d", what, n, o.Size())
			}
			h.want(t, o.mm, readLogModel(t, o.vmap(s, "key").MutationLog(), o.Size()), n, what)
		} else {
			var h jsHead
			j.do(t, w.op(o, "block", "leaf", latin(refLeafHash([]byte(fmt.Sprint(target)))))).ok(t, &h, what)
			n := h.back(t).TreeSize
			if n <= target || n > o.Size() {
				t.Fatalf("%s: head %d of %d", what, n, o.Size())
			}
			h.want(t, o.lm, n, what)
		}
		// it sleeps between polls, not for longer and longer while the log grows
		for i, ms := range sleeps {
			if ms < 500 {
				t.Fatalf("%s: waits %v ms between polls", what, sleeps)
			}
			_ = i
		}
		if o.Size() > target+64 {
			t.Fatalf("%s: noticed at %d only", what, o.Size())
		}
		k.Op("slept %d times", len(sleeps))
		k.Done()
	})
}

func TestC29_Denied(t *testing.T) {
	check(t, 2000, 20000, func(t *rapid.T) {
		k := newCase("C29")
		k.Class("denied")
		st := newRefStore()
		s := newService(st, &instant.Mutator{Writer: st}, keyOracle("key"))
		j := newJS(t, s)
		keys := [][]byte{[]byte("foo")}
		w := &jsWorld{k: k, j: j, s: s, key: oneOf(t, "key", "other", "", "Key", "key2", "ke")}
		l, m := newObject("7", "log", false, keys), newObject("7", "map", true, keys)
		for i := pick(t, "n", 6); i > 0; i-- {
			l.add(t, s, "key", &pb.LeafData{LeafInput: []byte{byte(i)}})
			v := &pb.LeafData{LeafInput: []byte{byte(i)}}
			_, err := m.vmap(s, "key").Set(bg, keys[0], v)
			noErr(t, err, "set")
			m.mm.Apply(mapMut{Action: "set", Key: keys[0], Value: v})
		}
		h := toJSHead(&pb.LogTreeHashResponse{TreeSize: 1, RootHash: expand(1, 32)})
		h2 := toJSHead(&pb.LogTreeHashResponse{TreeSize: 2, RootHash: expand(2, 32)})
		ms := &jsState{Map: &jsMapHead{Root: latin(expand(3, 32)), Mutation: h}, Thl: h}
		raw := jsAny{"kind": "raw", "data": "x"}
		reason := "CONTINUSEC_UNAUTHORIZED_ERROR"
		if pick(t, "connection", 3) == 0 {
			w.key = "key"
			reason = "CONTINUSEC_NETWORK_ERROR"
			j.refuse = func(*http.Request) error { return errors.New("no connection") }
		}
		type req struct {
			o    *object
			name string
			kv   []any
		}
		q := oneOf(t, "request", req{l, "add", []any{"entry", raw}}, req{l, "logHead", []any{"size", 0}}, req{l, "entry", []any{"index", 0, "factory", "raw"}},
			req{l, "entries", []any{"first", 0, "last", 3, "factory", "raw"}}, req{l, "verifyEntries", []any{"prev", nil, "head", h, "factory", "raw"}},
			req{l, "inclusion", []any{"size", 1, "leaf", "x"}}, req{l, "inclusionByIndex", []any{"size", 1, "index", 0}}, req{l, "verifyInclusion", []any{"head", h, "leaf", "x"}},
			req{l, "consistency", []any{"first", 1, "size", 2}}, req{l, "verifyConsistency", []any{"a", h, "b", h2}}, req{l, "latestHead", []any{"prev", nil}},
			req{l, "verifiedHead", []any{"prev", h, "size", 2}}, req{l, "block", []any{"leaf", "x"}},
			req{m, "get", []any{"mapKey", "foo", "size", 0, "factory", "raw"}}, req{m, "verifiedGet", []any{"mapKey", "foo", "state", ms, "factory", "raw"}},
			req{m, "set", []any{"mapKey", "foo", "entry", raw}}, req{m, "del", []any{"mapKey", "foo"}}, req{m, "mapHead", []any{"size", 0}}, req{m, "blockSize", []any{"size", 1}},
			req{m, "latestState", []any{"prev", nil}}, req{m, "verifiedState", []any{"prev", ms, "size", 2}})
		k.Op("%s with key %q", q.name, w.key)
		r := j.do(t, w.op(q.o, q.name, q.kv...))
		r.fails(t, reason, "%s with key %q", q.name, w.key)
		if len(r.Each) > 0 {
			t.Fatalf("%s with key %q shows %s", q.name, w.key, r.Each[0])
		}
		k.NT(reason)
		l.full(t, s, "key", 3)
		m.full(t, s, "key", 3)
		k.Done()
	})
}
