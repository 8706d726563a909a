package harness

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"net/http"
	"sort"
	"sync"
	"testing"

	"github.com/continusec/objecthash"
	"github.com/continusec/verifiabledatastructures/mutator/instant"
	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"pgregory.net/rapid"
)

// ---- worlds: a log and a map with their models; a world can be forked ----

type world struct {
	name  string
	store *refStore
	svc   server
	logm  *logModel // user log "log"
	mm    *mapModel // map "m"
	mut   *logModel
	thl   *logModel
	json  bool // entries are JSON
}

func newWorld(store *refStore) *world {
	return &world{store: store, svc: newService(store, &instant.Mutator{Writer: store}, nil), logm: newLogModel(), mm: newMapModel()}
}

func (w *world) log() *verifiable.Log { return client(w.svc, "7", "key").VerifiableLog("log") }
func (w *world) vmap() *verifiable.Map {
	return client(w.svc, "7", "key").VerifiableMap("m")
}

func (w *world) addLog(t tb, n int) {
	for i := 0; i < n; i++ {
		l := &pb.LeafData{LeafInput: []byte(fmt.Sprintf("%s-entry-%d", w.name, w.logm.Size())), ExtraData: []byte("x")}
		if w.json {
			v := map[string]any{"entry": w.name, "n": float64(w.logm.Size()), "of": []any{"x", nil, true}}
			b, err := json.Marshal(v)
			noErr(t, err, "json")
			l = &pb.LeafData{LeafInput: refObjectHash(v), ExtraData: b, Format: pb.DataFormat_JSON}
		}
		_, err := w.log().Add(bg, l)
		noErr(t, err, "add")
		w.logm.Add(l)
	}
}

func (w *world) mutate(t *rapid.T, k *kase, pool [][]byte, n int) {
	for i := 0; i < n; i++ {
		mu := genMut(t, k, w.mm, pool)
		_, err := applyMut(w.vmap(), mu)
		noErr(t, err, "mutation")
		w.mm.Apply(mu)
		k.Op("%s", mu)
	}
	w.mut = readLogModel(t, w.vmap().MutationLog(), w.mm.Size())
	w.thl = readLogModel(t, w.vmap().TreeHeadLog(), w.mm.Size())
}

func (w *world) fork() *world {
	n := newWorld(w.store.Clone())
	n.name, n.json = w.name+"fork", w.json
	for _, e := range w.logm.entries {
		n.logm.Add(e)
	}
	for _, mu := range w.mm.muts {
		n.mm.Apply(mu)
	}
	return n
}

func (m *logModel) has(h *pb.LogTreeHashResponse) bool {
	return h.GetTreeSize() >= 1 && h.TreeSize <= m.Size() && bytes.Equal(h.RootHash, m.tree.Root(h.TreeSize))
}

// ---- a server that alters answers ----

type tamperer struct {
	pb.UnimplementedVerifiableDataStructuresServiceServer
	mu     sync.Mutex // streams fetch from their own goroutine
	seed   int
	calls  int
	closed bool
	k      *kase
	worlds []*world // [0] is the one the client trusts
	after  int      // answers left alone first
	budget int      // answers that may be altered
	split  bool     // may answer from another world
	json   bool     // entries of logs are JSON
	log    []string
}

func tamperFields(t *rapid.T, m protoreflect.Message) string {
	fields := m.Descriptor().Fields()
	f := fields.Get(pick(t, "field", fields.Len()))
	name := string(f.Name())
	switch {
	case f.IsList():
		l := m.Mutable(f).List()
		n := l.Len()
		op := pick(t, "listop", 7)
		if n == 0 {
			op = 5
		}
		switch op {
		case 0, 1, 2: // inside an element
			i := pick(t, "elem", n)
			if f.Kind() == protoreflect.MessageKind {
				return fmt.Sprintf("%s[%d].", name, i) + tamperFields(t, l.Get(i).Message())
			}
			l.Set(i, protoreflect.ValueOfBytes(tamperBytes(t, l.Get(i).Bytes())))
			return fmt.Sprintf("%s[%d]", name, i)
		case 3:
			l.Truncate(pick(t, "len", n))
			return name + " truncated"
		case 4:
			i, j := pick(t, "i", n), pick(t, "j", n)
			if f.Kind() == protoreflect.MessageKind {
				a, b := proto.Clone(l.Get(i).Message().Interface()), proto.Clone(l.Get(j).Message().Interface())
				l.Set(i, protoreflect.ValueOfMessage(b.ProtoReflect()))
				l.Set(j, protoreflect.ValueOfMessage(a.ProtoReflect()))
			} else {
				a, b := append([]byte{}, l.Get(i).Bytes()...), append([]byte{}, l.Get(j).Bytes()...)
				l.Set(i, protoreflect.ValueOfBytes(b))
				l.Set(j, protoreflect.ValueOfBytes(a))
			}
			return name + " swapped"
		case 5:
			for i, x := 0, 1+pick(t, "extra", 3); i < x; i++ {
				if f.Kind() == protoreflect.MessageKind {
					if n > 0 && rapid.Bool().Draw(t, "repeat") {
						l.Append(protoreflect.ValueOfMessage(proto.Clone(l.Get(pick(t, "from", n)).Message().Interface()).ProtoReflect()))
					} else {
						l.Append(l.NewElement())
					}
				} else {
					l.Append(protoreflect.ValueOfBytes(genWildBytes(t)))
				}
			}
			return name + " extended"
		default:
			m.Clear(f)
			return name + " cleared"
		}
	case f.Kind() == protoreflect.MessageKind:
		if !m.Has(f) || pick(t, "clear", 3) == 0 {
			m.Clear(f)
			return name + " cleared"
		}
		return name + "." + tamperFields(t, m.Mutable(f).Message())
	case f.Kind() == protoreflect.BytesKind:
		m.Set(f, protoreflect.ValueOfBytes(tamperBytes(t, m.Get(f).Bytes())))
	case f.Kind() == protoreflect.Int64Kind:
		m.Set(f, protoreflect.ValueOfInt64(nearby(t, m.Get(f).Int())))
	case f.Kind() == protoreflect.EnumKind:
		m.Set(f, protoreflect.ValueOfEnum(protoreflect.EnumNumber(pick(t, "enum", 3))))
	case f.Kind() == protoreflect.StringKind:
		m.Set(f, protoreflect.ValueOfString(oneOf(t, "str", "", "set", "delete", "update", "other")))
	}
	return name
}

func tamperBytes(t *rapid.T, b []byte) []byte {
	if len(b) == 0 {
		return genWildBytes(t)
	}
	switch pick(t, "bytesop", 6) {
	case 0:
		return nil
	case 1:
		return genWildBytes(t)
	case 2:
		return append(append([]byte{}, b...), 0)
	case 3:
		return b[:pick(t, "cut", len(b))]
	default:
		return flip(t, b)
	}
}

// tamperJSON alters a JSON entry; fix makes the leaf input match the altered JSON.
func tamperJSON(t *rapid.T, l *pb.LeafData, mutation bool) string {
	var o map[string]any
	if json.Unmarshal(l.ExtraData, &o) != nil {
		return "not JSON"
	}
	what := ""
	set := func(m map[string]any, k string, vs ...any) {
		i := pick(t, "val", len(vs)+1)
		if i == len(vs) {
			delete(m, k)
			what = k + " removed"
		} else {
			m[k] = vs[i]
			what = fmt.Sprintf("%s=%v", k, vs[i])
		}
	}
	if mutation {
		switch pick(t, "jsonfield", 6) {
		case 0:
			set(o, "action", "set", "delete", "update", "", "SET", "other", nil, 7)
		case 1:
			set(o, "key", "", "a2V5", nil, "!!", 3)
		case 2:
			set(o, "value", nil, map[string]any{}, map[string]any{"leaf_input": "eA=="}, []any{}, "x")
		case 3:
			set(o, "previous_leaf_hash", "", nil, "AAAA", "bjQLnP+zeplcpUTmu3gKLHi3nTO3CQU8nc0QhCZgHvg=")
		case 4:
			set(o, "timestamp", "", nil, "2020-01-01T00:00:00Z")
		case 5:
			if v, ok := o["value"].(map[string]any); ok {
				set(v, "leaf_input", "", nil, "eA==", "eHg=")
			} else {
				set(o, "value", map[string]any{"leaf_input": "eA=="}, nil)
			}
		}
	} else {
		switch pick(t, "jsonfield", 4) {
		case 0:
			set(o, "root_hash", "", nil, "eA==", "bjQLnP+zeplcpUTmu3gKLHi3nTO3CQU8nc0QhCZgHvg=")
		case 1:
			set(o, "mutation_log", nil, map[string]any{}, map[string]any{"tree_size": 1}, "x")
		default:
			ml, ok := o["mutation_log"].(map[string]any)
			if !ok {
				ml = map[string]any{}
				o["mutation_log"] = ml
			}
			if rapid.Bool().Draw(t, "size") {
				set(ml, "tree_size", 0, -1, 1, 2, 3, 1000, float64(math.MaxInt64), "x", nil, math.MinInt64)
			} else {
				set(ml, "root_hash", "", nil, "eA==")
			}
		}
	}
	var b []byte
	switch pick(t, "shape", 12) {
	case 0:
		b = oneOf(t, "odd", []byte("null"), []byte("[]"), []byte("{}"), []byte("7"), []byte(`""`), []byte("{"), nil, []byte(`{"value":null}`), []byte("true"))
		what = fmt.Sprintf("%q", b)
	default:
		b, _ = json.Marshal(o)
	}
	l.ExtraData = b
	if pick(t, "fix", 4) > 0 {
		var x any
		if json.Unmarshal(b, &x) == nil {
			if m, ok := x.(map[string]any); ok && mutation {
				if v, ok := m["value"].(map[string]any); ok {
					delete(v, "extra_data")
					delete(v, "format")
				}
			}
			if h, err := objecthash.ObjectHashWithStdRedaction(x); err == nil {
				l.LeafInput = h
			}
		}
		what += " (leaf input recomputed)"
	}
	return what
}

func tamper[R proto.Message](x *tamperer, name string, lt pb.LogType, honest func(server) (R, error)) (rv R, err error) {
	x.mu.Lock()
	defer x.mu.Unlock()
	if x.closed {
		return rv, status.Error(codes.Internal, "over")
	}
	x.calls++
	// What is done to an answer is a function of the drawn seed and the number of the call, not drawn
	// from the case's own stream: the call may come from another goroutine.
	rapid.Custom(func(t *rapid.T) int {
		rapid.Bool().Draw(t, "first") // rapid insists on at least one draw
		rv, err = tamperOne(x, t, name, lt, honest)
		return 0
	}).Example(x.seed*1000 + x.calls)
	return rv, err
}

func tamperOne[R proto.Message](x *tamperer, t *rapid.T, name string, lt pb.LogType, honest func(server) (R, error)) (R, error) {
	src := 0
	if x.split && x.after <= 0 && len(x.worlds) > 1 && pick(t, "split", 2) == 0 {
		src = 1
	}
	r, err := honest(x.worlds[src].svc)
	if x.after > 0 {
		x.after--
		return r, err
	}
	if src == 1 {
		x.k.Class("split-view")
		x.log = append(x.log, name+" from the fork")
	}
	if err != nil || x.budget <= 0 || (x.split && pick(t, "leave", 3) > 0) || (!x.split && pick(t, "leave", 3) == 0) {
		return r, err
	}
	x.budget--
	r = proto.Clone(r).(R)
	what := ""
	fe, _ := any(r).(*pb.LogFetchEntriesResponse)
	if fe != nil && len(fe.Values) > 0 && (x.json || lt != pb.LogType_STRUCT_TYPE_LOG) && pick(t, "json", 4) > 0 {
		i := pick(t, "entry", len(fe.Values))
		what = fmt.Sprintf("entry %d: ", i) + tamperJSON(t, fe.Values[i], lt == pb.LogType_STRUCT_TYPE_MUTATION_LOG)
		x.k.Class("json-altered")
	} else if fe != nil && len(fe.Values) > 0 && pick(t, "nilentry", 8) == 0 {
		fe.Values[pick(t, "entry", len(fe.Values))] = nil
		what = "nil entry"
		x.k.Class("nil-entry")
	} else {
		what = tamperFields(t, r.ProtoReflect())
	}
	x.log = append(x.log, fmt.Sprintf("%s %v: %s", name, lt, what))
	x.k.NT("altered-" + name)
	return r, nil
}

// close ends the case: streams still running get errors.
func (x *tamperer) close() {
	x.mu.Lock()
	x.closed = true
	x.mu.Unlock()
}

func (x *tamperer) LogAddEntry(ctx context.Context, q *pb.LogAddEntryRequest) (*pb.LogAddEntryResponse, error) {
	return nil, status.Error(codes.Internal, "no")
}
func (x *tamperer) MapSetValue(ctx context.Context, q *pb.MapSetValueRequest) (*pb.MapSetValueResponse, error) {
	return nil, status.Error(codes.Internal, "no")
}
func (x *tamperer) LogFetchEntries(ctx context.Context, q *pb.LogFetchEntriesRequest) (*pb.LogFetchEntriesResponse, error) {
	return tamper(x, "entries", q.Log.LogType, func(s server) (*pb.LogFetchEntriesResponse, error) { return s.LogFetchEntries(ctx, q) })
}
func (x *tamperer) LogTreeHash(ctx context.Context, q *pb.LogTreeHashRequest) (*pb.LogTreeHashResponse, error) {
	return tamper(x, "loghead", q.Log.LogType, func(s server) (*pb.LogTreeHashResponse, error) { return s.LogTreeHash(ctx, q) })
}
func (x *tamperer) LogInclusionProof(ctx context.Context, q *pb.LogInclusionProofRequest) (*pb.LogInclusionProofResponse, error) {
	return tamper(x, "inclusion", q.Log.LogType, func(s server) (*pb.LogInclusionProofResponse, error) { return s.LogInclusionProof(ctx, q) })
}
func (x *tamperer) LogConsistencyProof(ctx context.Context, q *pb.LogConsistencyProofRequest) (*pb.LogConsistencyProofResponse, error) {
	return tamper(x, "consistency", q.Log.LogType, func(s server) (*pb.LogConsistencyProofResponse, error) { return s.LogConsistencyProof(ctx, q) })
}
func (x *tamperer) MapGetValue(ctx context.Context, q *pb.MapGetValueRequest) (*pb.MapGetValueResponse, error) {
	return tamper(x, "value", -1, func(s server) (*pb.MapGetValueResponse, error) { return s.MapGetValue(ctx, q) })
}
func (x *tamperer) MapTreeHash(ctx context.Context, q *pb.MapTreeHashRequest) (*pb.MapTreeHashResponse, error) {
	return tamper(x, "maphead", -1, func(s server) (*pb.MapTreeHashResponse, error) { return s.MapTreeHash(ctx, q) })
}

// sameHistory: both heads belong to one of the logs.
func sameHistory(logs []*logModel, a, b *pb.LogTreeHashResponse) bool {
	for _, l := range logs {
		if l.has(a) && l.has(b) {
			return true
		}
	}
	return false
}

// proves tells if lh is the entry at i of a log with head h.
func proves(logs []*logModel, h *pb.LogTreeHashResponse, i int64, lh []byte) bool {
	for _, l := range logs {
		if l.has(h) && i < h.TreeSize && bytes.Equal(l.tree.leaves[i], lh) {
			return true
		}
	}
	return false
}

func genWorlds(t *rapid.T, k *kase, pool [][]byte, withMap bool, as ...func(*world)) []*world {
	a := newWorld(newRefStore())
	for _, f := range as {
		f(a)
	}
	if withMap {
		a.mutate(t, k, pool, 1+pick(t, "common", 14))
	} else {
		a.addLog(t, 1+pick(t, "common", 40))
	}
	b := a.fork()
	if withMap {
		a.mutate(t, k, pool, pick(t, "more", 9))
		b.mutate(t, k, pool, pick(t, "fork", 12))
	} else {
		a.addLog(t, pick(t, "more", 30))
		b.addLog(t, pick(t, "fork", 40))
	}
	return []*world{a, b}
}

func newTamperer(t *rapid.T, k *kase, w []*world) *tamperer {
	x := &tamperer{k: k, worlds: w, seed: pick(t, "seed", 1<<20), budget: 1 + pick(t, "budget", 3), split: pick(t, "splitmode", 3) == 0, after: pick(t, "after", 3)}
	if x.split && rapid.Bool().Draw(t, "puresplit") {
		x.budget = 0
		k.NT("split-only")
	}
	return x
}

func TestC12_Log(t *testing.T) {
	check(t, 30000, 500000, func(t *rapid.T) {
		k := newCase("C12")
		w := genWorlds(t, k, nil, false)
		logs := []*logModel{w[0].logm, w[1].logm}
		A := w[0].logm
		x := newTamperer(t, k, w)
		defer x.close()
		l := client(x, "7", "key").VerifiableLog("log")
		n := A.Size()
		op := pick(t, "op", 7)
		s := between(t, "size", 1, n)
		head := A.head(s)
		fail := func(f string, a ...any) {
			t.Fatalf("%s; log of %d; server did: %v", fmt.Sprintf(f, a...), n, x.log)
		}
		switch op {
		case 0, 1: // inclusion
			var lh []byte
			if rapid.Bool().Draw(t, "member") {
				lh = refLeafHash(A.entries[pick(t, "entry", int(n))].LeafInput)
			} else {
				lh = oneOf(t, "lh", refLeafHash([]byte("absent")), refLeafHash(w[1].logm.entries[w[1].logm.Size()-1].LeafInput), A.head(s).RootHash, refEmptyLeaf)
			}
			if l.VerifyInclusion(bg, head, lh) == nil {
				ok := false
				for _, e := range A.entries[:s] {
					ok = ok || bytes.Equal(refLeafHash(e.LeafInput), lh)
				}
				if !ok {
					fail("inclusion of a hash that is not in the first %d entries accepted", s)
				}
				k.Class("succeeded")
			}
			k.Op("inclusion")
		case 2: // consistency of two heads
			a, b := head, logs[pick(t, "world", 2)]
			bh := b.head(between(t, "other", 1, b.Size()))
			if pick(t, "garbage", 4) == 0 {
				bh.RootHash = flip(t, bh.RootHash)
			}
			if rapid.Bool().Draw(t, "swap") {
				a, bh = bh, a
			}
			if l.VerifyConsistency(bg, a, bh) == nil {
				k.Class("succeeded")
				if !(a.TreeSize == bh.TreeSize && bytes.Equal(a.RootHash, bh.RootHash)) && !sameHistory(logs, a, bh) {
					fail("heads %d and %d of different histories accepted", a.TreeSize, bh.TreeSize)
				}
			}
			k.Op("consistency")
		case 3: // follow heads
			prev := head
			for i := 0; i < 4; i++ {
				var h *pb.LogTreeHashResponse
				var err error
				if rapid.Bool().Draw(t, "latest") {
					h, err = l.VerifiedLatestTreeHead(bg, prev)
				} else {
					h, err = l.VerifiedTreeHead(bg, prev, between(t, "want", 0, n+3))
				}
				if err != nil {
					continue
				}
				k.Class("succeeded")
				if h != prev && !sameHistory(logs, prev, h) {
					fail("head %d accepted after head %d of another history", h.GetTreeSize(), prev.TreeSize)
				}
				prev = h
			}
			k.Op("follow")
		case 4: // supplied proof
			P := logs[pick(t, "proof of", 4)/3] // 1 in 4 for the fork
			i := between(t, "index", 0, P.Size()-1)
			ps := between(t, "proofsize", i+1, P.Size())
			p := &pb.LogInclusionProofResponse{LeafIndex: i, TreeSize: ps, AuditPath: P.tree.Path(i, ps)}
			lh := P.tree.leaves[i]
			if P != A && pick(t, "with its head", 3) > 0 {
				x.split, x.after, x.budget = true, 0, 0
			} else if rapid.Bool().Draw(t, "badproof") {
				p = proto.Clone(p).(*pb.LogInclusionProofResponse)
				x.log = append(x.log, "proof "+tamperFields(t, p.ProtoReflect()))
			}
			h, err := l.VerifySuppliedInclusionProof(bg, head, p, lh)
			if err == nil {
				k.Class("succeeded")
				if h != head && !sameHistory(logs, head, h) {
					fail("supplied proof: head %d of another history accepted after %d", h.GetTreeSize(), s)
				}
				if !proves(logs, h, i, lh) || p.LeafIndex != i {
					fail("supplied proof for index %d accepted for the entry at %d (head %d)", p.LeafIndex, i, h.TreeSize)
				}
			}
			k.Op("supplied")
		default: // audit
			var prev *pb.LogTreeHashResponse
			ps := int64(0)
			if pick(t, "prev", 3) > 0 {
				ps = between(t, "prevsize", 0, n)
				prev = A.head(ps)
			}
			hm := A
			if pick(t, "forkhead", 5) == 0 {
				hm = w[1].logm
				head = hm.head(between(t, "forksize", 1, hm.Size()))
			}
			var seen []*pb.LeafData
			next := ps
			err := l.VerifyEntries(bg, prev, head, func(ctx context.Context, idx int64, e *pb.LeafData) error {
				if idx != next {
					fail("audit function called for %d, expected %d", idx, next)
				}
				next++
				seen = append(seen, e)
				return nil
			})
			if err == nil && head.TreeSize > ps {
				k.Class("succeeded")
				if ps > 0 && !sameHistory(logs, prev, head) {
					fail("audit from %d to head %d of another history succeeded", ps, head.TreeSize)
				}
				if int64(len(seen)) != head.TreeSize-ps {
					fail("audit from %d to %d showed %d entries", ps, head.TreeSize, len(seen))
				}
				for i, e := range seen {
					if !bytes.Equal(e.GetLeafInput(), hm.entries[ps+int64(i)].LeafInput) {
						fail("audit from %d to %d accepted an altered entry %d", ps, head.TreeSize, ps+int64(i))
					}
				}
			}
			k.Op("audit")
		}
		k.Op("%v n=%d s=%d", x.log, n, s)
		k.Done()
	})
}

func (w *world) state(n, heads int64) *verifiable.MapTreeState {
	return &verifiable.MapTreeState{
		MapTreeHead:         &pb.MapTreeHashResponse{RootHash: w.mm.roots[n], MutationLog: w.mut.head(n)},
		TreeHeadLogTreeHead: w.thl.head(heads),
	}
}

// stateOK: the state is the true one of one of the worlds.
func (w *world) stateOK(st *verifiable.MapTreeState) bool {
	n := st.MapTreeHead.GetMutationLog().GetTreeSize()
	return n >= 1 && n <= w.mm.Size() && n <= st.TreeHeadLogTreeHead.GetTreeSize() && w.thl.has(st.TreeHeadLogTreeHead) &&
		w.mut.has(st.MapTreeHead.MutationLog) && bytes.Equal(st.MapTreeHead.RootHash, w.mm.roots[n])
}

func TestC12_Map(t *testing.T) {
	check(t, 10000, 200000, func(t *rapid.T) {
		k := newCase("C12")
		pool := genKeyPool(8).Draw(t, "pool")
		w := genWorlds(t, k, pool, true)
		A := w[0]
		n := A.mm.Size()
		x := newTamperer(t, k, w)
		defer x.close()
		vm := client(x, "7", "key").VerifiableMap("m")
		fail := func(f string, a ...any) {
			t.Fatalf("%s; map of %d; server did: %v", fmt.Sprintf(f, a...), n, x.log)
		}
		s := between(t, "size", 1, n)
		st := A.state(s, between(t, "heads", s, n))
		switch pick(t, "op", 6) {
		case 0, 1:
			key := pool[pick(t, "key", len(pool))]
			v, err := vm.VerifiedGet(bg, key, st)
			if err == nil {
				k.Class("succeeded")
				if !bytes.Equal(v.GetLeafInput(), A.mm.Get(key, s).GetLeafInput()) {
					fail("verified get of %s at %d accepted %s", short(key), s, short(v.GetLeafInput()))
				}
			}
			k.Op("get")
		case 2, 3:
			prev := st
			if pick(t, "nilprev", 4) == 0 {
				prev = nil
			}
			for i := 0; i < 3; i++ {
				var nst *verifiable.MapTreeState
				var err error
				if rapid.Bool().Draw(t, "latest") {
					nst, err = vm.VerifiedLatestMapState(bg, prev)
				} else {
					nst, err = vm.VerifiedMapState(bg, prev, between(t, "want", 0, n+2))
				}
				if err != nil || nst == nil {
					continue
				}
				k.Class("succeeded")
				if !A.stateOK(nst) && !w[1].stateOK(nst) {
					fail("map state %d that never existed accepted (previous %v)", nst.TreeSize(), prev != nil)
				}
				if prev != nil && (!sameHistory([]*logModel{A.mut, w[1].mut}, prev.MapTreeHead.MutationLog, nst.MapTreeHead.MutationLog) ||
					!sameHistory([]*logModel{A.thl, w[1].thl}, prev.TreeHeadLogTreeHead, nst.TreeHeadLogTreeHead)) {
					fail("map state %d of another history accepted after %d", nst.TreeSize(), prev.TreeSize())
				}
				prev = nst
			}
			k.Op("follow")
		default:
			var prev *verifiable.MapTreeState
			if pick(t, "prev", 3) == 0 {
				ps := between(t, "prevsize", 1, n)
				prev = A.state(ps, between(t, "prevheads", ps, n))
			}
			type call struct {
				idx   int64
				key   []byte
				value []byte
			}
			var calls []call
			var leaves []*pb.LeafData
			err := vm.VerifyMap(bg, prev, st, func(ctx context.Context, l *pb.LeafData) error {
				leaves = append(leaves, l)
				return nil
			}, func(ctx context.Context, idx int64, key []byte, v *pb.LeafData) error {
				calls = append(calls, call{idx, key, v.GetLeafInput()})
				return nil
			})
			upTo := st.TreeHeadLogTreeHead.TreeSize
			if err == nil && (prev == nil || prev.TreeHeadLogTreeHead.TreeSize < upTo) {
				k.Class("succeeded")
				var want []call
				wantLeaves := 0
				for i, mu := range A.mm.muts[:upTo] {
					if mu.Value != nil {
						if wantLeaves >= len(leaves) || !bytes.Equal(leaves[wantLeaves].GetLeafInput(), mu.Value.LeafInput) {
							fail("audit to %d succeeded with other values than the mutations'", upTo)
						}
						wantLeaves++
					}
					if A.mm.changed[i] {
						want = append(want, call{int64(i), mu.Key, mu.Value.GetLeafInput()})
					}
				}
				if len(calls) < len(want) {
					fail("audit to %d succeeded showing %d of %d changes", upTo, len(calls), len(want))
				}
				for i, c := range want {
					g := calls[i]
					if g.idx != c.idx || !bytes.Equal(g.key, c.key) || !bytes.Equal(g.value, c.value) {
						fail("audit to %d accepted an altered mutation %d", upTo, c.idx)
					}
				}
			}
			k.Op("audit")
		}
		k.Op("%v n=%d s=%d", x.log, n, s)
		k.Done()
	})
}

// ---- a server that makes up its logs entirely ----

// listServer serves logs from lists of entries with correct trees and proofs over them; nothing
// else about the entries need be right.
type listServer struct {
	server
	logs  map[pb.LogType]*logModel
	heads map[int64]*pb.MapTreeHashResponse
}

func (s *listServer) log(l *pb.LogRef) *logModel { return s.logs[l.LogType] }

func (s *listServer) LogTreeHash(ctx context.Context, q *pb.LogTreeHashRequest) (*pb.LogTreeHashResponse, error) {
	m := s.log(q.Log)
	n := q.TreeSize
	if n == 0 {
		n = m.Size()
	}
	if n > m.Size() || n < 0 {
		return nil, status.Error(codes.InvalidArgument, "")
	}
	return m.head(n), nil
}

func (s *listServer) LogFetchEntries(ctx context.Context, q *pb.LogFetchEntriesRequest) (*pb.LogFetchEntriesResponse, error) {
	m := s.log(q.Log)
	if q.First < 0 || q.Last > m.Size() || q.First >= q.Last {
		return nil, status.Error(codes.InvalidArgument, "")
	}
	rv := &pb.LogFetchEntriesResponse{}
	for _, e := range m.entries[q.First:q.Last] {
		rv.Values = append(rv.Values, cloneLeaf(e))
	}
	return rv, nil
}

func (s *listServer) LogInclusionProof(ctx context.Context, q *pb.LogInclusionProofRequest) (*pb.LogInclusionProofResponse, error) {
	m := s.log(q.Log)
	i := q.LeafIndex
	if len(q.MtlHash) > 0 {
		i = -1
		for j, h := range m.tree.leaves {
			if bytes.Equal(h, q.MtlHash) {
				i = int64(j)
			}
		}
	}
	if i < 0 || i >= q.TreeSize || q.TreeSize > m.Size() {
		return nil, status.Error(codes.NotFound, "")
	}
	return &pb.LogInclusionProofResponse{LeafIndex: i, TreeSize: q.TreeSize, AuditPath: m.tree.Path(i, q.TreeSize)}, nil
}

func (s *listServer) LogConsistencyProof(ctx context.Context, q *pb.LogConsistencyProofRequest) (*pb.LogConsistencyProofResponse, error) {
	m := s.log(q.Log)
	if q.FromSize < 1 || q.FromSize >= q.TreeSize || q.TreeSize > m.Size() {
		return nil, status.Error(codes.InvalidArgument, "")
	}
	return &pb.LogConsistencyProofResponse{FromSize: q.FromSize, TreeSize: q.TreeSize, AuditPath: m.tree.Proof(q.FromSize, q.TreeSize)}, nil
}

func (s *listServer) MapTreeHash(ctx context.Context, q *pb.MapTreeHashRequest) (*pb.MapTreeHashResponse, error) {
	n := q.TreeSize
	if n == 0 {
		n = s.logs[pb.LogType_STRUCT_TYPE_MUTATION_LOG].Size()
	}
	if h := s.heads[n]; h != nil {
		return proto.Clone(h).(*pb.MapTreeHashResponse), nil
	}
	return nil, status.Error(codes.InvalidArgument, "")
}

// addRaw appends an entry even if one with this leaf input is there, with any leaf hash.
func (m *logModel) addRaw(l *pb.LeafData, leafHash []byte) {
	m.entries = append(m.entries, l)
	m.tree.Add(leafHash)
}

func TestC12_HostileLogs(t *testing.T) {
	check(t, 8000, 120000, func(t *rapid.T) {
		k := newCase("C12")
		pool := genKeyPool(6).Draw(t, "pool")
		w := newWorld(newRefStore())
		w.mutate(t, k, pool, 1+pick(t, "n", 10))
		n := w.mm.Size()
		var did []string
		muts, heads := w.mut.entries, append([]*pb.LeafData{}, w.thl.entries...)
		mi, hi := -1, -1
		mut := newLogModel()
		if pick(t, "altermutation", 2) == 0 {
			mi = pick(t, "which", int(n))
		}
		for i, e := range muts {
			e = cloneLeaf(e)
			if i == mi {
				did = append(did, fmt.Sprintf("mutation %d: %s", i, tamperJSON(t, e, true)))
				k.NT("mutation-altered")
			}
			mut.addRaw(e, refLeafHash(e.LeafInput))
		}
		// The heads the altered mutation log would have, so that checks further on are reached.
		thl := newLogModel()
		nh := int(n)
		if pick(t, "alterhead", 2) == 0 {
			hi = pick(t, "which", nh)
		}
		for i := 0; i < nh; i++ {
			e := cloneLeaf(heads[i])
			if mi >= 0 && rapid.Bool().Draw(t, "refit") {
				var o map[string]any
				noErr(t, json.Unmarshal(e.ExtraData, &o), "head")
				o["mutation_log"].(map[string]any)["root_hash"] = mut.head(int64(i + 1)).RootHash
				e.ExtraData, _ = json.Marshal(o)
				e.LeafInput = jsonHash(t, e.ExtraData)
			}
			if i == hi {
				did = append(did, fmt.Sprintf("head %d: %s", i, tamperJSON(t, e, false)))
				k.NT("head-altered")
			}
			thl.addRaw(e, refLeafHash(e.LeafInput))
		}
		srv := &listServer{logs: map[pb.LogType]*logModel{pb.LogType_STRUCT_TYPE_MUTATION_LOG: mut, pb.LogType_STRUCT_TYPE_TREEHEAD_LOG: thl}}
		vm := client(srv, "7", "key").VerifiableMap("m")
		st := &verifiable.MapTreeState{MapTreeHead: &pb.MapTreeHashResponse{RootHash: w.mm.roots[n], MutationLog: mut.head(n)}, TreeHeadLogTreeHead: thl.head(thl.Size())}
		var lf verifiable.LeafDataAuditFunction
		if pick(t, "leaffunc", 3) == 0 {
			lf = func(ctx context.Context, l *pb.LeafData) error { _ = l.GetLeafInput(); return nil }
		}
		err := vm.VerifyMap(bg, nil, st, lf, func(ctx context.Context, idx int64, key []byte, v *pb.LeafData) error { return nil })
		if len(did) == 0 {
			noErr(t, err, "audit of unaltered logs served by the reference server")
		}
		if err == nil {
			k.Class("succeeded")
			// replay what the mutation log says and compare every head with it
			m := newMapModel()
			for i, e := range mut.entries {
				j := decodeJSON[jsonMutation](t, e.ExtraData, "mutation")
				mu := mapMut{Action: j.Action, Key: j.Key, Prev: j.PreviousLeafHash}
				if j.Value != nil {
					mu.Value = &pb.LeafData{LeafInput: j.Value.LeafInput}
				}
				switch {
				case mu.Action == "delete":
				case (mu.Action == "set" || mu.Action == "update") && mu.Value != nil:
				default:
					t.Fatalf("audit succeeded over mutation %d: %s (%v)", i, e.ExtraData, did)
				}
				if !bytes.Equal(e.LeafInput, mutationHash(t, e.ExtraData)) && i == mi {
					// only fields the mutation's own form does not have may differ
					if _, err := verifiable.CreateJSONLeafData(e.ExtraData); err != nil {
						t.Fatalf("audit succeeded over mutation %d whose leaf input is not its hash (%v)", i, did)
					}
				}
				m.Apply(mu)
			}
			for i, e := range thl.entries {
				h := decodeJSON[jsonMapHead](t, e.ExtraData, "head")
				if h.MutationLog == nil || h.MutationLog.TreeSize < 1 || h.MutationLog.TreeSize > n {
					t.Fatalf("audit succeeded over head %d: %s (%v)", i, e.ExtraData, did)
				}
				s := h.MutationLog.TreeSize
				if !bytes.Equal(h.RootHash, m.roots[s]) || !bytes.Equal(h.MutationLog.RootHash, mut.tree.Root(s)) {
					t.Fatalf("audit succeeded over false head %d: %s (%v)", i, e.ExtraData, did)
				}
				if !bytes.Equal(e.LeafInput, jsonHash(t, e.ExtraData)) {
					t.Fatalf("audit succeeded over head %d whose leaf input is not its hash (%v)", i, did)
				}
			}
		}
		k.Op("%v n=%d", did, n)
		k.Done()
	})
}

// TestC12_RawLeaf: a tree head log whose leaf is a bare object hash must not vouch for a map head.
func TestC12_RawLeaf(t *testing.T) {
	check(t, 800, 8000, func(t *rapid.T) {
		k := newCase("C12")
		pool := genKeyPool(6).Draw(t, "pool")
		w := newWorld(newRefStore())
		w.mutate(t, k, pool, 2+pick(t, "n", 10))
		n := w.mm.Size()
		at := between(t, "at", 2, n) // the head for this size is replaced
		fake := &pb.MapTreeHashResponse{RootHash: refLeafHash([]byte("fake")), MutationLog: w.mut.head(at)}
		b, err := json.Marshal(fake)
		noErr(t, err, "json")
		thl := newLogModel()
		for i, e := range w.thl.entries {
			if int64(i) == at-1 {
				thl.addRaw(e, jsonHash(t, b))
			} else {
				thl.addRaw(e, refLeafHash(e.LeafInput))
			}
		}
		srv := &listServer{logs: map[pb.LogType]*logModel{pb.LogType_STRUCT_TYPE_MUTATION_LOG: w.mut, pb.LogType_STRUCT_TYPE_TREEHEAD_LOG: thl},
			heads: map[int64]*pb.MapTreeHashResponse{}}
		for i := int64(1); i <= n; i++ {
			srv.heads[i] = &pb.MapTreeHashResponse{RootHash: w.mm.roots[i], MutationLog: w.mut.head(i)}
		}
		srv.heads[at] = fake
		vm := client(srv, "7", "key").VerifiableMap("m")
		first := between(t, "first", 1, at-1)
		prev, err := vm.VerifiedMapState(bg, nil, first)
		noErr(t, err, "first state")
		st, err := vm.VerifiedMapState(bg, prev, at)
		if err == nil {
			t.Fatalf("map state %d of %d whose root %s is in no entry of the tree head log was accepted", st.TreeSize(), n, short(st.MapTreeHead.RootHash))
		}
		k.Op("raw leaf at %d of %d after %d", at, n, first)
		k.NT("raw-leaf")
		k.Done()
	})
}

type pathServer struct {
	*listServer
	path [][]byte
}

func (s *pathServer) LogInclusionProof(ctx context.Context, q *pb.LogInclusionProofRequest) (*pb.LogInclusionProofResponse, error) {
	return &pb.LogInclusionProofResponse{LeafIndex: q.LeafIndex, TreeSize: q.TreeSize, AuditPath: s.path}, nil
}

// The audit of the entries after a held head starts from an audit path that the server supplies. Paths that
// fold to the held root but are not of the held head's shape (nodes merged, or replaced by their children)
// must not make it accept a head the entries do not have, nor panic.
func TestC12_HostilePath(t *testing.T) {
	check(t, 6000, 100000, func(t *rapid.T) {
		k := newCase("C12")
		hostilePath(t, k, func(srv server, prev, head *pb.LogTreeHashResponse) (got []string, err error) {
			err = client(srv, "7", "key").VerifiableLog("log").VerifyEntries(bg, prev, head, func(ctx context.Context, idx int64, e *pb.LeafData) error {
				got = append(got, fmt.Sprintf("%d %s", idx, e.GetLeafInput()))
				return nil
			})
			return got, err
		})
	})
}

func hostilePath(t *rapid.T, k *kase, audit func(srv server, prev, head *pb.LogTreeHashResponse) ([]string, error)) {
	n := between(t, "prev", 1, 40)
	m := int64(n + between(t, "more", 1, 20))
	lm := newLogModel()
	for i := int64(0); i < m; i++ {
		l := &pb.LeafData{LeafInput: []byte(fmt.Sprintf("e%d", i))}
		lm.addRaw(l, refLeafHash(l.LeafInput))
	}
	type node struct {
		lo, hi int64
		h      []byte
	}
	var path []node // from the right
	for hi := int64(n); hi > 0; {
		lo := hi & (hi - 1)
		path = append(path, node{lo, hi, lm.tree.Sub(lo, hi)})
		hi = lo
	}
	real := len(path)
	for i := pick(t, "changes", 4); i > 0; i-- {
		if pick(t, "how", 2) == 0 && len(path) > 1 {
			path = append([]node{{path[1].lo, path[0].hi, refNodeHash(path[1].h, path[0].h)}}, path[2:]...)
			k.NT("path-merged")
		} else if x := path[0]; x.hi-x.lo > 1 {
			c := x.lo + refSplit(x.hi-x.lo)
			path = append([]node{{c, x.hi, lm.tree.Sub(c, x.hi)}, {x.lo, c, lm.tree.Sub(x.lo, c)}}, path[1:]...)
			k.NT("path-split")
		}
	}
	if pick(t, "extra", 6) == 0 {
		path = append(path, node{h: genBytes(false).Draw(t, "junk")})
		k.NT("path-extended")
	}
	if len(path) > 1 && pick(t, "resplit", 3) == 0 { // the same bytes to hash, with the border elsewhere
		both := append(append([]byte{}, path[1].h...), path[0].h...)
		c := pick(t, "border", len(both)+1)
		path[1].h, path[0].h = both[:c:c], both[c:]
		if c != 32 {
			k.NT("path-resplit")
		}
	}
	srv := &pathServer{listServer: &listServer{logs: map[pb.LogType]*logModel{pb.LogType_STRUCT_TYPE_LOG: lm}}}
	var stack [][]byte
	for _, x := range path {
		srv.path = append(srv.path, x.h)
		stack = append([][]byte{x.h}, stack...)
	}
	// the head one gets by carrying on from that path
	for i := int64(n); i < m && stack != nil; i++ {
		stack = append(stack, lm.tree.leaves[i])
		for z := i; z&1 == 1; z >>= 1 {
			if len(stack) < 2 {
				stack = nil
				break
			}
			l := len(stack)
			stack = append(stack[:l-2:l-2], refNodeHash(stack[l-2], stack[l-1]))
		}
	}
	head := lm.head(m)
	if len(stack) > 0 && pick(t, "head", 4) > 0 {
		r := stack[len(stack)-1]
		for i := len(stack) - 2; i >= 0; i-- {
			r = refNodeHash(stack[i], r)
		}
		head.RootHash = r
	}
	got, err := audit(srv, lm.head(int64(n)), head)
	genuine := bytes.Equal(head.RootHash, lm.tree.Root(m))
	if err == nil {
		k.Class("succeeded")
		if !genuine {
			t.Fatalf("audit from %d to %d accepted a head that the entries do not have (%d nodes in the path, %d expected)", n, m, len(path), real)
		}
		if int64(len(got)) != m-int64(n) {
			t.Fatalf("audit from %d to %d succeeded after %d entries", n, m, len(got))
		}
	} else if genuine && !k.nt {
		t.Fatalf("audit of a genuine log from %d to %d failed: %v", n, m, err)
	}
	k.Op("%d %d %d", n, m, len(path))
	k.Done()
}

// alterHTTP alters an HTTP answer about a map of n mutations: its status, its headers or its body.
func alterHTTP(t *rapid.T, r *http.Response, body []byte, n int64) (_ []byte, did string) {
	what := pick(t, "alter", 7)
	if r.Header.Get("X-Verified-Treesize") != "" && pick(t, "header", 2) == 0 {
		what = 3 + pick(t, "alter header", 3)
	}
	switch what {
	case 0:
		r.StatusCode = oneOf(t, "status", 201, 204, 400, 401, 404, 500, 206)
		did = fmt.Sprint("status ", r.StatusCode)
	case 1:
		body = []byte(oneOf(t, "body", "", "null", "{}", "[]", `{"values":[null]}`, `{"values":null}`, `{"mutation_log":null}`, `"x"`, "{", `{"leaf_input":null}`,
			`{"audit_path":[null]}`, `{"tree_size":-1}`, `{"tree_size":1,"root_hash":"eA=="}`, `{"values":[{"leaf_input":"eA=="}]}`))
		did = "body " + string(body)
	case 2:
		if len(body) > 0 {
			i := pick(t, "pos", len(body))
			body[i] ^= 1 << pick(t, "bit", 8)
		}
		did = "bit"
	case 3:
		h := r.Header["X-Verified-Proof"]
		if len(h) > 0 && pick(t, "drop", 3) == 0 {
			h = h[1:]
			did = "proof header dropped"
		} else {
			x := fmt.Sprintf("%s%s%s", oneOf(t, "idx", "-1", "-256", "256", "256", "257", "0", "3", "255", "x", "", "99999999999999999999", " 1 "),
				oneOf(t, "sep", "/", "/", "/", "", ",", "/,/"), oneOf(t, "val", "", "00", "zz", "b3b798ddb6961a327d91db5af5e8d62877638d8a84d360bfffe4b2779596f5bf"))
			h = append(h, x)
			did = "proof header " + x
		}
		r.Header["X-Verified-Proof"] = h
	case 4:
		v := oneOf(t, "ts", "", "-1", "0", "x", "9223372036854775808", fmt.Sprint(n), fmt.Sprint(n+1))
		r.Header.Set("X-Verified-TreeSize", v)
		did = "size header " + v
	case 5:
		if h := r.Header["X-Verified-Proof"]; len(h) > 0 {
			h[pick(t, "which", len(h))] += oneOf(t, "suffix", "0", "00", ",1/00", "/", ",,")
			did = "proof suffix"
		}
	default:
		var o map[string]any
		if json.Unmarshal(body, &o) == nil && len(o) > 0 {
			var names []string
			for f := range o {
				names = append(names, f)
			}
			sort.Strings(names)
			f := oneOf(t, "field", names...)
			o[f] = oneOf(t, "value", any(nil), any("eA=="), any(1), any([]any{}), any([]any{nil}), any(map[string]any{}))
			body, _ = json.Marshal(o)
			did = "field " + f
		}
	}
	return body, did
}

// The REST client talking to a server that alters its HTTP answers: same rules.
func TestC12_REST(t *testing.T) {
	check(t, 6000, 100000, func(t *rapid.T) {
		k := newCase("C12")
		pool := genKeyPool(5).Draw(t, "pool")
		w := newWorld(newRefStore())
		w.mutate(t, k, pool, 1+pick(t, "n", 8))
		w.addLog(t, 1+pick(t, "entries", 6))
		n := w.mm.Size()
		s := between(t, "size", 1, n)
		st := w.state(s, between(t, "heads", s, n))
		at, seed := pick(t, "at", 4), pick(t, "seed", 1<<20)
		call := -1
		did := ""
		alter := func(r *http.Response) {
			call++
			if call != at {
				return
			}
			body, _ := io.ReadAll(r.Body)
			rapid.Custom(func(t *rapid.T) int { // not from the case's own stream: the call may come from another goroutine
				rapid.Bool().Draw(t, "first")
				body, did = alterHTTP(t, r, body, n)
				return 0
			}).Example(seed)
			if did != "" {
				k.NT("http-altered")
			}
			setBody(r, body)
		}
		acc := client(restClient(w.svc, alter), "7", "key")
		vm, vl := acc.VerifiableMap("m"), acc.VerifiableLog("log")
		bad := func(f string, a ...any) { t.Fatalf("%s; server did: %s", fmt.Sprintf(f, a...), did) }
		op := pick(t, "op", 6)
		if op < 2 && pick(t, "the get itself", 4) > 0 {
			at = 0
		}
		switch op {
		case 0, 1:
			key := pool[pick(t, "key", len(pool))]
			v, err := vm.VerifiedGet(bg, key, st)
			if err == nil {
				k.Class("succeeded")
				if !bytes.Equal(v.GetLeafInput(), w.mm.Get(key, s).GetLeafInput()) {
					bad("verified get of %s accepted %s", short(key), short(v.GetLeafInput()))
				}
			}
			k.Op("get %s", short(key))
		case 2:
			nst, err := vm.VerifiedLatestMapState(bg, st)
			if err == nil && nst != nil {
				k.Class("succeeded")
				if !w.stateOK(nst) {
					bad("map state %d that never existed accepted", nst.TreeSize())
				}
			}
			k.Op("state")
		case 3:
			calls := 0
			err := vm.VerifyMap(bg, nil, st, nil, func(ctx context.Context, idx int64, key []byte, v *pb.LeafData) error {
				calls++
				return nil
			})
			if err == nil {
				k.Class("succeeded")
				want := 0
				for _, c := range w.mm.changed[:st.TreeHeadLogTreeHead.TreeSize] {
					if c {
						want++
					}
				}
				if calls < want {
					bad("map audit succeeded with %d of %d changes", calls, want)
				}
			}
			k.Op("audit")
		case 4:
			m := w.logm.Size()
			i := pick(t, "i", int(m))
			prev := w.logm.head(between(t, "of", int64(i)+1, m))
			err := vl.VerifyInclusion(bg, prev, refLeafHash(w.logm.entries[i].LeafInput))
			_ = err
			h, err := vl.VerifiedLatestTreeHead(bg, prev)
			if err == nil && h.TreeSize <= m && !w.logm.has(h) {
				bad("log head %d that never existed accepted", h.TreeSize)
			}
			k.Op("log")
		default:
			m := w.logm.Size()
			var prev *pb.LogTreeHashResponse
			if p := pick(t, "prev", int(m)); p > 0 {
				prev = w.logm.head(int64(p))
			}
			var got [][]byte
			err := vl.VerifyEntries(bg, prev, w.logm.head(m), func(ctx context.Context, idx int64, e *pb.LeafData) error {
				got = append(got, e.GetLeafInput())
				return nil
			})
			if err == nil {
				k.Class("succeeded")
				for i, e := range w.logm.entries[prev.GetTreeSize():] {
					if i >= len(got) || !bytes.Equal(got[i], e.LeafInput) {
						bad("audit accepted a wrong entry %d", i)
					}
				}
			}
			k.Op("entries")
		}
		k.Op("%s n=%d s=%d at=%d", did, n, s, at)
		k.Done()
	})
}
