package harness

import (
	"bytes"
	"encoding/json"
	"fmt"
	"testing"
	"time"

	"github.com/continusec/objecthash"
	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"pgregory.net/rapid"
)

type mapCase struct {
	vm   *verifiable.Map
	m    *mapModel
	b    *backend
	pool [][]byte
	acks [][]byte
	t0   time.Time
}

// buildMapCase draws a map history; onStep runs after every mutation.
func buildMapCase(t *rapid.T, k *kase, onStep func(c *mapCase)) *mapCase {
	b := newBackend(genBackendKind(8).Draw(t, "backend"))
	k.Class("backend=" + b.kind)
	c := &mapCase{b: b, vm: client(instantService(b), "7", "key").VerifiableMap("m"), m: newMapModel(), t0: time.Now()}
	c.pool = genKeyPool(20).Draw(t, "pool")
	n := genMutCount(t)
	for i := 0; i < n; i++ {
		c.step(t, k, genMut(t, k, c.m, c.pool))
		if onStep != nil {
			onStep(c)
		}
	}
	sizeClass(k, int64(n))
	return c
}

func (c *mapCase) step(t tb, k *kase, mu mapMut) {
	p, err := applyMut(c.vm, mu)
	noErr(t, err, "mutation %d (%s)", c.m.Size(), mu)
	c.acks = append(c.acks, p.LeafHash())
	c.m.Apply(mu)
	k.Op("%s", mu)
}

// queryKeys are the pool plus keys that were never set, some sharing long prefixes with the pool.
func (c *mapCase) queryKeys(t *rapid.T) [][]byte {
	rv := append([][]byte{}, c.pool...)
	rv = append(rv, []byte("never set"), nil)
	p := minedPairs[pick(t, "qprefix", 55)]
	x := p[pick(t, "qpair", len(p))]
	rv = append(rv, minedKey(x[0]), minedKey(x[1]))
	cl := minedClusters[pick(t, "qcluster", len(minedClusters))]
	rv = append(rv, minedKey(cl[0]), minedKey(cl[5]))
	return rv
}

func (c *mapCase) get(t tb, key []byte, size int64) *pb.MapGetValueResponse {
	t.Helper()
	r, err := c.vm.Get(bg, key, size)
	noErr(t, err, "get %s at %d of %d", short(key), size, c.m.Size())
	if r == nil {
		t.Fatalf("get %s at %d of %d: no response", short(key), size, c.m.Size())
	}
	eff := size
	if size == 0 {
		eff = c.m.Size()
	}
	if r.TreeSize != eff {
		t.Fatalf("get %s at %d of %d: names size %d", short(key), size, c.m.Size(), r.TreeSize)
	}
	return r
}

func (c *mapCase) checkValue(t tb, key []byte, size int64) *pb.MapGetValueResponse {
	t.Helper()
	r := c.get(t, key, size)
	want := c.m.Get(key, r.TreeSize)
	if want == nil {
		want = &pb.LeafData{}
	}
	eqLeaf(t, r.Value, want, "value of %s at %d of %d", short(key), size, c.m.Size())
	return r
}

func TestC06_Replay(t *testing.T) {
	check(t, 6000, 80000, func(t *rapid.T) {
		k := newCase("C06")
		c := buildMapCase(t, k, func(c *mapCase) {
			mu := c.m.muts[len(c.m.muts)-1]
			c.checkValue(t, mu.Key, 0)
			if n := c.m.Size(); n > 1 {
				c.checkValue(t, mu.Key, n-1)
			}
		})
		defer c.b.Destroy()
		keys := c.queryKeys(t)
		for _, s := range pickSizes(t, 0, c.m.Size(), 30) {
			for _, key := range keys {
				c.checkValue(t, key, s)
			}
		}
		old := c.m.Size()
		for i, g := 0, pick(t, "later", 6); i < g; i++ { // old sizes keep their answers
			c.step(t, k, genMut(t, k, c.m, c.pool))
		}
		if c.b.kind != "mem" && rapid.Bool().Draw(t, "reopen") {
			c.b.Reopen()
			c.vm.Service = instantService(c.b)
			k.NT("reopen")
		}
		for _, s := range pickSizes(t, 1, old, 6) {
			for _, key := range keys {
				c.checkValue(t, key, s)
			}
		}
		for _, key := range keys {
			c.checkValue(t, key, 0)
		}
		k.Done()
	})
}

func (c *mapCase) checkMapHead(t tb, size int64, mutLog *logModel) {
	t.Helper()
	h, err := c.vm.TreeHead(bg, size)
	noErr(t, err, "map head %d of %d", size, c.m.Size())
	eff := size
	if size == 0 {
		eff = c.m.Size()
	}
	if h.GetMutationLog() == nil || h.MutationLog.TreeSize != eff {
		t.Fatalf("map head for size %d of %d: %v", size, c.m.Size(), h)
	}
	eqBytes(t, h.RootHash, c.m.roots[eff], "map root at size %d of %d", size, c.m.Size())
	if eff > 0 && mutLog != nil {
		eqBytes(t, h.MutationLog.RootHash, mutLog.tree.Root(eff), "mutation log root in map head %d of %d", size, c.m.Size())
	}
}

func TestC07_Roots(t *testing.T) {
	check(t, 6000, 80000, func(t *rapid.T) {
		k := newCase("C07")
		b := newBackend("mem")
		e := &mapCase{vm: client(instantService(b), "7", "key").VerifiableMap("m"), m: newMapModel()}
		e.checkMapHead(t, 0, nil) // empty map
		c := buildMapCase(t, k, func(c *mapCase) { c.checkMapHead(t, 0, nil) })
		defer c.b.Destroy()
		ml := readLogModel(t, c.vm.MutationLog(), c.m.Size())
		c.checkMapHead(t, 0, ml)
		for _, s := range pickSizes(t, 1, c.m.Size(), 150) {
			c.checkMapHead(t, s, ml)
		}
		if r := refMapRoot(c.m.content); !bytes.Equal(r, c.m.roots[c.m.Size()]) {
			t.Fatalf("reference models disagree") // two independent formulations of the same root
		}
		// the same contents reached by another history give the same root
		if n := len(c.m.content); n > 0 {
			o := client(memService(), "7", "key").VerifiableMap("other")
			var keys []string
			for _, kk := range c.pool {
				if _, ok := c.m.content[string(kk)]; ok {
					keys = append(keys, string(kk))
				}
			}
			perm := rapid.Permutation(keys).Draw(t, "perm")
			for i, kk := range perm {
				if i%3 == 0 {
					_, err := o.Set(bg, []byte(kk), &pb.LeafData{LeafInput: []byte("temporary")})
					noErr(t, err, "set")
				}
				_, err := o.Set(bg, []byte(kk), c.m.Get([]byte(kk), c.m.Size()))
				noErr(t, err, "set")
			}
			h, err := o.TreeHead(bg, 0)
			noErr(t, err, "head")
			eqBytes(t, h.RootHash, c.m.roots[c.m.Size()], "root of the same contents by another history")
		}
		k.Done()
	})
}

func (c *mapCase) checkProof(t tb, key []byte, size int64) {
	t.Helper()
	r := c.checkValue(t, key, size)
	n := r.TreeSize
	root := c.m.roots[n]
	if !refVerifyMap(key, r.Value.GetLeafInput(), r.AuditPath, root) {
		t.Fatalf("proof for %s at %d of %d does not lead to the map root", short(key), size, c.m.Size())
	}
	if len(r.AuditPath) > 256 {
		t.Fatalf("proof of %d elements", len(r.AuditPath))
	}
	head := &pb.MapTreeHashResponse{RootHash: root, MutationLog: &pb.LogTreeHashResponse{TreeSize: n, RootHash: make([]byte, 32)}}
	noErr(t, verifiable.VerifyMapInclusionProof(r, key, head), "library verification of %s at %d of %d", short(key), size, c.m.Size())
}

func TestC08_Proofs(t *testing.T) {
	check(t, 4000, 50000, func(t *rapid.T) {
		k := newCase("C08")
		c := buildMapCase(t, k, func(c *mapCase) { c.checkProof(t, c.m.muts[len(c.m.muts)-1].Key, 0) })
		defer c.b.Destroy()
		keys := c.queryKeys(t)
		for _, s := range pickSizes(t, 1, c.m.Size(), 14) {
			for _, key := range keys {
				c.checkProof(t, key, s)
			}
		}
		for _, s := range pickSizes(t, 0, c.m.Size(), 4) {
			st, err := c.vm.VerifiedMapState(bg, nil, s)
			noErr(t, err, "verified map state %d of %d", s, c.m.Size())
			for _, key := range keys {
				v, err := c.vm.VerifiedGet(bg, key, st)
				noErr(t, err, "verified get of %s at %d of %d", short(key), s, c.m.Size())
				want := c.m.Get(key, st.TreeSize())
				if want == nil {
					want = &pb.LeafData{}
				}
				eqLeaf(t, v, want, "verified value of %s at %d of %d", short(key), s, c.m.Size())
			}
		}
		k.Done()
	})
}

// mutationHash recomputes a mutation entry's leaf input from its JSON: the object hash without the
// value's extra data and format.
func mutationHash(t tb, extra []byte) []byte {
	t.Helper()
	o := *decodeJSON[map[string]any](t, extra, "mutation entry")
	if v, ok := o["value"].(map[string]any); ok {
		delete(v, "extra_data")
		delete(v, "format")
	}
	h, err := objecthash.ObjectHashWithStdRedaction(o)
	noErr(t, err, "object hash")
	return h
}

func jsonHash(t tb, extra []byte) []byte {
	t.Helper()
	var o any
	noErr(t, json.Unmarshal(extra, &o), "JSON %q", extra)
	h, err := objecthash.ObjectHashWithStdRedaction(o)
	noErr(t, err, "object hash")
	return h
}

// checkMutationEntry compares entry i of the mutation log with the model.
func checkMutationEntry(t tb, e *pb.LeafData, mu mapMut, what string) *jsonMutation {
	t.Helper()
	j := decodeJSON[jsonMutation](t, e.ExtraData, what)
	if j.Action != mu.Action {
		t.Fatalf("%s: action %q want %q", what, j.Action, mu.Action)
	}
	eqBytes(t, j.Key, mu.Key, "%s: key", what)
	eqBytes(t, j.PreviousLeafHash, mu.Prev, "%s: previous leaf hash", what)
	if mu.Value == nil {
		if j.Value != nil && (len(j.Value.LeafInput) > 0 || len(j.Value.ExtraData) > 0) {
			t.Fatalf("%s: a value appears in a deletion", what)
		}
	} else {
		if j.Value == nil {
			j.Value = &jsonLeaf{}
		}
		eqBytes(t, j.Value.LeafInput, mu.Value.LeafInput, "%s: value", what)
		eqBytes(t, j.Value.ExtraData, mu.Value.ExtraData, "%s: extra data", what)
		if j.Value.Format != int32(mu.Value.Format) {
			t.Fatalf("%s: format", what)
		}
	}
	eqBytes(t, e.LeafInput, mutationHash(t, e.ExtraData), "%s: leaf input against recomputed object hash", what)
	noErr(t, verifiable.ValidateJSONLeafDataFromMutation(e), "%s: validation", what)
	return j
}

func (c *mapCase) checkLogs(t tb, ts []string) []string {
	t.Helper()
	n := c.m.Size()
	ml := readLogModel(t, c.vm.MutationLog(), n)
	tl := readLogModel(t, c.vm.TreeHeadLog(), n)
	for i := range ml.entries {
		what := fmt.Sprintf("mutation log entry %d of %d", i, n)
		e := ml.entries[i]
		j := checkMutationEntry(t, e, c.m.muts[i], what)
		eqBytes(t, c.acks[i], refLeafHash(e.LeafInput), "%s: acknowledged leaf hash", what)
		if e.Format != pb.DataFormat_JSON {
			t.Fatalf("%s: format %v", what, e.Format)
		}
		tm, err := time.Parse(time.RFC3339Nano, j.Timestamp)
		if err != nil || tm.Before(c.t0.Add(-time.Hour)) || tm.After(time.Now().Add(time.Hour)) {
			t.Fatalf("%s: timestamp %q", what, j.Timestamp)
		}
		if i < len(ts) && ts[i] != j.Timestamp {
			t.Fatalf("%s: timestamp changed", what)
		}
		if i >= len(ts) {
			ts = append(ts, j.Timestamp)
		}
		what = fmt.Sprintf("tree head log entry %d of %d", i, n)
		e = tl.entries[i]
		h := decodeJSON[jsonMapHead](t, e.ExtraData, what)
		eqBytes(t, h.RootHash, c.m.roots[i+1], "%s: map root", what)
		if h.MutationLog == nil || h.MutationLog.TreeSize != int64(i+1) {
			t.Fatalf("%s: mutation log %v", what, h.MutationLog)
		}
		eqBytes(t, h.MutationLog.RootHash, ml.tree.Root(int64(i+1)), "%s: mutation log root", what)
		eqBytes(t, e.LeafInput, jsonHash(t, e.ExtraData), "%s: leaf input", what)
		noErr(t, verifiable.ValidateJSONLeafData(bg, e), "%s: validation", what)
	}
	for _, l := range []*verifiable.Log{c.vm.MutationLog(), c.vm.TreeHeadLog()} {
		h, err := l.TreeHead(bg, 0)
		noErr(t, err, "log head")
		if h.TreeSize != n {
			t.Fatalf("a map log has %d entries after %d mutations", h.TreeSize, n)
		}
	}
	return ts
}

func TestC10_MapLogs(t *testing.T) {
	check(t, 6000, 80000, func(t *rapid.T) {
		k := newCase("C10")
		var ts []string
		c := buildMapCase(t, k, func(c *mapCase) {
			if c.m.Size()%9 == 1 {
				ts = c.checkLogs(t, ts)
			}
		})
		defer c.b.Destroy()
		ts = c.checkLogs(t, ts)
		// later activity, including values that coincide with entries of the map's logs
		for i, g := 0, pick(t, "later", 8); i < g; i++ {
			if !rapid.Bool().Draw(t, "coincide") {
				c.step(t, k, genMut(t, k, c.m, c.pool))
				continue
			}
			l := oneOf(t, "log", c.vm.MutationLog(), c.vm.TreeHeadLog())
			e, err := l.Entry(bg, int64(pick(t, "entry", int(c.m.Size()))))
			noErr(t, err, "entry")
			v := cloneLeaf(e)
			switch pick(t, "how", 4) {
			case 0:
				v.ExtraData = nil
			case 1:
				v.ExtraData = []byte("something else")
				v.Format = 0
			case 2:
				v = &pb.LeafData{LeafInput: refLeafHash(e.LeafInput), ExtraData: e.ExtraData}
			}
			key := c.pool[pick(t, "key", len(c.pool))]
			c.step(t, k, mapMut{Action: "set", Key: key, Value: v})
			k.NT("value-coincides-with-log-entry")
			c.checkValue(t, key, 0)
		}
		c.checkLogs(t, ts)
		for _, key := range c.pool {
			c.checkValue(t, key, 0)
		}
		k.Done()
	})
}
