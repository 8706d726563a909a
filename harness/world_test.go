package harness

import (
	"bytes"
	"encoding/json"
	"fmt"

	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"pgregory.net/rapid"
)

// ---- log model ----

// logModel is the reference for one log: distinct entries in order, and the RFC 6962 tree.
type logModel struct {
	tree    refTree
	entries []*pb.LeafData
	index   map[string]int // leaf input -> index
}

func newLogModel() *logModel { return &logModel{index: map[string]int{}} }

func (m *logModel) Size() int64 { return int64(len(m.entries)) }

// Add returns true if the entry is new.
func (m *logModel) Add(l *pb.LeafData) bool {
	k := string(l.GetLeafInput())
	if _, ok := m.index[k]; ok {
		return false
	}
	m.index[k] = len(m.entries)
	m.entries = append(m.entries, cloneLeaf(l))
	m.tree.Add(refLeafHash(l.GetLeafInput()))
	return true
}

// addSegments draws segments of adds and applies them through do (which submits one leaf).
// after is called after each segment.
func addSegments(t *rapid.T, k *kase, m *logModel, maxTotal int, do func(*pb.LeafData), after func()) {
	total := genCount(maxTotal).Draw(t, "total")
	next := 0
	for steps := 0; int(m.Size()) < total && steps < 60; steps++ {
		switch pick(t, "segment", 10) {
		case 0, 1, 2, 3, 4, 5: // a run of fresh entries
			left := total - int(m.Size())
			n := left
			if left > 1 && pick(t, "part", 3) > 0 {
				n = (1 + pick(t, "n", left))
			}
			base := 100 + next
			next += n
			for i := 0; i < n; i++ {
				l := leafFor(base + i)
				do(l)
				m.Add(l)
			}
			k.Op("run(%d)", n)
			if n > 1 {
				k.Class("run")
			}
		case 6, 7: // arbitrary entry
			l := genLeaf(true, true).Draw(t, "leaf")
			do(l)
			if m.Add(l) {
				k.Op("add(%s)", short(l.LeafInput))
			} else {
				k.Op("re-add(%s)", short(l.LeafInput))
				k.NT("duplicate")
			}
			if len(l.LeafInput) == 0 {
				k.Class("empty-leaf")
			}
			if len(l.LeafInput) > 4000 {
				k.Class("big-leaf")
			}
		default: // repeat an earlier one, perhaps with different extra data
			if m.Size() == 0 {
				continue
			}
			i := pick(t, "repeat", int(m.Size()))
			l := cloneLeaf(m.entries[i])
			if rapid.Bool().Draw(t, "otherExtra") {
				l.ExtraData = append(append([]byte{}, l.ExtraData...), "-changed"...)
			}
			do(l)
			m.Add(l)
			k.Op("repeat(%d)", i)
			k.NT("duplicate")
		}
		after()
	}
}

func sizeClass(k *kase, n int64) {
	switch {
	case n == 0:
		k.Class("size=0")
	case n == 1:
		k.Class("size=1")
	case n < 16:
		k.NT("size<16")
	case n < 128:
		k.NT("size<128")
	case n < 512:
		k.NT("size<512")
	default:
		k.NT("size>=512")
	}
	if n > 1 && n&(n-1) == 0 {
		k.NT("pow2")
	}
}

// ---- map model ----

type mapMut struct {
	Action string
	Key    []byte
	Value  *pb.LeafData
	Prev   []byte
}

func (m mapMut) String() string {
	switch m.Action {
	case "delete":
		return fmt.Sprintf("del %s", short(m.Key))
	case "update":
		return fmt.Sprintf("upd %s=%s if %s", short(m.Key), short(m.Value.GetLeafInput()), short(m.Prev))
	}
	return fmt.Sprintf("%s %s=%s", m.Action, short(m.Key), short(m.Value.GetLeafInput()))
}

type keyVersion struct {
	size  int64 // first size at which this value holds
	lh    []byte
	value *pb.LeafData // nil when absent
}

// mapModel replays mutations; sparse tree and roots by size are kept alongside.
type mapModel struct {
	muts    []mapMut
	hist    map[string][]keyVersion
	sparse  *refSparse
	roots   [][]byte // by size, roots[0] = empty
	changed []bool   // per mutation: did the root change
	content map[string][]byte
	stored  map[string]*pb.LeafData // by leaf input: the data first stored with it
}

func newMapModel() *mapModel {
	return &mapModel{stored: map[string]*pb.LeafData{}, hist: map[string][]keyVersion{}, sparse: newRefSparse(), roots: [][]byte{refDefaults[0]}, content: map[string][]byte{}}
}

func (m *mapModel) Size() int64 { return int64(len(m.muts)) }

func (m *mapModel) curHash(key []byte) []byte {
	if lh, ok := m.content[string(key)]; ok {
		return lh
	}
	return refEmptyLeaf
}

func (m *mapModel) Apply(mu mapMut) {
	cur := m.curHash(mu.Key)
	next := cur
	var val *pb.LeafData
	switch mu.Action {
	case "set":
		next, val = refLeafHash(mu.Value.GetLeafInput()), mu.Value
	case "delete":
		next = refEmptyLeaf
	case "update":
		if bytes.Equal(mu.Prev, cur) {
			next, val = refLeafHash(mu.Value.GetLeafInput()), mu.Value
		}
	default:
		panic(mu.Action)
	}
	m.muts = append(m.muts, mu)
	if !bytes.Equal(cur, next) {
		if bytes.Equal(next, refEmptyLeaf) {
			val = nil
			delete(m.content, string(mu.Key))
		} else {
			m.content[string(mu.Key)] = next
		}
		m.sparse.Set(mu.Key, next)
		v := keyVersion{size: m.Size(), lh: next}
		if val != nil {
			if m.stored[string(val.GetLeafInput())] == nil {
				m.stored[string(val.GetLeafInput())] = cloneLeaf(val)
			}
			v.value = m.stored[string(val.GetLeafInput())]
		}
		m.hist[string(mu.Key)] = append(m.hist[string(mu.Key)], v)
	}
	root := m.sparse.Root()
	m.changed = append(m.changed, !bytes.Equal(root, m.roots[len(m.roots)-1]))
	m.roots = append(m.roots, root)
}

// Get returns the value at size n, nil when absent.
func (m *mapModel) Get(key []byte, n int64) *pb.LeafData {
	var rv *pb.LeafData
	for _, v := range m.hist[string(key)] {
		if v.size > n {
			break
		}
		rv = v.value
	}
	return rv
}

// genMut draws a mutation over the pool.
func genMut(t *rapid.T, k *kase, m *mapModel, pool [][]byte) mapMut {
	key := pool[pick(t, "key", len(pool))]
	cur := m.curHash(key)
	present := !bytes.Equal(cur, refEmptyLeaf)
	everSet := len(m.hist[string(key)]) > 0
	value := func() *pb.LeafData {
		kind := pick(t, "valuekind", 5)
		if kind == 4 && len(m.muts) > 0 { // an earlier leaf input with other extra data
			if v := m.muts[pick(t, "earlier", len(m.muts))].Value; v != nil {
				v = cloneLeaf(v)
				v.ExtraData = []byte(fmt.Sprintf("other extra %d", pick(t, "x", 4)))
				v.Format = 0
				k.Class("same-leaf-other-extra")
				return v
			}
		}
		if kind > 0 {
			return leafFor(pick(t, "value", 41))
		}
		return genLeaf(false, true).Draw(t, "leaf")
	}
	switch pick(t, "action", 10) {
	case 0, 1, 2, 3, 4:
		v := value()
		if len(v.LeafInput) == 0 {
			k.NT("set-empty")
		} else if bytes.Equal(refLeafHash(v.LeafInput), cur) {
			k.NT("set-same")
		} else if !present && everSet {
			k.NT("reset-after-delete")
		} else if present {
			k.NT("overwrite")
		}
		return mapMut{Action: "set", Key: key, Value: v}
	case 5, 6:
		if present {
			k.NT("delete-present")
		} else {
			k.NT("delete-absent")
		}
		return mapMut{Action: "delete", Key: key}
	default:
		v := value()
		var prev []byte
		switch pick(t, "prev", 7) {
		case 0, 1, 2:
			prev = cur
		case 3:
			prev = refEmptyLeaf
		case 4: // some other value's hash
			prev = refLeafHash(leafFor(pick(t, "other", 41)).LeafInput)
		case 5:
			prev = nil
			if h := m.hist[string(key)]; len(h) > 1 {
				prev = h[pick(t, "old", len(h))].lh
			}
		default:
			prev = genBytes(false).Draw(t, "prevbytes")
		}
		if bytes.Equal(prev, cur) {
			if present {
				k.NT("update-match")
			} else {
				k.NT("update-match-absent")
			}
		} else {
			k.NT("update-mismatch")
		}
		return mapMut{Action: "update", Key: key, Value: v, Prev: prev}
	}
}

func applyMut(m *verifiable.Map, mu mapMut) (verifiable.MapUpdatePromise, error) {
	switch mu.Action {
	case "set":
		return m.Set(bg, mu.Key, mu.Value)
	case "delete":
		return m.Delete(bg, mu.Key)
	default:
		return m.Update(bg, mu.Key, mu.Value, mu.Prev)
	}
}

// genMutCount draws the length of a map history.
func genMutCount(t *rapid.T) int {
	switch pick(t, "mutclass", 10) {
	case 0, 1, 2, 3, 4:
		return 1 + pick(t, "muts", 12)
	case 5, 6, 7:
		return 13 + pick(t, "muts", 28)
	case 8:
		k := 3 + pick(t, "pow", 4)
		return 1<<k + (pick(t, "d", 3) - 1)
	default:
		return 41 + pick(t, "muts", 70)
	}
}

// buildMap draws and applies a history, with model alongside.
func buildMap(t *rapid.T, k *kase, vm *verifiable.Map, pool [][]byte, n int) *mapModel {
	m := newMapModel()
	for i := 0; i < n; i++ {
		mu := genMut(t, k, m, pool)
		_, err := applyMut(vm, mu)
		noErr(t, err, "mutation %d (%s)", i, mu)
		m.Apply(mu)
		k.Op("%s", mu)
	}
	return m
}

// mutationLogModel reads a map's mutation log (entries carry server timestamps, so the model
// is built from what is read) and returns it as a log model.
func readLogModel(t tb, l *verifiable.Log, n int64) *logModel {
	m := newLogModel()
	if n == 0 {
		return m
	}
	resp, err := l.Service.LogFetchEntries(bg, &pb.LogFetchEntriesRequest{Log: l.Log, First: 0, Last: n})
	noErr(t, err, "fetch entries 0-%d", n)
	if int64(len(resp.Values)) != n {
		t.Fatalf("fetch entries 0-%d returned %d", n, len(resp.Values))
	}
	for i, v := range resp.Values {
		if !m.Add(v) {
			t.Fatalf("entry %d repeats an earlier leaf input", i)
		}
	}
	return m
}

// parseMutation decodes a mutation log entry as documented in doc/REST-API.md.
type jsonLeaf struct {
	LeafInput []byte `json:"leaf_input"`
	ExtraData []byte `json:"extra_data"`
	Format    int32  `json:"format"`
}

type jsonMutation struct {
	Timestamp        string    `json:"timestamp"`
	Action           string    `json:"action"`
	Key              []byte    `json:"key"`
	Value            *jsonLeaf `json:"value"`
	PreviousLeafHash []byte    `json:"previous_leaf_hash"`
}

type jsonLogHead struct {
	TreeSize int64  `json:"tree_size"`
	RootHash []byte `json:"root_hash"`
}

type jsonMapHead struct {
	RootHash    []byte       `json:"root_hash"`
	MutationLog *jsonLogHead `json:"mutation_log"`
}

func decodeJSON[T any](t tb, b []byte, what string) *T {
	t.Helper()
	rv := new(T)
	if err := json.Unmarshal(b, rv); err != nil {
		t.Fatalf("%s: %v in %q", what, err, b)
	}
	return rv
}
