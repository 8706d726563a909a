package harness

import (
	"encoding/hex"
	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/continusec/objecthash"
	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"google.golang.org/grpc/codes"
	"pgregory.net/rapid"
)

// spread picks sizes in [lo,hi] without drawing: the ends, powers of two and evenly spaced ones.
func spread(lo, hi int64, limit int) []int64 {
	var rv []int64
	if hi-lo+1 <= int64(limit) {
		for i := lo; i <= hi; i++ {
			rv = append(rv, i)
		}
		return rv
	}
	seen := map[int64]bool{}
	add := func(x int64) {
		if x >= lo && x <= hi && !seen[x] {
			seen[x] = true
			rv = append(rv, x)
		}
	}
	add(lo)
	add(hi)
	add(hi - 1)
	for p := int64(1); p <= hi && len(rv) < limit/2; p *= 4 {
		add(p)
		add(p + 1)
	}
	for i := 0; len(rv) < limit && i <= limit; i++ {
		add(lo + (hi-lo)*int64(i)/int64(limit))
	}
	return rv
}

// fullLog compares everything a log answers with its model: heads, entries, proofs.
func fullLog(t tb, what string, l *verifiable.Log, m *logModel, limit int) {
	t.Helper()
	c := &logCase{log: l, m: m}
	checkHead(t, c, 0)
	n := m.Size()
	r, err := l.Service.LogFetchEntries(bg, &pb.LogFetchEntriesRequest{Log: l.Log})
	if n == 0 {
		if code(err) != codes.InvalidArgument {
			t.Fatalf("%s: all entries of an empty log: %v %v", what, r, err)
		}
		return
	}
	noErr(t, err, "%s: all entries", what)
	if int64(len(r.Values)) != n {
		t.Fatalf("%s: %d entries, want %d", what, len(r.Values), n)
	}
	for i, v := range r.Values {
		eqLeaf(t, v, m.entries[i], "%s: entry %d of %d", what, i, n)
	}
	for _, s := range spread(1, n, limit) {
		checkHead(t, c, s)
		for _, i := range spread(0, s-1, 3) {
			checkInclusion(t, c, i, s)
		}
		if s < n {
			checkConsistency(t, c, s, n)
		}
	}
}

// fullMap compares everything a map answers with its model: heads, values with proofs, and both logs.
// acks are the acknowledged leaf hashes in order, or nil if not known.
func fullMap(t tb, what string, vm *verifiable.Map, mm *mapModel, acks [][]byte, keys [][]byte, limit int) {
	t.Helper()
	n := mm.Size()
	c := &mapCase{vm: vm, m: mm, acks: acks, t0: time.Now()}
	if acks == nil {
		for i := int64(0); i < n; i++ {
			e, err := vm.MutationLog().Entry(bg, i)
			noErr(t, err, "%s: mutation log entry %d", what, i)
			c.acks = append(c.acks, refLeafHash(e.LeafInput))
		}
	}
	if int64(len(c.acks)) != n {
		t.Fatalf("%s: harness: %d acknowledgements for %d mutations", what, len(c.acks), n)
	}
	c.checkLogs(t, nil)
	ml := readLogModel(t, vm.MutationLog(), n)
	c.checkMapHead(t, 0, ml)
	for _, s := range spread(1, n, limit) {
		c.checkMapHead(t, s, ml)
		for _, k := range keys {
			c.checkProof(t, k, s)
		}
	}
	if n > 0 {
		for _, k := range keys {
			c.checkValue(t, k, 0)
		}
		fullLog(t, what+" mutation log", vm.MutationLog(), ml, limit)
		fullLog(t, what+" tree head log", vm.TreeHeadLog(), readLogModel(t, vm.TreeHeadLog(), n), limit)
	}
}

// object is a log or a map with its model.
type object struct {
	account, name string
	isMap         bool
	lm            *logModel
	mm            *mapModel
	acks          [][]byte
	keys          [][]byte
}

func newObject(account, name string, isMap bool, keys [][]byte) *object {
	return &object{account: account, name: name, isMap: isMap, lm: newLogModel(), mm: newMapModel(), keys: keys}
}

func (o *object) String() string {
	if o.isMap {
		return fmt.Sprintf("map %q of %q", o.name, o.account)
	}
	return fmt.Sprintf("log %q of %q", o.name, o.account)
}

func (o *object) log(s server, key string) *verifiable.Log {
	return client(s, o.account, key).VerifiableLog(o.name)
}

func (o *object) vmap(s server, key string) *verifiable.Map {
	return client(s, o.account, key).VerifiableMap(o.name)
}

func (o *object) Size() int64 {
	if o.isMap {
		return o.mm.Size()
	}
	return o.lm.Size()
}

// add submits and models one leaf; set one mutation.
func (o *object) add(t tb, s server, key string, l *pb.LeafData) {
	t.Helper()
	p, err := o.log(s, key).Add(bg, l)
	noErr(t, err, "add to %s", o)
	eqBytes(t, p.LeafHash(), refLeafHash(l.LeafInput), "leaf hash of an add to %s", o)
	o.lm.Add(l)
}

func (o *object) mutate(t tb, s server, key string, mu mapMut) {
	t.Helper()
	p, err := applyMut(o.vmap(s, key), mu)
	noErr(t, err, "%s in %s", mu, o)
	o.acks = append(o.acks, p.LeafHash())
	o.mm.Apply(mu)
}

// step draws one operation on the object.
func (o *object) step(t *rapid.T, k *kase, s server, key string) {
	if o.isMap {
		mu := genMut(t, k, o.mm, o.keys)
		o.mutate(t, s, key, mu)
		k.Op("%s: %s", o, mu)
		return
	}
	var l *pb.LeafData
	switch pick(t, "leaf", 4) {
	case 0:
		l = genLeaf(false, true).Draw(t, "leafdata")
	default:
		l = leafFor(pick(t, "n", 24))
	}
	o.add(t, s, key, l)
	k.Op("%s: add %s", o, short(l.LeafInput))
}

func (o *object) full(t tb, s server, key string, limit int) {
	t.Helper()
	if o.isMap {
		fullMap(t, o.String(), o.vmap(s, key), o.mm, o.acks, o.keys, limit)
	} else {
		fullLog(t, o.String(), o.log(s, key), o.lm, limit)
	}
}

// glance compares only the head, the newest entry and one value.
func (o *object) glance(t tb, s server, key string) {
	t.Helper()
	if o.isMap {
		c := &mapCase{vm: o.vmap(s, key), m: o.mm}
		c.checkMapHead(t, 0, nil)
		if n := o.mm.Size(); n > 0 {
			c.checkProof(t, o.mm.muts[n-1].Key, 0)
			e, err := c.vm.MutationLog().Entry(bg, n-1)
			noErr(t, err, "newest mutation of %s", o)
			checkMutationEntry(t, e, o.mm.muts[n-1], o.String())
		}
		return
	}
	c := &logCase{log: o.log(s, key), m: o.lm}
	checkHead(t, c, 0)
	if n := o.lm.Size(); n > 0 {
		e, err := c.log.Entry(bg, n-1)
		noErr(t, err, "newest entry of %s", o)
		eqLeaf(t, e, o.lm.entries[n-1], "newest entry of %s", o)
		checkInclusion(t, c, n/2, 0)
	}
}

// ---- C15 ----

func redactionOf(s string) string {
	h, _ := objecthash.ObjectHash(s)
	return redacted + hex.EncodeToString(h)
}

// confusable account and object names
var confusable = []string{"", "a", "b", "ab", "A", "a/b", "b/a", "/", "a\x00", "\x00a", "0", "00", "1", "log", "map", "user", "mutation", "treehead",
	"metadata/size", "a\"b", "name", "type", "account", " a", "a ", "日本", "*", "%2F", "..", ".", redactionOf("a"), redactionOf(""), strings.Repeat("a", 300)}

var apiKeys = []string{"", "k", "a", "b", "other", "*", "a/b", strings.Repeat("z", 100)}

func TestC15_Independent(t *testing.T) {
	check(t, 5000, 60000, func(t *rapid.T) {
		k := newCase("C15")
		b := newBackend(genBackendKind(8).Draw(t, "backend"))
		defer b.Destroy()
		k.Class("backend=" + b.kind)
		s := instantService(b)
		keys := genKeyPool(5).Draw(t, "pool")
		// names in use: few, so that they meet in all positions
		var names []string
		for i := 2 + pick(t, "names", 3); i > 0; i-- {
			names = append(names, oneOf(t, "name", confusable...))
		}
		switch pick(t, "related", 4) {
		case 0: // shift characters between account and name
			names = append(names, names[0]+names[1], names[1]+names[0])
		case 1:
			names = append(names, redactionOf(names[0]))
		}
		maxObj := 8
		if b.kind != "mem" {
			maxObj = 4
		}
		var objs []*object
		seen := map[string]bool{}
		addObj := func(a, n string, m bool) {
			id := fmt.Sprintf("%q %q %v", a, n, m)
			if !seen[id] {
				seen[id] = true
				objs = append(objs, newObject(a, n, m, keys))
			}
		}
		if rapid.Bool().Draw(t, "split") { // the same string split elsewhere
			x, y, z := oneOf(t, "x", "a", "b", "1", "log", ""), oneOf(t, "y", "a", "b", "m", ""), oneOf(t, "z", "a", "c", "0", "map")
			sep := oneOf(t, "sep", "", "/", ":", "_", "-", ".", "\x00", ",", " ", "|", "+", "\n")
			m := rapid.Bool().Draw(t, "map")
			addObj(x, y+sep+z, m)
			addObj(x+sep+y, z, m)
			k.NT("split-elsewhere")
		}
		for i := 0; i < 40 && len(objs) < maxObj; i++ {
			addObj(oneOf(t, "account", names...), oneOf(t, "objname", names...), rapid.Bool().Draw(t, "map"))
		}
		for i := 0; i < len(objs); i++ {
			for j := 0; j < i; j++ {
				x, y := objs[i], objs[j]
				switch {
				case x.account == y.account && x.name == y.name:
					k.NT("log-and-map-of-one-name")
				case x.name == y.name:
					k.NT("same-name-other-account")
				case x.account == y.name && x.name == y.account:
					k.NT("swapped")
				case x.account+x.name == y.account+y.name:
					k.NT("same-concatenation")
				case x.account == y.account:
					k.NT("same-account")
				}
			}
		}
		// also watched: an object nobody writes to
		idle := newObject(names[0], "never written", rapid.Bool().Draw(t, "idleMap"), keys)
		var shared []*pb.LeafData // leaf data that goes to several objects
		for i := 3 + pick(t, "steps", 40); i > 0; i-- {
			o := objs[pick(t, "obj", len(objs))]
			key := oneOf(t, "apikey", apiKeys...)
			switch {
			case len(shared) > 0 && pick(t, "share", 4) == 0: // the same data elsewhere
				l := shared[pick(t, "which", len(shared))]
				if o.isMap {
					o.mutate(t, s, key, mapMut{Action: "set", Key: keys[pick(t, "key", len(keys))], Value: l})
				} else {
					o.add(t, s, key, l)
				}
				k.Op("%s: shared %s", o, short(l.LeafInput))
				k.NT("same-data-in-several")
			case o.isMap && o.mm.Size() > 0 && pick(t, "logentry", 6) == 0: // an entry of a map's own log goes elsewhere, with other extra data
				l := oneOf(t, "log", o.vmap(s, key).MutationLog(), o.vmap(s, key).TreeHeadLog())
				e, err := l.Entry(bg, int64(pick(t, "entry", int(o.mm.Size()))))
				noErr(t, err, "entry")
				e = cloneLeaf(e)
				e.ExtraData, e.Format = []byte("elsewhere"), 0
				shared = append(shared, e)
			default:
				o.step(t, k, s, key)
				if n := o.lm.Size(); !o.isMap && n > 0 {
					shared = append(shared, o.lm.entries[n-1])
				}
				if o.isMap {
					if v := o.mm.muts[o.mm.Size()-1].Value; v != nil {
						shared = append(shared, &pb.LeafData{LeafInput: v.LeafInput, ExtraData: []byte("shared by a map"), Format: 0})
					}
				}
			}
			objs[pick(t, "look", len(objs))].glance(t, s, oneOf(t, "apikey", apiKeys...))
		}
		if b.kind != "mem" && rapid.Bool().Draw(t, "reopen") {
			b.Reopen()
			s = instantService(b)
			k.NT("reopen")
		}
		for _, o := range append(objs, idle) {
			o.full(t, s, oneOf(t, "apikey", apiKeys...), 4)
		}
		k.Done()
	})
}
