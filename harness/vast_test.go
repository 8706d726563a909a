package harness

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"sort"
	"sync"
	"testing"

	"github.com/continusec/verifiabledatastructures/mutator/instant"
	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"google.golang.org/grpc/codes"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
)

// Vast logs: a storage that answers as if a log of up to 2^62 entries had been written to it. Nearly all
// entries are the same one (so that the hash of any range can be computed), a few drawn ones differ, and
// whatever is written on top is kept. The layout of the records is that of the repository's storage; it is
// compared with a real small log first, and if it ever differs these cases explore nothing.

type vastStore struct {
	n        int64            // entries made up
	special  map[int64]string // of these, the ones that differ; later ones are the added ones
	order    []int64          // sorted keys of special
	uniform  [][]byte         // hash of 2^k equal entries
	memo     map[[2]int64][]byte
	over     *refStore
	size     int64 // entries now
	byHash   map[string]int64
	disabled bool // the made up part is not answered
}

const vastCommon = "the common entry"

func newVastStore(n int64, special []int64) *vastStore {
	v := &vastStore{n: n, size: n, special: map[int64]string{}, over: newRefStore(), byHash: map[string]int64{}, memo: map[[2]int64][]byte{}}
	h := refLeafHash([]byte(vastCommon))
	for k := 0; k < 63; k++ {
		v.uniform = append(v.uniform, h)
		h = refNodeHash(h, h)
	}
	for _, i := range special {
		v.put(i, fmt.Sprintf("special entry %d", i))
	}
	return v
}

func (v *vastStore) put(i int64, in string) {
	if _, ok := v.special[i]; ok {
		return
	}
	v.special[i] = in
	v.byHash[string(refLeafHash([]byte(in)))] = i
	at := sort.Search(len(v.order), func(j int) bool { return v.order[j] >= i })
	v.order = append(v.order[:at:at], append([]int64{i}, v.order[at:]...)...)
	v.memo = map[[2]int64][]byte{}
}

func (v *vastStore) input(i int64) string {
	if s, ok := v.special[i]; ok {
		return s
	}
	return vastCommon
}

func (v *vastStore) leaf(i int64) *pb.LeafData {
	return &pb.LeafData{LeafInput: []byte(v.input(i)), ExtraData: []byte("extra")}
}

func (v *vastStore) sub(lo, hi int64) []byte {
	if hi-lo == 1 {
		return refLeafHash([]byte(v.input(lo)))
	}
	at := sort.Search(len(v.order), func(j int) bool { return v.order[j] >= lo })
	none := at == len(v.order) || v.order[at] >= hi
	k := 0
	for int64(1)<<k < hi-lo {
		k++
	}
	if none && k < len(v.uniform) && int64(1)<<k == hi-lo {
		return v.uniform[k]
	}
	key := [2]int64{lo, hi}
	if h, ok := v.memo[key]; ok {
		return h
	}
	s := refSplit(hi - lo)
	h := refNodeHash(v.sub(lo, lo+s), v.sub(lo+s, hi))
	v.memo[key] = h
	return h
}

func (v *vastStore) tree() *refTree { return &refTree{sub: v.sub} }

func (v *vastStore) madeUp(key []byte) proto.Message {
	cut := bytes.IndexByte(key, '/')
	if cut < 0 {
		return nil
	}
	a := key[cut+1:]
	num := func(b []byte) int64 { return int64(binary.BigEndian.Uint64(b)) }
	switch string(key[:cut]) {
	case "metadata":
		if string(a) == "size" {
			return &pb.ObjectSize{Size: v.n}
		}
	case "user_data":
		if i, ok := v.byHash[string(a)]; ok && i < v.n {
			return v.leaf(i)
		}
		if bytes.Equal(a, v.uniform[0]) {
			return &pb.LeafData{LeafInput: []byte(vastCommon), ExtraData: []byte("extra")}
		}
	case "user_index":
		if i, ok := v.byHash[string(a)]; ok && i < v.n {
			return &pb.EntryIndex{Index: i}
		}
	case "user_leaf":
		if len(a) == 8 && num(a) >= 0 && num(a) < v.n {
			return &pb.LeafNode{Mth: v.sub(num(a), num(a)+1)}
		}
	case "user_tree":
		if len(a) == 8 && num(a) > 0 && num(a) <= v.n {
			return &pb.LogTreeHash{Mth: v.sub(0, num(a))}
		}
	case "user_node":
		if len(a) == 16 {
			lo, hi := num(a), num(a[8:])
			if w := hi - lo; lo >= 0 && hi <= v.n && w >= 2 && w&(w-1) == 0 && lo%w == 0 {
				return &pb.TreeNode{Mth: v.sub(lo, hi)}
			}
		}
	}
	return nil
}

type vastTxn struct {
	v *vastStore
	r verifiable.KeyReader
}

func (x *vastTxn) Get(ctx context.Context, key []byte, value proto.Message) error {
	err := x.r.Get(ctx, key, value)
	if err == verifiable.ErrNoSuchKey && !x.v.disabled {
		if m := x.v.madeUp(key); m != nil {
			b, err := proto.Marshal(m)
			if err != nil {
				return err
			}
			return proto.Unmarshal(b, value)
		}
	}
	return err
}

func (x *vastTxn) Set(ctx context.Context, key []byte, value proto.Message) error {
	return x.r.(verifiable.KeyWriter).Set(ctx, key, value)
}

func (v *vastStore) ExecuteReadOnly(ctx context.Context, ns []byte, f func(context.Context, verifiable.KeyReader) error) error {
	return v.over.ExecuteReadOnly(ctx, ns, func(ctx context.Context, r verifiable.KeyReader) error { return f(ctx, &vastTxn{v, r}) })
}

func (v *vastStore) ExecuteUpdate(ctx context.Context, ns []byte, f func(context.Context, verifiable.KeyWriter) error) error {
	return v.over.ExecuteUpdate(ctx, ns, func(ctx context.Context, w verifiable.KeyWriter) error { return f(ctx, &vastTxn{v, w}) })
}

// layoutKnown compares the made up records with those of a real log of 45 entries.
var layoutKnown = sync.OnceValue(func() bool {
	v := newVastStore(45, nil)
	for i := int64(0); i < 45; i++ {
		v.put(i, fmt.Sprint("e", i))
	}
	s := newRefStore()
	l := client(newService(s, &instant.Mutator{Writer: s}, nil), "7", "key").VerifiableLog("log")
	for i := int64(0); i < 45; i++ {
		if _, err := l.Add(bg, v.leaf(i)); err != nil {
			return false
		}
	}
	count := 0
	for _, m := range s.ns {
		for k, b := range m {
			x := v.madeUp([]byte(k))
			if x == nil {
				return false
			}
			y := proto.Clone(x)
			proto.Reset(y)
			if proto.Unmarshal(b, y) != nil || !proto.Equal(x, y) {
				return false
			}
			count++
		}
	}
	return count == 1+45*4+41 // size; data, leaf, tree, index; 22+11+5+2+1 nodes
})

type vastCase struct {
	v   *vastStore
	log *verifiable.Log
	t   *refTree
}

func vastNumber(t *rapid.T, what string, hi int64) int64 {
	var n int64
	switch pick(t, what+"-class", 4) {
	case 0:
		n = int64(1)<<between(t, what+"-pow", 0, 61) + between(t, what+"-off", 0, 4) - 2
	case 1: // sparse bits
		for i, c := 0, 2+pick(t, what+"-bits", 5); i < c; i++ {
			n |= int64(1) << between(t, what+"-bit", 0, 60)
		}
	case 2: // from the top
		n = hi - int64(pick(t, what+"-back", 40))
	default:
		n = between(t, what, 1, hi)
	}
	return min(max(n, 1), hi)
}

func buildVast(t *rapid.T, k *kase) *vastCase {
	n := max(1000, vastNumber(t, "entries", int64(1)<<61))
	var special []int64
	for i, c := 0, pick(t, "specials", 12); i < c; i++ {
		special = append(special, vastNumber(t, "special", n)-1)
	}
	for i, c := 0, pick(t, "last", 5); i < c; i++ {
		special = append(special, n-1-int64(i))
	}
	v := newVastStore(n, special)
	var svc server = newService(v, &instant.Mutator{Writer: v}, nil)
	how := "direct"
	switch pick(t, "transport", 10) {
	case 0:
		svc, how = restClient(svc, nil), "rest"
	case 1:
		svc, how = grpcClient(svc), "grpc"
	}
	c := &vastCase{v: v, log: client(svc, "7", "key").VerifiableLog("log"), t: v.tree()}
	k.Op("vast log of %d (%v) over %s", n, special, how)
	k.NT("vast-log")
	k.Class("vast-" + how)
	if n > 1<<32 {
		k.Class("more-than-2^32")
	}
	for i, m := 0, pick(t, "added", 20); i < m; i++ {
		c.add(t, i)
	}
	return c
}

func (c *vastCase) add(t tb, i int) {
	in := fmt.Sprintf("added %d", i)
	l := &pb.LeafData{LeafInput: []byte(in), ExtraData: []byte("extra")}
	p, err := c.log.Add(bg, l)
	noErr(t, err, "add at %d", c.v.size)
	eqBytes(t, p.LeafHash(), refLeafHash(l.LeafInput), "acknowledged leaf hash at %d", c.v.size)
	c.v.put(c.v.size, in)
	c.v.size++
}

func (c *vastCase) head(n int64) *pb.LogTreeHashResponse {
	return &pb.LogTreeHashResponse{TreeSize: n, RootHash: c.t.Root(n)}
}

func vastCheck(t *testing.T, id string, quick, deep int, prop func(t *rapid.T, k *kase, c *vastCase)) {
	check(t, quick, deep, func(t *rapid.T) {
		if !layoutKnown() {
			return
		}
		k := newCase(id)
		c := buildVast(t, k)
		prop(t, k, c)
		k.Done()
	})
}

func TestC01_Vast(t *testing.T) {
	vastCheck(t, "C01", 1600, 40000, func(t *rapid.T, k *kase, c *vastCase) {
		for i := 0; i < 24; i++ {
			s := int64(0)
			switch pick(t, "which", 4) {
			case 0:
			case 1:
				s = vastNumber(t, "size", c.v.size)
			default: // the roots that were computed
				s = c.v.n + between(t, "of", 0, c.v.size-c.v.n)
			}
			h, err := c.log.TreeHead(bg, s)
			noErr(t, err, "head %d of %d", s, c.v.size)
			if s == 0 {
				s = c.v.size
			}
			if h.TreeSize != s {
				t.Fatalf("head for size %d of %d names %d", s, c.v.size, h.TreeSize)
			}
			eqBytes(t, h.RootHash, c.t.Root(s), "root at %d of %d", s, c.v.size)
			if i > 12 && rapid.Bool().Draw(t, "grow") {
				c.add(t, 100+i)
			}
		}
	})
}

func TestC02_Vast(t *testing.T) {
	vastCheck(t, "C02", 1600, 40000, func(t *rapid.T, k *kase, c *vastCase) {
		n := c.v.size
		for i := 0; i < 8; i++ {
			a := vastNumber(t, "first", n) - 1
			b := min(n, a+1+int64(pick(t, "length", 20)))
			r, err := c.log.Service.LogFetchEntries(bg, &pb.LogFetchEntriesRequest{Log: c.log.Log, First: a, Last: b})
			noErr(t, err, "fetch %d-%d of %d", a, b, n)
			if int64(len(r.Values)) != b-a {
				t.Fatalf("fetch %d-%d of %d: %d values", a, b, n, len(r.Values))
			}
			for j, e := range r.Values {
				eqLeaf(t, e, c.v.leaf(a+int64(j)), "entry %d of %d", a+int64(j), n)
			}
			e, err := c.log.Entry(bg, a)
			noErr(t, err, "entry %d of %d", a, n)
			eqLeaf(t, e, c.v.leaf(a), "entry %d of %d", a, n)
		}
		a := n - 1 - int64(pick(t, "from", 600))
		i := a
		for e := range c.log.Entries(bg, a, n) {
			eqLeaf(t, e, c.v.leaf(i), "stream from %d of %d: entry %d", a, n, i)
			i++
		}
		if i != n {
			t.Fatalf("stream from %d of %d ended at %d", a, n, i)
		}
		// what is in the log already is not added again
		if len(c.v.order) > 0 {
			at := c.v.order[pick(t, "again", len(c.v.order))]
			_, err := c.log.Add(bg, c.v.leaf(at))
			noErr(t, err, "add again")
			h, err := c.log.TreeHead(bg, 0)
			noErr(t, err, "head")
			if h.TreeSize != n {
				t.Fatalf("entry %d added again: log of %d is now %d", at, n, h.TreeSize)
			}
		}
	})
}

func TestC03_Vast(t *testing.T) {
	vastCheck(t, "C03", 1600, 40000, func(t *rapid.T, k *kase, c *vastCase) {
		n := c.v.size
		one := func(i, s int64, byHash bool) {
			leaf := refLeafHash([]byte(c.v.input(i)))
			var p *pb.LogInclusionProofResponse
			var err error
			if byHash {
				p, err = c.log.InclusionProof(bg, s, leaf)
			} else {
				p, err = c.log.InclusionProofByIndex(bg, s, i)
			}
			what := fmt.Sprintf("inclusion proof byHash=%v index %d size %d (log %d)", byHash, i, s, n)
			noErr(t, err, what)
			eff := s
			if s == 0 {
				eff = n
			}
			if p.LeafIndex != i || p.TreeSize != eff {
				t.Fatalf("%s: names index %d size %d", what, p.LeafIndex, p.TreeSize)
			}
			eqPath(t, p.AuditPath, c.t.Path(i, eff), what)
			noErr(t, verifiable.VerifyLogInclusionProof(p, leaf, c.head(eff)), "verifying %s", what)
		}
		for j := 0; j < 12; j++ {
			s := vastNumber(t, "size", n)
			i := vastNumber(t, "index", s) - 1
			one(i, s, false)
		}
		for _, i := range c.v.order {
			s := i + vastNumber(t, "size", n-i)
			one(i, s, true)
			one(i, 0, rapid.Bool().Draw(t, "byhash"))
			noErr(t, c.log.VerifyInclusion(bg, c.head(s), refLeafHash([]byte(c.v.input(i)))), "client inclusion check of %d in %d", i, s)
		}
		if _, err := c.log.InclusionProof(bg, 0, refLeafHash([]byte("absent"))); code(err) != codes.NotFound {
			t.Fatalf("inclusion proof for a leaf hash not in the log: got %v, want not found", err)
		}
	})
}

func TestC04_Vast(t *testing.T) {
	vastCheck(t, "C04", 1600, 40000, func(t *rapid.T, k *kase, c *vastCase) {
		n := c.v.size
		for j := 0; j < 20; j++ {
			s := max(2, vastNumber(t, "size", n))
			f := vastNumber(t, "from", s-1)
			q := s
			if pick(t, "latest", 8) == 0 {
				q, s = 0, n
			}
			p, err := c.log.ConsistencyProof(bg, f, q)
			what := fmt.Sprintf("consistency proof %d-%d (log %d)", f, q, n)
			noErr(t, err, what)
			if p.FromSize != f || p.TreeSize != s {
				t.Fatalf("%s: names sizes %d-%d", what, p.FromSize, p.TreeSize)
			}
			eqPath(t, p.AuditPath, c.t.Proof(f, s), what)
			noErr(t, verifiable.VerifyLogConsistencyProof(p, c.head(f), c.head(s)), "verifying %s", what)
			noErr(t, c.log.VerifyConsistency(bg, c.head(f), c.head(s)), "client consistency check %d-%d", f, s)
		}
	})
}

func TestC11_Vast(t *testing.T) {
	vastCheck(t, "C11", 800, 20000, func(t *rapid.T, k *kase, c *vastCase) {
		n := c.v.size
		to := n - int64(pick(t, "to", 30))
		from := to - 1 - int64(pick(t, "from", 100))
		if pick(t, "long", 20) == 0 {
			to = n
			from = n - 501 - int64(pick(t, "longfrom", 200))
		}
		next := from
		err := c.log.VerifyEntries(bg, c.head(from), c.head(to), func(ctx context.Context, idx int64, e *pb.LeafData) error {
			if idx != next {
				t.Fatalf("audit function called for %d, expected %d", idx, next)
			}
			eqLeaf(t, e, c.v.leaf(idx), "audited entry %d", idx)
			next++
			return nil
		})
		noErr(t, err, "audit from %d to %d of %d", from, to, n)
		if next != to {
			t.Fatalf("audit from %d to %d ended at %d", from, to, next)
		}
	})
}
