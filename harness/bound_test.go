package harness

import (
	"bytes"
	"context"
	"fmt"
	"math"
	"strings"
	"testing"

	"github.com/continusec/verifiabledatastructures/mutator/instant"
	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
)

// ---- C24 ----

// edge draws a number at, around, or far beyond the boundaries of n (and of another object's size).
func edge(t *rapid.T, label string, n, other int64) int64 {
	switch pick(t, label+"-edge", 12) {
	case 0:
		return oneOf[int64](t, label, math.MinInt64, math.MinInt64+1, -1<<32, -1<<31, -2, -1)
	case 1: // equal to something held modulo 2^32 or 2^31
		return oneOf[int64](t, label+"-high", 1<<32, 1<<31, 1<<33, 1<<48, 1<<62) + between(t, label, 0, n)
	case 2:
		return oneOf[int64](t, label, math.MaxInt64, math.MaxInt64-1, 1<<62, 1<<53+1, 1000000)
	case 3:
		return 0
	case 4:
		return n
	case 5:
		return n + 1
	case 6:
		return n + 1 + between(t, label, 1, max(2, n))
	case 7:
		return other
	case 8: // the next power of two and its neighbours
		p := int64(1)
		for p < n {
			p *= 2
		}
		return p + between(t, label, -1, 1)
	case 9:
		return -n - between(t, label, 0, 1)
	default:
		return between(t, label, 0, n)
	}
}

const (
	okay     = "OK"
	invalid  = "InvalidArgument"
	notFound = "NotFound"
)

type boundRead struct {
	what  string
	allow []string // classes of answer that the model allows
	rest  bool     // expressible over REST
	do    func(s server) (proto.Message, error)
	check func(t tb, m proto.Message)
}

func size(req, n int64) (int64, bool) {
	if req == 0 {
		req = n
	}
	return req, req >= 0 && req <= n
}

// genBoundRead draws one read of an object, with what the model says must come of it.
func genBoundRead(t *rapid.T, o *object, other int64) boundRead {
	acc := &pb.AccountRef{Id: o.account, ApiKey: "k"}
	n := o.Size()
	if o.isMap && pick(t, "mapread", 5) < 2 {
		sz := edge(t, "size", n, other)
		eff, ok := size(sz, n)
		allow := []string{okay}
		if !ok {
			allow = []string{invalid}
		}
		mr := &pb.MapRef{Account: acc, Name: o.name}
		if pick(t, "head", 2) == 0 {
			q := &pb.MapTreeHashRequest{Map: mr, TreeSize: sz}
			return boundRead{"map head " + q.String(), allow, sz >= 0, func(s server) (proto.Message, error) { m, err := s.MapTreeHash(bg, q); return m, err }, func(t tb, m proto.Message) {
				r := m.(*pb.MapTreeHashResponse)
				if r.GetMutationLog().GetTreeSize() != eff {
					t.Fatalf("map head for %d of %d: %v", sz, n, r)
				}
				eqBytes(t, r.RootHash, o.mm.roots[eff], "map root")
			}}
		}
		key := []byte("never set")
		if pick(t, "set", 3) > 0 {
			key = oneOf(t, "key", o.keys...)
		}
		q := &pb.MapGetValueRequest{Map: mr, TreeSize: sz, Key: key}
		return boundRead{"value " + q.String(), allow, sz >= 0 && len(key) > 0, func(s server) (proto.Message, error) { m, err := s.MapGetValue(bg, q); return m, err }, func(t tb, m proto.Message) {
			r := m.(*pb.MapGetValueResponse)
			want := o.mm.Get(key, eff)
			if want == nil {
				want = &pb.LeafData{}
			}
			if r.TreeSize != eff {
				t.Fatalf("value for %d of %d: %v", sz, n, r)
			}
			eqLeaf(t, r.Value, want, "value at %d", eff)
		}}
	}
	lr := &pb.LogRef{Account: acc, Name: o.name, LogType: pb.LogType_STRUCT_TYPE_LOG}
	tree := &o.lm.tree
	if o.isMap {
		lr.LogType = oneOf(t, "maplog", pb.LogType_STRUCT_TYPE_MUTATION_LOG, pb.LogType_STRUCT_TYPE_TREEHEAD_LOG)
		tree = &refTree{leaves: o.acks}
		if lr.LogType == pb.LogType_STRUCT_TYPE_TREEHEAD_LOG {
			tree = nil
		}
	}
	refused := func(bad bool) []string {
		if bad {
			return []string{invalid}
		}
		return []string{okay}
	}
	switch pick(t, "read", 5) {
	case 0:
		sz := edge(t, "size", n, other)
		eff, ok := size(sz, n)
		q := &pb.LogTreeHashRequest{Log: lr, TreeSize: sz}
		return boundRead{"head " + q.String(), refused(!ok), sz >= 0, func(s server) (proto.Message, error) { m, err := s.LogTreeHash(bg, q); return m, err }, func(t tb, m proto.Message) {
			r := m.(*pb.LogTreeHashResponse)
			if r.TreeSize != eff {
				t.Fatalf("head for %d of %d: %v", sz, n, r)
			}
			if eff > 0 && tree != nil {
				eqBytes(t, r.RootHash, tree.Root(eff), "root at %d", eff)
			}
		}}
	case 1:
		first, last := edge(t, "first", n, other), edge(t, "last", n, other)
		eff, ok := size(last, n)
		ok = ok && first >= 0 && first < eff
		q := &pb.LogFetchEntriesRequest{Log: lr, First: first, Last: last}
		return boundRead{"fetch " + q.String(), refused(!ok), first >= 0 && last >= 0, func(s server) (proto.Message, error) { m, err := s.LogFetchEntries(bg, q); return m, err }, func(t tb, m proto.Message) {
			r := m.(*pb.LogFetchEntriesResponse)
			if int64(len(r.Values)) != eff-first {
				t.Fatalf("%d entries for %d to %d of %d", len(r.Values), first, last, n)
			}
			for i, v := range r.Values {
				if tree != nil {
					eqBytes(t, refLeafHash(v.LeafInput), tree.leaves[first+int64(i)], "entry %d", first+int64(i))
				}
			}
		}}
	case 2, 3:
		sz := edge(t, "size", n, other)
		eff, ok := size(sz, n)
		q := &pb.LogInclusionProofRequest{Log: lr, TreeSize: sz}
		var idx int64
		byHash := pick(t, "byhash", 2) == 0
		if byHash && tree != nil && n > 0 && pick(t, "known", 2) == 0 {
			idx = between(t, "leaf", 0, n-1)
			q.MtlHash = tree.leaves[idx]
		} else if byHash {
			idx = n // not there
			q.MtlHash = expand(uint64(pick(t, "seed", 1000)), oneOf(t, "len", 32, 32, 32, 1, 31, 33, 64))
			if n > 0 && tree != nil && pick(t, "near", 2) == 0 {
				q.MtlHash = append([]byte{}, tree.leaves[between(t, "leaf", 0, n-1)]...)
				switch pick(t, "how", 3) {
				case 0:
					q.MtlHash[pick(t, "byte", 32)] ^= 1 << pick(t, "bit", 8)
				case 1:
					q.MtlHash = q.MtlHash[:31]
				default:
					q.MtlHash = append(q.MtlHash, 0)
				}
			}
		} else {
			idx = edge(t, "index", n, other)
			q.LeafIndex = idx
		}
		var allow []string
		switch {
		case !ok && idx >= 0 && idx < n:
			allow = []string{invalid}
		case !ok || idx < 0: // wrong in several ways, or below the first
			allow = []string{invalid, notFound}
		case idx >= n:
			allow = []string{notFound}
		case idx >= eff:
			allow = []string{invalid}
		default:
			allow = []string{okay}
		}
		return boundRead{"inclusion " + q.String(), allow, sz >= 0 && idx >= 0, func(s server) (proto.Message, error) { m, err := s.LogInclusionProof(bg, q); return m, err }, func(t tb, m proto.Message) {
			r := m.(*pb.LogInclusionProofResponse)
			if r.TreeSize != eff || r.LeafIndex != idx {
				t.Fatalf("inclusion of %d in %d of %d: %v", idx, sz, n, r)
			}
			if tree != nil {
				eqPath(t, r.AuditPath, tree.Path(idx, eff), "path")
			}
		}}
	default:
		from, sz := edge(t, "from", n, other), edge(t, "size", n, other)
		eff, ok := size(sz, n)
		ok = ok && from > 0 && from < eff
		q := &pb.LogConsistencyProofRequest{Log: lr, FromSize: from, TreeSize: sz}
		return boundRead{"consistency " + q.String(), refused(!ok), sz >= 0 && from >= 0, func(s server) (proto.Message, error) { m, err := s.LogConsistencyProof(bg, q); return m, err }, func(t tb, m proto.Message) {
			r := m.(*pb.LogConsistencyProofResponse)
			if r.TreeSize != eff || r.FromSize != from {
				t.Fatalf("consistency of %d and %d of %d: %v", from, sz, n, r)
			}
			if tree != nil {
				eqPath(t, r.AuditPath, tree.Proof(from, eff), "proof")
			}
		}}
	}
}

func TestC24_Boundaries(t *testing.T) {
	check(t, 14000, 200000, func(t *rapid.T) {
		k := newCase("C24")
		keys := genKeyPool(5).Draw(t, "pool")
		var b *backend
		var st *refStore
		var s server
		if pick(t, "store", 8) == 0 {
			b = newBackend(genBackendKind(30).Draw(t, "backend"))
			defer b.Destroy()
			s = instantService(b)
			k.Class("backend=" + b.kind)
		} else {
			st = newRefStore()
			s = newService(st, &instant.Mutator{Writer: st}, nil)
		}
		var objs []*object
		for i := 1 + pick(t, "objects", 3); i > 0; i-- {
			o := newObject("1", oneOf(t, "name", "x", "y"), pick(t, "map", 2) == 0, keys)
			dup := false
			for _, x := range objs {
				dup = dup || x.name == o.name && x.isMap == o.isMap
			}
			if dup {
				continue
			}
			objs = append(objs, o)
			for j := pick(t, "initial", 12) - 3; j > 0; j-- {
				o.step(t, k, s, "k")
			}
		}
		// nobody writes to these, unless a later step does
		objs = append(objs, newObject("1", "never", pick(t, "nevermap", 2) == 0, keys), newObject("2", objs[0].name, objs[0].isMap, keys))
		for i := 5 + pick(t, "reads", 40); i > 0; i-- {
			o := objs[pick(t, "obj", len(objs))]
			if pick(t, "write", 10) == 0 {
				o.step(t, k, s, "k")
				continue
			}
			r := genBoundRead(t, o, objs[pick(t, "otherobj", len(objs))].Size())
			via, ch := "in process", s
			switch pick(t, "via", 12) {
			case 0:
				via, ch = "gRPC", grpcClient(s)
			case 1:
				if r.rest {
					via, ch = "REST", restClient(s, nil)
				}
			}
			var before *refStore
			if st != nil {
				before = st.Clone()
			}
			m, err := r.do(ch)
			got := class(err)
			good := false
			for _, a := range r.allow {
				good = good || a == got
			}
			if !good {
				t.Fatalf("%s (size %d), %s %s: answered %s (%v %v), want %s", o, o.Size(), via, r.what, got, m, err, strings.Join(r.allow, " or "))
			}
			if err == nil {
				if isNilMsg(m) {
					t.Fatalf("%s, %s %s: neither a response nor an error", o, via, r.what)
				}
				r.check(t, m)
				k.Class("answered")
			} else {
				k.NT(strings.SplitN(r.what, " ", 2)[0] + "-" + got)
				if o.Size() == 0 {
					k.NT("empty-" + got)
				}
			}
			k.Op("%s(%d) %s", o, o.Size(), r.what)
			if st != nil && !st.equal(before) {
				t.Fatalf("%s, %s %s (%v) changed stored data", o, via, r.what, err)
			}
		}
		// what clients make of it
		o := objs[pick(t, "client", len(objs))]
		l := o.log(s, "k")
		if o.isMap {
			l = oneOf(t, "log", o.vmap(s, "k").MutationLog(), o.vmap(s, "k").TreeHeadLog())
		}
		n := o.Size()
		idx := edge(t, "entry", n, 0)
		e, err := l.Entry(bg, idx)
		if want := idx >= 0 && idx < n; want != (err == nil) || !want && class(err) != invalid || want && e == nil {
			t.Fatalf("%s (size %d): entry %d: %v %v", o, n, idx, e, err)
		}
		lo, hi := edge(t, "lo", n, 0), edge(t, "hi", n, 0)
		if hi < 2000 { // an endless range is not asked for
			ctx, stop := context.WithCancel(bg)
			got := int64(0)
			for range l.Entries(ctx, lo, hi) {
				got++
			}
			stop()
			want := int64(0)
			if lo >= 0 && hi <= n && lo < hi {
				want = hi - lo
			}
			if got != want {
				t.Fatalf("%s (size %d): streaming %d to %d gave %d entries, want %d", o, n, lo, hi, got, want)
			}
		}
		for _, o := range objs {
			o.full(t, s, "k", 4)
		}
		// and they can be written to afterwards
		for _, o := range objs {
			o.step(t, k, s, "k")
			o.full(t, s, "k", 3)
		}
		k.Done()
	})
}

// Verification methods of clients on sizes outside what the log holds.
func TestC24_Clients(t *testing.T) {
	check(t, 8000, 100000, func(t *rapid.T) {
		k := newCase("C24")
		k.Class("client")
		s := memService()
		keys := genKeyPool(4).Draw(t, "pool")
		o := newObject("1", "x", pick(t, "map", 2) == 0, keys)
		for j := pick(t, "initial", 20); j > 0; j-- {
			o.step(t, k, s, "k")
		}
		n := o.Size()
		leaves := o.lm.tree.leaves
		l := o.log(s, "k")
		if o.isMap {
			vm := o.vmap(s, "k")
			sz := edge(t, "size", n, 0)
			h, err := vm.TreeHead(bg, sz)
			_, ok := size(sz, n)
			if ok != (err == nil) || !ok && class(err) != invalid {
				t.Fatalf("map head %d of %d: %v %v", sz, n, h, err)
			}
			st, err := vm.VerifiedMapState(bg, nil, sz)
			if ok != (err == nil) {
				t.Fatalf("verified map state %d of %d: %v %v", sz, n, st, err)
			}
			l, leaves = vm.MutationLog(), o.acks
			k.Op("map state %d of %d", sz, n)
		}
		// inclusion of what is not there, or not there yet
		sz := between(t, "headsize", 0, n)
		head, err := l.TreeHead(bg, sz)
		noErr(t, err, "head %d of %d", sz, n)
		eff, _ := size(sz, n)
		leaf, at := expand(uint64(pick(t, "seed", 100)), 32), n
		if n > 0 && pick(t, "known", 3) > 0 {
			at = between(t, "leaf", 0, n-1)
			leaf = leaves[at]
		}
		err = l.VerifyInclusion(bg, head, leaf)
		if (err == nil) != (at < eff) {
			t.Fatalf("inclusion of leaf %d in %d of %d: %v", at, eff, n, err)
		}
		if at >= eff && eff > 0 && at >= n && class(err) != notFound && err != verifiable.ErrNotFound {
			t.Fatalf("inclusion of an unknown leaf in %d of %d: %v", eff, n, err)
		}
		k.Op("inclusion %d in %d of %d", at, eff, n)
		if at >= eff {
			k.NT("not-included")
		}
		// a head beyond what the log holds is not consistent with it
		big := edge(t, "bigsize", n, 0)
		if big > n {
			fake := &pb.LogTreeHashResponse{TreeSize: big, RootHash: head.RootHash}
			if err := l.VerifyInclusion(bg, fake, leaf); err == nil {
				t.Fatalf("inclusion verified against a head of size %d of %d", big, n)
			}
			if eff > 0 {
				if err := l.VerifyConsistency(bg, head, fake); err == nil {
					t.Fatalf("a head of size %d is taken to be consistent with a log of %d", big, n)
				}
			}
			k.NT("beyond")
			k.Op("beyond %d of %d", big, n)
		}
		h, err := l.TreeHead(bg, 0)
		if err != nil || h.TreeSize != n || eff == n && !bytes.Equal(h.RootHash, head.RootHash) {
			t.Fatalf("head changed: %v %v", h, err)
		}
		o.full(t, s, "k", 3)
		k.Op(fmt.Sprint(o.isMap))
		k.Done()
	})
}
