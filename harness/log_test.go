package harness

import (
	"context"
	"fmt"
	"testing"
	"time"

	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"google.golang.org/grpc/codes"
	"pgregory.net/rapid"
)

// logCase is a built log of any type together with its model.
type logCase struct {
	log *verifiable.Log
	m   *logModel
	b   *backend
	vm  *verifiable.Map
	// grow adds one more entry to the log (for stability checks)
	grow func(i int)
}

// buildLog draws a log of any type on any backend. onStep runs after every segment.
func buildLog(t *rapid.T, k *kase, onStep func(c *logCase)) *logCase {
	b := newBackend(genBackendKind(8).Draw(t, "backend"))
	k.Class("backend=" + b.kind)
	acc := client(instantService(b), "7", "key")
	c := &logCase{b: b}
	switch pick(t, "logtype", 10) {
	case 0, 1, 2: // a map's own logs
		vm := acc.VerifiableMap("m")
		pool := genKeyPool(12).Draw(t, "pool")
		n := genMutCount(t)
		c.vm = vm
		c.log = vm.MutationLog()
		th := rapid.Bool().Draw(t, "treehead")
		if th {
			c.log = vm.TreeHeadLog()
			k.Class("treehead-log")
		} else {
			k.Class("mutation-log")
		}
		mm := newMapModel()
		c.m = newLogModel()
		step := func() {
			mu := genMut(t, k, mm, pool)
			_, err := applyMut(vm, mu)
			noErr(t, err, "mutation %s", mu)
			mm.Apply(mu)
			k.Op("%s", mu)
			e, err := c.log.Entry(bg, mm.Size()-1)
			noErr(t, err, "entry %d", mm.Size()-1)
			if !c.m.Add(e) {
				t.Fatalf("entry %d of the map's log repeats an earlier one", mm.Size()-1)
			}
		}
		for i := 0; i < n; i++ {
			step()
			if i%7 == 0 && onStep != nil {
				onStep(c)
			}
		}
		k.Op("map-log treehead=%v muts=%d", th, n)
		c.grow = func(i int) { step() }
	default:
		c.log = acc.VerifiableLog("log")
		c.m = newLogModel()
		k.Class("user-log")
		maxTotal := 2049
		if b.kind != "mem" {
			maxTotal = 70
		}
		addSegments(t, k, c.m, maxTotal, func(l *pb.LeafData) {
			p, err := c.log.Add(bg, l)
			noErr(t, err, "add")
			eqBytes(t, p.LeafHash(), refLeafHash(l.LeafInput), "acknowledged leaf hash")
		}, func() {
			if onStep != nil {
				onStep(c)
			}
		})
		c.grow = func(i int) {
			l := &pb.LeafData{LeafInput: []byte(fmt.Sprintf("grow-%d", i)), ExtraData: []byte("g")}
			_, err := c.log.Add(bg, l)
			noErr(t, err, "grow")
			c.m.Add(l)
		}
	}
	sizeClass(k, c.m.Size())
	return c
}

func checkHead(t tb, c *logCase, size int64) {
	t.Helper()
	h, err := c.log.TreeHead(bg, size)
	noErr(t, err, "tree head %d", size)
	want := size
	if size == 0 {
		want = c.m.Size()
	}
	if h.TreeSize != want {
		t.Fatalf("tree head for size %d (log has %d): names size %d", size, c.m.Size(), h.TreeSize)
	}
	if want > 0 {
		eqBytes(t, h.RootHash, c.m.tree.Root(want), "root hash at size %d of %d", want, c.m.Size())
	}
}

func TestC01_Roots(t *testing.T) {
	check(t, 16000, 200000, func(t *rapid.T) {
		k := newCase("C01")
		c := buildLog(t, k, func(c *logCase) { checkHead(t, c, 0) })
		defer c.b.Destroy()
		n := c.m.Size()
		checkHead(t, c, 0)
		for _, s := range pickSizes(t, 1, n, 150) {
			checkHead(t, c, s)
		}
		// earlier roots stay the same when the log grows
		for i, g := 0, pick(t, "grow", 6); i < g; i++ {
			c.grow(i)
			checkHead(t, c, 0)
		}
		for _, s := range pickSizes(t, 1, c.m.Size(), 40) {
			checkHead(t, c, s)
		}
		if c.vm != nil { // the map head carries the mutation log's root too
			for _, s := range pickSizes(t, 1, c.m.Size(), 10) {
				mh, err := c.vm.TreeHead(bg, s)
				noErr(t, err, "map head %d", s)
				lh, err := c.vm.MutationLog().TreeHead(bg, s)
				noErr(t, err, "mutation log head %d", s)
				eqBytes(t, mh.GetMutationLog().GetRootHash(), lh.RootHash, "mutation log root in map head %d", s)
			}
		}
		k.Done()
	})
}

func checkEntries(t *rapid.T, k *kase, c *logCase) {
	n := c.m.Size()
	fetch := func(first, last int64) {
		r, err := c.log.Service.LogFetchEntries(bg, &pb.LogFetchEntriesRequest{Log: c.log.Log, First: first, Last: last})
		noErr(t, err, "fetch %d-%d of %d", first, last, n)
		end := last
		if last == 0 {
			end = n
		}
		if int64(len(r.Values)) != end-first {
			t.Fatalf("fetch %d-%d of %d: %d values", first, last, n, len(r.Values))
		}
		for i, v := range r.Values {
			eqLeaf(t, v, c.m.entries[first+int64(i)], "fetch %d-%d of %d: entry %d", first, last, n, first+int64(i))
		}
	}
	if n > 0 {
		fetch(0, 0)
		fetch(0, n)
		for j := 0; j < 4; j++ {
			a := between(t, "first", 0, n-1)
			b := between(t, "last", a+1, n)
			fetch(a, b)
			fetch(a, 0)
		}
		for _, i := range pickSizes(t, 0, n-1, 20) {
			e, err := c.log.Entry(bg, i)
			noErr(t, err, "entry %d of %d", i, n)
			eqLeaf(t, e, c.m.entries[i], "entry %d of %d", i, n)
		}
	}
	// streamed
	a := between(t, "streamFrom", 0, n)
	if rapid.Bool().Draw(t, "fromStart") {
		a = 0
	}
	b := n
	if pick(t, "toPart", 3) == 0 {
		b = between(t, "streamTo", a, n)
	}
	i := a
	for e := range c.log.Entries(bg, a, b) {
		if i >= b {
			t.Fatalf("stream %d-%d of %d returned more than asked", a, b, n)
		}
		eqLeaf(t, e, c.m.entries[i], "stream %d-%d of %d: entry %d", a, b, n, i)
		i++
	}
	if i != b {
		t.Fatalf("stream %d-%d of %d ended at %d", a, b, n, i)
	}
	if b-a > 500 {
		k.NT("stream>batch")
	}
	if b-a > 2 { // a cancelled stream ends early with a correct prefix
		ctx, cancel := context.WithCancel(bg)
		i := a
		for e := range c.log.Entries(ctx, a, b) {
			eqLeaf(t, e, c.m.entries[i], "cancelled stream entry %d", i)
			if i++; i == a+2 {
				cancel()
				break
			}
		}
		cancel()
		if b-a > 3 {
			for try, wait := 0, time.Millisecond; c.endless(a, b, wait); try, wait = try+1, 2*wait {
				if try == 8 {
					t.Fatalf("a stream of %d-%d of %d goes on after its context ended", a, b, n)
				}
			}
			k.NT("stream-context-ended")
		}
	}
}

// endless: whether a stream whose context ended still gives entries after a while in which nobody took any
func (c *logCase) endless(a, b int64, wait time.Duration) bool {
	ctx, cancel := context.WithCancel(bg)
	ch := c.log.Entries(ctx, a, b)
	<-ch
	cancel()
	time.Sleep(wait)
	_, more := <-ch
	return more
}

func TestC02_AppendOnly(t *testing.T) {
	check(t, 12000, 150000, func(t *rapid.T) {
		k := newCase("C02")
		c := buildLog(t, k, func(c *logCase) {
			h, err := c.log.TreeHead(bg, 0)
			noErr(t, err, "head")
			if h.TreeSize != c.m.Size() {
				t.Fatalf("log has size %d after adding %d distinct entries", h.TreeSize, c.m.Size())
			}
		})
		defer c.b.Destroy()
		checkEntries(t, k, c)
		for i, g := 0, pick(t, "grow", 4); i < g; i++ {
			c.grow(i)
		}
		if pick(t, "reopen", 4) == 0 && c.b.kind != "mem" {
			k.NT("reopen")
			acc := func() *verifiable.Account { c.b.Reopen(); return client(instantService(c.b), "7", "key") }()
			c.log.Service = acc.Service
		}
		checkEntries(t, k, c)
		k.Done()
	})
}

// unknownHash is a leaf hash that is not in the log.
func unknownHash(t *rapid.T, c *logCase) []byte {
	switch pick(t, "unknown", 4) {
	case 0:
		return refLeafHash([]byte("never added \x00\xff"))
	case 1:
		if c.m.Size() > 1 {
			return c.m.tree.Root(c.m.Size()) // an interior node, not a leaf
		}
		return refLeafHash([]byte("never added 2"))
	case 2:
		if c.m.Size() > 0 { // nearly an existing one
			h := append([]byte{}, c.m.tree.leaves[0]...)
			h[31] ^= 1
			return h
		}
		return refLeafHash([]byte("never added 3"))
	default:
		return refLeafHash(expand(rapid.Uint64Range(1<<30, 1<<31).Draw(t, "seed"), 40))
	}
}

func checkInclusion(t tb, c *logCase, idx, size int64) {
	t.Helper()
	n := c.m.Size()
	eff := size
	if size == 0 {
		eff = n
	}
	want := c.m.tree.Path(idx, eff)
	leaf := c.m.tree.leaves[idx]
	for _, byHash := range []bool{true, false} {
		var p *pb.LogInclusionProofResponse
		var err error
		if byHash {
			p, err = c.log.InclusionProof(bg, size, leaf)
		} else {
			p, err = c.log.InclusionProofByIndex(bg, size, idx)
		}
		what := fmt.Sprintf("inclusion proof byHash=%v index %d size %d (log %d)", byHash, idx, size, n)
		noErr(t, err, what)
		if p.LeafIndex != idx || p.TreeSize != eff {
			t.Fatalf("%s: names index %d size %d", what, p.LeafIndex, p.TreeSize)
		}
		eqPath(t, p.AuditPath, want, what)
		head := &pb.LogTreeHashResponse{TreeSize: eff, RootHash: c.m.tree.Root(eff)}
		noErr(t, verifiable.VerifyLogInclusionProof(p, leaf, head), "verifying %s", what)
		if !refVerifyInclusion(p.LeafIndex, p.TreeSize, p.AuditPath, leaf, head.RootHash) {
			t.Fatalf("%s does not verify", what)
		}
	}
}

func TestC03_Inclusion(t *testing.T) {
	check(t, 12000, 150000, func(t *rapid.T) {
		k := newCase("C03")
		c := buildLog(t, k, nil)
		defer c.b.Destroy()
		n := c.m.Size()
		if n == 0 {
			k.Done()
			return
		}
		if n <= 12 { // all pairs
			for s := int64(1); s <= n; s++ {
				for i := int64(0); i < s; i++ {
					checkInclusion(t, c, i, s)
				}
			}
			k.NT("all-pairs")
		} else {
			for _, s := range pickSizes(t, 1, n, 12) {
				for _, i := range pickSizes(t, 0, s-1, 6) {
					checkInclusion(t, c, i, s)
					k.Op("p(%d,%d)", i, s)
				}
			}
		}
		for _, i := range pickSizes(t, 0, n-1, 3) {
			checkInclusion(t, c, i, 0)
			h, err := c.log.TreeHead(bg, 0)
			noErr(t, err, "head")
			noErr(t, c.log.VerifyInclusion(bg, h, c.m.tree.leaves[i]), "client inclusion check of %d in head", i)
			s := between(t, "size", i+1, n)
			h, err = c.log.TreeHead(bg, s)
			noErr(t, err, "head %d", s)
			noErr(t, c.log.VerifyInclusion(bg, h, c.m.tree.leaves[i]), "client inclusion check of %d in %d", i, s)
		}
		uh := unknownHash(t, c)
		_, err := c.log.InclusionProof(bg, 0, uh)
		if code(err) != codes.NotFound {
			t.Fatalf("inclusion proof for a leaf hash not in the log (size %d): got %v, want not found", n, err)
		}
		for i, g := 0, pick(t, "grow", 3); i < g; i++ {
			c.grow(i)
		}
		for _, i := range pickSizes(t, 0, n-1, 3) { // old sizes still provable after growth
			checkInclusion(t, c, i, n)
			checkInclusion(t, c, i, 0)
		}
		k.Done()
	})
}

func checkConsistency(t tb, c *logCase, from, to int64) {
	t.Helper()
	n := c.m.Size()
	eff := to
	if to == 0 {
		eff = n
	}
	p, err := c.log.ConsistencyProof(bg, from, to)
	what := fmt.Sprintf("consistency proof %d-%d (log %d)", from, to, n)
	noErr(t, err, what)
	if p.FromSize != from || p.TreeSize != eff {
		t.Fatalf("%s: names sizes %d-%d", what, p.FromSize, p.TreeSize)
	}
	eqPath(t, p.AuditPath, c.m.tree.Proof(from, eff), what)
	a := &pb.LogTreeHashResponse{TreeSize: from, RootHash: c.m.tree.Root(from)}
	b := &pb.LogTreeHashResponse{TreeSize: eff, RootHash: c.m.tree.Root(eff)}
	noErr(t, verifiable.VerifyLogConsistencyProof(p, a, b), "verifying %s", what)
	if !refVerifyConsistency(from, eff, p.AuditPath, a.RootHash, b.RootHash) {
		t.Fatalf("%s does not verify", what)
	}
	if eff == to {
		noErr(t, c.log.VerifyConsistency(bg, a, b), "client consistency check %d-%d", from, to)
		noErr(t, c.log.VerifyConsistency(bg, b, a), "client consistency check %d-%d, reversed", from, to)
	}
}

func TestC04_Consistency(t *testing.T) {
	check(t, 12000, 150000, func(t *rapid.T) {
		k := newCase("C04")
		c := buildLog(t, k, nil)
		defer c.b.Destroy()
		n := c.m.Size()
		if n < 2 {
			k.Done()
			return
		}
		if n <= 14 {
			k.NT("all-pairs")
			for to := int64(2); to <= n; to++ {
				for from := int64(1); from < to; from++ {
					checkConsistency(t, c, from, to)
				}
			}
		} else {
			for _, to := range pickSizes(t, 2, n, 12) {
				for _, from := range pickSizes(t, 1, to-1, 6) {
					checkConsistency(t, c, from, to)
					k.Op("c(%d,%d)", from, to)
				}
			}
		}
		for _, from := range pickSizes(t, 1, n-1, 3) {
			checkConsistency(t, c, from, 0)
			h := &pb.LogTreeHashResponse{TreeSize: from, RootHash: c.m.tree.Root(from)}
			noErr(t, c.log.VerifyConsistency(bg, h, h), "client consistency check of equal heads")
		}
		for i, g := 0, pick(t, "grow", 3); i < g; i++ {
			c.grow(i)
		}
		for _, from := range pickSizes(t, 1, n-1, 3) {
			checkConsistency(t, c, from, n)
			checkConsistency(t, c, from, 0)
		}
		k.Done()
	})
}
