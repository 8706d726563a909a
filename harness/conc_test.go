package harness

import (
	"bytes"
	"fmt"
	"math/rand"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/continusec/verifiabledatastructures/mutator/batch"
	"github.com/continusec/verifiabledatastructures/mutator/instant"
	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"golang.org/x/net/context"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
)

// ---- C23 ----

// hesitant pauses now and then inside transactions, so that others get in between if nothing keeps them out.
type hesitant struct {
	w     verifiable.StorageWriter
	every int64
	n     atomic.Int64
}

func (h *hesitant) pause() {
	if h.every > 0 {
		switch n := h.n.Add(1); {
		case n%(67*h.every) == 0:
			time.Sleep(30 * time.Microsecond)
		case n%h.every == 0:
			runtime.Gosched()
		}
	}
}

type hesitantKV struct {
	h *hesitant
	r verifiable.KeyReader
	w verifiable.KeyWriter
}

func (x *hesitantKV) Get(ctx context.Context, key []byte, v proto.Message) error {
	x.h.pause()
	return x.r.Get(ctx, key, v)
}

func (x *hesitantKV) Set(ctx context.Context, key []byte, v proto.Message) error {
	x.h.pause()
	return x.w.Set(ctx, key, v)
}

func (h *hesitant) ExecuteReadOnly(ctx context.Context, ns []byte, fn func(ctx context.Context, db verifiable.KeyReader) error) error {
	h.pause()
	return h.w.ExecuteReadOnly(ctx, ns, func(ctx context.Context, db verifiable.KeyReader) error {
		return fn(ctx, &hesitantKV{h: h, r: db})
	})
}

func (h *hesitant) ExecuteUpdate(ctx context.Context, ns []byte, fn func(ctx context.Context, db verifiable.KeyWriter) error) error {
	h.pause()
	return h.w.ExecuteUpdate(ctx, ns, func(ctx context.Context, db verifiable.KeyWriter) error {
		defer h.pause()
		return fn(ctx, &hesitantKV{h: h, r: db, w: db})
	})
}

// concOp is one planned update, and what became of it.
type concOp struct {
	obj        int
	leaf       *pb.LeafData
	mut        mapMut
	cas        bool // update with the hash of the value read just before
	pause      int
	ack        []byte
	start, end int64
}

type seenHead struct {
	n     int64
	root  []byte
	asked int64 // when the request was issued
}

type seenValue struct {
	key   []byte
	n     int64
	value *pb.LeafData
}

type concObject struct {
	*object
	mu     sync.Mutex
	heads  []seenHead
	mheads []seenHead // of a map's mutation log
	theads []seenHead // of its tree head log
	values []seenValue
}

func TestC23_Concurrent(t *testing.T) {
	check(t, 3600, 40000, func(t *rapid.T) {
		k := newCase("C23")
		concurrentService(t, k, newBackend(genBackendKind(10).Draw(t, "backend")))
		k.Done()
	})
}

func concurrentService(t *rapid.T, k *kase, b *backend) {
	k.Class("backend=" + b.kind)
	done := false
	batched := pick(t, "batch", 3) == 0
	defer func() {
		if done || !batched { // closing storage under a batch mutator at work would end the process
			b.Destroy()
		}
	}()
	h := &hesitant{w: b.w, every: oneOf[int64](t, "hesitant", 0, 1, 3, 20)}
	var services []server
	if batched {
		k.Class("batch")
		m := (&batch.Mutator{Writer: h, Timeout: oneOf(t, "timeout", 50*time.Microsecond, 500*time.Microsecond, 2*time.Millisecond), BatchSize: oneOf(t, "batchSize", 0, 1, 2, 5, 20), BufferSize: oneOf(t, "buffer", 0, 2, 100)}).MustCreate()
		for i := 1 + pick(t, "services", 2); i > 0; i-- {
			r := &hesitant{w: b.another(), every: h.every}
			services = append(services, newService(r, m, nil))
		}
	} else {
		for i := 1 + pick(t, "services", 3); i > 0; i-- { // several mutators over the same storage
			r := &hesitant{w: b.another(), every: h.every}
			services = append(services, newService(r, &instant.Mutator{Writer: r}, nil))
		}
	}
	direct := services[0]
	switch pick(t, "channel", 8) {
	case 0:
		services = append(services, restClient(direct, nil))
		k.Class("REST")
	case 1:
		services = append(services, grpcClient(direct))
		k.Class("gRPC")
	}
	keys := [][]byte{[]byte("a"), []byte("b"), minedKey(minedPairs[40][0][0]), minedKey(minedPairs[40][0][1]), []byte("counter")}
	var objs []*concObject
	for i, n := 0, 1+pick(t, "objects", 4); i < n; i++ {
		objs = append(objs, &concObject{object: newObject(oneOf(t, "account", "1", "2"), fmt.Sprintf("o%d", i/2), pick(t, "isMap", 2) == 0, keys)})
		for _, o := range objs[:i] {
			if o.String() == objs[i].String() {
				objs[i].name += fmt.Sprint("-", i)
			}
		}
	}
	writers, readers := 2+pick(t, "writers", 7), pick(t, "readers", 5)
	each := 1 + pick(t, "each", 16)
	plan := make([][]concOp, writers)
	for w := range plan {
		for i := 0; i < each; i++ {
			op := concOp{obj: pick(t, "obj", len(objs)), pause: pick(t, "pause", 20)}
			if !objs[op.obj].isMap {
				if x := pick(t, "leaf", 10); x < 5 { // also added by others, with other extra data
					op.leaf = &pb.LeafData{LeafInput: []byte(fmt.Sprintf("shared %d", pick(t, "shared", 8))), ExtraData: []byte(fmt.Sprint("of ", w, i))}
				} else {
					op.leaf = &pb.LeafData{LeafInput: []byte(fmt.Sprintf("entry %d of writer %d", i, w)), ExtraData: []byte(fmt.Sprint("x", i))}
				}
			} else {
				// extra data tells mutations apart; deletions of a key come from one writer only
				key := pick(t, "key", len(keys))
				v := &pb.LeafData{LeafInput: []byte(fmt.Sprintf("value %d", pick(t, "value", 5))), ExtraData: []byte(fmt.Sprint("of ", w, i))}
				if x := pick(t, "unique", 2); x == 0 {
					v.LeafInput = append(v.LeafInput, v.ExtraData...)
				}
				switch x := pick(t, "action", 10); {
				case x < 4:
					op.mut = mapMut{Action: "set", Key: keys[key], Value: v}
				case x < 6 && w < len(keys):
					op.mut = mapMut{Action: "delete", Key: keys[w]}
				case x < 7:
					op.mut = mapMut{Action: "update", Key: keys[key], Value: v, Prev: refLeafHash([]byte("value 1"))}
				default:
					op.mut = mapMut{Action: "update", Key: keys[key], Value: v}
					op.cas = true
				}
			}
			plan[w] = append(plan[w], op)
		}
	}
	seeds := make([]int64, readers)
	for i := range seeds {
		seeds[i] = int64(pick(t, "seed", 1<<30))
	}
	k.Op("%s, %d objects, %d services, batched %v, hesitant %d", b.kind, len(objs), len(services), batched, h.every)
	for w := range plan {
		for _, op := range plan[w] {
			if op.leaf != nil {
				k.Op("%d: %s add %s", w, objs[op.obj], op.leaf.LeafInput)
			} else {
				k.Op("%d: %s %s %v", w, objs[op.obj], op.mut, op.cas)
			}
		}
	}
	shared := map[int]int{}
	for w := range plan {
		mine := map[int]bool{}
		for _, op := range plan[w] {
			mine[op.obj] = true
		}
		for o := range mine {
			if shared[o]++; shared[o] > 1 {
				k.NT("shared-by-writers")
			}
		}
	}
	if readers > 0 {
		k.Class("readers")
	}

	var clock atomic.Int64
	fail := &failures{}
	stop := make(chan bool)
	var ww, rw sync.WaitGroup
	for w := range plan {
		ww.Add(1)
		go func() {
			defer ww.Done()
			fail.guard(func() {
				s := services[w%len(services)]
				for i := range plan[w] {
					op := &plan[w][i]
					o := objs[op.obj]
					if op.pause == 0 {
						time.Sleep(20 * time.Microsecond)
					}
					if op.leaf != nil {
						op.start = clock.Add(1)
						p, err := o.log(s, "").Add(bg, op.leaf)
						noErr(fail, err, "add to %s", o)
						op.end = clock.Add(1)
						eqBytes(fail, p.LeafHash(), refLeafHash(op.leaf.LeafInput), "acknowledged leaf hash")
						op.ack = p.LeafHash()
						continue
					}
					if op.cas {
						v, err := o.vmap(s, "").Get(bg, op.mut.Key, 0)
						noErr(fail, err, "value in %s", o)
						op.mut.Prev = refLeafHash(v.GetValue().GetLeafInput())
					}
					op.start = clock.Add(1)
					p, err := applyMut(o.vmap(s, ""), op.mut)
					noErr(fail, err, "%s in %s", op.mut, o)
					op.end = clock.Add(1)
					op.ack = p.LeafHash()
				}
			})
		}()
	}
	for r := range seeds {
		rw.Add(1)
		go func() {
			defer rw.Done()
			fail.guard(func() {
				rnd := rand.New(rand.NewSource(seeds[r]))
				s := services[rnd.Intn(len(services))]
				prev := make([]*pb.LogTreeHashResponse, len(objs))
				prevMut := make([]*pb.LogTreeHashResponse, len(objs))
				state := make([]*verifiable.MapTreeState, len(objs))
				for round := 0; ; round++ {
					select {
					case <-stop:
						if round > 3 {
							return
						}
					default:
					}
					if round > 2000 {
						return
					}
					progress()
					i := rnd.Intn(len(objs))
					objs[i].read(fail, s, rnd, &clock, &prev[i], &prevMut[i], &state[i])
				}
			})
		}()
	}
	ww.Wait()
	close(stop)
	rw.Wait()
	fail.report(t)

	end := newObject("end", "end", false, nil)
	end.add(t, direct, "", leafFor(0))
	end.awaitSize(t, direct, 1, 20*time.Second)
	done = true
	if b.kind != "mem" && pick(t, "reopen", 2) == 0 {
		b.Reopen()
		direct = instantService(b)
	}
	for i, o := range objs {
		var ops []*concOp
		for w := range plan {
			for j := range plan[w] {
				if plan[w][j].obj == i {
					ops = append(ops, &plan[w][j])
				}
			}
		}
		o.settle(t, direct, ops, !batched)
	}
}

// read makes one drawn observation of the object, and remembers what has to be compared at the end.
func (o *concObject) read(t tb, s server, rnd *rand.Rand, clock *atomic.Int64, prev, prevMut **pb.LogTreeHashResponse, state **verifiable.MapTreeState) {
	t.Helper()
	note := func(l *[]seenHead, n int64, root []byte, asked int64) {
		o.mu.Lock()
		defer o.mu.Unlock()
		*l = append(*l, seenHead{n, root, asked})
	}
	asked := clock.Add(1)
	follow := func(l *verifiable.Log, prev **pb.LogTreeHashResponse, what string) {
		h, err := l.VerifiedLatestTreeHead(bg, *prev)
		noErr(t, err, "latest head of %s of %s after %d", what, o, (*prev).GetTreeSize())
		if h.TreeSize < (*prev).GetTreeSize() {
			t.Fatalf("%s of %s went back from %d to %d", what, o, (*prev).GetTreeSize(), h.TreeSize)
		}
		if h.TreeSize > 0 {
			*prev = h
		}
		if h.TreeSize == 0 || rnd.Intn(3) > 0 {
			return
		}
		// entries at this size are those that the root promises, and proofs verify
		err = l.VerifyEntries(bg, nil, h, nil)
		noErr(t, err, "%s of %s: entries at %d", what, o, h.TreeSize)
		x := rnd.Int63n(h.TreeSize)
		e, err := l.Entry(bg, x)
		noErr(t, err, "%s of %s: entry %d", what, o, x)
		p, err := l.InclusionProof(bg, h.TreeSize, refLeafHash(e.LeafInput))
		noErr(t, err, "%s of %s: inclusion proof of %d at %d", what, o, x, h.TreeSize)
		if p.LeafIndex != x {
			t.Fatalf("%s of %s: entry %d is proved at %d", what, o, x, p.LeafIndex)
		}
		noErr(t, verifiable.VerifyLogInclusionProof(p, refLeafHash(e.LeafInput), h), "%s of %s: inclusion of %d at %d", what, o, x, h.TreeSize)
	}
	if !o.isMap {
		l := o.log(s, "")
		follow(l, prev, "entries")
		if *prev != nil {
			note(&o.heads, (*prev).TreeSize, (*prev).RootHash, asked)
		}
		return
	}
	vm := o.vmap(s, "")
	switch rnd.Intn(4) {
	case 0:
		follow(vm.MutationLog(), prevMut, "mutation log")
		if *prevMut != nil {
			note(&o.mheads, (*prevMut).TreeSize, (*prevMut).RootHash, asked)
		}
	case 1:
		h, err := vm.TreeHead(bg, 0)
		noErr(t, err, "head of %s", o)
		note(&o.heads, h.GetMutationLog().GetTreeSize(), h.RootHash, asked)
		key := o.keys[rnd.Intn(len(o.keys))]
		v, err := vm.Get(bg, key, 0) // whatever the latest size is
		noErr(t, err, "value in %s", o)
		if v.TreeSize < h.GetMutationLog().GetTreeSize() {
			t.Fatalf("%s: value at %d after a head of size %d", o, v.TreeSize, h.GetMutationLog().GetTreeSize())
		}
		o.mu.Lock()
		o.values = append(o.values, seenValue{key, v.TreeSize, v.Value})
		o.mu.Unlock()
	default:
		st, err := vm.VerifiedLatestMapState(bg, *state)
		noErr(t, err, "latest state of %s after %d", o, stateSize(*state))
		if st == nil {
			if *state != nil {
				t.Fatalf("%s: no state after %d", o, stateSize(*state))
			}
			return
		}
		if st.TreeSize() < stateSize(*state) {
			t.Fatalf("%s went back from %d to %d", o, stateSize(*state), st.TreeSize())
		}
		*state = st
		note(&o.heads, st.TreeSize(), st.MapTreeHead.RootHash, asked)
		note(&o.mheads, st.TreeSize(), st.MapTreeHead.MutationLog.RootHash, 0)
		note(&o.theads, st.TreeHeadLogTreeHead.TreeSize, st.TreeHeadLogTreeHead.RootHash, 0)
		key := o.keys[rnd.Intn(len(o.keys))]
		v, err := vm.VerifiedGet(bg, key, st)
		noErr(t, err, "value in %s at %d", o, st.TreeSize())
		o.mu.Lock()
		o.values = append(o.values, seenValue{key, st.TreeSize(), v})
		o.mu.Unlock()
		if rnd.Intn(20) == 0 {
			noErr(t, vm.VerifyMap(bg, nil, st, nil, nil), "audit of %s at %d", o, st.TreeSize())
		}
	}
}

// settle compares the object with its updates, once all were applied: the recorded order is one in which they can have happened.
func (o *concObject) settle(t tb, s server, ops []*concOp, synchronous bool) {
	t.Helper()
	index := make([]int64, len(ops)) // of each update's entry
	if !o.isMap {
		l := o.log(s, "")
		h, err := l.TreeHead(bg, 0)
		noErr(t, err, "head of %s", o)
		got := readLogModel(t, l, h.TreeSize) // checks that no entry is repeated
		want := map[string]bool{}
		for i, op := range ops {
			want[string(op.leaf.LeafInput)] = true
			x, ok := got.index[string(op.leaf.LeafInput)]
			if !ok {
				t.Fatalf("%s: %q was acknowledged and is not there", o, op.leaf.LeafInput)
			}
			index[i] = int64(x)
		}
		for _, e := range got.entries {
			if !want[string(e.LeafInput)] {
				t.Fatalf("%s: entry %q, which nobody added", o, e.LeafInput)
			}
			ok := false
			for i, op := range ops { // the extra data is of somebody who can have been first
				if proto.Equal(op.leaf, e) {
					ok = true
					for j, other := range ops {
						if index[j] == index[i] && other.end < op.start {
							ok = false
						}
					}
				}
				if ok {
					break
				}
			}
			if !ok {
				t.Fatalf("%s: entry %q with extra data %q, which is not of the first who added it", o, e.LeafInput, e.ExtraData)
			}
		}
		o.lm = got
		fullLog(t, o.String(), l, got, 12)
	} else {
		vm := o.vmap(s, "")
		h, err := vm.TreeHead(bg, 0)
		noErr(t, err, "head of %s", o)
		n := h.GetMutationLog().GetTreeSize()
		if n != int64(len(ops)) {
			t.Fatalf("%s has %d mutations, %d were acknowledged", o, n, len(ops))
		}
		ml := readLogModel(t, vm.MutationLog(), n)
		at := map[string]int64{}
		for i, e := range ml.entries {
			at[string(refLeafHash(e.LeafInput))] = int64(i)
		}
		order := make([]*concOp, n)
		for i, op := range ops {
			x, ok := at[string(op.ack)]
			if !ok {
				t.Fatalf("%s: %s was acknowledged as %s and is not there", o, op.mut, short(op.ack))
			}
			if order[x] != nil {
				t.Fatalf("%s: %s and %s were acknowledged as the same entry", o, op.mut, order[x].mut)
			}
			order[x], index[i] = op, x
		}
		acks := [][]byte{}
		for i, op := range order {
			checkMutationEntry(t, ml.entries[i], op.mut, o.String())
			o.mm.Apply(op.mut)
			acks = append(acks, op.ack)
		}
		fullMap(t, o.String(), vm, o.mm, acks, o.keys, 12)
		for _, v := range o.values {
			if v.n > n {
				t.Fatalf("%s: value seen at %d of %d", o, v.n, n)
			}
			want := o.mm.Get(v.key, v.n)
			if want == nil {
				want = &pb.LeafData{}
			}
			eqValue(t, v.value, want, "value of %s in %s seen at %d", short(v.key), o, v.n)
		}
		tl := readLogModel(t, vm.TreeHeadLog(), n)
		for _, h := range o.mheads {
			o.compare(t, "mutation log", h, n, func(x int64) []byte { return ml.tree.Root(x) })
		}
		for _, h := range o.theads {
			o.compare(t, "tree head log", h, n, func(x int64) []byte { return tl.tree.Root(x) })
		}
	}
	for _, h := range o.heads {
		if o.isMap {
			o.compare(t, "map", h, o.mm.Size(), func(x int64) []byte { return o.mm.roots[x] })
		} else {
			o.compare(t, "log", h, o.lm.Size(), func(x int64) []byte { return o.lm.tree.Root(x) })
		}
	}
	// order: what was acknowledged before something else was asked for comes before it
	type moment struct {
		at    int64
		index int64
	}
	var acked []moment
	for i, op := range ops {
		acked = append(acked, moment{op.end, index[i]})
	}
	sort.Slice(acked, func(i, j int) bool { return acked[i].at < acked[j].at })
	before := func(when int64) int64 { // highest index acknowledged before
		rv := int64(-1)
		for _, m := range acked {
			if m.at >= when {
				break
			}
			rv = max(rv, m.index)
		}
		return rv
	}
	many := map[int64]int{}
	for i := range ops {
		many[index[i]]++
	}
	for i, op := range ops {
		if many[index[i]] > 1 {
			continue
		}
		if x := before(op.start); x > index[i] {
			t.Fatalf("%s: update %d was asked for after update %d was acknowledged", o, index[i], x)
		}
	}
	if synchronous {
		for _, l := range [][]seenHead{o.heads, o.mheads} {
			for _, h := range l {
				if x := before(h.asked); x >= h.n {
					t.Fatalf("%s: a head of size %d was given after update %d had been acknowledged", o, h.n, x)
				}
			}
		}
	}
}

func (o *concObject) compare(t tb, what string, h seenHead, n int64, root func(int64) []byte) {
	t.Helper()
	if h.n > n {
		t.Fatalf("%s: %s head of size %d was seen, it has %d", o, what, h.n, n)
	}
	if h.n > 0 && !bytes.Equal(h.root, root(h.n)) {
		t.Fatalf("%s: the %s head seen at size %d is not of its history", o, what, h.n)
	}
}
