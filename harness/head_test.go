package harness

import (
	"bytes"
	"fmt"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"golang.org/x/net/context"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
)

// ---- C26 ----

// behindServer answers requests for the latest heads of user logs and maps as a server that is not entirely
// up to date would: with the head of an earlier size (but never of size 0 when there is more).
type behindServer struct {
	server
	by func() int64
}

func (l *behindServer) LogTreeHash(ctx context.Context, req *pb.LogTreeHashRequest) (*pb.LogTreeHashResponse, error) {
	h, err := l.server.LogTreeHash(ctx, req)
	if by := l.by(); err == nil && req.TreeSize == 0 && h.TreeSize > 1 && by > 0 && req.Log.LogType == pb.LogType_STRUCT_TYPE_LOG {
		req = proto.Clone(req).(*pb.LogTreeHashRequest)
		req.TreeSize = max(1, h.TreeSize-by)
		return l.server.LogTreeHash(ctx, req)
	}
	return h, err
}

func (l *behindServer) MapTreeHash(ctx context.Context, req *pb.MapTreeHashRequest) (*pb.MapTreeHashResponse, error) {
	h, err := l.server.MapTreeHash(ctx, req)
	if n, by := h.GetMutationLog().GetTreeSize(), l.by(); err == nil && req.TreeSize == 0 && n > 1 && by > 0 {
		req = proto.Clone(req).(*pb.MapTreeHashRequest)
		req.TreeSize = max(1, n-by)
		return l.server.MapTreeHash(ctx, req)
	}
	return h, err
}

func cloneState(s *verifiable.MapTreeState) *verifiable.MapTreeState {
	if s == nil {
		return nil
	}
	return &verifiable.MapTreeState{MapTreeHead: proto.Clone(s.MapTreeHead).(*pb.MapTreeHashResponse),
		TreeHeadLogTreeHead: proto.Clone(s.TreeHeadLogTreeHead).(*pb.LogTreeHashResponse)}
}

// patiently fails when fn takes longer than any wait can.
func patiently(t tb, what string, fn func()) {
	t.Helper()
	done := make(chan bool)
	go func() {
		defer close(done)
		fn()
	}()
	for i := 0; i < 450; i++ {
		select {
		case <-done:
			return
		case <-time.After(100 * time.Millisecond):
			progress()
		}
	}
	t.Fatalf("%s is still waiting after 45 seconds", what)
}

type wait struct {
	what string
	leaf *pb.LeafData // of a log, or
	seq  int64        // the mutation that was submitted
	log  verifiable.LogUpdatePromise
	mut  verifiable.MapUpdatePromise
}

// check waits for the promise, which must have been kept by the head that is returned.
func (w *wait) check(t tb, o *object) {
	t.Helper()
	if o.isMap {
		h, err := w.mut.Wait(bg)
		noErr(t, err, "wait for %s", w.what)
		n := h.GetMutationLog().GetTreeSize()
		if n <= w.seq || n > o.mm.Size() {
			t.Fatalf("waiting for %s, which is mutation %d of %d, gave a head of size %d", w.what, w.seq, o.mm.Size(), n)
		}
		eqBytes(t, h.RootHash, o.mm.roots[n], "root of the head of size %d got by waiting for %s", n, w.what)
		return
	}
	h, err := w.log.Wait(bg)
	noErr(t, err, "wait for %s", w.what)
	i := int64(o.lm.index[string(w.leaf.LeafInput)])
	if h.TreeSize <= i || h.TreeSize > o.lm.Size() {
		t.Fatalf("waiting for %s, which is entry %d of %d, gave a head of size %d", w.what, i, o.lm.Size(), h.TreeSize)
	}
	eqBytes(t, h.RootHash, o.lm.tree.Root(h.TreeSize), "root of the head of size %d got by waiting for %s", h.TreeSize, w.what)
}

func TestC26_Following(t *testing.T) {
	check(t, 9000, 100000, func(t *rapid.T) {
		k := newCase("C26")
		b := newBackend(genBackendKind(8).Draw(t, "backend"))
		done := false
		k.Class("backend=" + b.kind)
		batch := pick(t, "batch", 3) == 0
		var s server
		if batch {
			s = batchService(b, oneOf(t, "timeout", 100*time.Microsecond, time.Millisecond, 3*time.Millisecond), oneOf(t, "batchSize", 0, 1, 3, 8), oneOf(t, "buffer", 0, 4, 100))
			k.Class("batch")
		} else {
			s = instantService(b)
		}
		defer func() {
			if done || !batch { // closing storage under a batch mutator at work would end the process
				b.Destroy()
			}
		}()
		direct, rest := s, false
		switch pick(t, "channel", 10) {
		case 0:
			s, rest = restClient(s, nil), true
			k.Class("REST")
		case 1:
			s = grpcClient(s)
			k.Class("gRPC")
		}
		lag := int64(0)
		behind := pick(t, "behind", 4) == 0
		if behind {
			var lags []int64 // drawn up front: how far behind each answer is
			for i := 0; i < 8; i++ {
				lags = append(lags, oneOf[int64](t, "lag", 0, 1, 1, 2, 5, 1000))
			}
			next := 0
			s = &behindServer{server: s, by: func() int64 { next++; lag = lags[next%len(lags)]; return lag }}
			k.NT("behind")
		}
		keys := genKeyPool(6).Draw(t, "pool")
		lo, mo := newObject("1", "l", false, keys), newObject("1", "m", true, keys)
		l, vm := lo.log(s, ""), mo.vmap(s, "")
		lfloor, mfloor := int64(0), int64(0) // sizes known to be reached
		heads := []*pb.LogTreeHashResponse{nil}
		states := []*verifiable.MapTreeState{nil}
		var waits []*wait
		settle := func() {
			lo.awaitSize(t, direct, lo.Size(), 20*time.Second)
			mo.awaitSize(t, direct, mo.Size(), 20*time.Second)
			lfloor, mfloor = lo.Size(), mo.Size()
		}
		okHead := func(what string, h *pb.LogTreeHashResponse, lo2, hi int64) {
			t.Helper()
			if h == nil || h.TreeSize < lo2 || h.TreeSize > hi {
				t.Fatalf("%s: got head %v, want size %d to %d", what, h, lo2, hi)
			}
			if h.TreeSize > 0 {
				eqBytes(t, h.RootHash, lo.lm.tree.Root(h.TreeSize), "%s: root of the head of size %d", what, h.TreeSize)
			}
			heads = append(heads, proto.Clone(h).(*pb.LogTreeHashResponse))
			if !behind {
				lfloor = max(lfloor, h.TreeSize)
			}
		}
		okState := func(what string, st *verifiable.MapTreeState, lo2, hi int64) {
			t.Helper()
			n := st.TreeSize()
			if n < lo2 || n > hi {
				t.Fatalf("%s: got state of size %d, want %d to %d", what, n, lo2, hi)
			}
			eqBytes(t, st.MapTreeHead.RootHash, mo.mm.roots[n], "%s: map root at %d", what, n)
			states = append(states, cloneState(st))
			if !behind {
				mfloor = max(mfloor, n)
			}
		}
		asked := 0
		follow := func(i int) {
			// what is drawn does not depend on how far the batches have got
			scaled := func(what string) func(lo, hi int64) int64 {
				x := int64(pick(t, what, 1<<20))
				return func(lo, hi int64) int64 { return lo + x*(hi-lo+1)>>20 }
			}
			size, index, other, flag := scaled("size"), scaled("index"), scaled("prev"), rapid.Bool().Draw(t, "flag")
			prev, pst := heads[len(heads)-1], states[len(states)-1]
			if pick(t, "last", 2) == 0 {
				prev, pst = heads[other(0, int64(len(heads)-1))], states[other(0, int64(len(states)-1))]
			}
			asked++
			floor := func(f int64) int64 { // of a head that may be behind
				if behind {
					return min(f, 1)
				}
				return f
			}
			switch i {
			case 0:
				what := fmt.Sprintf("latest head after %d", prev.GetTreeSize())
				h, err := l.VerifiedLatestTreeHead(bg, prev)
				noErr(t, err, "%s", what)
				okHead(what, h, max(floor(lfloor), prev.GetTreeSize()), lo.Size())
				if prev != nil && h.TreeSize > prev.TreeSize {
					k.NT("grown")
				}
				k.Op("%s: %d", what, h.TreeSize)
			case 1:
				if lfloor == 0 {
					return
				}
				n := size(1, lfloor)
				what := fmt.Sprintf("head %d after %d", n, prev.GetTreeSize())
				h, err := l.VerifiedTreeHead(bg, prev, n)
				noErr(t, err, "%s", what)
				okHead(what, h, n, n)
				if prev != nil && n < prev.TreeSize {
					k.NT("older")
				}
				k.Op("%s", what)
			case 2:
				if lfloor == 0 {
					return
				}
				n := size(1, lfloor)
				e := lo.lm.entries[index(0, n-1)]
				lh := refLeafHash(e.LeafInput)
				p, err := l.InclusionProof(bg, n, lh)
				noErr(t, err, "inclusion proof at %d", n)
				if flag { // or from elsewhere
					p = &pb.LogInclusionProofResponse{TreeSize: n, LeafIndex: p.LeafIndex, AuditPath: lo.lm.tree.Path(p.LeafIndex, n)}
				}
				what := fmt.Sprintf("proof for %d at %d supplied after %d", p.LeafIndex, n, prev.GetTreeSize())
				h, err := l.VerifySuppliedInclusionProof(bg, prev, p, lh)
				noErr(t, err, "%s", what)
				okHead(what, h, n, n)
				k.NT("supplied")
				k.Op("%s", what)
			case 3:
				what := fmt.Sprintf("latest state after %d", stateSize(pst))
				st, err := vm.VerifiedLatestMapState(bg, pst)
				noErr(t, err, "%s", what)
				k.Op("%s", what)
				if st == nil {
					if pst != nil || floor(mfloor) > 0 {
						t.Fatalf("%s: no state, but %d mutations were applied", what, mfloor)
					}
					return
				}
				if pst != nil && st.TreeSize() > pst.TreeSize() {
					k.NT("grown")
				}
				okState(what, st, max(floor(mfloor), stateSize(pst)), mo.Size())
			case 4:
				if mfloor == 0 {
					return
				}
				n := size(1, mfloor)
				what := fmt.Sprintf("state %d after %d", n, stateSize(pst))
				st, err := vm.VerifiedMapState(bg, pst, n)
				noErr(t, err, "%s", what)
				if st == nil {
					t.Fatalf("%s: no state", what)
				}
				okState(what, st, n, n)
				if pst != nil && n < pst.TreeSize() {
					k.NT("older")
				}
				k.Op("%s", what)
			case 5: // a value from any state
				if pst == nil || (rest && len(keys[index(0, int64(len(keys)-1))]) == 0) { // REST cannot name the empty key
					return
				}
				key := keys[index(0, int64(len(keys)-1))]
				v, err := vm.VerifiedGet(bg, key, pst)
				noErr(t, err, "verified get of %s at %d", short(key), pst.TreeSize())
				want := mo.mm.Get(key, pst.TreeSize())
				if want == nil {
					want = &pb.LeafData{}
				}
				eqValue(t, v, want, "verified get of %s at %d", short(key), pst.TreeSize())
			case 6: // wait for what is known to be there: no sleep
				if behind {
					return
				}
				if flag {
					n := size(-1, mfloor)
					var h *pb.MapTreeHashResponse
					var err error
					patiently(t, fmt.Sprintf("block until size %d of %d", n, mfloor), func() { h, err = vm.BlockUntilSize(bg, n) })
					noErr(t, err, "block until size %d", n)
					m := h.GetMutationLog().GetTreeSize()
					if m < max(n, mfloor) || m > mo.Size() {
						t.Fatalf("block until size %d gave %d, %d applied and %d accepted", n, m, mfloor, mo.Size())
					}
					eqBytes(t, h.RootHash, mo.mm.roots[m], "root of the head of size %d", m)
					return
				}
				if len(waits) == 0 {
					return
				}
				settle()
				w := waits[index(0, int64(len(waits)-1))]
				patiently(t, w.what, func() {
					fail := &failures{}
					fail.guard(func() { w.check(fail, map[bool]*object{true: mo, false: lo}[w.mut != nil]) })
					if fail.msg != "" {
						w.what += ": " + fail.msg
						w.seq = -1
					}
				})
				if w.seq < 0 {
					t.Fatalf("%s", w.what)
				}
				k.NT("waited")
				k.Op("wait for %s", w.what)
			}
		}
		for i := 3 + pick(t, "steps", 14); i > 0; i-- {
			n := oneOf(t, "burst", 1, 1, 1, 2, 3, 5, 9)
			if pick(t, "big", 12) == 0 {
				n += 30
			}
			for ; n > 0; n-- {
				if rapid.Bool().Draw(t, "map") {
					mu := genMut(t, k, mo.mm, keys)
					p, err := applyMut(mo.vmap(direct, ""), mu)
					noErr(t, err, "%s", mu)
					waits = append(waits, &wait{what: mu.String(), mut: p, seq: mo.mm.Size()})
					mo.mm.Apply(mu)
					k.Op("%s", mu)
				} else {
					lf := leafFor(pick(t, "n", 30))
					p, err := l.Add(bg, lf)
					noErr(t, err, "add")
					lo.lm.Add(lf)
					waits = append(waits, &wait{what: short(lf.LeafInput), log: p, leaf: lf})
					k.Op("add %s", short(lf.LeafInput))
				}
				if !batch {
					lfloor, mfloor = lo.Size(), mo.Size()
				}
				if pick(t, "now", 4) == 0 {
					follow(pick(t, "what", 7))
				}
			}
			for j := pick(t, "follows", 6); j > 0; j-- {
				follow(pick(t, "what", 7))
			}
		}
		end := newObject("end", "end", false, nil) // even what changes nothing is applied by now
		end.add(t, direct, "", leafFor(0))
		end.awaitSize(t, direct, 1, 20*time.Second)
		settle()
		done = true
		// states' tree heads logs
		ml, tl := readLogModel(t, mo.vmap(direct, "").MutationLog(), mo.Size()), readLogModel(t, mo.vmap(direct, "").TreeHeadLog(), mo.Size())
		for _, st := range states {
			if st == nil {
				continue
			}
			mh, th := st.MapTreeHead.MutationLog, st.TreeHeadLogTreeHead
			eqBytes(t, mh.RootHash, ml.tree.Root(mh.TreeSize), "mutation log root in the state of size %d", mh.TreeSize)
			if th.TreeSize < 1 || th.TreeSize > tl.Size() {
				t.Fatalf("state of size %d with a tree head log of size %d of %d", mh.TreeSize, th.TreeSize, tl.Size())
			}
			eqBytes(t, th.RootHash, tl.tree.Root(th.TreeSize), "tree head log root at %d in the state of size %d", th.TreeSize, mh.TreeSize)
			found := false
			for i := mh.TreeSize - 1; i >= 0 && i < th.TreeSize; i++ {
				h := decodeJSON[jsonMapHead](t, tl.entries[i].ExtraData, "tree head")
				if h.MutationLog.TreeSize == mh.TreeSize {
					found = bytes.Equal(h.RootHash, st.MapTreeHead.RootHash) && bytes.Equal(h.MutationLog.RootHash, mh.RootHash)
					break
				}
				if h.MutationLog.TreeSize > mh.TreeSize {
					break
				}
			}
			if !found {
				t.Fatalf("state of size %d is not in its tree head log of size %d", mh.TreeSize, th.TreeSize)
			}
		}
		// from any earlier head one gets to the last one
		for i, h := range heads {
			if i%max(1, len(heads)/8) == 0 {
				h2, err := l.VerifiedLatestTreeHead(bg, h)
				noErr(t, err, "last head after %d", h.GetTreeSize())
				okHead("last head", h2, max(h.GetTreeSize(), min(1, lfloor)), lfloor)
			}
		}
		for i, st := range states {
			if i%max(1, len(states)/8) == 0 && mfloor > 0 {
				st2, err := vm.VerifiedLatestMapState(bg, st)
				noErr(t, err, "last state after %d", stateSize(st))
				okState("last state", st2, max(stateSize(st), 1), mfloor)
			}
		}
		k.Done()
	})
}

func stateSize(s *verifiable.MapTreeState) int64 {
	if s == nil {
		return 0
	}
	return s.TreeSize()
}

// Waits that have to sleep: many at a time, each on objects of its own.
func TestC26_Waits(t *testing.T) {
	check(t, 24, 300, func(t *rapid.T) {
		k := newCase("C26")
		k.NT("sleeping")
		type plan struct {
			kind    string
			before  int // updates before
			after   int // updates that come while waiting, before the one awaited
			pause   time.Duration
			behind  []int64
			batch   bool
			isMap   bool
			channel int
		}
		var plans []plan
		for i := 0; i < 60; i++ {
			p := plan{kind: oneOf(t, "kind", "promise", "promise", "present", "size", "given-up"), before: pick(t, "before", 4), after: pick(t, "after", 3), pause: time.Duration(pick(t, "pause", 400)) * time.Millisecond,
				batch: rapid.Bool().Draw(t, "batch"), isMap: rapid.Bool().Draw(t, "map"), channel: pick(t, "channel", 8)}
			if p.kind != "promise" { // a mutation's leaf hash is not known before it is acknowledged
				p.isMap = p.kind == "size" || p.kind == "given-up" && p.isMap
			}
			if !p.batch && p.kind == "promise" {
				for j := pick(t, "lags", 3); j > 0; j-- {
					p.behind = append(p.behind, oneOf[int64](t, "lag", 1, 2, 3))
				}
			}
			plans = append(plans, p)
			k.Op("%s before %d, after %d, every %s, batch %v, map %v, behind %v, channel %d", p.kind, p.before, p.after, p.pause, p.batch, p.isMap, p.behind, p.channel)
		}
		fail := &failures{}
		patiently(t, "a wait", func() {
			var wg sync.WaitGroup
			for _, p := range plans {
				wg.Add(1)
				go func() {
					defer wg.Done()
					fail.guard(func() {
						b := newBackend("mem")
						var s server
						if p.batch {
							s = batchService(b, max(time.Millisecond, p.pause), 0, 100)
						} else {
							s = instantService(b)
						}
						direct := s
						if p.channel == 0 {
							s = restClient(s, nil)
						}
						var next atomic.Int64
						s = &behindServer{server: s, by: func() int64 {
							if n := next.Add(1); n <= int64(len(p.behind)) {
								return p.behind[n-1]
							}
							return 0
						}}
						keys := [][]byte{[]byte("a"), []byte("b")}
						o := newObject("1", "o", p.isMap, keys)
						update := func(i int) *wait {
							w := &wait{what: fmt.Sprintf("update %d (%+v)", i, p), seq: o.Size()}
							var err error
							if p.isMap {
								mu := mapMut{Action: "set", Key: keys[i%2], Value: leafFor(i)}
								if i%5 == 4 {
									mu = mapMut{Action: "delete", Key: keys[i%2]}
								}
								w.mut, err = applyMut(o.vmap(s, ""), mu)
								o.mm.Apply(mu)
							} else {
								w.leaf = leafFor(i)
								w.log, err = o.log(s, "").Add(bg, w.leaf)
								o.lm.Add(w.leaf)
							}
							noErr(fail, err, "update %d", i)
							return w
						}
						for i := 0; i < p.before; i++ {
							update(i)
						}
						if p.kind == "promise" {
							w := update(p.before)
							next.Store(0)
							w.check(fail, o)
							return
						}
						if p.kind == "given-up" { // what is waited for never comes
							ctx, cancel := context.WithCancel(bg)
							if p.after == 0 {
								ctx, cancel = context.WithTimeout(bg, p.pause*5)
							} else {
								time.AfterFunc(p.pause*5, cancel)
							}
							defer cancel()
							var err error
							if p.isMap {
								_, err = o.vmap(s, "").BlockUntilSize(ctx, int64(p.before)+1)
							} else {
								_, err = o.log(s, "").BlockUntilPresent(ctx, refLeafHash(leafFor(p.before).LeafInput))
							}
							if err == nil || ctx.Err() == nil {
								fail.Fatalf("waiting for entry %d of %d, until the context ended (%v): %v", p.before, p.before, ctx.Err(), err)
							}
							return
						}
						// the update comes while somebody waits
						final := p.before + p.after + 1
						target := leafFor(final - 1)
						model := newObject("1", "o", p.isMap, keys) // for the waiter
						for i := 0; i < final; i++ {
							model.lm.Add(leafFor(i))
						}
						var wg sync.WaitGroup
						wg.Add(1)
						go func() {
							defer wg.Done()
							fail.guard(func() {
								for i := p.before; i < final; i++ {
									time.Sleep(p.pause)
									update(i)
								}
							})
						}()
						fail.guard(func() {
							switch {
							case p.kind == "size":
								h, err := model.vmap(s, "").BlockUntilSize(bg, int64(final))
								noErr(fail, err, "block until size %d", final)
								if h.GetMutationLog().GetTreeSize() != int64(final) {
									fail.Fatalf("block until size %d gave %v", final, h)
								}
								d, err := model.vmap(direct, "").TreeHead(bg, int64(final))
								noErr(fail, err, "head %d", final)
								eqBytes(fail, h.RootHash, d.RootHash, "root at size %d", final)
							default:
								h, err := model.log(s, "").BlockUntilPresent(bg, refLeafHash(target.LeafInput))
								noErr(fail, err, "block until present")
								if h.TreeSize != int64(final) {
									fail.Fatalf("waited for entry %d, got a head of size %d", final-1, h.TreeSize)
								}
								eqBytes(fail, h.RootHash, model.lm.tree.Root(h.TreeSize), "root at size %d", h.TreeSize)
							}
						})
						wg.Wait()
					})
				}()
			}
			wg.Wait()
		})
		fail.report(t)
		k.Done()
	})
}
