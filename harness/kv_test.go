package harness

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"sort"
	"sync"
	"testing"

	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
)

// ---- C16 ----

// kvWorld is a backend with the model of its committed contents.
type kvWorld struct {
	b    *backend
	data map[string]map[string]*pb.LeafData
}

func (w *kvWorld) ns(n []byte) map[string]*pb.LeafData {
	m := w.data[string(n)]
	if m == nil {
		m = map[string]*pb.LeafData{}
		w.data[string(n)] = m
	}
	return m
}

func checkKV(t tb, db verifiable.KeyReader, key []byte, want *pb.LeafData, what string) {
	t.Helper()
	got := &pb.LeafData{LeafInput: []byte("stale"), ExtraData: []byte("stale"), Format: pb.DataFormat_JSON}
	err := db.Get(bg, append([]byte{}, key...), got)
	if want == nil {
		if err != verifiable.ErrNoSuchKey {
			t.Fatalf("%s: get of absent key %s: %v (%v)", what, short(key), err, got)
		}
		return
	}
	noErr(t, err, "%s: get %s", what, short(key))
	if !proto.Equal(got, want) {
		t.Fatalf("%s: get %s: %v want %v", what, short(key), got, want)
	}
	for i := range got.LeafInput { // what was read is the reader's own
		got.LeafInput[i] ^= 0x55
	}
}

// kvKeys are keys that are prefixes and neighbours of each other.
func genKVKeys(t *rapid.T) [][]byte {
	rv := [][]byte{[]byte("a"), []byte("ab"), []byte("a\x00"), []byte("b")}
	for i := pick(t, "morekeys", 5); i > 0; i-- {
		k := genBytes(false).Draw(t, "key")
		if len(k) > 0 {
			rv = append(rv, k)
		}
		if rapid.Bool().Draw(t, "extend") {
			rv = append(rv, append(append([]byte{}, rv[pick(t, "base", len(rv))]...), byte(pick(t, "byte", 3))))
		}
	}
	return rv
}

var errTxn = errors.New("the update gives up")

func TestC16_Transactions(t *testing.T) {
	check(t, 6000, 80000, func(t *rapid.T) {
		k := newCase("C16")
		w := &kvWorld{b: newBackend(genBackendKind(30).Draw(t, "backend")), data: map[string]map[string]*pb.LeafData{}}
		defer func() { w.b.Destroy() }()
		k.Class("backend=" + w.b.kind)
		nss := [][]byte{refLeafHash([]byte("ns")), {0xab}, {0xab, 0}, {0xba}, refLeafHash([]byte("ns2"))}
		nss = nss[:1+pick(t, "namespaces", len(nss))]
		if w.b.kind == "badger" {
			nss = nss[:min(len(nss), 2)]
		}
		keys := genKVKeys(t)
		serial := 0
		for steps := 3 + pick(t, "steps", 25); steps > 0; steps-- {
			ns := nss[pick(t, "ns", len(nss))]
			committed := w.ns(ns)
			switch pick(t, "txn", 6) {
			case 0, 1: // read-only
				n := 1 + pick(t, "reads", 6)
				ks := make([][]byte, n)
				for i := range ks {
					ks[i] = keys[pick(t, "key", len(keys))]
				}
				ret := error(nil)
				if pick(t, "err", 4) == 0 {
					ret = errTxn
				}
				called := false
				err := w.b.w.ExecuteReadOnly(bg, append([]byte{}, ns...), func(ctx context.Context, db verifiable.KeyReader) error {
					called = true
					for _, key := range ks {
						checkKV(t, db, key, committed[string(key)], "read-only transaction")
					}
					return ret
				})
				if err != ret || !called {
					t.Fatalf("read-only transaction returned %v, its function %v", err, ret)
				}
				k.Op("read %x %d", ns[:1], n)
			case 5:
				if w.b.kind != "mem" && pick(t, "reopen", 3) == 0 {
					w.b.Reopen()
					k.Op("reopen")
					k.NT("reopen")
				}
			default: // update
				var pending map[string]*pb.LeafData
				type kvop struct {
					kind string
					key  []byte
					val  *pb.LeafData
				}
				var ops []kvop
				for i := 1 + pick(t, "ops", 8); i > 0; i-- {
					o := kvop{kind: oneOf(t, "op", "get", "set", "set", "delete"), key: keys[pick(t, "key", len(keys))]}
					if o.kind == "set" {
						serial++
						switch pick(t, "value", 4) {
						case 0:
							o.val = &pb.LeafData{} // encodes to nothing, yet is a value
							k.Class("empty-value")
						case 1:
							o.val = genLeaf(true, true).Draw(t, "leaf")
						default:
							o.val = &pb.LeafData{LeafInput: []byte(fmt.Sprintf("value %d", serial))}
						}
					}
					ops = append(ops, o)
				}
				var ret error
				if w.b.kind != "mem" && pick(t, "fail", 3) == 0 {
					ret = errTxn
				}
				called := 0
				err := w.b.w.ExecuteUpdate(bg, append([]byte{}, ns...), func(ctx context.Context, db verifiable.KeyWriter) error {
					called++ // (a backend may run it again if it has to)
					pending = map[string]*pb.LeafData{}
					for kk, v := range committed {
						pending[kk] = v
					}
					for _, o := range ops {
						switch o.kind {
						case "get":
							checkKV(t, db, o.key, pending[string(o.key)], "update transaction")
						case "delete":
							noErr(t, db.Set(ctx, append([]byte{}, o.key...), nil), "delete %s", short(o.key))
							delete(pending, string(o.key))
						case "set":
							v := cloneLeaf(o.val)
							kk := append([]byte{}, o.key...)
							noErr(t, db.Set(ctx, kk, v), "set %s", short(o.key))
							v.LeafInput = append(v.LeafInput, "changed after Set"...) // the message is the caller's again
							pending[string(o.key)] = o.val
							checkKV(t, db, o.key, o.val, "own write")
						}
					}
					return ret
				})
				if err != ret || called == 0 {
					t.Fatalf("update returned %v after %d calls, its function %v", err, called, ret)
				}
				if ret == nil {
					w.data[string(ns)] = pending
					k.NT("committed")
				} else {
					k.NT("rolled-back")
				}
				k.Op("update %x %d ops, returns %v", ns[:1], len(ops), ret)
			}
		}
		for _, ns := range nss { // finally everything, everywhere
			noErr(t, w.b.w.ExecuteReadOnly(bg, ns, func(ctx context.Context, db verifiable.KeyReader) error {
				for _, key := range keys {
					checkKV(t, db, key, w.ns(ns)[string(key)], "finally")
				}
				return nil
			}), "read")
		}
		k.Done()
	})
}

// TestC16_Concurrent: updates of one namespace from many goroutines are applied one after another, and
// readers see committed states only.
func TestC16_Concurrent(t *testing.T) {
	check(t, 800, 8000, func(t *rapid.T) {
		k := newCase("C16")
		b := newBackend(oneOf(t, "backend", "mem", "mem", "bolt", "bolt", "badger"))
		defer b.Destroy()
		concurrentKV(t, k, b)
		k.Done()
	})
}

func concurrentKV(t *rapid.T, k *kase, b *backend) {
	k.Class("backend=" + b.kind)
	writers, each := 2+pick(t, "writers", 5), 2+pick(t, "each", 10)
	readers := pick(t, "readers", 3)
	var ws []verifiable.StorageWriter
	for i := b.ways(t); i > 0; i-- {
		ws = append(ws, b.another())
	}
	nNS := 1 + pick(t, "namespaces", 2)
	k.Op("concurrent %s writers=%d each=%d readers=%d ns=%d", b.kind, writers, each, readers, nNS)
	k.NT("concurrent")
	failures := make([][]bool, writers) // which updates give up
	for i := range failures {
		for j := 0; j < each; j++ {
			f := b.kind != "mem" && pick(t, "fail", 5) == 0
			failures[i] = append(failures[i], f)
			k.Op("%v", f)
		}
	}
	ns := func(i int) []byte { return refLeafHash([]byte{byte(i % nNS)}) }
	size := func(ctx context.Context, db verifiable.KeyReader, key string) (int64, error) {
		var o pb.ObjectSize
		err := db.Get(ctx, []byte(key), &o)
		if err == verifiable.ErrNoSuchKey {
			return 0, nil
		}
		return o.Size, err
	}
	var mu sync.Mutex
	var problem error
	report := func(format string, a ...any) {
		mu.Lock()
		if problem == nil {
			problem = fmt.Errorf(format, a...)
		}
		mu.Unlock()
	}
	seen := map[string][]int{} // per namespace: the counter values that updates saw
	var ww, rw sync.WaitGroup
	stop := make(chan struct{})
	want := map[string]int64{}
	for i := 0; i < writers; i++ {
		for j := 0; j < each; j++ {
			if !failures[i][j] {
				want[string(ns(i+j))]++
			}
		}
		ww.Add(1)
		go func() {
			defer ww.Done()
			for j := 0; j < each; j++ {
				n := ns(i + j)
				var saw int64
				var ret error
				if failures[i][j] {
					ret = errTxn
				}
				err := ws[i%len(ws)].ExecuteUpdate(bg, n, func(ctx context.Context, db verifiable.KeyWriter) error {
					x, err := size(ctx, db, "x")
					if err != nil {
						return err
					}
					saw = x
					if err := db.Set(ctx, []byte("x"), &pb.ObjectSize{Size: x + 1}); err != nil {
						return err
					}
					if err := db.Set(ctx, []byte(fmt.Sprintf("by-%d-%d", i, j)), &pb.ObjectSize{Size: x + 1}); err != nil {
						return err
					}
					if err := db.Set(ctx, []byte("y"), &pb.ObjectSize{Size: x + 1}); err != nil {
						return err
					}
					return ret
				})
				if err != ret {
					report("update by writer %d returned %v, its function %v", i, err, ret)
					return
				}
				if ret == nil {
					mu.Lock()
					seen[string(n)] = append(seen[string(n)], int(saw))
					mu.Unlock()
				}
			}
		}()
	}
	for i := 0; i < readers; i++ {
		rw.Add(1)
		go func() {
			defer rw.Done()
			last := map[string]int64{}
			for {
				select {
				case <-stop:
					return
				default:
				}
				for m := 0; m < nNS; m++ {
					err := ws[i%len(ws)].ExecuteReadOnly(bg, ns(m), func(ctx context.Context, db verifiable.KeyReader) error {
						x, err := size(ctx, db, "x")
						if err != nil {
							return err
						}
						y, err := size(ctx, db, "y")
						if err != nil {
							return err
						}
						x2, err := size(ctx, db, "x")
						if err != nil {
							return err
						}
						if x != y || x != x2 {
							report("a reader saw half an update: %d %d %d", x, y, x2)
						}
						if x < last[string(ns(m))] {
							report("a reader went back from %d to %d", last[string(ns(m))], x)
						}
						last[string(ns(m))] = x
						return nil
					})
					if err != nil {
						report("read: %v", err)
					}
				}
			}
		}()
	}
	ww.Wait()
	close(stop)
	rw.Wait()
	if problem != nil {
		t.Fatalf("%s: %v", b.kind, problem)
	}
	for m := 0; m < nNS; m++ {
		noErr(t, b.w.ExecuteReadOnly(bg, ns(m), func(ctx context.Context, db verifiable.KeyReader) error {
			x, err := size(ctx, db, "x")
			noErr(t, err, "read")
			if x != want[string(ns(m))] {
				t.Fatalf("%s: %d updates committed, the counter is %d", b.kind, want[string(ns(m))], x)
			}
			s := seen[string(ns(m))]
			sort.Ints(s)
			for i, v := range s {
				if v != i {
					t.Fatalf("%s: updates did not see each other: %v", b.kind, s)
				}
			}
			for i := 0; i < writers; i++ {
				for j := 0; j < each; j++ {
					if !bytes.Equal(ns(i+j), ns(m)) {
						continue
					}
					v, err := size(ctx, db, fmt.Sprintf("by-%d-%d", i, j))
					noErr(t, err, "read")
					if (v == 0) != failures[i][j] {
						t.Fatalf("%s: update %d of writer %d (gives up: %v) left %d", b.kind, j, i, failures[i][j], v)
					}
				}
			}
			return nil
		}), "read")
	}
}

// TestC16_FailedRead: a read that the backend cannot answer is an error, it does not make a key look absent.
func TestC16_FailedRead(t *testing.T) {
	check(t, 40, 200, func(t *rapid.T) {
		k := newCase("C16")
		b := newBackend("badger")
		defer b.Destroy()
		keys := genKVKeys(t)
		key := keys[pick(t, "key", len(keys))]
		noErr(t, b.w.ExecuteUpdate(bg, []byte("ns"), func(ctx context.Context, db verifiable.KeyWriter) error {
			return db.Set(ctx, key, &pb.ObjectSize{Size: 1})
		}), "set")
		var late verifiable.KeyReader
		noErr(t, b.w.ExecuteReadOnly(bg, []byte("ns"), func(ctx context.Context, db verifiable.KeyReader) error {
			late = db
			return nil
		}), "read")
		var o pb.ObjectSize // the transaction is over, so Badger refuses this
		if err := late.Get(bg, key, &o); err == verifiable.ErrNoSuchKey {
			t.Fatalf("a read that Badger refused says that key %s is absent", short(key))
		}
		k.Op("failed read of %s", short(key))
		k.NT("failed-read")
		k.Done()
	})
}
