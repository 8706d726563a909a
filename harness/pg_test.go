package harness

import (
	"context"
	"fmt"
	"os"
	"reflect"
	"sync"
	"testing"
	"time"

	"github.com/continusec/verifiabledatastructures/mutator/instant"
	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/storage/postgres"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"github.com/jackc/pgx/v5/pgxpool"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
)

// ---- C28: the PostgreSQL backend, over a stand-in for the server ----

// Open gives a storage object with a connection (or pool, should it take one) of its own.
func (d *pgDB) Open() verifiable.StorageWriter {
	conf, err := pgxpool.ParseConfig("postgres://user@pretended:5432/db?sslmode=disable&pool_max_conns=6")
	if err != nil {
		panic(err)
	}
	conf.ConnConfig.DialFunc = d.Dial
	conf.ConnConfig.LookupFunc = func(ctx context.Context, host string) ([]string, error) { return []string{host}, nil }
	pool, err := pgxpool.NewWithConfig(context.Background(), conf)
	if err != nil {
		panic(err)
	}
	s := &postgres.Storage{}
	f := reflect.ValueOf(s).Elem().FieldByName("Pool")
	switch {
	case f.Kind() == reflect.Invalid:
		fmt.Println("VH-HARNESS-ERROR the PostgreSQL storage has no field Pool")
		os.Exit(8)
	case f.Type() == reflect.TypeOf(&pgxpool.Conn{}):
		c, err := pool.Acquire(context.Background())
		if err != nil {
			panic(err)
		}
		f.Set(reflect.ValueOf(c))
		d.onClose(func() { c.Release(); pool.Close() })
	default:
		f.Set(reflect.ValueOf(pool))
		d.onClose(pool.Close)
	}
	return s
}

// settled waits until no transaction is open on the server.
func (d *pgDB) settled(t tb, what string) {
	for i := 0; d.busy() > 0; i++ {
		if i > 5000 {
			t.Fatalf("%s: a transaction is still open", what)
		}
		time.Sleep(time.Millisecond)
	}
}

// fault makes the n-th statement from now fail (0: none); it returns the one that did so far.
func (d *pgDB) fault(n int, kind string) string {
	d.mu.Lock()
	defer d.mu.Unlock()
	f := d.fired
	d.arm, d.armKind, d.fired = n, kind, ""
	return f
}

// pgKnown finds out whether the stand-in knows the SQL that the storage uses.
var pgKnown = sync.OnceValue(func() bool {
	d := newPGDB()
	defer d.Close()
	s := d.Open()
	for _, ret := range []error{nil, errTxn, nil} {
		_ = s.ExecuteUpdate(bg, []byte("probe"), func(ctx context.Context, db verifiable.KeyWriter) error {
			var x pb.ObjectSize
			_ = db.Get(ctx, []byte("a"), &x)
			_ = db.Set(ctx, []byte("a"), &pb.ObjectSize{Size: 1})
			_ = db.Set(ctx, []byte("a"), &pb.ObjectSize{Size: 2})
			_ = db.Get(ctx, []byte("a"), &x)
			_ = db.Set(ctx, []byte("b"), nil)
			return ret
		})
		_ = s.ExecuteReadOnly(bg, []byte("probe"), func(ctx context.Context, db verifiable.KeyReader) error {
			var x pb.ObjectSize
			return db.Get(ctx, []byte("a"), &x)
		})
	}
	if u := d.Unknown(); u != "" {
		fmt.Printf("INCONCLUSIVE: the stand-in for PostgreSQL does not know what the storage sends: %s\n", u)
		return false
	}
	return true
})

func checkPG(t *testing.T, quick, deep int, prop func(t *rapid.T)) {
	if !pgKnown() {
		return
	}
	check(t, quick, deep, prop)
}

// TestC28_Transactions: sequences of transactions through several storage objects over one database, with
// statements that fail and connections that drop, against a model of what is committed.
func TestC28_Transactions(t *testing.T) {
	checkPG(t, 2400, 60000, func(t *rapid.T) {
		k := newCase("C28")
		d := newPGDB()
		defer d.Close()
		data := map[string]map[string]*pb.LeafData{}
		contents := func(ns []byte) map[string]*pb.LeafData {
			if data[string(ns)] == nil {
				data[string(ns)] = map[string]*pb.LeafData{}
			}
			return data[string(ns)]
		}
		var ws []verifiable.StorageWriter
		for i := 1 + pick(t, "stores", 3); i > 0; i-- {
			ws = append(ws, d.Open())
		}
		nss := [][]byte{refLeafHash([]byte("ns")), {0xab}, {0xab, 0}, {0xba}}
		if pick(t, "alike", 3) == 0 { // namespaces whose hashes begin alike
			p := minedPairs[oneOf(t, "bits", 8, 16, 24, 32, 40, 48)]
			q := p[pick(t, "pair", len(p))]
			nss[0], nss[1] = minedKey(q[0]), minedKey(q[1])
		}
		nss = nss[:1+pick(t, "namespaces", len(nss))]
		keys := genKVKeys(t)
		serial := 0
		type kvop struct {
			kind string
			key  []byte
			val  *pb.LeafData
		}
		for steps := 3 + pick(t, "steps", 16); steps > 0; steps-- {
			ns := nss[pick(t, "ns", len(nss))]
			at := pick(t, "store", len(ws))
			committed := contents(ns)
			kind, arm := "", 0
			if pick(t, "fault", 3) == 0 {
				kind, arm = oneOf(t, "faultkind", "error", "error", "drop", "dropafter"), 1+pick(t, "arm", 12)
			}
			var ops []kvop
			update := pick(t, "update", 3) > 0
			for i := 1 + pick(t, "ops", 7); i > 0; i-- {
				o := kvop{kind: "get", key: keys[pick(t, "key", len(keys))]}
				if update {
					o.kind = oneOf(t, "op", "get", "set", "set", "delete")
				}
				if o.kind == "set" {
					serial++
					o.val = oneOf(t, "value", &pb.LeafData{}, &pb.LeafData{LeafInput: []byte(fmt.Sprintf("value %d", serial))}, &pb.LeafData{ExtraData: []byte{0, 0xff, byte(serial)}})
				}
				ops = append(ops, o)
			}
			var ret error
			if pick(t, "fail", 4) == 0 {
				ret = errTxn
			}
			swallow := kind != "" && rapid.Bool().Draw(t, "swallow") // the function carries on after errors
			k.Op("store %d ns %x update %v, %d ops, returns %v, fault %q at %d", at, ns[:1], update, len(ops), ret, kind, arm)
			var pending map[string]*pb.LeafData
			faulted := false // the function saw an error that it did not expect
			body := func(ctx context.Context, db verifiable.KeyReader, w verifiable.KeyWriter) error {
				faulted = false
				pending = map[string]*pb.LeafData{}
				for kk, v := range committed {
					pending[kk] = v
				}
				for _, o := range ops {
					var err error
					switch o.kind {
					case "get":
						want := pending[string(o.key)]
						got := &pb.LeafData{LeafInput: []byte("stale"), ExtraData: []byte("stale"), Format: pb.DataFormat_JSON}
						err = db.Get(ctx, append([]byte{}, o.key...), got)
						switch {
						case err == nil && !proto.Equal(got, want):
							t.Fatalf("get %s: %v, want %v", short(o.key), got, want)
						case err == verifiable.ErrNoSuchKey && want != nil:
							t.Fatalf("get %s: no such key, want %v", short(o.key), want)
						case err == verifiable.ErrNoSuchKey:
							err = nil
						case err == nil && want == nil:
							t.Fatalf("get of absent key %s: %v", short(o.key), got)
						}
					case "set":
						v := cloneLeaf(o.val)
						kk := append([]byte{}, o.key...)
						err = w.Set(ctx, kk, v)
						v.LeafInput = append(v.LeafInput, "changed after Set"...)
						kk[0] ^= 1
						pending[string(o.key)] = o.val
					case "delete":
						err = w.Set(ctx, append([]byte{}, o.key...), nil)
						delete(pending, string(o.key))
					}
					if err != nil {
						if kind == "" {
							t.Fatalf("%s %s: %v", o.kind, short(o.key), err)
						}
						faulted = true
						if !swallow {
							return err
						}
					}
				}
				return ret
			}
			called := 0
			d.fault(arm, kind)
			var err error
			if update {
				err = ws[at].ExecuteUpdate(bg, append([]byte{}, ns...), func(ctx context.Context, db verifiable.KeyWriter) error {
					called++
					return body(ctx, db, db)
				})
			} else {
				err = ws[at].ExecuteReadOnly(bg, append([]byte{}, ns...), func(ctx context.Context, db verifiable.KeyReader) error {
					called++
					return body(ctx, db, nil)
				})
			}
			fired := d.fault(0, "")
			switch {
			case fired == "" && (err != ret || called == 0):
				t.Fatalf("a transaction (update: %v) returned %v after %d calls, its function %v", update, err, called, ret)
			case fired == "" && update && ret == nil:
				data[string(ns)] = pending
				k.NT("committed")
			case fired == "" && update:
				k.NT("rolled-back")
			case fired == "":
				k.Class("read")
			case err == nil && (called == 0 || faulted && update || ret != nil):
				t.Fatalf("a transaction (update: %v) succeeded although %q failed (%s), its function returned %v after %d calls", update, fired, kind, ret, called)
			case err == nil && update:
				data[string(ns)] = pending
				k.NT("fault-harmless")
			case err != nil && update && ret == nil && !faulted && called > 0 && kind == "dropafter":
				// the server committed or it did not
				k.NT("fault-ambiguous")
				noErr(t, d.Open().ExecuteReadOnly(bg, ns, func(ctx context.Context, db verifiable.KeyReader) error {
					for kk, v := range pending {
						var x pb.LeafData
						if proto.Equal(v, committed[kk]) && (v == nil) == (committed[kk] == nil) {
							continue
						}
						if err := db.Get(ctx, []byte(kk), &x); err == nil && proto.Equal(&x, v) {
							data[string(ns)] = pending
						}
						return nil
					}
					for kk := range committed { // a deletion?
						if pending[kk] == nil {
							var x pb.LeafData
							if err := db.Get(ctx, []byte(kk), &x); err == verifiable.ErrNoSuchKey {
								data[string(ns)] = pending
							}
							return nil
						}
					}
					return nil
				}), "read after a dropped connection")
			default:
				k.NT("fault-" + kind)
			}
			d.settled(t, "after a transaction")
			if fired != "" || pick(t, "look", 3) == 0 {
				lookPG(t, ws[pick(t, "looker", len(ws))], nss, keys, data)
			}
		}
		lookPG(t, d.Open(), nss, keys, data)
		k.Done()
	})
}

func lookPG(t tb, w verifiable.StorageReader, nss, keys [][]byte, data map[string]map[string]*pb.LeafData) {
	t.Helper()
	for _, ns := range nss {
		noErr(t, w.ExecuteReadOnly(bg, ns, func(ctx context.Context, db verifiable.KeyReader) error {
			for _, key := range keys {
				checkKV(t, db, key, data[string(ns)][string(key)], "all that is committed")
			}
			return nil
		}), "read")
	}
}

// TestC28_Concurrent: updates and reads from many goroutines, through one or several storage objects.
func TestC28_Concurrent(t *testing.T) {
	checkPG(t, 480, 12000, func(t *rapid.T) {
		k := newCase("C28")
		b := newBackend("pg")
		pauses(t, b.pg)
		concurrentKV(t, k, b)
		b.pg.settled(t, "in the end")
		b.Destroy()
		k.Done()
	})
}

func pauses(t *rapid.T, d *pgDB) {
	every := oneOf(t, "pauses", 0, 1, 3, 10)
	var mu sync.Mutex
	n := 0
	d.pause = func() {
		mu.Lock()
		n++
		m := n
		mu.Unlock()
		if every > 0 && m%every == 0 {
			time.Sleep(time.Duration(m%7) * 10 * time.Microsecond)
		}
	}
}

// TestC28_Clients: concurrent clients of services over the database.
func TestC28_Clients(t *testing.T) {
	checkPG(t, 160, 6000, func(t *rapid.T) {
		k := newCase("C28")
		b := newBackend("pg")
		pauses(t, b.pg)
		concurrentService(t, k, b)
		k.Done()
	})
}

// TestC28_Faults: logs and maps over the database, whose statements fail in turn.
func TestC28_Faults(t *testing.T) {
	checkPG(t, 320, 8000, func(t *rapid.T) {
		k := newCase("C28")
		d := newPGDB()
		defer d.Close()
		open := func() server {
			w := d.Open()
			return newService(w, &instant.Mutator{Writer: w}, nil)
		}
		s := open()
		keys := genKeyPool(6).Draw(t, "pool")
		objs := []*object{newObject("1", "x", false, keys), newObject("1", "x", true, keys)}
		for i := 1 + pick(t, "steps", 7); i > 0; i-- {
			o := objs[pick(t, "obj", 2)]
			if pick(t, "reopen", 4) == 0 {
				s = open()
			}
			if pick(t, "enumerate", 3) > 0 {
				o.step(t, k, s, "k")
				continue
			}
			kind := oneOf(t, "kind", "error", "error", "drop")
			var mu mapMut
			var leaf *pb.LeafData
			if o.isMap {
				mu = genMut(t, k, o.mm, keys)
				k.Op("%s: %s under faults (%s)", o, mu, kind)
			} else {
				leaf = leafFor(pick(t, "n", 24))
				k.Op("%s: add %s under faults (%s)", o, short(leaf.LeafInput), kind)
			}
			stride := oneOf(t, "stride", 1, 2, 5)
			for arm := 1; ; arm += stride {
				progress()
				before := d.dump()
				d.fault(arm, kind)
				var ack []byte
				var err error
				if o.isMap {
					p, e := applyMut(o.vmap(s, "k"), mu)
					if err = e; err == nil {
						ack = p.LeafHash()
					}
				} else {
					_, err = o.log(s, "k").Add(bg, leaf)
				}
				fired := d.fault(0, "")
				if err == nil {
					if o.isMap {
						o.acks = append(o.acks, ack)
						o.mm.Apply(mu)
					} else {
						o.lm.Add(leaf)
					}
					o.glance(t, s, "k")
					break
				}
				if fired == "" {
					t.Fatalf("update of %s: %v", o, err)
				}
				k.NT("fault-" + kind)
				d.settled(t, "after a failed update")
				if d.dump() != before {
					t.Fatalf("a failed update of %s (%q, %s) left something behind", o, fired, kind)
				}
				if arm%7 == 1 {
					o.glance(t, s, "k")
				}
			}
		}
		for _, o := range objs {
			for what, req := range someReads(t, s, o) {
				want, err := req()
				noErr(t, err, "%s of %s", what, o)
				for arm := 1; ; arm++ {
					d.fault(arm, "error")
					got, err := req()
					if d.fault(0, "") == "" {
						break
					}
					if err == nil && !proto.Equal(got, want) {
						t.Fatalf("%s of %s answered %v when statement %d failed, the right answer is %v", what, o, got, arm, want)
					}
					k.NT("read-fault")
				}
			}
			o.full(t, s, "k", 4)
		}
		d.Close()
		k.Done()
	})
}
