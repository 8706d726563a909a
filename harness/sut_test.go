package harness

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"sync"
	"sync/atomic"
	"time"

	"github.com/continusec/verifiabledatastructures/mutator/batch"
	"github.com/continusec/verifiabledatastructures/mutator/instant"
	"github.com/continusec/verifiabledatastructures/oracle/policy"
	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/storage/badger"
	"github.com/continusec/verifiabledatastructures/storage/bolt"
	"github.com/continusec/verifiabledatastructures/storage/memory"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
)

var bg = context.Background()

type server = pb.VerifiableDataStructuresServiceServer

// tb is the part of testing.T / rapid.T the oracles need.
type tb interface {
	Helper()
	Fatalf(format string, args ...any)
}

// ---- scratch directories ----

var (
	dirSeq  atomic.Int64
	dirsMu  sync.Mutex
	dirs    = map[string]bool{}
	procDir = sync.OnceValue(func() string {
		d, err := os.MkdirTemp(scratch, "vh-")
		if err != nil {
			panic(err)
		}
		return d
	})
)

func newDir() string {
	d := filepath.Join(procDir(), fmt.Sprintf("d%d", dirSeq.Add(1)))
	if err := os.MkdirAll(d, 0o755); err != nil {
		panic(err)
	}
	dirsMu.Lock()
	dirs[d] = true
	dirsMu.Unlock()
	return d
}

func dropDir(d string) { os.RemoveAll(d); dirsMu.Lock(); delete(dirs, d); dirsMu.Unlock() }

func cleanupAll() {
	dirsMu.Lock()
	defer dirsMu.Unlock()
	if len(dirs) >= 0 {
		os.RemoveAll(procDir())
	}
}

// ---- backends ----

type backend struct {
	kind  string // mem, bolt, badger
	dir   string
	w     verifiable.StorageWriter
	close func()
	pg    *pgDB // of the stand-in for PostgreSQL
	gone  bool
}

// diskBackends are those in use. A case that fails may leave its own behind; badger holds a lot of memory.
var diskBackends []*backend

func dropLeftBehind() {
	for i := 0; len(diskBackends)-i > 4; i++ {
		func() {
			defer func() { recover() }()
			diskBackends[i].Destroy()
		}()
	}
	diskBackends = slices.DeleteFunc(diskBackends, func(b *backend) bool { return b.gone })
}

func openBackend(kind, dir string) *backend {
	b := &backend{kind: kind, dir: dir, close: func() {}}
	switch kind {
	case "mem":
		b.w = &memory.TransientStorage{}
	case "bolt":
		s := &bolt.Storage{Path: dir}
		b.w, b.close = s, s.Close
	case "pg":
		b.pg = newPGDB()
		b.w = b.pg.Open()
		b.close = b.pg.Close
	case "badger":
		s := &badger.Storage{Path: dir}
		b.w, b.close = s, s.Close
	default:
		panic(kind)
	}
	return b
}

func newBackend(kind string) *backend {
	dir := ""
	if kind != "mem" && kind != "pg" {
		dir = newDir()
	}
	b := openBackend(kind, dir)
	if dir != "" {
		dropLeftBehind()
		diskBackends = append(diskBackends, b)
	}
	return b
}

func (b *backend) Destroy() {
	if b.gone {
		return
	}
	b.gone = true
	b.close()
	if b.dir != "" {
		dropDir(b.dir)
	}
}

// Reopen closes and opens the files again (not for mem).
func (b *backend) Reopen() {
	if b.kind == "mem" {
		return
	}
	b.close()
	if b.kind == "pg" {
		b.w = b.pg.Open()
		return
	}
	n := openBackend(b.kind, b.dir)
	b.w, b.close = n.w, n.close
}

// another is a storage object over the same data: for PostgreSQL one with a connection of its own.
func (b *backend) another() verifiable.StorageWriter {
	if b.kind == "pg" {
		return b.pg.Open()
	}
	return b.w
}

// ways is how many storage objects to use at once.
func (b *backend) ways(t *rapid.T) int {
	if b.kind == "pg" {
		return 1 + pick(t, "ways", 3)
	}
	return 1
}

func genBackendKind(weightDisk int) *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		switch n := pick(t, "backend", 100); {
		case n < weightDisk/4:
			return "badger"
		case n < weightDisk:
			return "bolt"
		default:
			return "mem"
		}
	})
}

// ---- services ----

func newService(r verifiable.StorageReader, m verifiable.MutatorService, p verifiable.AuthorizationOracle) server {
	if p == nil {
		p = policy.Open
	}
	return (&verifiable.Service{Mutator: m, AccessPolicy: p, Reader: r}).MustCreate()
}

func instantService(b *backend) server {
	return newService(b.w, &instant.Mutator{Writer: b.w}, nil)
}

func memService() server { return instantService(newBackend("mem")) }

func batchService(b *backend, timeout time.Duration, batchSize, buffer int) server {
	return newService(b.w, (&batch.Mutator{Writer: b.w, Timeout: timeout, BatchSize: batchSize, BufferSize: buffer}).MustCreate(), nil)
}

func client(s server, account, key string) *verifiable.Account {
	return (&verifiable.Client{Service: s}).Account(account, key)
}

// ---- small helpers ----

func code(err error) codes.Code {
	if err == nil {
		return codes.OK
	}
	return status.Code(err)
}

func must[T any](v T, err error) func(t tb, what string) T {
	return func(t tb, what string) T {
		t.Helper()
		if err != nil {
			t.Fatalf("%s: unexpected error: %v", what, err)
		}
		return v
	}
}

func noErr(t tb, err error, what string, a ...any) {
	t.Helper()
	if err != nil {
		t.Fatalf("%s: unexpected error: %v", fmt.Sprintf(what, a...), err)
	}
}

func eqBytes(t tb, got, want []byte, what string, a ...any) {
	t.Helper()
	if !bytes.Equal(got, want) {
		t.Fatalf("%s: got %s want %s", fmt.Sprintf(what, a...), short(got), short(want))
	}
}

func eqPath(t tb, got, want [][]byte, what string, a ...any) {
	t.Helper()
	if len(got) != len(want) {
		t.Fatalf("%s: path of %d elements, want %d", fmt.Sprintf(what, a...), len(got), len(want))
	}
	for i := range got {
		if !bytes.Equal(got[i], want[i]) {
			t.Fatalf("%s: path element %d: got %s want %s", fmt.Sprintf(what, a...), i, short(got[i]), short(want[i]))
		}
	}
}

func short(b []byte) string {
	if len(b) > 40 {
		return fmt.Sprintf("%x..(%d bytes)", b[:16], len(b))
	}
	return fmt.Sprintf("%x", b)
}

func cloneLeaf(l *pb.LeafData) *pb.LeafData { return proto.Clone(l).(*pb.LeafData) }

func eqLeaf(t tb, got, want *pb.LeafData, what string, a ...any) {
	t.Helper()
	if got == nil {
		t.Fatalf("%s: nil leaf data", fmt.Sprintf(what, a...))
	}
	w := fmt.Sprintf(what, a...)
	eqBytes(t, got.GetLeafInput(), want.GetLeafInput(), "%s: leaf input", w)
	eqBytes(t, got.GetExtraData(), want.GetExtraData(), "%s: extra data", w)
	if got.GetFormat() != want.GetFormat() {
		t.Fatalf("%s: format %v want %v", w, got.GetFormat(), want.GetFormat())
	}
}

// pickSizes chooses sizes in [lo,hi]: all when few, otherwise the ends, powers of two and drawn ones.
func pickSizes(t *rapid.T, lo, hi int64, limit int) []int64 {
	if hi < lo {
		return nil
	}
	if hi-lo+1 <= int64(limit) {
		rv := make([]int64, 0, hi-lo+1)
		for i := lo; i <= hi; i++ {
			rv = append(rv, i)
		}
		return rv
	}
	m := map[int64]bool{}
	var rv []int64
	add := func(x int64) {
		if x >= lo && x <= hi && !m[x] {
			m[x] = true
			rv = append(rv, x)
		}
	}
	add(lo)
	add(hi)
	for len(rv) < limit {
		if pick(t, "sizeclass", 4) == 0 {
			k := pick(t, "pow", 13)
			add(int64(1)<<k + int64((pick(t, "d", 3) - 1)))
			add(between(t, "size", lo, hi))
		} else {
			add(between(t, "size", lo, hi))
		}
	}
	return rv
}
