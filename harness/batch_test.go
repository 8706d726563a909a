package harness

import (
	"bufio"
	"bytes"
	"context"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/continusec/verifiabledatastructures/mutator/batch"
	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"google.golang.org/grpc/codes"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
)

// ---- C18 ----

type batchOp struct {
	obj   int
	leaf  *pb.LeafData
	mut   mapMut
	peek  int // object whose head is read afterwards, or -1
	pause time.Duration
}

// scribble overwrites a buffer that was handed over.
func scribble(bs ...[]byte) {
	for _, b := range bs {
		for i := range b {
			b[i] ^= 0xa5
		}
	}
}

func scribbleLeaf(l *pb.LeafData) {
	if l != nil {
		scribble(l.LeafInput, l.ExtraData)
		l.LeafInput, l.ExtraData, l.Format = append(l.LeafInput, "reused"...), nil, 0
	}
}

func copyBytes(b []byte) []byte {
	if b == nil {
		return nil
	}
	return append([]byte{}, b...)
}

// submit issues the operation with buffers of its own, which are overwritten as soon as the call is back.
func (op *batchOp) submit(s server, o *object) ([]byte, error) {
	if !o.isMap {
		req := &pb.LogAddEntryRequest{Log: &pb.LogRef{Account: &pb.AccountRef{Id: o.account}, Name: o.name, LogType: pb.LogType_STRUCT_TYPE_LOG}, Value: cloneLeaf(op.leaf)}
		r, err := s.LogAddEntry(bg, req)
		scribbleLeaf(req.Value)
		req.Log.Name, req.Log.Account.Id = "reused", "reused"
		return copyBytes(r.GetLeafHash()), err
	}
	req := &pb.MapSetValueRequest{Map: &pb.MapRef{Account: &pb.AccountRef{Id: o.account}, Name: o.name},
		Mutation: &pb.MapMutation{Action: op.mut.Action, Key: copyBytes(op.mut.Key), PreviousLeafHash: copyBytes(op.mut.Prev)}}
	if op.mut.Value != nil {
		req.Mutation.Value = cloneLeaf(op.mut.Value)
	}
	r, err := s.MapSetValue(bg, req)
	scribble(req.Mutation.Key, req.Mutation.PreviousLeafHash)
	scribbleLeaf(req.Mutation.Value)
	req.Mutation.Action, req.Mutation.Value = "delete", nil
	req.Map.Name, req.Map.Account.Id = "reused", "reused"
	return copyBytes(r.GetLeafHash()), err
}

// sizeNow reads an object's current size, and checks that its root is that of its model at that size.
func (o *object) sizeNow(t tb, s server) int64 {
	t.Helper()
	var n int64
	var root, want []byte
	if o.isMap {
		h, err := o.vmap(s, "").TreeHead(bg, 0)
		noErr(t, err, "head of %s", o)
		n, root = h.GetMutationLog().GetTreeSize(), h.RootHash
		if n <= o.mm.Size() {
			want = o.mm.roots[n]
		}
	} else {
		h, err := o.log(s, "").TreeHead(bg, 0)
		noErr(t, err, "head of %s", o)
		n, root = h.TreeSize, h.RootHash
		if n == 0 {
			return 0
		}
		if n <= o.lm.Size() {
			want = o.lm.tree.Root(n)
		}
	}
	if n > o.Size() {
		t.Fatalf("%s has %d mutations, only %d were accepted", o, n, o.Size())
	}
	if !bytes.Equal(root, want) {
		t.Fatalf("%s: root at size %d is %s while batches are applied, one at a time gives %s", o, n, short(root), short(want))
	}
	return n
}

// awaitSize waits until the object has the given size.
func (o *object) awaitSize(t tb, s server, want int64, limit time.Duration) {
	t.Helper()
	for t0 := time.Now(); ; {
		n := o.sizeNow(t, s)
		if n >= want {
			return
		}
		if time.Since(t0) > limit {
			t.Fatalf("%s has %d of %d mutations %s after they were accepted", o, n, want, limit)
		}
		progress()
		if time.Since(t0) < 200*time.Microsecond {
			runtime.Gosched()
		} else {
			time.Sleep(100 * time.Microsecond)
		}
	}
}

func TestC18_Batches(t *testing.T) {
	check(t, 6000, 60000, func(t *rapid.T) {
		k := newCase("C18")
		b := newBackend(genBackendKind(8).Draw(t, "backend"))
		k.Class("backend=" + b.kind)
		// configuration
		size := oneOf(t, "batchSize", 0, 1, 1, 2, 2, 3, 4, 5, 7, 8, 10, 16, 33, 100)
		buffer := oneOf(t, "buffer", 0, 0, 1, 2, 5, 16, 64, 1000)
		timeout := oneOf(t, "timeout", 0, 1, time.Microsecond, 100*time.Microsecond, time.Millisecond, 2*time.Millisecond, 5*time.Millisecond)
		if size > 0 && size <= 16 && pick(t, "never", 4) == 0 {
			timeout = time.Hour // batches end by size or by a change of object alone
			k.NT("no-timeout")
		}
		k.Op("batches of %d, %s, buffer %d", size, timeout, buffer)
		s := batchService(b, timeout, size, buffer)
		keys := genKeyPool(6).Draw(t, "pool")
		var objs []*object
		for i, n := 0, 1+pick(t, "objects", 5); i < n; i++ {
			objs = append(objs, newObject("1", fmt.Sprintf("o%d", i/2), i%2 == 1, keys))
		}
		done := false
		defer func() {
			if done { // else closing storage under the mutator would end the process
				b.Destroy()
			}
		}()
		// operations
		parallel := len(objs) > 1 && rapid.Bool().Draw(t, "parallel")
		nops := 1 + pick(t, "ops", 60)
		if pick(t, "many", 8) == 0 {
			nops += pick(t, "ops", 200)
		}
		stick := 1 + pick(t, "stick", 6)
		var ops []batchOp
		cur, before := 0, make([]int64, len(objs))
		for len(ops) < nops {
			if pick(t, "switch", stick) == 0 {
				cur = pick(t, "obj", len(objs))
			}
			o := objs[cur]
			op := batchOp{obj: cur, peek: -1}
			if o.isMap {
				op.mut = genMut(t, k, o.mm, keys)
				o.mm.Apply(op.mut)
				k.Op("%d %s", cur, op.mut)
			} else {
				switch pick(t, "leaf", 6) {
				case 0:
					op.leaf = genLeaf(false, true).Draw(t, "leafdata")
				default:
					op.leaf = leafFor(pick(t, "n", 30))
				}
				if !o.lm.Add(op.leaf) {
					k.NT("duplicate")
				}
				k.Op("%d add %s", cur, short(op.leaf.LeafInput))
			}
			if len(ops) > 0 && ops[len(ops)-1].obj != cur {
				k.NT("switch")
			}
			if before[cur]++; size > 1 && before[cur] > 1 {
				k.NT("batched")
			}
			if pick(t, "peek", 5) == 0 {
				op.peek = pick(t, "which", len(objs))
			}
			if timeout < time.Hour && timeout > 0 && pick(t, "pause", 12) == 0 {
				op.pause = timeout/2 + time.Duration(pick(t, "us", 300))*time.Microsecond
			}
			ops = append(ops, op)
		}
		acks := make([][]byte, len(ops))
		run := func(t tb, only int) {
			seen := make([]int64, len(objs))
			for i := range ops {
				op := &ops[i]
				if only >= 0 && op.obj != only {
					continue
				}
				ack, err := op.submit(s, objs[op.obj])
				if err != nil {
					t.Fatalf("operation %d: %v", i, err)
				}
				acks[i] = ack
				if op.pause > 0 {
					time.Sleep(op.pause)
				}
				if op.peek >= 0 {
					n := objs[op.peek].sizeNow(t, s)
					if n < seen[op.peek] {
						t.Fatalf("%s shrank from %d to %d", objs[op.peek], seen[op.peek], n)
					}
					seen[op.peek] = n
				}
				progress()
			}
		}
		if parallel {
			k.NT("parallel")
			for _, o := range objs { // the reference tree remembers, and is not for concurrent use
				for n := int64(1); n <= o.lm.Size(); n++ {
					o.lm.tree.Root(n)
				}
			}
			var wg sync.WaitGroup
			fail := &failures{}
			for i := range objs {
				wg.Add(1)
				go func() {
					defer wg.Done()
					fail.guard(func() { run(fail, i) })
				}()
			}
			wg.Wait()
			fail.report(t)
		} else {
			run(t, -1)
		}
		for i, op := range ops {
			o := objs[op.obj]
			if o.isMap {
				o.acks = append(o.acks, acks[i])
			} else {
				eqBytes(t, acks[i], refLeafHash(op.leaf.LeafInput), "acknowledged leaf hash")
			}
		}
		// an end marker in an object of its own, enough to fill a batch when there is no timeout
		end := newObject("end", "end", false, nil)
		for i, n := 0, max(1, size*int(timeout/time.Hour)); i < n; i++ {
			l := leafFor(5000 + i)
			end.lm.Add(l)
			_, err := (&batchOp{leaf: l}).submit(s, end)
			noErr(t, err, "end marker")
		}
		for _, o := range append(objs, end) {
			o.awaitSize(t, s, o.Size(), 20*time.Second)
		}
		done = true
		for _, o := range objs {
			o.full(t, s, "", 4)
		}
		if l := client(s, "reused", "").VerifiableLog("reused"); pick(t, "misdirected", 4) == 0 {
			if h, err := l.TreeHead(bg, 0); err == nil && h.TreeSize != 0 {
				t.Fatalf("%d mutations went to the object that the caller named after the call", h.TreeSize)
			} else if err != nil && code(err) == codes.Internal {
				t.Fatalf("head: %v", err)
			}
		}
		k.Done()
	})
}

// failures collects what goes wrong in other goroutines.
type failures struct {
	mu  sync.Mutex
	msg string
}

type failNow struct{}

func (f *failures) Helper() {}

func (f *failures) Fatalf(format string, a ...any) {
	f.mu.Lock()
	if f.msg == "" {
		f.msg = fmt.Sprintf(format, a...)
	}
	f.mu.Unlock()
	panic(failNow{})
}

// guard runs fn, which may Fatalf (or panic).
func (f *failures) guard(fn func()) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(failNow); !ok {
				f.mu.Lock()
				if f.msg == "" {
					f.msg = fmt.Sprintf("panic: %v", r)
				}
				f.mu.Unlock()
			}
		}
	}()
	fn()
}

func (f *failures) report(t tb) {
	t.Helper()
	if f.msg != "" {
		t.Fatalf("%s", f.msg)
	}
}

// ---- C18: when storage fails ----

type batchPlan struct {
	crashPlan
	Size, Buffer int
	Timeout      time.Duration
	Arm          int // the storage operation that fails; -1: none
}

// saying announces the failure before anything can be made of it.
type saying struct{ *faulty }

func (s saying) announced(fired string, err error) error {
	if fired == "" && s.fired != "" {
		os.Stdout.WriteString("fault " + s.fired + "\n")
	}
	return err
}

type sayingKV struct {
	s saying
	r verifiable.KeyReader
	w verifiable.KeyWriter
}

func (x *sayingKV) Get(ctx context.Context, key []byte, v proto.Message) error {
	was := x.s.fired
	return x.s.announced(was, x.r.Get(ctx, key, v))
}

func (x *sayingKV) Set(ctx context.Context, key []byte, v proto.Message) error {
	was := x.s.fired
	return x.s.announced(was, x.w.Set(ctx, key, v))
}

func (s saying) ExecuteReadOnly(ctx context.Context, ns []byte, fn func(ctx context.Context, db verifiable.KeyReader) error) error {
	was := s.fired
	return s.announced(was, s.faulty.ExecuteReadOnly(ctx, ns, func(ctx context.Context, db verifiable.KeyReader) error {
		return fn(ctx, &sayingKV{s: s, r: db})
	}))
}

func (s saying) ExecuteUpdate(ctx context.Context, ns []byte, fn func(ctx context.Context, db verifiable.KeyWriter) error) error {
	was := s.fired
	return s.announced(was, s.faulty.ExecuteUpdate(ctx, ns, func(ctx context.Context, db verifiable.KeyWriter) error {
		return fn(ctx, &sayingKV{s: s, r: db, w: db})
	}))
}

func init() {
	// the child submits the plan to a batch mutator whose storage fails once, and waits for it to be applied
	childMode["batch"] = func() {
		var p batchPlan
		b, err := os.ReadFile(os.Getenv("VH_PLAN"))
		if err == nil {
			err = json.Unmarshal(b, &p)
		}
		if err != nil {
			fmt.Println("plan:", err)
			os.Exit(3)
		}
		stuck := func() {
			fmt.Println("stuck")
			os.Exit(3)
		}
		time.AfterFunc(60*time.Second, stuck)
		bk := openBackend(p.Kind, p.Dir)
		s := newService(bk.w, (&batch.Mutator{Writer: saying{&faulty{w: bk.w, arm: p.Arm}}, Timeout: p.Timeout, BatchSize: p.Size, BufferSize: p.Buffer}).MustCreate(), nil)
		want := make([]int64, len(p.Names))
		seen := map[string]bool{}
		for _, op := range p.Ops {
			ack, err := p.do(s, op)
			if err != nil {
				fmt.Println("error", err)
				os.Exit(3)
			}
			if id := fmt.Sprint(op.Obj, ack); op.Mut != nil || !seen[id] {
				seen[id] = true
				want[op.Obj]++
			}
			os.Stdout.WriteString("ack " + hex.EncodeToString(ack) + "\n")
		}
		for t0 := time.Now(); ; time.Sleep(100 * time.Microsecond) {
			behind := false
			for i, n := range p.Names {
				var got int64
				if n[0] == 'm' {
					h, err := client(s, "1", "k").VerifiableMap(n).TreeHead(bg, 0)
					if err == nil {
						got = h.GetMutationLog().GetTreeSize()
					}
				} else if h, err := client(s, "1", "k").VerifiableLog(n).TreeHead(bg, 0); err == nil {
					got = h.TreeSize
				}
				behind = behind || got < want[i]
			}
			if !behind {
				break
			}
			if time.Since(t0) > 15*time.Second {
				stuck()
			}
		}
		fmt.Println("applied")
		os.Exit(0)
	}
}

// TestC18_Fault: storage that fails once must not make a service lose what it accepted and go on as if nothing had happened.
// The process may end (it does); what is stored then is, per object, what was accepted first.
func TestC18_Fault(t *testing.T) {
	self, err := os.Executable()
	if err != nil {
		t.Fatal(err)
	}
	check(t, 400, 6000, func(t *rapid.T) {
		k := newCase("C18")
		p := &batchPlan{crashPlan: crashPlan{Kind: "bolt"}, Size: oneOf(t, "batchSize", 1, 2, 3, 5, 8, 20), Buffer: oneOf(t, "buffer", 0, 1, 5, 64),
			Timeout: oneOf(t, "timeout", time.Duration(0), 100*time.Microsecond, time.Millisecond)}
		k.Class("fault")
		keys := genKeyPool(6).Draw(t, "pool")
		p.Names = []string{"l0", "m1", "m2", "l3"}[:1+pick(t, "objects", 4)]
		genCrashOps(t, k, &p.crashPlan, keys, 1+pick(t, "ops", 30))
		p.Arm = pick(t, "arm", 20+30*len(p.Ops))
		if pick(t, "early", 2) == 0 {
			p.Arm = pick(t, "first", 12)
		}
		k.Op("batches of %d, %s, buffer %d; storage fails at %d", p.Size, p.Timeout, p.Buffer, p.Arm)
		p.Dir = newDir()
		defer dropDir(p.Dir)
		plan := p.Dir + ".plan"
		b, err := json.Marshal(p)
		noErr(t, err, "plan")
		noErr(t, os.WriteFile(plan, b, 0o600), "plan")
		defer os.Remove(plan)
		cmd := exec.Command(self)
		cmd.Env = append(os.Environ(), "VH_CHILD=batch", "VH_PLAN="+plan, "VH_STATS=")
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		out, err := cmd.StdoutPipe()
		noErr(t, err, "pipe")
		if err := cmd.Start(); err != nil {
			fmt.Println("VH-HARNESS-ERROR cannot start child:", err)
			os.Exit(8)
		}
		defer cmd.Wait()
		defer cmd.Process.Kill()
		sc := bufio.NewScanner(out)
		sc.Buffer(make([]byte, 1<<20), 1<<20)
		var acks [][]byte
		fault, applied := "", false
		for sc.Scan() {
			line := sc.Text()
			switch {
			case strings.HasPrefix(line, "ack "):
				a, err := hex.DecodeString(line[4:])
				noErr(t, err, "ack")
				acks = append(acks, a)
			case strings.HasPrefix(line, "fault "):
				fault = line[6:]
				k.NT("fault-at-" + fault)
			case line == "applied":
				applied = true
			case line == "stuck":
				t.Fatalf("after a storage failure (%q) the service goes on without all of the %d mutations it accepted", fault, len(acks))
			case fault != "" && strings.HasPrefix(line, "error "): // to refuse what comes later is as good
				k.Class("refused-later")
			default:
				t.Fatalf("after %d operations (fault %q): %s", len(acks), fault, line)
			}
		}
		if !applied && fault == "" {
			t.Fatalf("the process ended by itself after %d operations", len(acks))
		}
		bk := openBackend(p.Kind, p.Dir)
		defer bk.close()
		s := instantService(bk)
		var objs []*object
		rest := make([][]flatOp, len(p.Names))
		for i, n := range p.Names {
			o := newObject("1", n, n[0] == 'm', keys)
			objs = append(objs, o)
			var size int64
			if o.isMap {
				h, err := o.vmap(s, "k").TreeHead(bg, 0)
				noErr(t, err, "map head")
				size = h.GetMutationLog().GetTreeSize()
			} else {
				h, err := o.log(s, "k").TreeHead(bg, 0)
				noErr(t, err, "log head")
				size = h.TreeSize
			}
			for j, op := range p.Ops {
				switch {
				case op.Obj != i:
				case o.Size() == size:
					if applied && op.Mut != nil {
						t.Fatalf("%s has %d mutations, though all were to be applied", o, size)
					}
					rest[i] = append(rest[i], op)
				case j > len(acks):
					t.Fatalf("%s has %d mutations, more than were accepted", o, size)
				case j == len(acks): // accepted, but not said so in time
					ack := refLeafHash(op.Leaf.GetLeafInput())
					if o.isMap {
						e, err := o.vmap(s, "k").MutationLog().Entry(bg, o.mm.Size())
						noErr(t, err, "mutation")
						ack = refLeafHash(e.LeafInput)
					}
					p.model(t, objs, op, ack)
				default:
					p.model(t, objs, op, acks[j])
				}
			}
			if o.Size() != size {
				t.Fatalf("%s has %d mutations, more than were accepted", o, size)
			}
			if len(rest[i]) > 0 {
				k.Class("cut-short")
			}
			o.full(t, s, "k", 4)
		}
		for i, o := range objs { // and it goes on
			for _, op := range rest[i] {
				ack, err := p.do(s, op)
				noErr(t, err, "operation after a failure")
				p.model(t, objs, op, ack)
			}
			o.full(t, s, "k", 4)
		}
		k.Done()
	})
}
