package harness

import (
	"bufio"
	"context"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"os"
	"os/exec"
	"os/signal"
	"runtime/debug"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/continusec/verifiabledatastructures/mutator/instant"
	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
)

// ---- C17: storage faults ----

var errStorage = errors.New("storage failure (injected)")

// faulty fails one operation of the transactions that pass through it.
type faulty struct {
	w     verifiable.StorageWriter
	arm   int // fail the operation with this number; -1: none
	n     int
	fired string
}

func (f *faulty) op(what string) error {
	f.n++
	if f.n-1 == f.arm {
		f.fired = what
		return errStorage
	}
	return nil
}

func (f *faulty) reset(arm int) { f.arm, f.n, f.fired = arm, 0, "" }

type faultyKV struct {
	f *faulty
	r verifiable.KeyReader
	w verifiable.KeyWriter
}

func (x *faultyKV) Get(ctx context.Context, key []byte, v proto.Message) error {
	if err := x.f.op("get"); err != nil {
		return err
	}
	return x.r.Get(ctx, key, v)
}

func (x *faultyKV) Set(ctx context.Context, key []byte, v proto.Message) error {
	if err := x.f.op("set"); err != nil {
		return err
	}
	return x.w.Set(ctx, key, v)
}

func (f *faulty) ExecuteReadOnly(ctx context.Context, ns []byte, fn func(ctx context.Context, db verifiable.KeyReader) error) error {
	if err := f.op("begin"); err != nil {
		return err
	}
	return f.w.ExecuteReadOnly(ctx, ns, func(ctx context.Context, db verifiable.KeyReader) error {
		return fn(ctx, &faultyKV{f: f, r: db})
	})
}

func (f *faulty) ExecuteUpdate(ctx context.Context, ns []byte, fn func(ctx context.Context, db verifiable.KeyWriter) error) error {
	if err := f.op("begin"); err != nil {
		return err
	}
	return f.w.ExecuteUpdate(ctx, ns, func(ctx context.Context, db verifiable.KeyWriter) error {
		if err := fn(ctx, &faultyKV{f: f, r: db, w: db}); err != nil {
			return err
		}
		return f.op("commit")
	})
}

// reads are the requests compared with and without faults.
func someReads(t *rapid.T, s server, o *object) map[string]func() (proto.Message, error) {
	rv := map[string]func() (proto.Message, error){}
	lr := &pb.LogRef{Account: &pb.AccountRef{Id: o.account, ApiKey: "k"}, Name: o.name}
	if o.isMap {
		mr := &pb.MapRef{Account: lr.Account, Name: o.name}
		n := o.mm.Size()
		size := between(t, "size", 0, n)
		key := o.keys[pick(t, "key", len(o.keys))]
		rv["map head"] = func() (proto.Message, error) {
			return s.MapTreeHash(bg, &pb.MapTreeHashRequest{Map: mr, TreeSize: size})
		}
		rv["value"] = func() (proto.Message, error) {
			return s.MapGetValue(bg, &pb.MapGetValueRequest{Map: mr, Key: key, TreeSize: size})
		}
		lr.LogType = oneOf(t, "logtype", pb.LogType_STRUCT_TYPE_MUTATION_LOG, pb.LogType_STRUCT_TYPE_TREEHEAD_LOG)
	}
	n := o.Size()
	if n == 0 {
		return rv
	}
	size := between(t, "logsize", 1, n)
	index := between(t, "index", 0, size-1)
	from := between(t, "from", 1, n)
	rv["head"] = func() (proto.Message, error) {
		return s.LogTreeHash(bg, &pb.LogTreeHashRequest{Log: lr, TreeSize: size})
	}
	rv["entries"] = func() (proto.Message, error) {
		return s.LogFetchEntries(bg, &pb.LogFetchEntriesRequest{Log: lr, First: index, Last: size})
	}
	rv["inclusion"] = func() (proto.Message, error) {
		return s.LogInclusionProof(bg, &pb.LogInclusionProofRequest{Log: lr, TreeSize: size, LeafIndex: index})
	}
	if !o.isMap {
		lh := o.lm.tree.leaves[index]
		rv["inclusion by hash"] = func() (proto.Message, error) {
			return s.LogInclusionProof(bg, &pb.LogInclusionProofRequest{Log: lr, TreeSize: size, MtlHash: lh})
		}
	}
	if from < n {
		rv["consistency"] = func() (proto.Message, error) {
			return s.LogConsistencyProof(bg, &pb.LogConsistencyProofRequest{Log: lr, FromSize: from})
		}
	}
	return rv
}

func TestC17_Faults(t *testing.T) {
	check(t, 1600, 16000, func(t *rapid.T) {
		k := newCase("C17")
		kind := oneOf(t, "backend", "ref", "ref", "ref", "bolt", "bolt", "badger")
		k.Class("faults-" + kind)
		f := &faulty{arm: -1}
		var ref *refStore
		if kind == "ref" {
			ref = newRefStore()
			f.w = ref
		} else {
			b := newBackend(kind)
			defer b.Destroy()
			f.w = b.w
		}
		s := newService(f, &instant.Mutator{Writer: f}, nil)
		keys := genKeyPool(6).Draw(t, "pool")
		objs := []*object{newObject("1", "x", false, keys), newObject("1", "x", true, keys)}
		for i := 1 + pick(t, "steps", 9); i > 0; i-- {
			o := objs[pick(t, "obj", 2)]
			if pick(t, "enumerate", 3) > 0 || kind == "badger" && pick(t, "enumerate2", 2) == 0 {
				o.step(t, k, s, "k")
				continue
			}
			var mu mapMut
			var leaf *pb.LeafData
			if o.isMap {
				mu = genMut(t, k, o.mm, keys)
				k.Op("%s: %s under faults", o, mu)
			} else {
				leaf = leafFor(pick(t, "n", 24))
				k.Op("%s: add %s under faults", o, short(leaf.LeafInput))
			}
			do := func() ([]byte, error) {
				if o.isMap {
					p, err := applyMut(o.vmap(s, "k"), mu)
					if err != nil {
						return nil, err
					}
					return p.LeafHash(), nil
				}
				p, err := o.log(s, "k").Add(bg, leaf)
				if err != nil {
					return nil, err
				}
				return p.LeafHash(), nil
			}
			var before *refStore
			if ref != nil {
				before = ref.Clone()
			}
			for arm := 0; ; arm++ { // fail at every operation in turn, until none is left to fail
				if arm > 20000 {
					t.Fatalf("an update of %s does not end", o)
				}
				progress()
				f.reset(arm)
				ack, err := do()
				fired := f.fired
				f.reset(-1)
				if fired == "" {
					noErr(t, err, "update of %s after %d failed attempts", o, arm)
					if o.isMap {
						o.acks = append(o.acks, ack)
						o.mm.Apply(mu)
					} else {
						o.lm.Add(leaf)
					}
					k.Class(fmt.Sprintf("fault-points<=%d", (arm+19)/20*20))
					break
				}
				if err == nil {
					t.Fatalf("update of %s succeeded although operation %d (%s) of its storage transaction failed", o, arm, fired)
				}
				k.NT("fault-at-" + fired)
				if ref != nil && !ref.equal(before) {
					t.Fatalf("a failed update of %s (operation %d, %s) left something behind", o, arm, fired)
				}
				if ref == nil || arm%7 == 0 {
					o.glance(t, s, "k")
				}
			}
			o.glance(t, s, "k")
		}
		for _, o := range objs { // a failed read is an error or the right answer
			for what, req := range someReads(t, s, o) {
				f.reset(-1)
				want, err := req()
				noErr(t, err, "%s of %s", what, o)
				for arm := 0; ; arm++ {
					f.reset(arm)
					got, err := req()
					if f.fired == "" {
						break
					}
					if err == nil && !proto.Equal(got, want) {
						t.Fatalf("%s of %s answered %v when storage operation %d failed, the right answer is %v", what, o, got, arm, want)
					}
					k.NT("read-fault")
				}
				f.reset(-1)
			}
			o.full(t, s, "k", 4)
		}
		k.Done()
	})
}

// ---- C17: reopening and killing ----

type flatOp struct {
	Obj  int
	Leaf *pb.LeafData `json:",omitempty"`
	Mut  *mapMut      `json:",omitempty"`
}

type crashPlan struct {
	Kind, Dir string
	Names     []string // objects; those starting with m are maps
	Ops       []flatOp
	Limit     uint64 // if set, no file gets larger than this (as if the disk were full), and errors do not end the child
	LiftAfter int    // the limit goes away after this many operations
}

func (p *crashPlan) do(s server, op flatOp) ([]byte, error) {
	acc := client(s, "1", "k")
	if op.Mut != nil {
		r, err := applyMut(acc.VerifiableMap(p.Names[op.Obj]), *op.Mut)
		if err != nil {
			return nil, err
		}
		return r.LeafHash(), nil
	}
	r, err := acc.VerifiableLog(p.Names[op.Obj]).Add(bg, op.Leaf)
	if err != nil {
		return nil, err
	}
	return r.LeafHash(), nil
}

func (p *crashPlan) model(t *rapid.T, objs []*object, op flatOp, ack []byte) {
	o := objs[op.Obj]
	if o.isMap {
		o.mm.Apply(*op.Mut)
		o.acks = append(o.acks, ack)
	} else {
		eqBytes(t, ack, refLeafHash(op.Leaf.LeafInput), "acknowledged leaf hash")
		o.lm.Add(op.Leaf)
	}
}

func init() {
	// the child applies the plan, acknowledging each operation on standard output, and never closes the database
	childMode["crash"] = func() {
		var p crashPlan
		b, err := os.ReadFile(os.Getenv("VH_PLAN"))
		if err == nil {
			err = json.Unmarshal(b, &p)
		}
		if err != nil {
			fmt.Println("plan:", err)
			os.Exit(3)
		}
		s := instantService(openBackend(p.Kind, p.Dir))
		fmt.Println("start")
		limit := func(n uint64) {
			if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: n, Max: math.MaxUint64}); err != nil {
				fmt.Println("VH-HARNESS-ERROR setrlimit:", err)
				os.Exit(3)
			}
		}
		if p.Limit > 0 {
			signal.Ignore(syscall.SIGXFSZ)
			limit(p.Limit)
		}
		for i, op := range p.Ops {
			if p.Limit > 0 && i == p.LiftAfter {
				limit(math.MaxUint64)
			}
			ack, err := p.do(s, op)
			if err != nil && p.Limit > 0 {
				fmt.Printf("refused %q\n", err.Error())
				continue
			}
			if err != nil {
				fmt.Println("error", err)
				os.Exit(3)
			}
			os.Stdout.WriteString("ack " + hex.EncodeToString(ack) + "\n")
		}
		fmt.Println("done")
		time.Sleep(time.Minute)
	}
}

func TestC17_Kill(t *testing.T) {
	self, err := os.Executable()
	if err != nil {
		t.Fatal(err)
	}
	check(t, 480, 8000, func(t *rapid.T) {
		debug.SetPanicOnFault(true) // a fault in a memory-mapped file is a failure of the case
		k := newCase("C17")
		p := &crashPlan{Kind: oneOf(t, "backend", "bolt", "bolt", "badger")}
		k.Class("kill-" + p.Kind)
		keys := genKeyPool(6).Draw(t, "pool")
		p.Names = []string{"l0", "m1", "m2", "l3"}[:1+pick(t, "objects", 4)]
		if p.Kind == "badger" {
			p.Names = p.Names[:min(2, len(p.Names))]
		}
		genCrashOps(t, k, p, keys, 1+pick(t, "ops", 40))
		p.Dir = newDir()
		defer dropDir(p.Dir)
		var objs []*object
		for _, n := range p.Names {
			objs = append(objs, newObject("1", n, n[0] == 'm', keys))
		}
		done := 0
		for life := 1 + pick(t, "lives", 2); life > 0; life-- {
			// write the rest of the plan in a child, and kill it
			rest := *p
			rest.Ops = p.Ops[done:]
			plan := p.Dir + ".plan"
			b, err := json.Marshal(&rest)
			noErr(t, err, "plan")
			noErr(t, os.WriteFile(plan, b, 0o600), "plan")
			after := pick(t, "killAfter", len(rest.Ops)+2)
			delay := pick(t, "killDelay", 3) * pick(t, "killMicros", 600)
			if pick(t, "killEarly", 4) == 0 { // when the first objects come into being
				after, delay = pick(t, "killAfterFew", 3), pick(t, "killMicros", 200)
			}
			k.Op("kill after %d acks and %d us", after, delay)
			cmd := exec.Command(self)
			cmd.Env = append(os.Environ(), "VH_CHILD=crash", "VH_PLAN="+plan, "VH_STATS=")
			cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
			out, err := cmd.StdoutPipe()
			noErr(t, err, "pipe")
			if err := cmd.Start(); err != nil {
				fmt.Println("VH-HARNESS-ERROR cannot start child:", err)
				os.Exit(8)
			}
			sc := bufio.NewScanner(out)
			sc.Buffer(make([]byte, 1<<20), 1<<20)
			acks, killed := 0, false
			for sc.Scan() {
				line := sc.Text()
				switch {
				case strings.HasPrefix(line, "ack "):
					a, err := hex.DecodeString(line[4:])
					noErr(t, err, "ack")
					p.model(t, objs, rest.Ops[acks], a)
					acks++
				case line == "start" || line == "done":
				case strings.HasPrefix(line, "badger "): // its log
				default:
					cmd.Process.Kill()
					cmd.Wait()
					t.Fatalf("operation %d of %d on %s: %s", done+acks, len(p.Ops), p.Kind, line)
				}
				if !killed && (acks == after && line != "done" || line == "done") {
					for t0 := time.Now(); time.Since(t0) < time.Duration(delay)*time.Microsecond; {
					}
					cmd.Process.Kill()
					killed = true
				}
			}
			cmd.Process.Kill()
			cmd.Wait()
			os.Remove(plan)
			done += acks
			if done < len(p.Ops) {
				k.NT("killed-within")
			} else {
				k.NT("killed-without-close")
			}
			// everything acknowledged is there; the operation under way is there or not
			bk := openBackend(p.Kind, p.Dir)
			s := instantService(bk)
			func() {
				defer bk.close()
				if acks < len(rest.Ops) {
					op := rest.Ops[acks]
					o := objs[op.Obj]
					if o.isMap {
						h, err := o.vmap(s, "k").TreeHead(bg, 0)
						noErr(t, err, "map head after a kill")
						if h.GetMutationLog().GetTreeSize() == o.mm.Size()+1 {
							e, err := o.vmap(s, "k").MutationLog().Entry(bg, o.mm.Size())
							noErr(t, err, "mutation under way")
							p.model(t, objs, op, refLeafHash(e.LeafInput))
							done++
							k.Class("under-way-applied")
						}
					} else {
						h, err := o.log(s, "k").TreeHead(bg, 0)
						noErr(t, err, "log head after a kill")
						if h.TreeSize == o.lm.Size()+1 {
							p.model(t, objs, op, refLeafHash(op.Leaf.LeafInput))
							done++
							k.Class("under-way-applied")
						}
					}
				}
				for _, o := range objs {
					o.full(t, s, "k", 4)
				}
				if life == 1 { // and it goes on
					for _, op := range p.Ops[done:] {
						ack, err := p.do(s, op)
						noErr(t, err, "operation after a kill")
						p.model(t, objs, op, ack)
						done++
					}
					for _, o := range objs {
						o.full(t, s, "k", 4)
					}
				}
			}()
			if done == len(p.Ops) {
				break
			}
		}
		k.Done()
	})
}

// genCrashOps draws operations; the models used for drawing are only a guide.
func genCrashOps(t *rapid.T, k *kase, p *crashPlan, keys [][]byte, n int) {
	guide := map[int]*mapModel{}
	for i := 0; i < n; i++ {
		o := pick(t, "obj", len(p.Names))
		if p.Names[o][0] == 'm' {
			if guide[o] == nil {
				guide[o] = newMapModel()
			}
			mu := genMut(t, k, guide[o], keys)
			guide[o].Apply(mu)
			p.Ops = append(p.Ops, flatOp{Obj: o, Mut: &mu})
			k.Op("%s %s", p.Names[o], mu)
		} else {
			l := leafFor(pick(t, "n", 60))
			p.Ops = append(p.Ops, flatOp{Obj: o, Leaf: l})
			k.Op("%s add %s", p.Names[o], short(l.LeafInput))
		}
	}
}

// TestC17_Full: no file can grow beyond some size for a while.
func TestC17_Full(t *testing.T) {
	self, err := os.Executable()
	if err != nil {
		t.Fatal(err)
	}
	check(t, 200, 3000, func(t *rapid.T) {
		debug.SetPanicOnFault(true)
		k := newCase("C17")
		k.Class("full-bolt")
		p := &crashPlan{Kind: "bolt"}
		keys := genKeyPool(6).Draw(t, "pool")
		p.Names = []string{"l0", "m1", "m2", "l3"}[:1+pick(t, "objects", 4)]
		genCrashOps(t, k, p, keys, 2+pick(t, "ops", 30))
		if pick(t, "early", 2) == 0 {
			p.Limit = 1 + uint64(pick(t, "limit", 5))*4096
		} else {
			p.Limit = 1 + uint64(pick(t, "limit", 100000))
		}
		p.LiftAfter = 1 + pick(t, "lift", len(p.Ops))
		k.Op("no file over %d until operation %d", p.Limit, p.LiftAfter)
		p.Dir = newDir()
		defer dropDir(p.Dir)
		var objs []*object
		for _, n := range p.Names {
			objs = append(objs, newObject("1", n, n[0] == 'm', keys))
		}
		plan := p.Dir + ".plan"
		b, err := json.Marshal(p)
		noErr(t, err, "plan")
		noErr(t, os.WriteFile(plan, b, 0o600), "plan")
		defer os.Remove(plan)
		cmd := exec.Command(self)
		cmd.Env = append(os.Environ(), "VH_CHILD=crash", "VH_PLAN="+plan, "VH_STATS=")
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		out, err := cmd.StdoutPipe()
		noErr(t, err, "pipe")
		var tail strings.Builder
		cmd.Stderr = &tail
		if err := cmd.Start(); err != nil {
			fmt.Println("VH-HARNESS-ERROR cannot start child:", err)
			os.Exit(8)
		}
		defer cmd.Process.Kill()
		sc := bufio.NewScanner(out)
		sc.Buffer(make([]byte, 1<<20), 1<<20)
		i, done := 0, false
		for !done && sc.Scan() {
			line := sc.Text()
			switch {
			case line == "start":
			case line == "done":
				done = true
			case strings.HasPrefix(line, "ack "):
				a, err := hex.DecodeString(line[4:])
				noErr(t, err, "ack")
				p.model(t, objs, p.Ops[i], a)
				i++
			case strings.HasPrefix(line, "refused "):
				if i >= p.LiftAfter {
					t.Fatalf("operation %d is refused although there is space again: %s", i, line)
				}
				k.NT("refused-for-space")
				i++
			default:
				t.Fatalf("operation %d: %s", i, line)
			}
		}
		cmd.Process.Kill()
		cmd.Wait()
		if !done {
			t.Fatalf("the process ended by itself at operation %d:\n%s", i, tail.String()[:min(3000, tail.Len())])
		}
		bk := openBackend(p.Kind, p.Dir)
		s := instantService(bk)
		defer bk.close()
		for _, o := range objs {
			o.full(t, s, "k", 4)
		}
		k.Done()
	})
}

func TestC17_Reopen(t *testing.T) {
	check(t, 800, 8000, func(t *rapid.T) {
		k := newCase("C17")
		b := newBackend(oneOf(t, "backend", "bolt", "bolt", "bolt", "badger"))
		defer func() { b.Destroy() }()
		k.Class("reopen-" + b.kind)
		s := instantService(b)
		keys := genKeyPool(6).Draw(t, "pool")
		objs := []*object{newObject("1", "x", false, keys), newObject("1", "x", true, keys)}
		for i := 2 + pick(t, "steps", 40); i > 0; i-- {
			if pick(t, "reopen", 6) == 0 {
				b.Reopen()
				s = instantService(b)
				k.Op("reopen")
				k.NT("reopen")
			}
			objs[pick(t, "obj", 2)].step(t, k, s, "k")
		}
		b.Reopen()
		s = instantService(b)
		for _, o := range objs {
			o.full(t, s, "k", 5)
		}
		k.Done()
	})
}
