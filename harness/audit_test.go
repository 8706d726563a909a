package harness

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"testing"

	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
)

func (m *logModel) head(n int64) *pb.LogTreeHashResponse {
	if n == 0 {
		return &pb.LogTreeHashResponse{}
	}
	return &pb.LogTreeHashResponse{TreeSize: n, RootHash: m.tree.Root(n)}
}

var errStop = errors.New("the audit function says stop")

func TestC11_LogAudit(t *testing.T) {
	check(t, 16000, 120000, func(t *rapid.T) {
		k := newCase("C11")
		c := buildLog(t, k, nil)
		defer c.b.Destroy()
		n := c.m.Size()
		for round := 0; round < 4; round++ {
			hs := between(t, "head", 0, n)
			var prev *pb.LogTreeHashResponse
			ps := int64(0)
			if pick(t, "prev", 3) > 0 {
				ps = between(t, "prevsize", 0, n)
				prev = c.m.head(ps)
			}
			head := c.m.head(hs)
			stopAt := int64(-1)
			if hs > ps && pick(t, "stop", 4) == 0 {
				stopAt = between(t, "stopat", ps, hs-1)
				k.NT("audit-function-error")
			}
			next := ps
			what := fmt.Sprintf("audit of a log from %d (nil=%v) to %d of %d", ps, prev == nil, hs, n)
			var f verifiable.LogAuditFunction = func(ctx context.Context, idx int64, e *pb.LeafData) error {
				if idx != next || idx >= hs {
					t.Fatalf("%s: called for %d, expected %d", what, idx, next)
				}
				eqLeaf(t, e, c.m.entries[idx], "%s: entry %d", what, idx)
				next++
				if idx == stopAt {
					return errStop
				}
				return nil
			}
			if pick(t, "nilfunc", 8) == 0 {
				f, stopAt, next = nil, -1, max(hs, ps)
			}
			err := c.log.VerifyEntries(bg, prev, head, f)
			if stopAt >= 0 {
				if err != errStop || next != stopAt+1 {
					t.Fatalf("%s: audit function's error at %d: got %v after entry %d", what, stopAt, err, next-1)
				}
				continue
			}
			noErr(t, err, "%s", what)
			if next != max(hs, ps) {
				t.Fatalf("%s: stopped at %d without an error", what, next)
			}
			if ps > 0 && hs > ps {
				k.NT("from-a-previous-head")
			}
		}
		if err := c.log.VerifyEntries(bg, nil, nil, nil); err == nil {
			t.Fatalf("auditing to a nil head succeeded")
		}
		k.Done()
	})
}

// laggingServer answers requests for the latest mutation log head with older heads that grow call by call.
type laggingServer struct {
	server
	seen int64
	step func() int64
}

func (l *laggingServer) LogTreeHash(ctx context.Context, req *pb.LogTreeHashRequest) (*pb.LogTreeHashResponse, error) {
	if req.TreeSize == 0 && req.Log.LogType == pb.LogType_STRUCT_TYPE_MUTATION_LOG {
		h, err := l.server.LogTreeHash(ctx, req)
		if err != nil || h.TreeSize == 0 {
			return h, err
		}
		l.seen = min(h.TreeSize, l.seen+l.step())
		req = proto.Clone(req).(*pb.LogTreeHashRequest)
		req.TreeSize = l.seen
	}
	return l.server.LogTreeHash(ctx, req)
}

func eqValue(t tb, got, want *pb.LeafData, what string, a ...any) {
	t.Helper()
	if want == nil {
		want = &pb.LeafData{}
	}
	if got == nil {
		got = &pb.LeafData{}
	}
	eqLeaf(t, got, want, what, a...)
}

func TestC11_MapAudit(t *testing.T) {
	check(t, 5000, 50000, func(t *rapid.T) {
		k := newCase("C11")
		k.Op("map")
		b := newBackend(genBackendKind(4).Draw(t, "backend"))
		defer b.Destroy()
		svc := instantService(b)
		vm := client(svc, "7", "key").VerifiableMap("m")
		m := newMapModel()
		jsonValues := rapid.Bool().Draw(t, "jsonvalues")
		n := genMutCount(t)
		if pick(t, "large", 150) == 0 {
			n = 480 + pick(t, "n", 60)
			k.NT("more-than-a-batch")
		}
		pool := genKeyPool(20).Draw(t, "pool")
		for i := 0; i < n; i++ {
			mu := genMut(t, k, m, pool)
			if jsonValues && mu.Value != nil {
				v, err := verifiable.CreateJSONLeafData([]byte(fmt.Sprintf(`{"v":%d,"w":[%q]}`, pick(t, "jv", 9), short(mu.Value.LeafInput))))
				noErr(t, err, "leaf data")
				mu.Value = v
			}
			_, err := applyMut(vm, mu)
			noErr(t, err, "mutation %d (%s)", i, mu)
			m.Apply(mu)
			k.Op("%s", mu)
		}
		sizeClass(k, int64(n))
		if n == 0 {
			return
		}
		st, err := vm.VerifiedMapState(bg, nil, between(t, "state", 0, int64(n)))
		noErr(t, err, "verified map state")
		var prev *verifiable.MapTreeState
		if pick(t, "withprev", 4) == 0 {
			prev, err = vm.VerifiedMapState(bg, nil, between(t, "prevstate", 1, int64(n)))
			noErr(t, err, "verified map state")
			prev.TreeHeadLogTreeHead, err = vm.TreeHeadLog().TreeHead(bg, between(t, "prevheads", prev.TreeSize(), int64(n)))
			noErr(t, err, "tree head log head")
			k.NT("from-a-previous-state")
		}
		if rapid.Bool().Draw(t, "olderheads") {
			st.TreeHeadLogTreeHead, err = vm.TreeHeadLog().TreeHead(bg, between(t, "heads", st.TreeSize(), int64(n)))
			noErr(t, err, "tree head log head")
		}
		upTo := st.TreeHeadLogTreeHead.TreeSize
		if prev != nil && prev.TreeHeadLogTreeHead.TreeSize >= upTo {
			upTo = 0 // nothing left to audit
		}
		if pick(t, "lagging", 3) == 0 {
			k.NT("lagging-server")
			vm = client(&laggingServer{server: svc, step: func() int64 { return 1 + int64(pick(t, "lag", 8)) }}, "7", "key").VerifiableMap("m")
			if prev != nil {
				vm.Service.(*laggingServer).seen = prev.TreeHeadLogTreeHead.TreeSize
			}
		}
		var mapCalls, leafCalls []int
		for i := 0; i < n; i++ {
			if m.changed[i] {
				mapCalls = append(mapCalls, i)
			}
			if m.muts[i].Action != "delete" {
				leafCalls = append(leafCalls, i)
			}
		}
		stopMap, stopLeaf := -1, -1
		switch pick(t, "stop", 8) {
		case 0:
			if len(mapCalls) > 0 {
				stopMap = pick(t, "stopmap", len(mapCalls))
				k.NT("map-audit-error")
			}
		case 1:
			if len(leafCalls) > 0 {
				stopLeaf = pick(t, "stopleaf", len(leafCalls))
				k.NT("leaf-audit-error")
			}
		}
		mi, li, stopped := 0, 0, false
		leafFunc := func(ctx context.Context, l *pb.LeafData) error {
			if l == nil {
				return nil // a deletion has no value
			}
			if li >= len(leafCalls) {
				t.Fatalf("leaf audit function called %d times for %d values", li+1, len(leafCalls))
			}
			eqLeaf(t, l, m.muts[leafCalls[li]].Value, "leaf audit call %d", li)
			li++
			if li-1 == stopLeaf {
				stopped = true
				return errStop
			}
			if jsonValues {
				return verifiable.ValidateJSONLeafData(ctx, l)
			}
			return nil
		}
		mapFunc := func(ctx context.Context, idx int64, key []byte, value *pb.LeafData) error {
			if mi >= len(mapCalls) || int(idx) != mapCalls[mi] {
				t.Fatalf("map audit call %d is for mutation %d (%s), root-changing mutations are %v", mi, idx, m.muts[idx], mapCalls)
			}
			if !bytes.Equal(key, m.muts[idx].Key) {
				t.Fatalf("map audit call for mutation %d has key %s, want %s", idx, short(key), short(m.muts[idx].Key))
			}
			eqValue(t, value, m.muts[idx].Value, "map audit value of mutation %d", idx)
			mi++
			if mi-1 == stopMap {
				stopped = true
				return errStop
			}
			return nil
		}
		var lf verifiable.LeafDataAuditFunction = leafFunc
		counting := true
		switch pick(t, "leaffunc", 4) {
		case 0:
			if stopLeaf < 0 {
				lf, counting = nil, false
			}
		case 1:
			if jsonValues && stopLeaf < 0 { // the function the documentation suggests
				lf, counting = verifiable.ValidateJSONLeafData, false
				k.NT("validate-json")
			}
		}
		err = vm.VerifyMap(bg, prev, st, lf, mapFunc)
		if stopped {
			if err != errStop {
				t.Fatalf("audit function's error not returned: %v", err)
			}
			k.Done()
			return
		}
		noErr(t, err, "audit of an honest map of %d mutations to state %d with %d tree heads", n, st.TreeSize(), upTo)
		if upTo > 0 {
			for i, x := range mapCalls {
				if int64(x) < upTo && i >= mi {
					t.Fatalf("map audit function not called for mutation %d (audited to %d)", x, upTo)
				}
			}
			if counting {
				for i, x := range leafCalls {
					if int64(x) < upTo && i >= li {
						t.Fatalf("leaf audit function not called for mutation %d (audited to %d)", x, upTo)
					}
				}
			}
		}
		k.Done()
	})
}
