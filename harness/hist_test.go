package harness

import (
	"bytes"
	"context"
	"encoding/json"
	"testing"

	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
)

// historyServer keeps several histories of one map behind one or two tree head logs that it has written
// itself: every head it answers is in a tree head log, every proof is a genuine proof of some log. What a
// client can hold against it is only that the histories are not consistent with each other.
type historyServer struct {
	pb.VerifiableDataStructuresServiceServer
	muts   []*logModel // mutation logs, one per history
	thls   []*logModel // tree head logs
	heads  map[int64]*pb.MapTreeHashResponse
	latest int64
	thl    int   // the tree head log shown now
	thn    int64 // up to this size
	prover int   // the history mutation log proofs come from
	show   int   // the history mutation log entries come from
}

func (s *historyServer) source(l *pb.LogRef) (server, int64) {
	if l.LogType == pb.LogType_STRUCT_TYPE_TREEHEAD_LOG {
		return &listServer{logs: map[pb.LogType]*logModel{l.LogType: s.thls[s.thl]}}, s.thn
	}
	return &listServer{logs: map[pb.LogType]*logModel{l.LogType: s.muts[s.show]}}, 0
}

func (s *historyServer) MapTreeHash(ctx context.Context, q *pb.MapTreeHashRequest) (*pb.MapTreeHashResponse, error) {
	n := q.TreeSize
	if n == 0 {
		n = s.latest
	}
	if h := s.heads[n]; h != nil {
		return proto.Clone(h).(*pb.MapTreeHashResponse), nil
	}
	return nil, status.Error(codes.InvalidArgument, "")
}

func (s *historyServer) LogTreeHash(ctx context.Context, q *pb.LogTreeHashRequest) (*pb.LogTreeHashResponse, error) {
	src, n := s.source(q.Log)
	if q.TreeSize == 0 {
		q = &pb.LogTreeHashRequest{Log: q.Log, TreeSize: n}
	}
	return src.LogTreeHash(ctx, q)
}

func (s *historyServer) LogFetchEntries(ctx context.Context, q *pb.LogFetchEntriesRequest) (*pb.LogFetchEntriesResponse, error) {
	src, _ := s.source(q.Log)
	return src.LogFetchEntries(ctx, q)
}

func (s *historyServer) LogInclusionProof(ctx context.Context, q *pb.LogInclusionProofRequest) (*pb.LogInclusionProofResponse, error) {
	src, _ := s.source(q.Log)
	return src.LogInclusionProof(ctx, q)
}

func (s *historyServer) LogConsistencyProof(ctx context.Context, q *pb.LogConsistencyProofRequest) (*pb.LogConsistencyProofResponse, error) {
	if q.Log.LogType == pb.LogType_STRUCT_TYPE_MUTATION_LOG {
		return (&listServer{logs: map[pb.LogType]*logModel{q.Log.LogType: s.muts[s.prover]}}).LogConsistencyProof(ctx, q)
	}
	src, _ := s.source(q.Log)
	return src.LogConsistencyProof(ctx, q)
}

// A client that follows the states of a map in any order, up and down, from a server with two histories of
// it: a state is only accepted if its mutation log and its tree head log are consistent with those of the
// state given as the previous one, and its head is in its tree head log. States of one history, shown
// honestly, are accepted.
func TestC12_TwoHistories(t *testing.T) {
	check(t, 12000, 200000, func(t *rapid.T) {
		k := newCase("C12")
		pool := genKeyPool(5).Draw(t, "pool")
		a := newWorld(newRefStore())
		if n := pick(t, "common", 4); n > 0 {
			a.mutate(t, k, pool, n)
		}
		b := a.fork()
		b.name = "fork"
		shared := a.mm.Size()
		a.mutate(t, k, pool, 3+pick(t, "more", 6))
		b.mutate(t, k, pool, 3+pick(t, "fork", 6))
		w := []*world{a, b}
		muts := []*logModel{a.mut, b.mut}
		max := min(a.mm.Size(), b.mm.Size())

		// which history each size is answered from
		of := make([]int, max+1)
		switch pick(t, "pattern", 4) {
		case 0: // all of one
		case 1: // the other from some size on
			for i, at := 1, pick(t, "at", int(max)+1); i < len(of); i++ {
				if i >= at {
					of[i] = 1
				}
			}
		case 2: // the other below some size
			for i, at := 1, pick(t, "at", int(max)+1); i < len(of); i++ {
				if i < at {
					of[i] = 1
				}
			}
		default:
			for i := range of {
				of[i] = pick(t, "of", 2)
			}
		}
		s := &historyServer{muts: muts, heads: map[int64]*pb.MapTreeHashResponse{}}
		leaf := func(h *pb.MapTreeHashResponse) *pb.LeafData {
			j, err := json.Marshal(h)
			noErr(t, err, "json")
			d, err := verifiable.CreateJSONLeafData(j)
			noErr(t, err, "leaf data")
			return d
		}
		one := newLogModel()
		for n := int64(1); n <= max; n++ {
			x := w[of[n]]
			s.heads[n] = &pb.MapTreeHashResponse{RootHash: x.mm.roots[n], MutationLog: x.mut.head(n)}
			d := leaf(s.heads[n])
			one.addRaw(d, refLeafHash(d.LeafInput))
		}
		s.thls = []*logModel{one}
		if pick(t, "secondlog", 3) == 0 { // a fork of the tree head log too
			two := newLogModel()
			at := pick(t, "forkat", int(max))
			for i, e := range one.entries {
				if i == at {
					junk := &pb.LeafData{LeafInput: []byte("another entry")}
					two.addRaw(junk, refLeafHash(junk.LeafInput))
				}
				two.addRaw(e, refLeafHash(e.LeafInput))
			}
			s.thls = append(s.thls, two)
			k.Class("two-tree-head-logs")
		}

		vm := client(s, "7", "key").VerifiableMap("m")
		var prev *verifiable.MapTreeState
		prevOf := 0
		crossed := false
		for step, steps := 0, 2+pick(t, "steps", 6); step < steps; step++ {
			s.latest = between(t, "latest", 1, max)
			s.thl = pick(t, "thl", len(s.thls))
			s.thn = between(t, "thn", 1, s.thls[s.thl].Size())
			want := between(t, "want", 0, max)
			if pick(t, "hold", 4) > 0 { // large enough
				s.thn = s.thls[s.thl].Size()
			}
			n := want
			if n == 0 {
				n = s.latest
			}
			s.prover = oneOf(t, "prover", of[n], of[n], prevOf)
			var st *verifiable.MapTreeState
			var err error
			if want == 0 && rapid.Bool().Draw(t, "latestcall") {
				st, err = vm.VerifiedLatestMapState(bg, prev)
			} else {
				st, err = vm.VerifiedMapState(bg, prev, want)
			}
			k.Op("%d/%d t%d/%d p%d: %v", want, s.latest, s.thl, s.thn, s.prover, err == nil)
			same := prev == nil || sameHistory(muts, prev.MapTreeHead.MutationLog, s.heads[n].MutationLog)
			if !same {
				crossed = true
			}
			if err != nil {
				// honest: both states of the history the proof is from, a tree head log that holds both
				if same && (prev == nil || muts[s.prover].has(prev.MapTreeHead.MutationLog)) && muts[s.prover].has(s.heads[n].MutationLog) &&
					s.thn == s.thls[s.thl].Size() && (prev == nil || s.thls[s.thl].has(prev.TreeHeadLogTreeHead)) {
					t.Fatalf("state %d of the same history (of %v, previous %v) refused: %v", n, of[1:], prev.TreeSize(), err)
				}
				continue
			}
			if st == nil {
				t.Fatalf("no state and no error at size %d", n)
			}
			k.Class("succeeded")
			if st == prev {
				continue
			}
			if !bytes.Equal(leaf(st.MapTreeHead).LeafInput, leaf(s.heads[n]).LeafInput) {
				t.Fatalf("state %d: another head than the server's", n)
			}
			if !same {
				t.Fatalf("state %d accepted after state %d though their mutation logs differ (shared up to %d)", n, prev.TreeSize(), shared)
			}
			if prev != nil && !sameHistory(s.thls, prev.TreeHeadLogTreeHead, st.TreeHeadLogTreeHead) {
				t.Fatalf("state %d accepted after state %d though their tree head logs differ", n, prev.TreeSize())
			}
			in := false
			for _, l := range s.thls {
				if l.has(st.TreeHeadLogTreeHead) {
					for _, e := range l.entries[:st.TreeHeadLogTreeHead.TreeSize] {
						in = in || bytes.Equal(e.LeafInput, leaf(st.MapTreeHead).LeafInput)
					}
				}
			}
			if !in {
				t.Fatalf("state %d accepted with a tree head log of %d that does not hold its head", n, st.TreeHeadLogTreeHead.GetTreeSize())
			}
			prev, prevOf = st, of[n]
		}
		if crossed {
			k.NT("crossed-histories")
		}

		// Audit what was accepted against one of the histories: it fails if a head is of the other.
		if prev != nil {
			s.show = pick(t, "show", 2)
			for i, l := range s.thls {
				if l.has(prev.TreeHeadLogTreeHead) {
					s.thl = i
				}
			}
			s.prover = s.show
			upTo := prev.TreeHeadLogTreeHead.TreeSize
			err := vm.VerifyMap(bg, nil, prev, nil, func(ctx context.Context, idx int64, key []byte, v *pb.LeafData) error { return nil })
			right := true
			for _, e := range s.thls[s.thl].entries[:upTo] {
				if len(e.ExtraData) == 0 {
					right = false
					continue
				}
				h := decodeJSON[jsonMapHead](t, e.ExtraData, "head")
				z := h.MutationLog.TreeSize
				right = right && bytes.Equal(h.RootHash, w[s.show].mm.roots[z]) && bytes.Equal(h.MutationLog.RootHash, muts[s.show].tree.Root(z))
			}
			if err == nil && !right {
				t.Fatalf("audit to %d succeeded though a head is not of the history the entries are of (%v, entries of %d)", upTo, of[1:], s.show)
			}
			if err != nil && right {
				t.Fatalf("audit to %d of true heads failed: %v", upTo, err)
			}
			if err == nil {
				k.Class("audited")
			} else {
				k.NT("audit-refused")
			}
		}
		k.Done()
	})
}
