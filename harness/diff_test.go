package harness

import (
	"bytes"
	"context"
	"fmt"
	"math"
	"net/http"
	"net/http/httptest"
	"testing"

	"github.com/continusec/verifiabledatastructures/mutator/instant"
	"github.com/continusec/verifiabledatastructures/oracle/policy"
	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/server/httprest"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"google.golang.org/grpc/codes"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
)

// ---- C19 ----

type channel struct {
	name string
	s    server
}

// channels are the ways to a service: in process, over REST, over gRPC.
func channels(t *rapid.T, k *kase, s server) []channel {
	rv := []channel{{"in process", s}}
	rv = append(rv, channel{"REST", restClient(s, nil)}, channel{"gRPC", grpcClient(s)})
	return rv
}

// restSocketClient goes through a real HTTP server.
func restSocketClient(s server) (server, func()) {
	srv := httptest.NewServer(httprest.CreateRESTHandler(s, nil, nil))
	tr := &http.Transport{}
	return (&httprest.Client{BaseURL: srv.URL, HTTPClient: &http.Client{Transport: tr}}).MustDial(), func() { tr.CloseIdleConnections(); srv.Close() }
}

// class is what callers tell apart.
func class(err error) string {
	switch c := code(err); c {
	case codes.OK, codes.PermissionDenied, codes.InvalidArgument, codes.NotFound:
		return c.String()
	}
	return "other error"
}

// normal makes responses comparable: an audit path element that is left out is an empty one.
func normal(m proto.Message) proto.Message {
	if m == nil || isNilMsg(m) {
		return m
	}
	m = proto.Clone(m)
	if v, ok := m.(*pb.MapGetValueResponse); ok {
		for i, p := range v.AuditPath {
			if len(p) == 0 {
				v.AuditPath[i] = nil
			}
		}
	}
	return m
}

// rpc is one request in a form that can be issued to any channel.
type rpc struct {
	what string
	do   func(s server) (proto.Message, error)
	acc  *pb.AccountRef // of the request
}

func genPosition(t *rapid.T, label string, n int64) int64 {
	switch pick(t, label+"-kind", 10) {
	case 0:
		return 0
	case 1:
		return n
	case 2:
		return n + 1 + between(t, label, 0, 3)
	case 3:
		return oneOf(t, label, math.MaxInt64, math.MaxInt64-1, 1<<62, 1<<32, 1<<31-1, 1<<31, 1<<53+1, int64(1e6))
	default:
		return between(t, label, 0, n)
	}
}

func genRead(t *rapid.T, objs []*object, account, key, name string) rpc {
	acc := &pb.AccountRef{Id: account, ApiKey: key}
	var o *object
	for _, x := range objs {
		if x.account == account && x.name == name {
			o = x
		}
	}
	n := int64(0)
	if o != nil {
		n = o.Size()
	}
	lr := &pb.LogRef{Account: acc, Name: name, LogType: oneOf(t, "logtype", pb.LogType_STRUCT_TYPE_LOG, pb.LogType_STRUCT_TYPE_LOG, pb.LogType_STRUCT_TYPE_MUTATION_LOG, pb.LogType_STRUCT_TYPE_TREEHEAD_LOG)}
	if o != nil && pick(t, "sensible", 4) > 0 {
		if o.isMap && lr.LogType == pb.LogType_STRUCT_TYPE_LOG {
			lr.LogType = pb.LogType_STRUCT_TYPE_MUTATION_LOG
		} else if !o.isMap {
			lr.LogType = pb.LogType_STRUCT_TYPE_LOG
		}
	}
	mr := &pb.MapRef{Account: acc, Name: name}
	a, b := genPosition(t, "a", n), genPosition(t, "b", n)
	op := pick(t, "read", 7)
	if o != nil && o.isMap && pick(t, "mapread", 2) == 0 {
		op = 5 + pick(t, "which", 2)
	}
	switch op {
	case 0:
		q := &pb.LogFetchEntriesRequest{Log: lr, First: a, Last: b}
		return rpc{"fetch " + q.String(), func(s server) (proto.Message, error) { r, err := s.LogFetchEntries(bg, q); return r, err }, acc}
	case 1:
		q := &pb.LogTreeHashRequest{Log: lr, TreeSize: a}
		return rpc{"head " + q.String(), func(s server) (proto.Message, error) { r, err := s.LogTreeHash(bg, q); return r, err }, acc}
	case 2:
		q := &pb.LogInclusionProofRequest{Log: lr, TreeSize: a, LeafIndex: b}
		return rpc{"inclusion " + q.String(), func(s server) (proto.Message, error) { r, err := s.LogInclusionProof(bg, q); return r, err }, acc}
	case 3:
		h := genBytes(false).Draw(t, "hash")
		if o != nil && !o.isMap && n > 0 && pick(t, "known", 3) > 0 {
			h = o.lm.tree.leaves[between(t, "leaf", 0, n-1)]
		}
		q := &pb.LogInclusionProofRequest{Log: lr, TreeSize: a, MtlHash: h}
		return rpc{"inclusion " + q.String(), func(s server) (proto.Message, error) { r, err := s.LogInclusionProof(bg, q); return r, err }, acc}
	case 4:
		q := &pb.LogConsistencyProofRequest{Log: lr, FromSize: a, TreeSize: b}
		return rpc{"consistency " + q.String(), func(s server) (proto.Message, error) { r, err := s.LogConsistencyProof(bg, q); return r, err }, acc}
	case 5:
		q := &pb.MapTreeHashRequest{Map: mr, TreeSize: a}
		return rpc{"map head " + q.String(), func(s server) (proto.Message, error) { r, err := s.MapTreeHash(bg, q); return r, err }, acc}
	default:
		key := append(genBytes(false).Draw(t, "mapkey"), 'k')
		if o != nil && len(o.keys) > 0 && pick(t, "pool", 4) > 0 {
			key = oneOf(t, "poolkey", o.keys...)
		}
		q := &pb.MapGetValueRequest{Map: mr, Key: key, TreeSize: a}
		return rpc{"value " + q.String(), func(s server) (proto.Message, error) { r, err := s.MapGetValue(bg, q); return r, err }, acc}
	}
}

var (
	restAccounts = []string{"0", "1", "12", "007", "10", "184467440737095516160"}
	restNames    = []string{"a", "a-b", "a_b", "-", "_", "0", "log", "map", "entry", "tree", "key", "head", "mutation", "treehead", "x1", "h", "s", "entries", "longer-name_with-all_0123456789"}
	restKeys     = []string{"", "k1", "k2", "Key", "*", "a/b+c==", "a:b", "\"q\"", "k1,k2", "%20", "0"}
)

func genRestPolicy(t *rapid.T, accounts, names []string) []*pb.ResourceAccount {
	var rv []*pb.ResourceAccount
	for _, a := range accounts {
		ra := &pb.ResourceAccount{Id: a, Policy: []*pb.AccessPolicy{{ApiKey: "all", NameMatch: "*", Permissions: []pb.Permission{pb.Permission_PERM_ALL_PERMISSIONS}, AllowedFields: []string{"*"}}}}
		for i := pick(t, "rules", 4); i > 0; i-- {
			r := &pb.AccessPolicy{ApiKey: oneOf(t, "key", restKeys...), NameMatch: oneOf(t, "glob", append([]string{"*", "*", "?", "a*", "*_*"}, names...)...)}
			r.AllowedFields = oneOf(t, "fields", []string{"*"}, []string{"*"}, []string{"a"}, []string{"a", "ssn"}, []string{})
			for p := 1 + pick(t, "perms", 4); p > 0; p-- {
				r.Permissions = append(r.Permissions, oneOf(t, "perm", pb.Permission_PERM_ALL_PERMISSIONS, pb.Permission_PERM_LOG_RAW_ADD, pb.Permission_PERM_LOG_READ_ENTRY,
					pb.Permission_PERM_LOG_READ_HASH, pb.Permission_PERM_LOG_PROVE_INCLUSION, pb.Permission_PERM_MAP_SET_VALUE, pb.Permission_PERM_MAP_GET_VALUE,
					pb.Permission_PERM_MAP_MUTATION_READ_ENTRY, pb.Permission_PERM_MAP_MUTATION_READ_HASH))
			}
			ra.Policy = append(ra.Policy, r)
		}
		rv = append(rv, ra)
	}
	return rv
}

func TestC19_Same(t *testing.T) {
	check(t, 4000, 60000, func(t *rapid.T) {
		k := newCase("C19")
		st := newBackend(oneOf(t, "backend", "mem", "mem", "mem", "mem", "mem", "mem", "mem", "bolt"))
		defer st.Destroy()
		accounts := []string{oneOf(t, "account", restAccounts...), oneOf(t, "account", restAccounts...)}
		names := []string{oneOf(t, "name", restNames...), oneOf(t, "name", restNames...)}
		var pol verifiable.AuthorizationOracle = policy.Open
		if rapid.Bool().Draw(t, "policy") {
			rules := genRestPolicy(t, accounts[:1+pick(t, "known accounts", 2)], names)
			pol = &policy.Static{Policy: rules}
			k.Op("%v", rules)
			k.NT("policy")
		}
		s := newService(st.w, &instant.Mutator{Writer: st.w}, pol)
		inner := instantService(st)
		chans := channels(t, k, s)
		if pick(t, "sockets", 10) == 0 {
			c, stop := restSocketClient(s)
			defer stop()
			chans = append(chans, channel{"REST over a socket", c})
			k.Class("socket")
		}
		var keys [][]byte
		for _, key := range genKeyPool(6).Draw(t, "pool") {
			if len(key) > 0 { // the empty key has no REST name
				keys = append(keys, key)
			}
		}
		if len(keys) == 0 {
			keys = append(keys, []byte{0})
		}
		var objs []*object
		for i, n := range names {
			if i == 0 || n != names[0] {
				objs = append(objs, newObject(accounts[i], n, pick(t, "map", 2) == 0, keys))
			}
		}
		var last rpc // answered
		for i := 2 + pick(t, "steps", 25); i > 0; i-- {
			o := objs[pick(t, "obj", len(objs))]
			key := oneOf(t, "apikey", append([]string{"all", "all", "all"}, restKeys...)...)
			switch {
			case pick(t, "write", 3) == 0 && !o.isMap:
				// an entry is stored once however often it is added
				var l *pb.LeafData
				switch pick(t, "leaf", 3) {
				case 0:
					l = genLeaf(false, true).Draw(t, "leafdata")
				case 1:
					l = genDoc(t, k, pick(t, "serial", 5)).leaf
				default:
					l = leafFor(pick(t, "n", 30))
				}
				q := rpc{fmt.Sprintf("add %s to %s with key %q", short(l.LeafInput), o, key), func(s server) (proto.Message, error) {
					r, err := o.log(s, key).Service.LogAddEntry(bg, &pb.LogAddEntryRequest{Log: o.log(s, key).Log, Value: cloneLeaf(l)})
					return r, err
				}, nil}
				if len(l.LeafInput)+len(l.ExtraData) == 0 {
					k.NT("empty-leaf")
				}
				if compare(t, k, rotate(chans, pick(t, "first", len(chans))), q) {
					o.lm.Add(l)
				}
			case pick(t, "write", 3) == 0 && o.isMap:
				// each channel in turn, with what is then the state; the response has a time in it
				mu := genMut(t, k, o.mm, keys)
				if mu.Value != nil && pick(t, "doc", 4) == 0 {
					mu.Value = genDoc(t, k, pick(t, "serial", 5)).leaf
				}
				var want string
				for j, c := range rotate(chans, pick(t, "first", len(chans))) {
					p, err := applyMut(o.vmap(c.s, key), mu)
					if j == 0 {
						want = class(err)
					} else if class(err) != want {
						t.Fatalf("%s in %s with key %q %s: %v, elsewhere %s", mu, o, key, c.name, err, want)
					}
					if err == nil {
						o.acks = append(o.acks, p.LeafHash())
						o.mm.Apply(mu)
					}
				}
				k.Op("%s: %s key %q: %s", o, mu, key, want)
				k.NT("mutation-" + want)
			default:
				account, name := o.account, o.name
				if pick(t, "elsewhere", 6) == 0 {
					account, name = oneOf(t, "account", append(restAccounts, accounts...)...), oneOf(t, "name", append(restNames, names...)...)
				}
				var q rpc
				if last.acc != nil && pick(t, "the same", 3) == 0 { // by another
					key = oneOf(t, "another key", append([]string{"all", "none"}, restKeys...)...)
					q, last.acc.ApiKey = last, key
					q.what += fmt.Sprintf(" again with key %q", key)
					k.Class("repeated-by-another-key")
				} else {
					q = genRead(t, objs, account, key, name)
				}
				if compare(t, k, chans, q) {
					last = q
				}
			}
		}
		// all of it through every channel, by a reader with all rights
		if pick(t, "full", 2) == 0 {
			for _, c := range channels(t, k, inner) {
				for _, o := range objs {
					o.full(t, c.s, "all", 3)
				}
			}
		}
		k.Done()
	})
}

func rotate[T any](l []T, n int) []T { return append(append([]T{}, l[n:]...), l[:n]...) }

// compare issues the request to every channel, and reports if it was answered.
func compare(t *rapid.T, k *kase, chans []channel, q rpc) bool {
	var want proto.Message
	var werr error
	for i, c := range chans {
		got, err := q.do(c.s)
		if err == nil && isNilMsg(got) {
			t.Fatalf("%s %s: neither a response nor an error", q.what, c.name)
		}
		if i == 0 {
			want, werr = got, err
			continue
		}
		if class(err) != class(werr) {
			t.Fatalf("%s: %s: %v, %s: %v", q.what, chans[0].name, werr, c.name, err)
		}
		if err == nil && !proto.Equal(normal(got), normal(want)) {
			t.Fatalf("%s: %s: %v, %s: %v", q.what, chans[0].name, want, c.name, got)
		}
	}
	k.Op("%s: %s", q.what, class(werr))
	k.NT("request-" + class(werr))
	return werr == nil
}

// Responses and requests beyond the usual limits of transports.
func TestC19_Large(t *testing.T) {
	check(t, 16, 160, func(t *rapid.T) {
		k := newCase("C19")
		s := memService()
		n := 20 + pick(t, "n", 500)
		size := (2000000 + pick(t, "total", 4000000)) / n
		if pick(t, "huge", 3) == 0 {
			n, size = 1+pick(t, "few", 3), 4<<20+pick(t, "over", 1<<20)-1<<19
		}
		k.Op("%d entries of %d", n, size)
		k.NT("large")
		o := newObject("1", "large", false, nil)
		vm := newObject("1", "large", true, [][]byte{[]byte("k")})
		chans := channels(t, k, s)
		for i := 0; i < n; i++ {
			l := &pb.LeafData{LeafInput: expand(uint64(i), size), ExtraData: expand(uint64(i+1), i%2*size)}
			c := chans[pick(t, "channel", len(chans))]
			o.add(t, c.s, "", l)
			if size > 1<<20 {
				vm.mutate(t, c.s, "", mapMut{Action: "set", Key: []byte("k"), Value: l})
			}
		}
		for _, c := range chans {
			head, err := o.log(c.s, "").TreeHead(bg, 0)
			noErr(t, err, "head")
			i := 0
			err = o.log(c.s, "").VerifyEntries(bg, nil, head, func(ctx context.Context, j int64, e *pb.LeafData) error {
				eqLeaf(t, e, o.lm.entries[j], "entry %d %s", j, c.name)
				i++
				return nil
			})
			noErr(t, err, "audit %s", c.name)
			if i != n {
				t.Fatalf("%d entries of %d %s", i, n, c.name)
			}
			r, err := c.s.LogFetchEntries(bg, &pb.LogFetchEntriesRequest{Log: o.log(c.s, "").Log})
			noErr(t, err, "entries %s", c.name)
			if len(r.Values) != n {
				t.Fatalf("%d entries of %d %s", len(r.Values), n, c.name)
			}
			if size > 1<<20 {
				v, err := vm.vmap(c.s, "").Get(bg, []byte("k"), 0)
				noErr(t, err, "value %s", c.name)
				if !bytes.Equal(v.Value.LeafInput, o.lm.entries[n-1].LeafInput) {
					t.Fatalf("wrong value %s", c.name)
				}
			}
		}
		k.Done()
	})
}
