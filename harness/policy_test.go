package harness

import (
	"bytes"
	"context"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"maps"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"sync"
	"testing"

	"github.com/continusec/objecthash"
	"github.com/continusec/verifiabledatastructures/mutator/instant"
	"github.com/continusec/verifiabledatastructures/oracle/policy"
	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"google.golang.org/grpc/codes"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
)

// ---- C13 ----

// globMatch is the documented glob of path.Match, written independently. ok=false: the pattern is malformed.
func globMatch(p, s string) (match, ok bool) {
	if p == "" {
		return s == "", true
	}
	switch p[0] {
	case '*':
		rest := strings.TrimLeft(p, "*")
		_, ok := globMatch(rest, "")
		if !ok {
			return false, false
		}
		for i := 0; ; i++ {
			if m, _ := globMatch(rest, s[i:]); m {
				return true, true
			}
			if i == len(s) || s[i] == '/' {
				return false, true
			}
		}
	case '?':
		m, ok := globMatch(p[1:], tail(s))
		return m && s != "" && s[0] != '/', ok
	case '[':
		i := 1
		neg := i < len(p) && p[i] == '^'
		if neg {
			i++
		}
		in := false
		for n := 0; ; n++ {
			if i >= len(p) {
				return false, false
			}
			if p[i] == ']' && n > 0 {
				i++
				break
			}
			lo, hi, j, ok := classRange(p, i)
			if !ok {
				return false, false
			}
			i = j
			if s != "" && lo <= s[0] && s[0] <= hi {
				in = true
			}
		}
		m, ok := globMatch(p[i:], tail(s))
		return m && s != "" && in != neg, ok
	case '\\':
		if len(p) < 2 {
			return false, false
		}
		m, ok := globMatch(p[2:], tail(s))
		return m && s != "" && s[0] == p[1], ok
	default:
		m, ok := globMatch(p[1:], tail(s))
		return m && s != "" && s[0] == p[0], ok
	}
}

func tail(s string) string {
	if s == "" {
		return ""
	}
	return s[1:]
}

func classRange(p string, i int) (lo, hi byte, next int, ok bool) {
	one := func() (byte, bool) {
		if i >= len(p) || p[i] == '-' || p[i] == ']' {
			return 0, false
		}
		if p[i] == '\\' {
			i++
			if i >= len(p) {
				return 0, false
			}
		}
		i++
		return p[i-1], i < len(p)
	}
	if lo, ok = one(); !ok {
		return
	}
	hi = lo
	if p[i] == '-' {
		i++
		if hi, ok = one(); !ok {
			return
		}
	}
	return lo, hi, i, true
}

func allowed(rules []*pb.ResourceAccount, account, key, name string, perm pb.Permission) bool {
	for _, a := range rules {
		if a.Id != account {
			continue
		}
		for _, r := range a.Policy {
			if r.ApiKey == "" || (r.ApiKey != "*" && r.ApiKey != key) {
				continue
			}
			if m, ok := globMatch(r.NameMatch, name); !m || !ok {
				continue
			}
			for _, p := range r.Permissions {
				if p == pb.Permission_PERM_ALL_PERMISSIONS || p == perm {
					return true
				}
			}
		}
	}
	return false
}

const (
	opAdd = iota
	opEntries
	opHead
	opInclusion
	opConsistency
	opSet
	opGet
	opMapHead
	opCount
)

var opNames = []string{"add", "entries", "head", "inclusion", "consistency", "set", "get", "maphead"}

// neededPermission is the documented table; ok=false: nobody may.
func neededPermission(op int, lt pb.LogType) (pb.Permission, bool) {
	switch op {
	case opSet:
		return pb.Permission_PERM_MAP_SET_VALUE, true
	case opGet, opMapHead:
		return pb.Permission_PERM_MAP_GET_VALUE, true
	}
	switch lt {
	case pb.LogType_STRUCT_TYPE_LOG:
		return map[int]pb.Permission{opAdd: pb.Permission_PERM_LOG_RAW_ADD, opEntries: pb.Permission_PERM_LOG_READ_ENTRY, opHead: pb.Permission_PERM_LOG_READ_HASH,
			opConsistency: pb.Permission_PERM_LOG_READ_HASH, opInclusion: pb.Permission_PERM_LOG_PROVE_INCLUSION}[op], true
	case pb.LogType_STRUCT_TYPE_MUTATION_LOG, pb.LogType_STRUCT_TYPE_TREEHEAD_LOG:
		if op == opAdd {
			return 0, false
		}
		if op == opEntries && lt == pb.LogType_STRUCT_TYPE_MUTATION_LOG {
			return pb.Permission_PERM_MAP_MUTATION_READ_ENTRY, true
		}
		return pb.Permission_PERM_MAP_MUTATION_READ_HASH, true
	}
	return 0, false
}

type apiReq struct {
	op       int
	lt       pb.LogType
	account  string
	key      string
	name     string
	n, m     int64
	data     []byte
	action   string
	prev     []byte
	expected *pb.LeafData
}

func (q apiReq) String() string {
	return fmt.Sprintf("%s type=%d account=%q key=%q name=%q n=%d m=%d", opNames[q.op], q.lt, q.account, q.key, q.name, q.n, q.m)
}

func (q apiReq) do(s server) (proto.Message, error) {
	acc := &pb.AccountRef{Id: q.account, ApiKey: q.key}
	l := &pb.LogRef{Account: acc, Name: q.name, LogType: q.lt}
	m := &pb.MapRef{Account: acc, Name: q.name}
	switch q.op {
	case opAdd:
		r, err := s.LogAddEntry(bg, &pb.LogAddEntryRequest{Log: l, Value: &pb.LeafData{LeafInput: q.data}})
		return r, err
	case opEntries:
		r, err := s.LogFetchEntries(bg, &pb.LogFetchEntriesRequest{Log: l, First: q.n, Last: q.m})
		return r, err
	case opHead:
		r, err := s.LogTreeHash(bg, &pb.LogTreeHashRequest{Log: l, TreeSize: q.n})
		return r, err
	case opInclusion:
		r, err := s.LogInclusionProof(bg, &pb.LogInclusionProofRequest{Log: l, TreeSize: q.m, LeafIndex: q.n})
		return r, err
	case opConsistency:
		r, err := s.LogConsistencyProof(bg, &pb.LogConsistencyProofRequest{Log: l, FromSize: q.n, TreeSize: q.m})
		return r, err
	case opSet:
		r, err := s.MapSetValue(bg, &pb.MapSetValueRequest{Map: m, Mutation: &pb.MapMutation{Action: q.action, Key: q.data, Value: q.expected, PreviousLeafHash: q.prev}})
		return r, err
	case opGet:
		r, err := s.MapGetValue(bg, &pb.MapGetValueRequest{Map: m, Key: q.data, TreeSize: q.n})
		return r, err
	default:
		r, err := s.MapTreeHash(bg, &pb.MapTreeHashRequest{Map: m, TreeSize: q.n})
		return r, err
	}
}

var (
	restAccount = regexp.MustCompile("^[0-9]+$")
	restName    = regexp.MustCompile("^[0-9a-z_-]+$")
)

// restful: whether the request can be made over REST
func (q apiReq) restful() bool {
	return restAccount.MatchString(q.account) && restName.MatchString(q.name) && !strings.ContainsAny(q.key, " \x00") && q.n >= 0 && q.m >= 0 && (q.op >= opSet || q.lt >= 0 && q.lt < 3)
}

// plain makes it one that is
func (q *apiReq) plain() {
	if !restAccount.MatchString(q.account) {
		q.account = "1"
	}
	if !restName.MatchString(q.name) {
		q.name = "log"
	}
	q.key = strings.NewReplacer(" ", "", "\x00", "").Replace(q.key)
	q.n, q.m = max(q.n, 0), max(q.m, 0)
	if q.lt < 0 || q.lt > 2 {
		q.lt = 0
	}
}

func isNilMsg(m proto.Message) bool { return m == nil || reflect.ValueOf(m).IsNil() }

var (
	polAccounts = []string{"1", "2", "11", "", "*", "1/log"}
	polNames    = []string{"log", "logs", "map", "lo", "Log", "a-b", "", "x/y", "*", "l*", "x:y", "x|log", "x,y", "x y", "x\x00log", "x/log"}
	polKeys     = []string{"", "k1", "k2", "K1", "*", "k1 ", "k", "k1/k2", "k?", "[k]1", "k*", "\\k1", "k1*"}
	polGlobs    = []string{"*", "*", "log", "l*", "l?g", "lo[a-h]", "[^a-k]*", "", "[", "map", "x/*", "*/*", "*o*", "\\*", "m[a]p*", "l\\og", "*[", "a[-]b", "**s", "log?", "x?*", "x*"}
)

var policyWorld = sync.OnceValue(func() *refStore {
	st := newRefStore()
	s := newService(st, &instant.Mutator{Writer: st}, nil)
	for ai, a := range polAccounts {
		for ni, n := range polNames {
			if ai > 1 || ni > 4 || (ai+ni)%4 == 3 {
				continue // left empty
			}
			for i := 0; i < 2; i++ {
				d := []byte(fmt.Sprintf("%s|%s|%d", a, n, i))
				mustDo(apiReq{op: opAdd, account: a, name: n, data: d}.do(s))
				mustDo(apiReq{op: opSet, account: a, name: n, action: "set", data: d, expected: &pb.LeafData{LeafInput: append(d, 'v')}}.do(s))
			}
		}
	}
	return st
})

func mustDo(_ proto.Message, err error) {
	if err != nil {
		panic(err)
	}
}

func genRules(t *rapid.T) []*pb.ResourceAccount {
	var rv []*pb.ResourceAccount
	for i := between(t, "accounts", 0, 4); i > 0; i-- {
		a := &pb.ResourceAccount{Id: oneOf(t, "id", polAccounts...)}
		if pick(t, "usual", 2) == 0 {
			a.Id = "1"
		}
		for j := between(t, "rules", 0, 4); j > 0; j-- {
			r := &pb.AccessPolicy{ApiKey: oneOf(t, "key", polKeys...), NameMatch: oneOf(t, "glob", polGlobs...), AllowedFields: []string{"*"}}
			for p := between(t, "perms", 0, 3); p > 0; p-- {
				r.Permissions = append(r.Permissions, pb.Permission(pick(t, "perm", 17)))
			}
			if pick(t, "useful", 3) > 0 {
				r.Permissions = append(r.Permissions, pb.Permission(between(t, "uperm", 8, 15)))
			}
			a.Policy = append(a.Policy, r)
		}
		rv = append(rv, a)
	}
	return rv
}

// resplit gives a request whose account, key and name, joined, are those of another.
func resplit(t *rapid.T, k *kase, q apiReq) apiReq {
	if pick(t, "only key", 3) == 0 {
		q.key = oneOf(t, "other key", polKeys...)
		k.Class("same-by-another-key")
		return q
	}
	parts := rapid.Permutation([]*string{&q.account, &q.key, &q.name}).Draw(t, "order")
	i := pick(t, "pair", 2)
	a, b := parts[i], parts[i+1]
	sep := oneOf(t, "sep", "/", "/", "", ":", "|", ",", " ", "\x00", "-")
	s := *a + sep + *b
	var at []int
	for j := 0; j+len(sep) <= len(s); j++ {
		if j != len(*a) && s[j:j+len(sep)] == sep {
			at = append(at, j)
		}
	}
	if len(at) > 0 {
		k.Class("confusable")
		j := at[pick(t, "at", len(at))]
		*a, *b = s[:j], s[j+len(sep):]
	}
	return q
}

func genAPIReq(t *rapid.T) apiReq {
	q := apiReq{op: pick(t, "op", opCount), account: "1", key: oneOf(t, "key", polKeys...), name: oneOf(t, "name", polNames...)}
	if pick(t, "otheraccount", 3) == 0 {
		q.account = oneOf(t, "account", polAccounts...)
	}
	q.lt = pb.LogType(oneOf(t, "type", 0, 0, 1, 2, 3, 9, -1))
	q.n, q.m = between(t, "n", -1, 4), between(t, "m", -1, 4)
	q.data = []byte(fmt.Sprintf("%s|%s|%d", q.account, q.name, pick(t, "d", 5)))
	q.action = oneOf(t, "action", "set", "update", "delete")
	q.prev = oneOf(t, "prev", refLeafHash(nil), nil, refLeafHash([]byte("x")))
	q.expected = &pb.LeafData{LeafInput: []byte("new")}
	return q
}

func (s *refStore) equal(o *refStore) bool { return reflect.DeepEqual(s.ns, o.ns) }

func TestC13_Static(t *testing.T) {
	check(t, 24000, 400000, func(t *rapid.T) {
		k := newCase("C13")
		rules := genRules(t)
		st := policyWorld().Clone()
		s := newService(st, &instant.Mutator{Writer: st}, &policy.Static{Policy: rules})
		var rest server
		way := pick(t, "way", 10)
		if way == 0 {
			rest = restClient(s, nil)
		}
		var last apiReq
		n := between(t, "requests", 1, 10)
		for i := n; i > 0; i-- {
			q := genAPIReq(t)
			if i < n && pick(t, "confusable", 4) == 0 {
				q = resplit(t, k, last)
			} else if len(rules) > 0 && pick(t, "near", 4) > 0 { // close to what a rule grants
				a := oneOf(t, "rule account", rules...)
				q.account = a.Id
				if len(a.Policy) > 0 {
					r := oneOf(t, "rule", a.Policy...)
					if pick(t, "samekey", 5) > 0 {
						q.key = r.ApiKey
					}
					if pick(t, "samename", 3) == 0 {
						var match []string
						for _, n := range polNames {
							if m, _ := globMatch(r.NameMatch, n); m {
								match = append(match, n)
							}
						}
						if len(match) > 0 {
							q.name = oneOf(t, "matching name", match...)
						}
					}
					if len(r.Permissions) > 0 && pick(t, "sameperm", 4) > 0 {
						p := oneOf(t, "granted", r.Permissions...)
						for op := 0; op < opCount; op++ {
							for lt := pb.LogType(0); lt < 3; lt++ {
								if x, ok := neededPermission(op, lt); ok && x == p && pick(t, "use", 2) == 0 {
									q.op, q.lt = op, lt
								}
							}
						}
					}
				}
			}
			if way == 0 && pick(t, "plain", 8) > 0 {
				q.plain()
			}
			before := st.Clone()
			perm, can := neededPermission(q.op, q.lt)
			want := can && allowed(rules, q.account, q.key, q.name, perm)
			if want || i == n {
				last = q
			}
			// via gives the way the request takes to a service
			via := func(s2 server) server {
				switch {
				case way == 0 && q.restful() && s2 == s:
					return rest
				case way == 0 && q.restful():
					return restClient(s2, nil)
				case way == 1:
					return grpcClient(s2)
				}
				return s2
			}
			if way == 1 {
				k.Class("over-gRPC")
			} else if way == 0 && q.restful() {
				k.Class("over-REST")
			}
			got, err := q.do(via(s))
			if !want {
				k.Class("denied")
				if code(err) != codes.PermissionDenied {
					t.Fatalf("%v answered %v (%v) under %v, want permission denied", q, code(err), err, rules)
				}
				if !isNilMsg(got) {
					t.Fatalf("%v was denied and answered with %v", q, got)
				}
				if !st.equal(before) {
					t.Fatalf("%v was denied and changed stored data", q)
				}
				empty := newRefStore()
				_, err2 := q.do(via(newService(empty, &instant.Mutator{Writer: empty}, &policy.Static{Policy: rules})))
				if err2 == nil || err2.Error() != err.Error() {
					t.Fatalf("%v: the refusal depends on what is stored: %v / %v", q, err, err2)
				}
				for _, a := range rules {
					if a.Id == q.account && len(a.Policy) > 0 {
						k.NT("denied-" + opNames[q.op])
					}
				}
			} else {
				k.NT("allowed-" + opNames[q.op])
				w, werr := q.do(newService(before, &instant.Mutator{Writer: before}, nil))
				if class(err) != class(werr) {
					t.Fatalf("%v is allowed by %v and answered %v (%v), without a policy %v", q, rules, code(err), err, code(werr))
				}
				if err == nil && q.op != opSet && !proto.Equal(normal(got), normal(w)) {
					t.Fatalf("%v is allowed by %v and answered %v, without a policy %v", q, rules, got, w)
				}
				if q.op != opSet && !st.equal(before) {
					t.Fatalf("%v had another effect than without a policy", q)
				}
				if err == nil && q.op == opSet && st.size() != before.size() {
					// timestamps differ, so compare how much was written
					t.Fatalf("%v wrote %d values, without a policy %d", q, st.size(), before.size())
				}
			}
			k.Op("%v", q)
		}
		k.Op("%v", rules)
		k.Done()
	})
}

func (s *refStore) size() int {
	n := 0
	for _, m := range s.ns {
		n += len(m)
	}
	return n
}

type recordingOracle struct {
	calls []string
	err   error
}

func (o *recordingOracle) VerifyAllowed(ctx context.Context, account, apiKey, objectName string, p pb.Permission) (*verifiable.AccessModifier, error) {
	o.calls = append(o.calls, fmt.Sprintf("%q %q %q %d", account, apiKey, objectName, p))
	if o.err != nil {
		return nil, o.err
	}
	return &verifiable.AccessModifier{FieldFilter: verifiable.AllFields}, nil
}

// What a policy implementation of one's own is asked, and that its refusals are obeyed whatever their type.
func TestC13_Oracle(t *testing.T) {
	check(t, 12000, 200000, func(t *rapid.T) {
		k := newCase("C13")
		st := policyWorld().Clone()
		before := st.Clone()
		o := &recordingOracle{}
		switch pick(t, "verdict", 4) {
		case 0:
			o.err = verifiable.ErrNotAuthorized
		case 1:
			o.err = verifiable.ErrNotFound
		case 2:
			o.err = fmt.Errorf("database of keys is down")
		}
		q := genAPIReq(t)
		q.account = string(genBytes(false).Draw(t, "acct"))
		q.key = string(genBytes(false).Draw(t, "apikey"))
		got, err := q.do(newService(st, &instant.Mutator{Writer: st}, o))
		perm, can := neededPermission(q.op, q.lt)
		if can {
			if want := fmt.Sprintf("%q %q %q %d", q.account, q.key, q.name, perm); len(o.calls) == 0 || o.calls[0] != want {
				t.Fatalf("%v asked the policy %v, want %s", q, o.calls, want)
			}
			for _, c := range o.calls {
				if c != o.calls[0] {
					t.Fatalf("%v asked the policy %v", q, o.calls)
				}
			}
		}
		if o.err != nil || !can {
			k.NT("refused-" + opNames[q.op])
			if code(err) != codes.PermissionDenied || !isNilMsg(got) || !st.equal(before) {
				t.Fatalf("%v refused by the policy with %v: %v %v", q, o.err, err, got)
			}
		} else {
			k.NT("granted-" + opNames[q.op])
			if code(err) == codes.PermissionDenied {
				t.Fatalf("%v granted by the policy: %v", q, err)
			}
		}
		k.Op("%v %v", q, o.err)
		k.Done()
	})
}

// ---- C14 ----

const redacted = "***REDACTED*** Hash: "

// genJSON draws JSON values; every string and key in it contains secret.
func genJSON(t *rapid.T, depth int, secret string) any {
	n := 7
	if depth <= 0 {
		n = 5
	}
	switch pick(t, "json", n) {
	case 0:
		return secret + oneOf(t, "str", "", "x", "日本", "\"quoted\"", "\n", "é", "<&>")
	case 1:
		return float64(pick(t, "num", 2000)) / 4
	case 2:
		return nil
	case 3:
		return rapid.Bool().Draw(t, "b")
	case 4:
		return secret
	case 5:
		l := []any{}
		for i := pick(t, "len", 4); i > 0; i-- {
			l = append(l, genJSON(t, depth-1, secret))
		}
		return l
	default:
		m := map[string]any{}
		for i := pick(t, "len", 4); i > 0; i-- {
			m[secret+oneOf(t, "k", "a", "b", "c d", "")] = genJSON(t, depth-1, secret)
		}
		return m
	}
}

var fieldPool = []string{"name", "dob", "ssn", "a", "n", "Name", "naïve", "x.y", "name2", "*x", "value", "leaf_input"}

type restrictedDoc struct {
	leaf   *pb.LeafData
	fields map[string]any
	secret map[string]string
}

func genDoc(t *rapid.T, k *kase, serial int) *restrictedDoc {
	d := &restrictedDoc{fields: map[string]any{}, secret: map[string]string{}}
	o := map[string]any{}
	for i := pick(t, "fields", 7); i > 0; i-- {
		f := oneOf(t, "field", fieldPool...)
		s := fmt.Sprintf("SECRET%dof%q!", serial, f)
		s = fmt.Sprintf("S%xE", []byte(s))
		d.secret[f] = s
		o[f] = genJSON(t, 2, s)
	}
	o["serial"] = fmt.Sprintf("serial-%d", serial) // makes documents distinct
	d.secret["serial"] = fmt.Sprintf("serial-%d", serial)
	b, err := json.Marshal(o)
	noErr(t, err, "json")
	switch pick(t, "form", 3) {
	case 0:
		d.leaf, err = verifiable.CreateJSONLeafData(b)
	case 1:
		if rapid.Bool().Draw(t, "indent") {
			var x bytes.Buffer
			json.Indent(&x, b, "", "\t")
			b = x.Bytes()
		}
		d.leaf, err = verifiable.CreateJSONLeafData(b)
	default:
		k.Class("redactable")
		d.leaf, err = verifiable.CreateRedactableJSONLeafData(b)
	}
	noErr(t, err, "leaf data")
	noErr(t, json.Unmarshal(d.leaf.ExtraData, &d.fields), "leaf data")
	return d
}

// checkFiltered compares data given to a reader allowed only these fields with the document.
func checkFiltered(t *rapid.T, k *kase, d *restrictedDoc, extra []byte, whole []byte, fields []string, where string) {
	allow := map[string]bool{}
	for _, f := range fields {
		allow[f] = true
	}
	var got map[string]any
	if err := json.Unmarshal(extra, &got); err != nil {
		t.Fatalf("%s: %q is not JSON", where, extra)
	}
	if len(got) != len(d.fields) {
		t.Fatalf("%s: fields %v, want those of %s", where, got, d.leaf.ExtraData)
	}
	for f, v := range d.fields {
		if allow[f] {
			k.Class("field-kept")
			if !reflect.DeepEqual(got[f], v) {
				t.Fatalf("%s: allowed field %q is %v, want %v", where, f, got[f], v)
			}
			continue
		}
		k.NT("field-redacted")
		h, err := objecthash.ObjectHashWithStdRedaction(v)
		noErr(t, err, "hash")
		if got[f] != redacted+hex.EncodeToString(h) {
			t.Fatalf("%s: field %q is %v, want its redaction", where, f, got[f])
		}
		if s := []byte(d.secret[f]); len(s) > 0 && (bytes.Contains(whole, s) || bytes.Contains(extra, s)) {
			t.Fatalf("%s: contents of field %q are in the response", where, f)
		}
	}
}

func wire(t tb, m proto.Message) []byte {
	b, err := proto.Marshal(m)
	noErr(t, err, "marshal")
	return b
}

func TestC14_Fields(t *testing.T) {
	check(t, 12000, 200000, func(t *rapid.T) {
		k := newCase("C14")
		st := newRefStore()
		fields := []string{}
		for i := pick(t, "allowed", 4); i > 0; i-- {
			fields = append(fields, oneOf(t, "allow", fieldPool...))
		}
		rule := func(key string, f []string) *pb.AccessPolicy {
			return &pb.AccessPolicy{ApiKey: key, NameMatch: "*", AllowedFields: f, Permissions: []pb.Permission{pb.Permission_PERM_ALL_PERMISSIONS}}
		}
		s := newService(st, &instant.Mutator{Writer: st}, &policy.Static{Policy: []*pb.ResourceAccount{{Id: "1", Policy: []*pb.AccessPolicy{
			rule("writer", []string{"*"}), rule("reader", fields)}}}})
		w := client(s, "1", "writer")
		r := client(s, "1", "reader")
		var docs []*restrictedDoc
		type mutn struct {
			doc    *restrictedDoc
			action string
			key    []byte
		}
		var muts []mutn
		cur := map[string]*restrictedDoc{}
		var past []map[string]*restrictedDoc // contents at each size
		keys := [][]byte{[]byte("k0"), []byte("k1"), []byte("k2"), []byte("never")}
		for i := between(t, "n", 1, 5); i > 0; i-- {
			var d *restrictedDoc
			if len(docs) > 0 && pick(t, "again", 4) == 0 {
				d = docs[pick(t, "which", len(docs))]
			} else {
				d = genDoc(t, k, len(docs))
				docs = append(docs, d)
			}
			_, err := w.VerifiableLog("log").Add(bg, d.leaf)
			noErr(t, err, "add")
			key := keys[pick(t, "key", 3)]
			switch pick(t, "action", 6) {
			case 4, 5:
				prev, applies := refLeafHash(nil), true
				if c := cur[string(key)]; c != nil {
					prev = refLeafHash(c.leaf.LeafInput)
				}
				if pick(t, "stale", 3) == 0 {
					prev, applies = oneOf(t, "prev", nil, refLeafHash([]byte("other")), []byte{1}), false
				}
				_, err = w.VerifiableMap("map").Update(bg, key, d.leaf, prev)
				muts = append(muts, mutn{d, "update", key})
				if applies {
					cur[string(key)] = d
					k.NT("update")
				} else {
					k.NT("update-refused")
				}
			case 0:
				_, err = w.VerifiableMap("map").Delete(bg, key)
				muts = append(muts, mutn{nil, "delete", key})
				delete(cur, string(key))
				k.NT("delete")
			default:
				_, err = w.VerifiableMap("map").Set(bg, key, d.leaf)
				muts = append(muts, mutn{d, "set", key})
				cur[string(key)] = d
			}
			noErr(t, err, "mutate")
			past = append(past, maps.Clone(cur))
			k.Op("%s %s %s", muts[len(muts)-1].action, key, d.leaf.ExtraData)
		}
		sort.Strings(fields)
		// the log
		for _, who := range [][]*verifiable.Account{{w, r}, {r, w}, {w, r, w}}[pick(t, "readers", 3)] {
			full := who == w
			es, err := s.LogFetchEntries(bg, &pb.LogFetchEntriesRequest{Log: &pb.LogRef{Account: accRef(full), Name: "log"}})
			noErr(t, err, "entries for %v", fields)
			if len(es.Values) != len(docs) {
				t.Fatalf("%d entries, want %d", len(es.Values), len(docs))
			}
			for i, e := range es.Values {
				if full {
					eqLeaf(t, e, docs[i].leaf, "entry %d for a reader of all fields", i)
					continue
				}
				eqBytes(t, e.LeafInput, docs[i].leaf.LeafInput, "leaf input of entry %d", i)
				noErr(t, verifiable.ValidateJSONLeafData(bg, e), "validating redacted entry %d", i)
				checkFiltered(t, k, docs[i], e.ExtraData, wire(t, e), fields, fmt.Sprintf("entry %d for %q", i, fields))
			}
			// map values
			for _, key := range keys {
				size := between(t, "size", 0, int64(len(past)))
				v, err := s.MapGetValue(bg, &pb.MapGetValueRequest{Map: &pb.MapRef{Account: accRef(full), Name: "map"}, Key: key, TreeSize: size})
				noErr(t, err, "value of %s at %d for %v", key, size, fields)
				d := cur[string(key)]
				if size > 0 {
					d = past[size-1][string(key)]
				}
				switch {
				case d == nil:
					k.Class("absent")
					if len(v.GetValue().GetLeafInput()) != 0 || len(v.GetValue().GetExtraData()) != 0 {
						t.Fatalf("absent key %s has value %v", key, v.Value)
					}
				case full:
					eqLeaf(t, v.Value, d.leaf, "value of %s for a reader of all fields", key)
				default:
					eqBytes(t, v.Value.LeafInput, d.leaf.LeafInput, "value of %s", key)
					noErr(t, verifiable.ValidateJSONLeafData(bg, v.Value), "validating redacted value of %s", key)
					checkFiltered(t, k, d, v.Value.ExtraData, wire(t, v.Value), fields, fmt.Sprintf("value of %s for %q", key, fields))
				}
				head, err := who.VerifiableMap("map").TreeHead(bg, size)
				noErr(t, err, "map head")
				noErr(t, verifiable.VerifyMapInclusionProof(v, key, head), "verifying the value of %s for a reader of %v", key, fields)
			}
			// mutation log
			ms, err := s.LogFetchEntries(bg, &pb.LogFetchEntriesRequest{Log: &pb.LogRef{Account: accRef(full), Name: "map", LogType: pb.LogType_STRUCT_TYPE_MUTATION_LOG}})
			noErr(t, err, "mutation log entries for %v", fields)
			if len(ms.Values) != len(muts) {
				t.Fatalf("%d mutations, want %d", len(ms.Values), len(muts))
			}
			for i, e := range ms.Values {
				noErr(t, verifiable.ValidateJSONLeafDataFromMutation(e), "validating mutation %d for %v", i, fields)
				m := decodeJSON[jsonMutation](t, e.ExtraData, "mutation")
				if m.Action != muts[i].action || !bytes.Equal(m.Key, muts[i].key) {
					t.Fatalf("mutation %d for %v is %s", i, fields, e.ExtraData)
				}
				if i == 0 || pick(t, "alone", 4) == 0 {
					one, err := who.VerifiableMap("map").MutationLog().Entry(bg, int64(i))
					noErr(t, err, "mutation %d for %v", i, fields)
					eqLeaf(t, one, e, "mutation %d for %q read alone", i, fields)
				}
				d := muts[i].doc
				if d == nil {
					continue
				}
				eqBytes(t, m.Value.LeafInput, d.leaf.LeafInput, "leaf input of the value of mutation %d", i)
				if full {
					eqBytes(t, m.Value.ExtraData, d.leaf.ExtraData, "extra data of the value of mutation %d for a reader of all fields", i)
				} else {
					checkFiltered(t, k, d, m.Value.ExtraData, wire(t, e), fields, fmt.Sprintf("mutation %d for %q", i, fields))
				}
			}
			// a verifying audit by this reader
			ns, err := who.VerifiableMap("map").VerifiedLatestMapState(bg, nil)
			noErr(t, err, "map state for %v", fields)
			noErr(t, who.VerifiableMap("map").VerifyMap(bg, nil, ns, verifiable.ValidateJSONLeafData, nil), "map audit by a reader of %v", fields)
			lh, err := who.VerifiableLog("log").TreeHead(bg, 0)
			noErr(t, err, "log head for %v", fields)
			noErr(t, who.VerifiableLog("log").VerifyEntries(bg, nil, lh, func(ctx context.Context, i int64, e *pb.LeafData) error {
				return verifiable.ValidateJSONLeafData(ctx, e)
			}), "log audit by a reader of %v", fields)
		}
		// data that is not JSON cannot be filtered, so a restricted reader gets none of it
		if pick(t, "raw", 3) == 0 {
			k.NT("not-json")
			secret := []byte("RAWSECRET-that-has-no-fields")
			raw := &pb.LeafData{LeafInput: []byte("raw"), ExtraData: secret}
			shape := pick(t, "shape", 8)
			if x := []string{"", "{not JSON%s", `["%s"]`, `"%s"`, `[{"name":"%s"}]`, `[{"a":1},{"x":"%s"}]`, `{"x":"%s"}{}`, " \t"}[shape]; x != "" {
				k.Class("not-an-object")
				raw.Format, raw.ExtraData = pb.DataFormat_JSON, []byte(strings.Replace(x, "%s", string(secret), 1))
			} else if rapid.Bool().Draw(t, "unknown format") {
				raw.Format = 7
			}
			if pick(t, "no leaf input", 4) == 0 {
				raw.LeafInput = nil
			}
			_, err := w.VerifiableLog("raw").Add(bg, raw)
			noErr(t, err, "add")
			_, err = w.VerifiableMap("raw").Set(bg, []byte("k"), raw)
			noErr(t, err, "set")
			e, err := r.VerifiableLog("raw").Entry(bg, 0)
			if err == nil && bytes.Contains(wire(t, e), secret) {
				t.Fatalf("a reader of %q was given an unfiltered entry %v", fields, e)
			}
			v, err := r.VerifiableMap("raw").Get(bg, []byte("k"), 0)
			if err == nil && bytes.Contains(wire(t, v), secret) {
				t.Fatalf("a reader of %q was given an unfiltered value %v", fields, v)
			}
			e, err = r.VerifiableMap("raw").MutationLog().Entry(bg, 0)
			if err == nil && (bytes.Contains(wire(t, e), secret) || bytes.Contains(decodeJSON[jsonMutation](t, e.ExtraData, "mutation").extra(), secret)) {
				t.Fatalf("a reader of %q was given an unfiltered mutation %v", fields, e)
			}
			e, err = w.VerifiableLog("raw").Entry(bg, 0)
			noErr(t, err, "entry for a reader of all fields")
			eqLeaf(t, e, raw, "raw entry for a reader of all fields")
		}
		k.Op("%q", fields)
		k.Done()
	})
}

func accRef(full bool) *pb.AccountRef {
	if full {
		return &pb.AccountRef{Id: "1", ApiKey: "writer"}
	}
	return &pb.AccountRef{Id: "1", ApiKey: "reader"}
}

func (m *jsonMutation) extra() []byte {
	if m.Value == nil {
		return nil
	}
	return m.Value.ExtraData
}
