package harness

import (
	"bytes"
	"fmt"
	"math"
	"testing"

	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"pgregory.net/rapid"
)

// ---- proofs built from the RFC 6962 recursion with arbitrary subtree hashes, for any 64-bit size ----

type hashSource struct {
	seed uint64
	n    uint64
}

func (h *hashSource) next() []byte {
	h.n++
	return expand(h.seed*1000003+h.n, 32)
}

// synthInclusion returns a valid audit path for leaf m of n and its root.
func synthInclusion(h *hashSource, m, n int64, leaf []byte) ([][]byte, []byte) {
	if n == 1 {
		return nil, leaf
	}
	k := refSplit(n)
	s := h.next()
	if m < k {
		p, r := synthInclusion(h, m, k, leaf)
		return append(p, s), refNodeHash(r, s)
	}
	p, r := synthInclusion(h, m-k, n-k, leaf)
	return append(p, s), refNodeHash(s, r)
}

// synthConsistency returns a valid consistency path with its two roots.
func synthConsistency(h *hashSource, m, n int64, b bool) (path [][]byte, old, new []byte) {
	if m == n {
		s := h.next()
		if b {
			return nil, s, s
		}
		return [][]byte{s}, s, s
	}
	k := refSplit(n)
	if m <= k {
		p, o, w := synthConsistency(h, m, k, b)
		s := h.next()
		return append(p, s), o, refNodeHash(w, s)
	}
	p, o, w := synthConsistency(h, m-k, n-k, false)
	s := h.next()
	return append(p, s), refNodeHash(s, o), refNodeHash(s, w)
}

// genSize draws a tree size from 1 up to 2^63-1, often near powers of two.
func genSize(t *rapid.T, label string) int64 {
	switch pick(t, label+"class", 4) {
	case 0:
		return between(t, label, 1, 20)
	case 1:
		return between(t, label, 21, 5000)
	case 2:
		v := uint64(1)<<pick(t, label+"pow", 64) + uint64(pick(t, label+"d", 5)) - 2
		if v == 0 || v > math.MaxInt64 {
			v = math.MaxInt64
		}
		return int64(v)
	default:
		sh := uint(pick(t, label+"shift", 63))
		return 1 + int64((rapid.Uint64().Draw(t, label)&math.MaxInt64)>>sh)%math.MaxInt64
	}
}

// genBelow draws from [lo,n).
func genBelow(t *rapid.T, label string, lo, n int64) int64 {
	if n-lo <= 1 {
		return lo
	}
	switch pick(t, label+"class", 5) {
	case 0:
		return lo + int64(pick(t, label+"off", int(min(n-lo, 8))))
	case 1:
		return n - 1 - int64(pick(t, label+"off", int(min(n-lo, 8))))
	case 2:
		v := int64(1)<<pick(t, label+"pow", 62) + int64(pick(t, label+"d", 3)) - 1
		if v >= lo && v < n {
			return v
		}
		return lo
	default:
		return lo + int64(rapid.Uint64().Draw(t, label)%uint64(n-lo))
	}
}

func clonePath(p [][]byte) [][]byte {
	rv := make([][]byte, len(p))
	for i := range p {
		rv[i] = append([]byte{}, p[i]...)
	}
	return rv
}

// tamperPath applies one alteration to a path of hashes.
func tamperPath(t *rapid.T, k *kase, p [][]byte, extra ...[]byte) [][]byte {
	p = clonePath(p)
	any32 := func() []byte {
		c := [][]byte{expand(rapid.Uint64().Draw(t, "rnd"), 32), make([]byte, 32), refEmptyLeaf}
		c = append(c, extra...)
		c = append(c, p...)
		return append([]byte{}, c[pick(t, "which", len(c))]...)
	}
	kind := pick(t, "tamper", 12)
	if len(p) == 0 {
		kind = 5
	}
	switch kind {
	case 0, 1:
		i := pick(t, "elem", len(p))
		p[i] = flip(t, p[i])
		k.Class("bit-flip")
	case 2:
		p = p[:len(p)-1-pick(t, "n", len(p))]
		k.Class("truncated")
	case 3:
		p = p[1+pick(t, "n", len(p)):]
		k.Class("truncated-front")
	case 4:
		i := pick(t, "elem", len(p))
		p = append(p[:i], p[i+1:]...)
		k.Class("element-dropped")
	case 5:
		p = append(p, any32())
		k.Class("extended")
	case 6:
		i := pick(t, "at", len(p)+1)
		p = append(p[:i:i], append([][]byte{any32()}, p[i:]...)...)
		k.Class("element-inserted")
	case 7:
		i, j := pick(t, "i", len(p)), pick(t, "j", len(p))
		p[i], p[j] = p[j], p[i]
		k.Class("swapped")
	case 8, 9: // what is hashed can stay the same
		i, j := pick(t, "i", len(p)), pick(t, "j", len(p))
		if i == j {
			j = (i + 1) % len(p)
		}
		n := oneOf(t, "bytes", 1, 2, 16, 31, 32)
		n = min(n, len(p[i]))
		switch {
		case i == j && rapid.Bool().Draw(t, "longer"):
			p[i] = append(p[i], refLeafHash(any32())[:n]...)
		case i == j:
			p[i] = p[i][n:]
		case rapid.Bool().Draw(t, "front"):
			p[i], p[j] = p[i][n:], append(p[j], p[i][:n]...)
		default:
			p[i], p[j] = p[i][:len(p[i])-n], append(append([]byte{}, p[i][len(p[i])-n:]...), p[j]...)
		}
		k.Class("hash-length")
	default:
		p[pick(t, "elem", len(p))] = any32()
		k.Class("replaced")
	}
	return p
}

func flip(t *rapid.T, h []byte) []byte {
	h = append([]byte{}, h...)
	if len(h) == 0 {
		return []byte{1}
	}
	h[pick(t, "byte", len(h))] ^= 1 << pick(t, "bit", 8)
	return h
}

func nearby(t *rapid.T, n int64) int64 {
	switch pick(t, "near", 8) {
	case 0:
		return n + 1
	case 1:
		return n - 1
	case 2:
		return n ^ 1<<pick(t, "bit", 63)
	case 3:
		return -n
	case 4:
		return oneOf[int64](t, "odd", 0, -1, 1, 2, math.MaxInt64, math.MinInt64, math.MaxInt64-1)
	case 5:
		return n / 2
	default:
		return genSize(t, "other")
	}
}

// lenientInclusion computes the root a verifier without length checks would arrive at.
func lenientInclusion(t *rapid.T, index, size int64, path [][]byte, leaf []byte) []byte {
	fn, sn := uint64(index), uint64(size-1)
	alt := rapid.Bool().Draw(t, "alt") // how it treats elements beyond the top
	r := leaf
	for _, p := range path {
		if fn&1 == 1 || (fn == sn && (fn > 0 || alt)) {
			r = refNodeHash(p, r)
			for fn&1 == 0 && fn != 0 {
				fn, sn = fn>>1, sn>>1
			}
		} else {
			r = refNodeHash(r, p)
		}
		fn, sn = fn>>1, sn>>1
	}
	return r
}

// lenientConsistency does the same for the two roots of a consistency proof.
func lenientConsistency(t *rapid.T, first, second int64, path [][]byte, r1 []byte) ([]byte, []byte) {
	if first&(first-1) == 0 {
		path = append([][]byte{r1}, path...)
	}
	if len(path) == 0 {
		return r1, r1
	}
	alt := rapid.Bool().Draw(t, "alt")
	fn, sn := uint64(first-1), uint64(second-1)
	for fn&1 == 1 {
		fn, sn = fn>>1, sn>>1
	}
	fr, sr := path[0], path[0]
	for _, c := range path[1:] {
		if fn&1 == 1 || (fn == sn && (fn > 0 || alt)) {
			fr, sr = refNodeHash(c, fr), refNodeHash(c, sr)
			for fn&1 == 0 && fn != 0 {
				fn, sn = fn>>1, sn>>1
			}
		} else {
			sr = refNodeHash(sr, c)
		}
		fn, sn = fn>>1, sn>>1
	}
	return fr, sr
}

func verdict(err error) bool { return err == nil }

// inclusionCase is a proof, perhaps altered, and what a verifier has to make of it.
type inclusionCase struct {
	pSize, hSize, pIndex int64
	path                 [][]byte
	leaf, root           []byte
	n                    int // alterations
	orig                 string
	want                 bool
}

// genInclusion: sizes and indices are up to limit when it is not 0.
func genInclusion(t *rapid.T, k *kase, limit int64) *inclusionCase {
	h := &hashSource{seed: uint64(pick(t, "seed", 1000))}
	size := genSize(t, "size")
	if limit > 0 {
		size = 1 + (size-1)%(limit-1)
	}
	index := genBelow(t, "index", 0, size)
	leaf := h.next()
	path, root := synthInclusion(h, index, size, leaf)
	orig := fmt.Sprint(index, size)
	pSize, hSize, pIndex := size, size, index
	if !refVerifyInclusion(index, size, path, leaf, root) {
		t.Fatalf("reference verifier rejects a constructed proof (%d of %d)", index, size)
	}
	n := pick(t, "alterations", 3)
	for i := 0; i < n; i++ {
		switch pick(t, "alter", 10) {
		case 0, 1, 2, 3:
			path = tamperPath(t, k, path, leaf, root)
		case 4:
			pIndex = nearby(t, pIndex)
			k.Class("other-index")
		case 5:
			pSize = nearby(t, pSize)
			hSize = pSize
			k.Class("other-size")
		case 6:
			if rapid.Bool().Draw(t, "which") {
				pSize = nearby(t, pSize)
			} else {
				hSize = nearby(t, hSize)
			}
			k.Class("size-mismatch")
		case 7:
			if len(leaf) == 32 {
				leaf = flip(t, leaf)
			}
			if len(leaf) == 32 && pick(t, "no hash", 4) == 0 {
				leaf = oneOf(t, "length", nil, leaf[:31], leaf[:1], append(leaf[:32:32], 0), append(leaf[:32:32], leaf...))
			}
			k.Class("other-leaf")
		case 8:
			root = flip(t, root)
			k.Class("other-root")
		default: // make the root what a lenient verifier would compute
			root = lenientInclusion(t, pIndex, pSize, path, leaf)
			k.Class("root-refitted")
		}
	}
	if limit > 0 {
		pSize, hSize, pIndex = pSize%limit, hSize%limit, pIndex%limit
	}
	want := pSize == hSize && refVerifyInclusion(pIndex, pSize, path, leaf, root)
	return &inclusionCase{pSize, hSize, pIndex, path, leaf, root, n, orig, want}
}

func (c *inclusionCase) done(t *rapid.T, k *kase, got bool) {
	if got != c.want {
		t.Fatalf("inclusion of %d in %d (head %d) with %d elements (built for %v): client accepts=%v, RFC 9162 accepts=%v", c.pIndex, c.pSize, c.hSize, len(c.path), c.orig, got, c.want)
	}
	k.Op("inclusion %d/%d/%d len=%d alterations=%d accept=%v", c.pIndex, c.pSize, c.hSize, len(c.path), c.n, c.want)
	if c.want {
		k.NT("accepted")
	} else {
		k.NT("rejected")
	}
	k.Done()
}

func TestC05_Inclusion(t *testing.T) {
	check(t, 500000, 3000000, func(t *rapid.T) {
		k := newCase("C05")
		c := genInclusion(t, k, 0)
		c.done(t, k, verdict(verifiable.VerifyLogInclusionProof(&pb.LogInclusionProofResponse{LeafIndex: c.pIndex, TreeSize: c.pSize, AuditPath: c.path}, c.leaf,
			&pb.LogTreeHashResponse{TreeSize: c.hSize, RootHash: c.root})))
	})
}

type consistencyCase struct {
	pf, ps, hf, hs int64
	path           [][]byte
	r1, r2         []byte
	n              int
	want           bool
}

func genConsistency(t *rapid.T, k *kase, limit int64) *consistencyCase {
	h := &hashSource{seed: uint64(pick(t, "seed", 1000))}
	second := genSize(t, "size")
	if limit > 0 {
		second = 1 + (second-1)%(limit-1)
	}
	if second < 2 {
		second = 2
	}
	first := genBelow(t, "first", 1, second)
	path, r1, r2 := synthConsistency(h, first, second, true)
	if !refVerifyConsistency(first, second, path, r1, r2) {
		t.Fatalf("reference verifier rejects a constructed proof (%d to %d)", first, second)
	}
	pf, ps, hf, hs := first, second, first, second
	n := pick(t, "alterations", 3)
	for i := 0; i < n; i++ {
		switch pick(t, "alter", 10) {
		case 0, 1, 2, 3:
			path = tamperPath(t, k, path, r1, r2)
		case 4:
			pf = nearby(t, pf)
			hf = pf
			k.Class("other-first")
		case 5:
			ps = nearby(t, ps)
			hs = ps
			k.Class("other-second")
		case 6:
			switch pick(t, "which", 4) {
			case 0:
				pf = nearby(t, pf)
			case 1:
				ps = nearby(t, ps)
			case 2:
				hf = nearby(t, hf)
			case 3:
				hs = nearby(t, hs)
			}
			k.Class("size-mismatch")
		case 7:
			r1 = flip(t, r1)
			k.Class("other-root")
		case 8:
			r2 = flip(t, r2)
			k.Class("other-root")
		default:
			switch pick(t, "swap", 3) {
			case 0:
				r1, r2 = r2, r1
			case 1:
				r2 = r1
			case 2:
				pf, ps, hf, hs, r1, r2 = ps, pf, hs, hf, r2, r1
			}
			k.Class("roots-swapped")
		}
	}
	if pick(t, "refit", 4) == 0 && ps > 0 && pf > 0 {
		r1, r2 = lenientConsistency(t, pf, ps, path, r1)
		k.Class("root-refitted")
	}
	if limit > 0 {
		pf, ps, hf, hs = pf%limit, ps%limit, hf%limit, hs%limit
	}
	want := pf == hf && ps == hs && refVerifyConsistency(pf, ps, path, r1, r2)
	return &consistencyCase{pf, ps, hf, hs, path, r1, r2, n, want}
}

func (c *consistencyCase) done(t *rapid.T, k *kase, got bool) {
	if got != c.want {
		t.Fatalf("consistency %d to %d (heads %d, %d) with %d elements: client accepts=%v, RFC 9162 accepts=%v", c.pf, c.ps, c.hf, c.hs, len(c.path), got, c.want)
	}
	k.Op("consistency %d-%d/%d-%d len=%d alterations=%d accept=%v", c.pf, c.ps, c.hf, c.hs, len(c.path), c.n, c.want)
	if c.want {
		k.NT("accepted")
	} else {
		k.NT("rejected")
	}
	k.Done()
}

func TestC05_Consistency(t *testing.T) {
	check(t, 500000, 3000000, func(t *rapid.T) {
		k := newCase("C05")
		c := genConsistency(t, k, 0)
		c.done(t, k, verdict(verifiable.VerifyLogConsistencyProof(&pb.LogConsistencyProofResponse{FromSize: c.pf, TreeSize: c.ps, AuditPath: c.path},
			&pb.LogTreeHashResponse{TreeSize: c.hf, RootHash: c.r1}, &pb.LogTreeHashResponse{TreeSize: c.hs, RootHash: c.r2})))
	})
}

// genWildBytes draws hash-like values of any length.
func genWildBytes(t *rapid.T) []byte {
	switch pick(t, "wild", 6) {
	case 0:
		return nil
	case 1:
		return []byte{}
	case 2:
		return expand(uint64(pick(t, "seed", 50)), oneOf(t, "len", 1, 31, 33, 64, 300))
	default:
		return expand(uint64(pick(t, "seed", 50)), 32)
	}
}

func genWildPath(t *rapid.T, maxN int) [][]byte {
	n := oneOf(t, "n", 0, 1, 2, 3, 5, 8, 20, 63, 64, 65, 100, 255, 256, 257, 300)
	n = min(n, maxN)
	if n == 0 && rapid.Bool().Draw(t, "nil") {
		return nil
	}
	rv := make([][]byte, n)
	for i := range rv {
		if i < 4 || pick(t, "default", 4) == 0 {
			rv[i] = genWildBytes(t)
		} else {
			rv[i] = expand(uint64(i), 32)
		}
	}
	return rv
}

func genWildSize(t *rapid.T) int64 {
	switch pick(t, "wildsize", 4) {
	case 0:
		return oneOf[int64](t, "odd", 0, -1, 1, 2, 3, math.MaxInt64, math.MinInt64, math.MaxInt64-1, math.MinInt64+1, 1<<62, 1<<62+1, 1<<62-1)
	case 1:
		return nearby(t, genSize(t, "s"))
	default:
		return genSize(t, "s")
	}
}

// TestC05_Malformed: any proof and head is answered (a crash or hang fails the case).
func TestC05_Malformed(t *testing.T) {
	check(t, 200000, 1200000, func(t *rapid.T) {
		k := newCase("C05")
		path := genWildPath(t, 300)
		a, b := genWildSize(t), genWildSize(t)
		c, d := a, b
		if pick(t, "mismatch", 4) == 0 {
			c, d = genWildSize(t), genWildSize(t)
		}
		r1, r2, leaf := genWildBytes(t), genWildBytes(t), genWildBytes(t)
		if pick(t, "refit", 4) == 0 && len(path) == 0 {
			r1 = leaf
		}
		accept := verdict(verifiable.VerifyLogInclusionProof(&pb.LogInclusionProofResponse{LeafIndex: a, TreeSize: b, AuditPath: path}, leaf,
			&pb.LogTreeHashResponse{TreeSize: d, RootHash: r1}))
		if want := b == d && refVerifyInclusion(a, b, path, leaf, r1); accept != want {
			t.Fatalf("accepted inclusion of %d in %d (head %d): %v", a, b, d, accept)
		}
		accept = verdict(verifiable.VerifyLogConsistencyProof(&pb.LogConsistencyProofResponse{FromSize: a, TreeSize: b, AuditPath: path},
			&pb.LogTreeHashResponse{TreeSize: c, RootHash: r1}, &pb.LogTreeHashResponse{TreeSize: d, RootHash: r2}))
		if want := a == c && b == d && refVerifyConsistency(a, b, path, r1, r2); accept != want {
			t.Fatalf("accepted consistency %d to %d (heads %d, %d): %v", a, b, c, d, accept)
		}
		k.Op("malformed sizes %d %d %d %d len=%d roots %d/%d", a, b, c, d, len(path), len(r1), len(r2))
		k.NT("malformed")
		k.Done()
	})
}

// ---- map proofs ----

// refAcceptsMap is the definition of C09: missing or empty elements are defaults.
func refAcceptsMap(key, leafInput []byte, path [][]byte, root []byte, pSize, hSize int64) bool {
	return pSize == hSize && refVerifyMap(key, leafInput, path, root)
}

func TestC09_Differential(t *testing.T) {
	check(t, 20000, 100000, func(t *rapid.T) {
		k := newCase("C09")
		// a genuine tree from generated contents
		pool := genKeyPool(12).Draw(t, "pool")
		s := newRefSparse()
		content := map[string]*pb.LeafData{}
		for _, key := range pool {
			if pick(t, "present", 4) > 0 {
				v := leafFor(pick(t, "value", 41))
				content[string(key)] = v
				s.Set(key, refLeafHash(v.LeafInput))
			}
		}
		size := genSize(t, "size")
		for round := 0; round < 4; round++ {
			key := pool[pick(t, "key", len(pool))]
			path := clonePath(s.Path(key))
			switch pick(t, "form", 4) { // default elements may be missing or empty
			case 0:
			case 1, 2:
				for i := range path {
					if bytes.Equal(path[i], refDefaults[i+1]) {
						path[i] = nil
					}
				}
			default:
				for i := range path {
					if bytes.Equal(path[i], refDefaults[i+1]) && i%3 > 0 {
						path[i] = []byte{}
					}
				}
			}
			if pick(t, "trim", 4) == 0 {
				for len(path) > 0 && (len(path[len(path)-1]) == 0 || bytes.Equal(path[len(path)-1], refDefaults[len(path)])) {
					path = path[:len(path)-1]
				}
				k.Class("short-path")
			}
			var value *pb.LeafData
			if v := content[string(key)]; v != nil {
				value = v
			} else if rapid.Bool().Draw(t, "emptyvalue") {
				value = &pb.LeafData{}
			}
			root := s.Root()
			pSize, hSize := size, size
			n := pick(t, "alterations", 3)
			for i := 0; i < n; i++ {
				switch pick(t, "alter", 10) {
				case 9:
					if rapid.Bool().Draw(t, "root-length") {
						root = oneOf(t, "odd root", nil, root[:len(root)/2], root[:max(len(root)-1, 0)], append(root[:len(root):len(root)], 0), bytes.Repeat(root, 2))
						k.Class("root-length")
					} else if len(path) > 0 {
						j := pick(t, "elem", len(path))
						e := path[j]
						if len(e) == 0 {
							e = refDefaults[min(j, 255)+1]
						}
						path[j] = oneOf(t, "odd element", []byte{0}, e[:1], e[:len(e)-1], append(e[:len(e):len(e)], 0), bytes.Repeat(e, 2))
						k.Class("element-length")
					}
				case 0:
					if len(path) > 0 {
						j := pick(t, "elem", len(path))
						if len(path[j]) == 32 {
							path[j] = flip(t, path[j])
						} else {
							path[j] = expand(uint64(j), 32)
						}
						k.Class("element-changed")
					}
				case 1:
					var real []int
					for j := range path {
						if len(path[j]) > 0 {
							real = append(real, j)
						}
					}
					if len(real) > 0 {
						path[real[pick(t, "elem", len(real))]] = nil
						k.Class("element-removed")
					}
				case 2:
					path = path[:pick(t, "len", len(path)+1)]
					k.Class("truncated")
				case 3:
					path = append(path, make([][]byte, 1+pick(t, "n", 300))...)
					k.Class("extended")
				case 4:
					key = oneOf(t, "otherkey", pool...)
					k.Class("other-key")
				case 5:
					if rapid.Bool().Draw(t, "nilvalue") {
						value = nil
					} else {
						value = leafFor(pick(t, "value", 41))
					}
					k.Class("other-value")
				case 6:
					root = flip(t, root)
					k.Class("other-root")
				case 7:
					if rapid.Bool().Draw(t, "which") {
						pSize = nearby(t, pSize)
					} else {
						hSize = nearby(t, hSize)
					}
					k.Class("size-mismatch")
				default:
					if len(path) > 1 {
						i, j := pick(t, "i", len(path)), pick(t, "j", len(path))
						path[i], path[j] = path[j], path[i]
						k.Class("swapped")
					}
				}
			}
			if len(path) > 256 { // elements that stand for nothing: only that there is an answer
				path = path[:min(len(path), 256+pick(t, "excess", 40))]
				k.Class("over-long")
				if verdict(verifiable.VerifyMapInclusionProof(&pb.MapGetValueResponse{TreeSize: pSize, AuditPath: path, Value: value}, key,
					&pb.MapTreeHashResponse{RootHash: root, MutationLog: &pb.LogTreeHashResponse{TreeSize: hSize}})) && !refAcceptsMap(key, value.GetLeafInput(), path, root, pSize, hSize) {
					t.Fatalf("accepted an over-long path that does not lead to the root")
				}
				path = path[:256]
			}
			want := refAcceptsMap(key, value.GetLeafInput(), path, root, pSize, hSize)
			got := verdict(verifiable.VerifyMapInclusionProof(&pb.MapGetValueResponse{TreeSize: pSize, AuditPath: path, Value: value}, key,
				&pb.MapTreeHashResponse{RootHash: root, MutationLog: &pb.LogTreeHashResponse{TreeSize: hSize}}))
			if got != want {
				t.Fatalf("value %s for key %s with %d elements, sizes %d/%d after %d alterations: library accepts=%v, definition accepts=%v",
					short(value.GetLeafInput()), short(key), len(path), pSize, hSize, n, got, want)
			}
			k.Op("%s=%s len=%d sizes %d/%d alterations=%d accept=%v", short(key), short(value.GetLeafInput()), len(path), pSize, hSize, n, want)
			if want {
				k.NT("accepted")
			} else {
				k.NT("rejected")
			}
		}
		k.Done()
	})
}

func TestC09_Malformed(t *testing.T) {
	check(t, 60000, 300000, func(t *rapid.T) {
		k := newCase("C09")
		key := genBytes(false).Draw(t, "key")
		path := genWildPath(t, 300)
		var value *pb.LeafData
		if rapid.Bool().Draw(t, "value") {
			value = &pb.LeafData{LeafInput: genWildBytes(t)}
		}
		a := genWildSize(t)
		head := &pb.MapTreeHashResponse{RootHash: genWildBytes(t)}
		if pick(t, "mutlog", 4) > 0 {
			head.MutationLog = &pb.LogTreeHashResponse{TreeSize: a}
			if pick(t, "othersize", 4) == 0 {
				head.MutationLog.TreeSize = genWildSize(t)
			}
		}
		want := head.MutationLog != nil && refAcceptsMap(key, value.GetLeafInput(), path, head.RootHash, a, head.MutationLog.TreeSize)
		got := verdict(verifiable.VerifyMapInclusionProof(&pb.MapGetValueResponse{TreeSize: a, AuditPath: path, Value: value}, key, head))
		if got && !want {
			t.Fatalf("accepted a malformed answer: %d elements, size %d, head %v", len(path), a, head)
		}
		k.Op("malformed %s len=%d size=%d head=%v", short(key), len(path), a, head.MutationLog)
		k.NT("malformed")
		k.Done()
	})
}
