// Package harness holds the generators, reference models and checks.
//
// ref.go: reference definitions, written from RFC 6962 / RFC 9162 and the documented sparse
// Merkle map, sharing no code with the repository.
package harness

import (
	"bytes"
	"crypto/sha256"
	"sort"
)

func refLeafHash(b []byte) []byte {
	h := sha256.Sum256(append([]byte{0}, b...))
	return h[:]
}

func refNodeHash(l, r []byte) []byte {
	h := sha256.New()
	h.Write([]byte{1})
	h.Write(l)
	h.Write(r)
	return h.Sum(nil)
}

// split returns the largest power of two strictly smaller than n (n >= 2).
func refSplit(n int64) int64 {
	k := int64(1)
	for k < n-k { // 2k < n without overflow
		k += k
	}
	return k
}

// refTree is the RFC 6962 tree over a list of leaf hashes.
type refTree struct {
	leaves [][]byte
	memo   map[[2]int64][]byte
	sub    func(lo, hi int64) []byte // if set, used in place of the leaves
}

func (r *refTree) Add(leafHash []byte) { r.leaves = append(r.leaves, leafHash) }
func (r *refTree) Size() int64         { return int64(len(r.leaves)) }

// Sub is MTH(D[lo:hi]).
func (r *refTree) Sub(lo, hi int64) []byte {
	if r.sub != nil {
		return r.sub(lo, hi)
	}
	if hi-lo == 1 {
		return r.leaves[lo]
	}
	if r.memo == nil {
		r.memo = map[[2]int64][]byte{}
	}
	if h, ok := r.memo[[2]int64{lo, hi}]; ok {
		return h
	}
	k := refSplit(hi - lo)
	h := refNodeHash(r.Sub(lo, lo+k), r.Sub(lo+k, hi))
	r.memo[[2]int64{lo, hi}] = h
	return h
}

// Root is MTH(D[0:n]), n >= 1.
func (r *refTree) Root(n int64) []byte { return r.Sub(0, n) }

// Path is PATH(m, D[0:n]) of RFC 6962 2.1.1.
func (r *refTree) Path(m, n int64) [][]byte { return r.path(m, 0, n) }

func (r *refTree) path(m, lo, hi int64) [][]byte {
	n := hi - lo
	if n == 1 {
		return nil
	}
	k := refSplit(n)
	if m < k {
		return append(r.path(m, lo, lo+k), r.Sub(lo+k, hi))
	}
	return append(r.path(m-k, lo+k, hi), r.Sub(lo, lo+k))
}

// Proof is PROOF(m, D[0:n]) of RFC 6962 2.1.2, 0 < m < n.
func (r *refTree) Proof(m, n int64) [][]byte { return r.subProof(m, 0, n, true) }

func (r *refTree) subProof(m, lo, hi int64, b bool) [][]byte {
	n := hi - lo
	if m == n {
		if b {
			return nil
		}
		return [][]byte{r.Sub(lo, hi)}
	}
	k := refSplit(n)
	if m <= k {
		return append(r.subProof(m, lo, lo+k, b), r.Sub(lo+k, hi))
	}
	return append(r.subProof(m-k, lo+k, hi, false), r.Sub(lo, lo+k))
}

func refHashes(l ...[]byte) bool {
	for _, h := range l {
		if len(h) != sha256.Size {
			return false
		}
	}
	return true
}

// refVerifyInclusion is RFC 9162 2.1.3.2; the hashes are those of SHA-256.
func refVerifyInclusion(index, size int64, path [][]byte, leaf, root []byte) bool {
	if index < 0 || size < 0 || index >= size || !refHashes(path...) || !refHashes(leaf) {
		return false
	}
	fn, sn := uint64(index), uint64(size-1)
	r := leaf
	for _, p := range path {
		if sn == 0 {
			return false
		}
		if fn&1 == 1 || fn == sn {
			r = refNodeHash(p, r)
			if fn&1 == 0 {
				for {
					fn >>= 1
					sn >>= 1
					if fn&1 == 1 || fn == 0 {
						break
					}
				}
			}
		} else {
			r = refNodeHash(r, p)
		}
		fn >>= 1
		sn >>= 1
	}
	return sn == 0 && bytes.Equal(r, root)
}

// refVerifyConsistency is RFC 9162 2.1.4.2 for 0 < first < second.
func refVerifyConsistency(first, second int64, path [][]byte, firstRoot, secondRoot []byte) bool {
	if first <= 0 || first >= second || len(path) == 0 || !refHashes(path...) || !refHashes(firstRoot, secondRoot) {
		return false
	}
	if first&(first-1) == 0 {
		path = append([][]byte{firstRoot}, path...)
	}
	fn, sn := uint64(first-1), uint64(second-1)
	for fn&1 == 1 {
		fn >>= 1
		sn >>= 1
	}
	fr, sr := path[0], path[0]
	for _, c := range path[1:] {
		if sn == 0 {
			return false
		}
		if fn&1 == 1 || fn == sn {
			fr = refNodeHash(c, fr)
			sr = refNodeHash(c, sr)
			if fn&1 == 0 {
				for {
					fn >>= 1
					sn >>= 1
					if fn&1 == 1 || fn == 0 {
						break
					}
				}
			}
		} else {
			sr = refNodeHash(sr, c)
		}
		fn >>= 1
		sn >>= 1
	}
	return sn == 0 &&
		bytes.Equal(fr, firstRoot) && bytes.Equal(sr, secondRoot)
}

// ---- sparse Merkle map ----

var (
	refEmptyLeaf = refLeafHash(nil)
	refDefaults  = func() [257][]byte { // refDefaults[d]: empty subtree whose root is at depth d
		var rv [257][]byte
		rv[256] = refLeafHash(nil)
		for i := 255; i >= 0; i-- {
			rv[i] = refNodeHash(rv[i+1], rv[i+1])
		}
		return rv
	}()
)

func refKeyHash(key []byte) [32]byte { return sha256.Sum256(key) }

func refBit(kh *[32]byte, d int) bool { return kh[d/8]>>(7-uint(d%8))&1 == 1 }

type refNodeID struct {
	depth  int
	prefix [32]byte
}

func refPrefix(kh [32]byte, depth int) refNodeID {
	id := refNodeID{depth: depth}
	n := depth / 8
	copy(id.prefix[:n], kh[:n])
	if depth%8 != 0 {
		id.prefix[n] = kh[n] & (0xff << (8 - uint(depth%8)))
	}
	return id
}

// refSparse is the plain 256-level tree: every non-default node is stored.
type refSparse struct {
	nodes map[refNodeID][]byte
}

func newRefSparse() *refSparse { return &refSparse{nodes: map[refNodeID][]byte{}} }

func (s *refSparse) node(id refNodeID) []byte {
	if h, ok := s.nodes[id]; ok {
		return h
	}
	return refDefaults[id.depth]
}

func refSibling(kh [32]byte, depth int) refNodeID { // sibling of the node at depth on kh's path
	k := kh
	d := depth - 1
	k[d/8] ^= 1 << (7 - uint(d%8))
	return refPrefix(k, depth)
}

// Set stores leafHash at the key's position (the empty-leaf hash clears it).
func (s *refSparse) Set(key, leafHash []byte) {
	kh := refKeyHash(key)
	h := leafHash
	for d := 256; ; d-- {
		id := refPrefix(kh, d)
		if bytes.Equal(h, refDefaults[d]) {
			delete(s.nodes, id)
		} else {
			s.nodes[id] = h
		}
		if d == 0 {
			return
		}
		sib := s.node(refSibling(kh, d))
		if refBit(&kh, d-1) {
			h = refNodeHash(sib, h)
		} else {
			h = refNodeHash(h, sib)
		}
	}
}

func (s *refSparse) Root() []byte { return s.node(refNodeID{}) }

// Path returns the 256 sibling hashes, root first.
func (s *refSparse) Path(key []byte) [][]byte {
	kh := refKeyHash(key)
	rv := make([][]byte, 256)
	for i := range rv {
		rv[i] = s.node(refSibling(kh, i+1))
	}
	return rv
}

// refVerifyMap recomputes the root from a value and a path whose missing or empty elements are defaults.
func refVerifyMap(key, leafInput []byte, path [][]byte, root []byte) bool {
	kh := refKeyHash(key)
	h := refLeafHash(leafInput)
	for i := 255; i >= 0; i-- {
		var p []byte
		if i < len(path) {
			p = path[i]
		}
		if len(p) == 0 {
			p = refDefaults[i+1]
		}
		if refBit(&kh, i) {
			h = refNodeHash(p, h)
		} else {
			h = refNodeHash(h, p)
		}
	}
	return bytes.Equal(h, root)
}

// refMapRoot computes a sparse root from scratch, from contents only.
func refMapRoot(content map[string][]byte) []byte {
	type kv struct {
		kh [32]byte
		lh []byte
	}
	var l []kv
	for k, lh := range content {
		l = append(l, kv{refKeyHash([]byte(k)), lh})
	}
	sort.Slice(l, func(i, j int) bool { return bytes.Compare(l[i].kh[:], l[j].kh[:]) < 0 })
	var rec func(l []kv, d int) []byte
	rec = func(l []kv, d int) []byte {
		if len(l) == 0 {
			return refDefaults[d]
		}
		if d == 256 {
			return l[0].lh
		}
		i := sort.Search(len(l), func(i int) bool { return refBit(&l[i].kh, d) })
		return refNodeHash(rec(l[:i], d+1), rec(l[i:], d+1))
	}
	return rec(l, 0)
}
