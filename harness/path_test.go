package harness

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"math"
	"math/big"
	"math/bits"
	"slices"
	"testing"

	"github.com/continusec/verifiabledatastructures/merkle"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"pgregory.net/rapid"
)

// ---- C22: merkle helpers ----

// genInt63 draws from 0..2^63-1: small, near powers of two, sparse and dense bit patterns.
func genInt63(t *rapid.T, label string) int64 {
	switch pick(t, label+"-class", 6) {
	case 0:
		return between(t, label, 0, 40)
	case 1:
		return between(t, label, 0, 5000)
	case 2: // around a power of two
		return max(0, int64((uint64(1)<<pick(t, label+"-pow", 64)+uint64(pick(t, label+"-delta", 7))-3)&math.MaxInt64))
	case 3: // the sum of few powers of two
		var v int64
		for i := pick(t, label+"-bits", 6); i >= 0; i-- {
			v |= 1 << pick(t, label+"-bit", 63)
		}
		return v
	case 4:
		return math.MaxInt64 - between(t, label, 0, 1000)
	default:
		return between(t, label, 0, math.MaxInt64-1) >> pick(t, label+"-shift", 63)
	}
}

func below(t *rapid.T, label string, n int64) int64 { // 0..n-1
	switch pick(t, label+"-where", 5) {
	case 0:
		return min(n-1, between(t, label, 0, 4))
	case 1:
		return max(0, n-1-between(t, label, 0, 4))
	case 2: // around the split
		if n < 2 {
			return 0
		}
		return min(n-1, max(0, refSplit(n)+between(t, label, -2, 2)))
	case 3:
		return genInt63(t, label) % n
	default:
		return between(t, label, 0, n-1)
	}
}

type rng struct{ lo, hi *big.Int }

func bigRange(lo, hi *big.Int) rng { return rng{lo, hi} }

// refSplitBig is the largest power of two smaller than n.
func refSplitBig(n *big.Int) *big.Int {
	m := new(big.Int).Sub(n, big.NewInt(1))
	return new(big.Int).Lsh(big.NewInt(1), uint(m.BitLen()-1))
}

// refPathRanges is PATH(m, D[lo:hi]) of RFC 6962 with subtrees given by their ranges.
func refPathRanges(m, lo, hi *big.Int) []rng {
	n := new(big.Int).Sub(hi, lo)
	if n.Cmp(big.NewInt(1)) == 0 {
		return nil
	}
	k := refSplitBig(n)
	mid := new(big.Int).Add(lo, k)
	if m.Cmp(k) < 0 {
		return append(refPathRanges(m, lo, mid), bigRange(mid, hi))
	}
	return append(refPathRanges(new(big.Int).Sub(m, k), mid, hi), bigRange(lo, mid))
}

// refProofRanges is SUBPROOF(m, D[lo:hi], b).
func refProofRanges(m, lo, hi *big.Int, b bool) []rng {
	n := new(big.Int).Sub(hi, lo)
	if m.Cmp(n) == 0 {
		if b {
			return nil
		}
		return []rng{bigRange(lo, hi)}
	}
	k := refSplitBig(n)
	mid := new(big.Int).Add(lo, k)
	if m.Cmp(k) <= 0 {
		return append(refProofRanges(m, lo, mid, b), bigRange(mid, hi))
	}
	return append(refProofRanges(new(big.Int).Sub(m, k), mid, hi, false), bigRange(lo, mid))
}

func eqRanges(t tb, got [][2]int64, want []rng, format string, a ...any) {
	ok := len(got) == len(want)
	for i := 0; ok && i < len(got); i++ {
		ok = want[i].lo.IsInt64() && want[i].hi.IsInt64() && want[i].lo.Int64() == got[i][0] && want[i].hi.Int64() == got[i][1]
	}
	if !ok {
		t.Fatalf("%s: got %v, want %v", fmt.Sprintf(format, a...), got, want)
	}
}

func TestC22_Ranges(t *testing.T) {
	check(t, 800000, 12000000, func(t *rapid.T) {
		k := newCase("C22")
		k.Class("ranges")
		n := max(1, genInt63(t, "size"))
		lo := int64(0)
		if pick(t, "offset", 3) == 0 {
			lo = min(genInt63(t, "lo"), math.MaxInt64-n)
		}
		hi := lo + n
		bl, bh := big.NewInt(lo), big.NewInt(hi)
		m := below(t, "index", n)
		got := merkle.Path(m, lo, hi)
		eqRanges(t, got, refPathRanges(big.NewInt(m), bl, bh), "Path(%d, %d, %d)", m, lo, hi)
		// apart from the leaf the ranges tile [lo, hi)
		tiles := append(slices.Clone(got), [2]int64{lo + m, lo + m + 1})
		slices.SortFunc(tiles, func(a, b [2]int64) int {
			if a[0] < b[0] {
				return -1
			}
			return 1
		})
		at := lo
		for _, r := range tiles {
			if r[0] != at || r[1] <= at {
				t.Fatalf("Path(%d, %d, %d) = %v leaves a gap or overlaps at %d", m, lo, hi, got, at)
			}
			at = r[1]
		}
		if at != hi {
			t.Fatalf("Path(%d, %d, %d) = %v ends at %d", m, lo, hi, got, at)
		}

		from := below(t, "from", n) + 1
		b := pick(t, "b", 2) == 0
		eqRanges(t, merkle.SubProof(from, lo, hi, b), refProofRanges(big.NewInt(from), bl, bh, b), "SubProof(%d, %d, %d, %v)", from, lo, hi, b)
		if n > 2 {
			k.NT("split")
		}
		if n > 1<<31 {
			k.NT("over-32-bit")
		}
		if n > 1<<62 {
			k.NT("top-bit")
		}
		if lo > 0 {
			k.Class("offset")
		}
		k.Op("size %d at %d, index %d, from %d %v", n, lo, m, from, b)
		k.Done()
	})
}

func TestC22_Powers(t *testing.T) {
	check(t, 400000, 6000000, func(t *rapid.T) {
		k := newCase("C22")
		k.Class("powers")
		n := genInt63(t, "n")
		if want := n > 0 && bits.OnesCount64(uint64(n)) == 1; merkle.IsPow2(n) != want {
			t.Fatalf("IsPow2(%d) is %v", n, !want)
		}
		if n >= 2 {
			c := merkle.CalcK(n)
			// a power of two, smaller than n, the next one is not
			if c < 1 || bits.OnesCount64(uint64(c)) != 1 || c >= n || uint64(c)*2 < uint64(n) {
				t.Fatalf("CalcK(%d) = %d", n, c)
			}
		}
		if n > 40 {
			k.NT("power")
		}
		k.Op("n %d", n)
		k.Done()
	})
}

func TestC22_Hashes(t *testing.T) {
	check(t, 100000, 1500000, func(t *rapid.T) {
		k := newCase("C22")
		k.Class("hashes")
		a, b := genBytes(true).Draw(t, "a"), genBytes(false).Draw(t, "b")
		if pick(t, "nodes", 2) == 0 {
			a, b = expand(uint64(pick(t, "sa", 1000)), 32), expand(uint64(pick(t, "sb", 1000)), 32)
		}
		// room to write beyond the end must not be used
		buf := append(append([]byte{}, a...), "sentinel"...)
		x := buf[:len(a)]
		a0, b0 := append([]byte{}, a...), append([]byte{}, b...)
		ref := func(p byte, parts ...[]byte) []byte {
			s := []byte{p}
			for _, q := range parts {
				s = append(s, q...)
			}
			h := sha256.Sum256(s)
			return h[:]
		}
		leaf, node := merkle.LeafHash(x), merkle.NodeHash(x, b)
		eqBytes(t, leaf, ref(0, a0), "leaf hash")
		eqBytes(t, node, ref(1, a0, b0), "node hash")
		leaf2 := merkle.LeafHash(b)
		eqBytes(t, leaf, ref(0, a0), "leaf hash after another")
		eqBytes(t, leaf2, ref(0, b0), "second leaf hash")
		if !bytes.Equal(buf, append(append([]byte{}, a0...), "sentinel"...)) || !bytes.Equal(b, b0) {
			t.Fatalf("hashing changed its input")
		}
		// key paths
		kh := sha256.Sum256(a0)
		path := merkle.ConstructMapKeyPath(a)
		bp := verifiable.BPathFromKey(a)
		if len(path) != 256 || bp.Length() != 256 {
			t.Fatalf("key path lengths %d, %d", len(path), bp.Length())
		}
		for i := range path {
			want := kh[i/8]&(128>>(i%8)) != 0
			if path[i] != want || bp.At(uint(i)) != want {
				t.Fatalf("key %x: bit %d of the path is wrong", a, i)
			}
		}
		// defaults are a fresh copy each time
		if pick(t, "defaults", 20) == 0 {
			d := merkle.GenerateMapDefaultLeafValues()
			if len(d) != 257 {
				t.Fatalf("%d default hashes", len(d))
			}
			want := ref(0)
			for i := 256; i >= 0; i-- {
				eqBytes(t, d[i], want, "default hash at depth %d", i)
				want = ref(1, want, want)
			}
			d[pick(t, "spoil", 257)][0] ^= 1 // only this copy may be affected
			d[pick(t, "spoil", 257)] = a
			k.NT("defaults")
		}
		if len(a)+len(b) > 0 {
			k.NT("hash")
		}
		k.Op("%s, %s", short(a), short(b))
		k.Done()
	})
}

// ---- C22: binary paths ----

// refEncode is the one representation of a bit string.
func refEncode(s string) verifiable.BPath {
	if s == "" {
		return verifiable.BPath{}
	}
	rv := make([]byte, 1+(len(s)+7)/8)
	rv[0] = byte(len(s) % 256)
	for i := range s {
		if s[i] == '1' {
			rv[1+i/8] |= 128 >> (i % 8)
		}
	}
	return rv
}

type pathPair struct {
	p verifiable.BPath
	s string
}

func (x pathPair) check(t tb, what string) {
	if x.p.Length() != uint(len(x.s)) {
		t.Fatalf("%s: length %d, want %d", what, x.p.Length(), len(x.s))
	}
	for i := range x.s {
		if x.p.At(uint(i)) != (x.s[i] == '1') {
			t.Fatalf("%s: bit %d of %s is wrong", what, i, x.s)
		}
	}
	if x.p.Str() != x.s {
		t.Fatalf("%s: string %s, want %s", what, x.p.Str(), x.s)
	}
	if !bytes.Equal(x.p, refEncode(x.s)) { // equal bit strings are equal as storage keys
		t.Fatalf("%s: %s is represented by %x, want %x", what, x.s, []byte(x.p), []byte(refEncode(x.s)))
	}
}

func TestC22_Paths(t *testing.T) {
	check(t, 240000, 3600000, func(t *rapid.T) {
		k := newCase("C22")
		k.Class("paths")
		pool := []pathPair{{verifiable.BPathEmpty, ""}, {verifiable.BPathFalse, "0"}, {verifiable.BPathTrue, "1"}, {nil, ""}}
		key := genBytes(false).Draw(t, "key")
		kh := sha256.Sum256(key)
		ks := ""
		for _, b := range kh {
			ks += fmt.Sprintf("%08b", b)
		}
		pool = append(pool, pathPair{verifiable.BPathFromKey(key), ks})
		for i := range pool {
			pool[i].check(t, "initial path")
		}
		choose := func(label string) pathPair { return pool[len(pool)-1-pick(t, label, len(pool))] }
		for i := 1 + pick(t, "steps", 16); i > 0; i-- {
			a := choose("a")
			if pick(t, "op", 2) == 0 {
				var lo, hi uint
				switch pick(t, "slice", 5) {
				case 0: // a prefix
					hi = uint(pick(t, "hi", len(a.s)+1))
				case 1: // a suffix
					lo, hi = uint(pick(t, "lo", len(a.s)+1)), uint(len(a.s))
				case 2:
					lo = uint(pick(t, "lo", len(a.s)+1))
					hi = lo + uint(pick(t, "len", min(20, len(a.s)-int(lo))+1))
				default: // any two positions, also in the wrong order
					lo, hi = uint(pick(t, "lo", len(a.s)+1)), uint(pick(t, "hi", len(a.s)+1))
				}
				want := ""
				if lo < hi {
					want = a.s[lo:hi]
				} else {
					k.Class("empty-slice")
				}
				x := pathPair{a.p.Slice(lo, hi), want}
				x.check(t, fmt.Sprintf("Slice(%d, %d) of %s", lo, hi, a.s))
				a.check(t, "sliced path")
				if lo%8 != 0 && hi-lo > 8 && lo < hi {
					k.NT("unaligned-slice")
				}
				k.Op("slice %d %d of %d", lo, hi, len(a.s))
				pool = append(pool, x)
				// taken apart and put together again
				y := pathPair{verifiable.BPathJoin(a.p.Slice(0, lo), a.p.Slice(lo, uint(len(a.s)))), a.s}
				y.check(t, "parts joined again")
				continue
			}
			b := choose("b")
			if len(a.s)+len(b.s) > 256 {
				if len(a.s) == 256 {
					a = pathPair{a.p.Slice(0, uint(256-len(b.s))), a.s[:256-len(b.s)]}
				} else {
					b = pathPair{b.p.Slice(0, uint(256-len(a.s))), b.s[:256-len(a.s)]}
				}
			}
			x := pathPair{verifiable.BPathJoin(a.p, b.p), a.s + b.s}
			x.check(t, fmt.Sprintf("Join of %s and %s", a.s, b.s))
			a.check(t, "first joined path")
			b.check(t, "second joined path")
			if len(a.s)%8 != 0 && len(b.s) > 8 {
				k.NT("unaligned-join")
			}
			if len(x.s) == 256 {
				k.NT("join-256")
			}
			k.Op("join %d %d", len(a.s), len(b.s))
			pool = append(pool, x)
		}
		for _, x := range pool {
			x.check(t, "path after later operations")
		}
		if verifiable.BPathFalse.Str() != "0" || verifiable.BPathTrue.Str() != "1" || verifiable.BPathEmpty.Length() != 0 {
			t.Fatalf("a constant path changed")
		}
		k.Done()
	})
}
