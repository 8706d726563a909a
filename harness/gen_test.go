package harness

import (
	"encoding/binary"
	"encoding/json"
	"fmt"

	"github.com/continusec/verifiabledatastructures/pb"
	"pgregory.net/rapid"
)

// expand makes n bytes from a seed (cheap to draw, shrinks through n and seed).
func expand(seed uint64, n int) []byte {
	rv := make([]byte, 0, n+8)
	x := seed*0x9e3779b97f4a7c15 + 0x123456789abcdef
	for len(rv) < n {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		rv = binary.LittleEndian.AppendUint64(rv, x)
	}
	return rv[:n]
}

var boolGen = rapid.Bool()

// uniform draws evenly from [0,n) (rapid's own ranges favour small numbers).
func uniform(n int) *rapid.Generator[int] {
	bits := 4
	for bits < 63 && (n > 1<<59 || 1<<bits < n*8) {
		bits++
	}
	return rapid.Custom(func(t *rapid.T) int {
		v := 0
		for i := 0; i < bits; i++ {
			v <<= 1
			if boolGen.Draw(t, "b") {
				v |= 1
			}
		}
		return v % n
	})
}

func pick(t *rapid.T, label string, n int) int { return uniform(n).Draw(t, label) }

// between draws evenly from [lo,hi].
func between(t *rapid.T, label string, lo, hi int64) int64 {
	return lo + int64(pick(t, label, int(hi-lo+1)))
}

func oneOf[T any](t *rapid.T, label string, l ...T) T { return l[pick(t, label, len(l))] }

// genBytes draws byte strings over many length classes.
func genBytes(big bool) *rapid.Generator[[]byte] {
	return rapid.Custom(func(t *rapid.T) []byte {
		c := pick(t, "lenclass", 20)
		var n int
		switch {
		case c == 0:
			n = 0
		case c <= 8:
			n = 1 + pick(t, "len", 12)
		case c <= 12:
			n = 13 + pick(t, "len", 68)
		case c <= 15: // block and hash boundaries
			n = oneOf(t, "len", 1, 20, 31, 32, 33, 54, 55, 56, 62, 63, 64, 65, 118, 119, 120, 127, 128, 129, 255, 256, 257)
		case c <= 17 || !big:
			n = 81 + pick(t, "len", 520)
		case c == 18:
			n = oneOf(t, "len", 1000, 1023, 1024, 1025, 4095, 4096, 4097, 8192)
		default:
			n = oneOf(t, "len", 16383, 16384, 32768, 65535, 65536, 65537, 100000)
		}
		k := pick(t, "content", 4)
		switch k {
		case 0:
			s := []byte(fmt.Sprintf("%d-", pick(t, "num", 51)))
			for len(s) < n {
				s = append(s, s...)
			}
			return s[:n]
		case 1: // constant
			b := rapid.Byte().Draw(t, "byte")
			rv := make([]byte, n)
			for i := range rv {
				rv[i] = b
			}
			return rv
		default:
			return expand(rapid.Uint64Range(0, 1<<20).Draw(t, "seed"), n)
		}
	})
}

// leafFor derives leaf data deterministically from a small number, so equal numbers give equal
// leaf inputs with equal extra data.
func leafFor(n int) *pb.LeafData {
	switch n % 5 {
	case 0:
		return &pb.LeafData{LeafInput: []byte(fmt.Sprintf("leaf-%d", n))}
	case 1:
		return &pb.LeafData{LeafInput: []byte(fmt.Sprintf("leaf-%d", n)), ExtraData: []byte(fmt.Sprintf("extra %d", n))}
	case 2:
		return &pb.LeafData{LeafInput: expand(uint64(n), 32), ExtraData: []byte(fmt.Sprintf(`{"n":%d}`, n)), Format: pb.DataFormat_JSON}
	case 3:
		return &pb.LeafData{LeafInput: expand(uint64(n), 1+n%200)}
	default:
		return &pb.LeafData{LeafInput: []byte{byte(n), byte(n >> 8), byte(n >> 16)}, ExtraData: expand(uint64(n), n%70)}
	}
}

// genLeaf draws arbitrary leaf data; extra data and format are functions of the leaf input
// unless free is set.
func genLeaf(big, free bool) *rapid.Generator[*pb.LeafData] {
	return rapid.Custom(func(t *rapid.T) *pb.LeafData {
		if pick(t, "kind", 3) == 0 {
			return leafFor(pick(t, "n", 31))
		}
		li := genBytes(big).Draw(t, "leafinput")
		rv := &pb.LeafData{LeafInput: li}
		var x int
		if free {
			x = pick(t, "extra", 8)
		} else {
			s := 0
			for _, b := range li {
				s = s*31 + int(b)
			}
			x = (s & 0x7fffffff) % 8
		}
		switch x {
		case 0, 1, 2:
		case 3:
			rv.ExtraData = []byte("x")
		case 4:
			rv.ExtraData = append([]byte("copy:"), li...)
		case 5:
			rv.ExtraData = []byte{0, 0xff, 0xfe, '"', '\\', '\n'}
		case 6:
			rv.ExtraData, _ = json.Marshal(map[string]any{"len": len(li), "s": "é\u2028<&>"})
			rv.Format = pb.DataFormat_JSON
		case 7:
			rv.ExtraData = expand(uint64(len(li)), 300)
		}
		return rv
	})
}

func minedKey(n uint32) []byte { return []byte(fmt.Sprintf("k%d", n)) }

// genKeyPool draws a pool of map keys; many share long hash prefixes.
func genKeyPool(maxN int) *rapid.Generator[[][]byte] {
	return rapid.Custom(func(t *rapid.T) [][]byte {
		var rv [][]byte
		seen := map[string]bool{}
		add := func(k []byte) {
			if !seen[string(k)] && len(rv) < maxN {
				seen[string(k)] = true
				rv = append(rv, k)
			}
		}
		groups := 1 + pick(t, "groups", 5)
		for g := 0; g < groups; g++ {
			switch pick(t, "group", 6) {
			case 0, 1: // a pair sharing exactly c hash bits
				c := pick(t, "prefix", 55)
				p := minedPairs[c]
				x := p[pick(t, "pair", len(p))]
				add(minedKey(x[0]))
				add(minedKey(x[1]))
			case 2: // a cluster sharing ~25 bits
				c := minedClusters[pick(t, "cluster", len(minedClusters))]
				n := (1 + pick(t, "n", len(c)))
				for _, x := range c[:n] {
					add(minedKey(x))
				}
			case 3:
				n := 1 + pick(t, "n", 8)
				for i := 0; i < n; i++ {
					add([]byte{byte('a' + i)})
				}
			case 4:
				add(genBytes(false).Draw(t, "key"))
			case 5:
				n := (1 + pick(t, "n", maxN))
				s := pick(t, "start", 1001)
				for i := 0; i < n; i++ {
					add([]byte(fmt.Sprintf("key/%d", s+i)))
				}
			}
		}
		return rv
	})
}

// genCount draws a number of entries: small, at powers of two, and sometimes large.
func genCount(maxBig int) *rapid.Generator[int] {
	return rapid.Custom(func(t *rapid.T) int {
		switch pick(t, "countclass", 10) {
		case 0, 1, 2, 3:
			return pick(t, "count", 13)
		case 4, 5:
			return 13 + pick(t, "count", 58)
		case 6, 7:
			k := 1 + pick(t, "pow", 7)
			return max(0, 1<<k+(pick(t, "delta", 3)-1))
		case 8:
			return 71 + pick(t, "count", 230)
		default:
			k := oneOf(t, "bigcount", 256, 300, 499, 500, 501, 512, 513, 600, 999, 1000, 1001, 1023, 1024, 1025, 1100, 1500, 2047, 2049)
			return min(k, maxBig)
		}
	})
}
