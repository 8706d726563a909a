// minekeys writes harness/keys_mined.go: numbers n such that the map keys "k<n>" have SHA-256
// hashes with long common prefixes (pairs by common prefix length, and clusters of neighbours).
package main

import (
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"math/bits"
	"os"
	"slices"
	"strconv"
	"sync"
)

const N = 1 << 28

type e struct {
	h uint64
	n uint32
}

func main() {
	l := make([]e, N)
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			buf := make([]byte, 0, 16)
			for i := w * (N / 8); i < (w+1)*(N/8); i++ {
				buf = append(buf[:0], 'k')
				buf = strconv.AppendInt(buf, int64(i), 10)
				s := sha256.Sum256(buf)
				l[i] = e{binary.BigEndian.Uint64(s[:]), uint32(i)}
			}
			slices.SortFunc(l[w*(N/8):(w+1)*(N/8)], func(a, b e) int {
				if a.h < b.h {
					return -1
				}
				return 1
			})
		}(w)
	}
	wg.Wait()
	slices.SortFunc(l, func(a, b e) int {
		if a.h < b.h {
			return -1
		}
		return 1
	})
	pairs := map[int][][2]uint32{}
	for i := 0; i+1 < N; i++ {
		c := bits.LeadingZeros64(l[i].h ^ l[i+1].h)
		if len(pairs[c]) < 6 {
			pairs[c] = append(pairs[c], [2]uint32{l[i].n, l[i+1].n})
		}
	}
	// pairs with short common prefixes: neighbours across a boundary are rare in sorted order, so take any
	for c := 0; c < 24; c++ {
		for j := 0; len(pairs[c]) < 3 && j < N; j++ {
			a := l[(j*7919)%N]
			lo, hi := 0, N
			want := a.h ^ (1 << (63 - uint(c)))
			for lo < hi {
				m := (lo + hi) / 2
				if l[m].h < want {
					lo = m + 1
				} else {
					hi = m
				}
			}
			if lo < N && bits.LeadingZeros64(l[lo].h^a.h) == c {
				pairs[c] = append(pairs[c], [2]uint32{a.n, l[lo].n})
			}
		}
	}
	var cl [][]uint32
	for j := 0; j < 12; j++ {
		at := (j*N/12 + 12345*j) % (N - 8)
		var c []uint32
		for k := 0; k < 8; k++ {
			c = append(c, l[at+k].n)
		}
		cl = append(cl, c)
	}
	f, _ := os.Create(os.Args[1])
	fmt.Fprintln(f, "// Code generated by tools/minekeys; DO NOT EDIT.\n\npackage harness\n")
	fmt.Fprintln(f, "// minedPairs[c]: pairs of n whose keys \"k<n>\" have hashes sharing exactly c leading bits.\nvar minedPairs = map[int][][2]uint32{")
	for c := 0; c < 64; c++ {
		if len(pairs[c]) > 0 {
			fmt.Fprintf(f, "\t%d: {", c)
			for i, p := range pairs[c] {
				if i > 0 {
					fmt.Fprint(f, ", ")
				}
				fmt.Fprintf(f, "{%d, %d}", p[0], p[1])
			}
			fmt.Fprintln(f, "},")
		}
	}
	fmt.Fprintln(f, "}\n\n// minedClusters: neighbouring hashes (all share about 25 leading bits).\nvar minedClusters = [][]uint32{")
	for _, c := range cl {
		fmt.Fprint(f, "\t{")
		for i, n := range c {
			if i > 0 {
				fmt.Fprint(f, ", ")
			}
			fmt.Fprint(f, n)
		}
		fmt.Fprintln(f, "},")
	}
	fmt.Fprintln(f, "}")
	f.Close()
}
