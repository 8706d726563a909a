package harness

import (
	"bytes"
	"context"
	"fmt"
	"testing"

	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"google.golang.org/grpc/codes"
	"pgregory.net/rapid"
)

// Tall structures: few cases, each of thousands of entries or mutations, so that whatever depends on the
// size of a subtree, of a batch or of a number's encoding is passed.

// genTallSize draws a size above 2^11, at most about 2^17 (2^18 in the thorough tier).
func genTallSize(t *rapid.T) int64 {
	top := int64(17)
	if thorough {
		top = 18
	}
	switch pick(t, "tallclass", 4) {
	case 0:
		return between(t, "tall", 2050, 9000)
	case 1: // near a power of two
		return max(2050, int64(1)<<between(t, "pow", 12, top)+between(t, "off", 0, 6)-3)
	case 2: // several bits set
		n := int64(1) << between(t, "pow", 12, top-1)
		for i := 0; i < 3; i++ {
			n |= int64(1) << between(t, "bit", 0, top-2)
		}
		return n + between(t, "low", 0, 3)
	default:
		return between(t, "tall", 9000, 20000)
	}
}

// tallSizes chooses sizes of a log of n entries: near powers of two, near the end, and anywhere.
func tallSizes(t *rapid.T, lo, n int64, count int) []int64 {
	seen := map[int64]bool{}
	var rv []int64
	add := func(x int64) {
		if x >= lo && x <= n && !seen[x] {
			seen[x] = true
			rv = append(rv, x)
		}
	}
	add(n)
	add(lo)
	for i := 0; i < count; i++ {
		switch pick(t, "sizeclass", 4) {
		case 0:
			add(int64(1)<<between(t, "pow", 0, 18) + between(t, "d", 0, 2) - 1)
		case 1:
			add(n - between(t, "back", 0, 70))
		case 2: // clear some low bits of n and add a few
			b := between(t, "bits", 1, 16)
			add(n>>b<<b + between(t, "low", 0, 5))
		default:
			add(between(t, "size", lo, n))
		}
	}
	return rv
}

func buildTallLog(t *rapid.T, k *kase) *logCase {
	n := genTallSize(t)
	seed := pick(t, "contents", 1000)
	b := newBackend("mem")
	c := &logCase{b: b, m: newLogModel(), log: client(instantService(b), "7", "key").VerifiableLog("log")}
	c.grow = func(i int) {
		l := &pb.LeafData{LeafInput: []byte(fmt.Sprintf("grow-%d", i)), ExtraData: []byte("g")}
		_, err := c.log.Add(bg, l)
		noErr(t, err, "grow")
		c.m.Add(l)
	}
	for i := int64(0); i < n; i++ {
		l := &pb.LeafData{LeafInput: []byte(fmt.Sprintf("%d/%d", seed, i)), ExtraData: []byte(fmt.Sprint(i))}
		_, err := c.log.Add(bg, l)
		noErr(t, err, "add %d", i)
		c.m.Add(l)
		if i&0xfff == 0 {
			progress()
		}
	}
	k.Op("tall log %d/%d", seed, n)
	k.NT("tall-log")
	if n > 65535 {
		k.Class("more-than-2^16")
	}
	return c
}

func TestC01_Tall(t *testing.T) {
	check(t, 64, 480, func(t *rapid.T) {
		k := newCase("C01")
		c := buildTallLog(t, k)
		checkHead(t, c, 0)
		for _, s := range tallSizes(t, 1, c.m.Size(), 400) {
			checkHead(t, c, s)
		}
		for i, g := 0, pick(t, "grow", 20); i < g; i++ {
			c.grow(i)
			checkHead(t, c, 0)
		}
		k.Done()
	})
}

func TestC02_Tall(t *testing.T) {
	check(t, 32, 240, func(t *rapid.T) {
		k := newCase("C02")
		c := buildTallLog(t, k)
		checkEntries(t, k, c)
		n := c.m.Size()
		for _, i := range tallSizes(t, 1, n, 100) {
			e, err := c.log.Entry(bg, i-1)
			noErr(t, err, "entry %d of %d", i-1, n)
			eqLeaf(t, e, c.m.entries[i-1], "entry %d of %d", i-1, n)
		}
		// entries added again change nothing
		for i := 0; i < 60; i++ {
			at := between(t, "again", 0, n-1)
			p, err := c.log.Add(bg, c.m.entries[at])
			noErr(t, err, "add again")
			eqBytes(t, p.LeafHash(), c.m.tree.leaves[at], "acknowledged leaf hash of %d added again", at)
		}
		checkHead(t, c, 0)
		k.Done()
	})
}

func TestC03_Tall(t *testing.T) {
	check(t, 64, 480, func(t *rapid.T) {
		k := newCase("C03")
		c := buildTallLog(t, k)
		n := c.m.Size()
		for _, s := range tallSizes(t, 1, n, 40) {
			for _, i := range tallSizes(t, 1, s, 8) {
				checkInclusion(t, c, i-1, s)
			}
		}
		h := c.m.head(n)
		for _, i := range tallSizes(t, 1, n, 20) {
			checkInclusion(t, c, i-1, 0)
			noErr(t, c.log.VerifyInclusion(bg, h, c.m.tree.leaves[i-1]), "client inclusion check of %d in %d", i-1, n)
		}
		_, err := c.log.InclusionProof(bg, 0, refLeafHash([]byte("absent")))
		if code(err) != codes.NotFound {
			t.Fatalf("inclusion proof for a leaf hash not in the log (size %d): got %v, want not found", n, err)
		}
		k.Done()
	})
}

func TestC04_Tall(t *testing.T) {
	check(t, 64, 480, func(t *rapid.T) {
		k := newCase("C04")
		c := buildTallLog(t, k)
		n := c.m.Size()
		for _, s := range tallSizes(t, 2, n, 40) {
			for _, f := range tallSizes(t, 1, s-1, 8) {
				checkConsistency(t, c, f, s)
			}
		}
		for _, f := range tallSizes(t, 1, n-1, 20) {
			checkConsistency(t, c, f, 0)
		}
		k.Done()
	})
}

// buildTallMap makes a map of thousands of mutations of which most set a key of their own.
func buildTallMap(t *rapid.T, k *kase, check func(c *mapCase)) *mapCase {
	top := int64(4500)
	if thorough {
		top = 20000
	}
	n := int(between(t, "mutations", 1500, top))
	seed := pick(t, "contents", 1000)
	b := newBackend("mem")
	c := &mapCase{b: b, vm: client(instantService(b), "7", "key").VerifiableMap("m"), m: newMapModel()}
	c.pool = genKeyPool(10).Draw(t, "pool")
	x := uint64(seed)*2654435761 + 12345
	rnd := func(n int) int {
		x = x*6364136223846793005 + 1442695040888963407
		return int(x>>33) % n
	}
	var keys [][]byte
	for i := 0; i < n; i++ {
		mu := mapMut{Action: "set", Value: &pb.LeafData{LeafInput: []byte(fmt.Sprintf("v%d", i)), ExtraData: []byte("x")}}
		switch r := rnd(20); {
		case r < 13 || len(keys) == 0:
			mu.Key = []byte(fmt.Sprintf("%d-key-%d", seed, i))
			keys = append(keys, mu.Key)
		case r < 15:
			mu.Key = keys[rnd(len(keys))]
		case r < 17:
			mu = mapMut{Action: "delete", Key: keys[rnd(len(keys))]}
		case r < 18:
			mu.Key = keys[rnd(len(keys))]
			mu.Action = "update"
			mu.Prev = c.m.curHash(mu.Key)
			if rnd(3) == 0 {
				mu.Prev = refLeafHash([]byte("other"))
			}
		default:
			mu.Key = c.pool[rnd(len(c.pool))]
		}
		p, err := applyMut(c.vm, mu)
		noErr(t, err, "mutation %d (%s)", i, mu)
		c.acks = append(c.acks, p.LeafHash())
		c.m.Apply(mu)
		if i&0x1f == 0 {
			progress()
			if check != nil {
				check(c)
			}
		}
	}
	c.pool = append(c.pool, keys[0], keys[len(keys)-1])
	for i := 0; i < 20; i++ {
		c.pool = append(c.pool, keys[rnd(len(keys))])
	}
	k.Op("tall map %d/%d", seed, n)
	k.NT("tall-map")
	return c
}

func TestC06_Tall(t *testing.T) {
	check(t, 16, 80, func(t *rapid.T) {
		k := newCase("C06")
		c := buildTallMap(t, k, nil)
		keys := c.queryKeys(t)
		for _, s := range append(tallSizes(t, 1, c.m.Size(), 16), 0) {
			for _, key := range keys {
				c.checkValue(t, key, s)
			}
		}
		k.Done()
	})
}

func TestC07_Tall(t *testing.T) {
	check(t, 16, 80, func(t *rapid.T) {
		k := newCase("C07")
		c := buildTallMap(t, k, func(c *mapCase) { c.checkMapHead(t, 0, nil) })
		ml := readLogModel(t, c.vm.MutationLog(), c.m.Size())
		for _, s := range append(tallSizes(t, 1, c.m.Size(), 200), 0) {
			c.checkMapHead(t, s, ml)
		}
		if r := refMapRoot(c.m.content); !bytes.Equal(r, c.m.roots[c.m.Size()]) {
			t.Fatalf("reference models disagree")
		}
		k.Done()
	})
}

func TestC08_Tall(t *testing.T) {
	check(t, 16, 80, func(t *rapid.T) {
		k := newCase("C08")
		c := buildTallMap(t, k, nil)
		keys := c.queryKeys(t)
		for _, s := range append(tallSizes(t, 1, c.m.Size(), 10), 0) {
			for _, key := range keys {
				c.checkProof(t, key, s)
			}
		}
		k.Done()
	})
}

func TestC10_Tall(t *testing.T) {
	check(t, 16, 80, func(t *rapid.T) {
		k := newCase("C10")
		c := buildTallMap(t, k, nil)
		c.checkTallLogs(t)
		k.Done()
	})
}

func (c *mapCase) checkTallLogs(t *rapid.T) {
	n := c.m.Size()
	ml, tl := readLogModel(t, c.vm.MutationLog(), n), readLogModel(t, c.vm.TreeHeadLog(), n)
	for i := range ml.entries {
		j := checkMutationEntry(t, ml.entries[i], c.m.muts[i], fmt.Sprintf("mutation log entry %d of %d", i, n))
		if j.Timestamp == "" {
			t.Fatalf("mutation log entry %d of %d has no timestamp", i, n)
		}
		eqBytes(t, c.acks[i], refLeafHash(ml.entries[i].LeafInput), "acknowledged leaf hash of mutation %d", i)
		h := decodeJSON[jsonMapHead](t, tl.entries[i].ExtraData, "head")
		eqBytes(t, h.RootHash, c.m.roots[i+1], "map root in tree head log entry %d", i)
		if h.MutationLog == nil || h.MutationLog.TreeSize != int64(i+1) {
			t.Fatalf("tree head log entry %d names %v", i, h.MutationLog)
		}
		eqBytes(t, h.MutationLog.RootHash, ml.tree.Root(int64(i+1)), "mutation log root in tree head log entry %d", i)
		eqBytes(t, tl.entries[i].LeafInput, jsonHash(t, tl.entries[i].ExtraData), "leaf input of tree head log entry %d", i)
	}
}

// A client holding states of a tall honest map: they follow each other and every audit succeeds.
func TestC11_Tall(t *testing.T) {
	check(t, 16, 80, func(t *rapid.T) {
		k := newCase("C11")
		c := buildTallMap(t, k, nil)
		n := c.m.Size()
		var prev *verifiable.MapTreeState
		for _, s := range tallSizes(t, 1, n, 6) {
			st, err := c.vm.VerifiedMapState(bg, prev, s)
			noErr(t, err, "map state %d of %d", s, n)
			prev = st
		}
		st, err := c.vm.VerifiedMapState(bg, nil, 0)
		noErr(t, err, "latest map state")
		calls, next := 0, 0
		err = c.vm.VerifyMap(bg, nil, st, nil, func(ctx context.Context, idx int64, key []byte, v *pb.LeafData) error {
			for next < len(c.m.changed) && !c.m.changed[next] {
				next++
			}
			if int(idx) != next || !bytes.Equal(key, c.m.muts[idx].Key) {
				t.Fatalf("audit call for mutation %d key %s, expected mutation %d", idx, short(key), next)
			}
			eqValue(t, v, c.m.muts[idx].Value, "audited value of mutation %d", idx)
			next++
			calls++
			return nil
		})
		noErr(t, err, "audit of an honest map of %d", n)
		want := 0
		for _, x := range c.m.changed {
			if x {
				want++
			}
		}
		if calls != want {
			t.Fatalf("audit of %d mutations showed %d of %d changes", n, calls, want)
		}
		k.Done()
	})
}
