package harness

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// ---- environment given by run.py ----

var (
	thorough  = os.Getenv("VH_TIER") == "thorough"
	nShards   = envInt("VH_SHARDS", 1)
	statsPath = os.Getenv("VH_STATS")
	scratch   = envStr("VH_TMP", os.TempDir())
	scale     = envInt("VH_SCALE", 100) // percent of the configured number of cases
)

func envStr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func envInt(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

// ---- case accounting ----

type propStats struct {
	Evaluations int            `json:"evaluations"`
	Hashes      map[string]int `json:"hashes"`
	Classes     map[string]int `json:"classes"`
	Samples     []string       `json:"samples"`
}

var (
	statsMu sync.Mutex
	stats   = map[string]*propStats{}
)

func statsFor(id string) *propStats {
	s := stats[id]
	if s == nil {
		s = &propStats{Hashes: map[string]int{}, Classes: map[string]int{}}
		stats[id] = s
	}
	return s
}

// kase collects what one generated case did.
type kase struct {
	id      string
	desc    strings.Builder
	classes map[string]bool
	nt      bool
}

func newCase(id string) *kase { return &kase{id: id, classes: map[string]bool{}} }

// Op appends a step to the description of the case (its identity, and what samples show).
func (k *kase) Op(format string, a ...any) { fmt.Fprintf(&k.desc, format+"; ", a...) }

// Class labels the case; NT labels it and marks it non-trivial.
func (k *kase) Class(c string) { k.classes[c] = true }
func (k *kase) NT(c string)    { k.classes[c] = true; k.nt = true }

// Done records the case. Call it at the end of the property, after all oracles held.
func (k *kase) Done() {
	statsMu.Lock()
	defer statsMu.Unlock()
	s := statsFor(k.id)
	s.Evaluations++
	for c := range k.classes {
		s.Classes[c]++
	}
	if !k.nt {
		return
	}
	d := k.desc.String()
	h := sha256.Sum256([]byte(d))
	hs := hex.EncodeToString(h[:8])
	if s.Hashes[hs]++; s.Hashes[hs] == 1 && len(s.Samples) < 3 && len(d) < 1500 {
		s.Samples = append(s.Samples, d)
	} else if len(s.Samples) == 0 && s.Evaluations > 50 {
		s.Samples = append(s.Samples, d[:min(len(d), 1500)])
	}
}

func writeStats() {
	if statsPath == "" {
		for id, s := range stats {
			var cl []string
			for c, n := range s.Classes {
				cl = append(cl, fmt.Sprintf("%s=%d", c, n))
			}
			sort.Strings(cl)
			fmt.Printf("STATS %s evaluations=%d nontrivial-distinct=%d classes: %s\n", id, s.Evaluations, len(s.Hashes), strings.Join(cl, " "))
		}
		return
	}
	b, err := json.Marshal(stats)
	if err == nil {
		err = os.WriteFile(statsPath, b, 0o644)
	}
	if err != nil {
		fmt.Println("VH-HARNESS-ERROR cannot write stats:", err)
		os.Exit(8)
	}
}

// ---- watchdog: a case that makes no progress for a very long time is a hang ----

// Time is counted in monitor ticks, so a paused or starved machine does not advance it much.
const hangTicks = 300

var (
	deadline  = int64(envInt("VH_DEADLINE", 0))
	failing   atomic.Bool // a case failed: shrinking must not be cut short
	caseSeq   atomic.Int64
	caseTicks atomic.Int64
)

func watchdog() {
	var seen int64 = -1
	for {
		time.Sleep(time.Second)
		if n := caseSeq.Load(); n != seen {
			seen = n
			caseTicks.Store(0)
			continue
		}
		if caseTicks.Add(1) >= hangTicks {
			buf := make([]byte, 1<<20)
			buf = buf[:runtime.Stack(buf, true)]
			fmt.Printf("VH-HANG: one case made no progress for %d ticks\n%s\n", hangTicks, buf)
			os.Exit(7)
		}
	}
}

// progress tells the watchdog that the case is alive.
func progress() { caseSeq.Add(1) }

func TestMain(m *testing.M) {
	flag.Parse()
	log.SetOutput(io.Discard)
	if os.Getenv("VH_LOG") != "" {
		log.SetOutput(os.Stderr)
	}
	debug.SetMaxStack(256 << 20)
	if f := childMode[os.Getenv("VH_CHILD")]; f != nil {
		f()
		os.Exit(0)
	}
	go watchdog()
	rc := m.Run()
	if rc == 0 {
		writeStats()
	}
	cleanupAll()
	fmt.Printf("VH-EXIT rc=%d\n", rc)
	os.Exit(rc)
}

// childMode lets a check re-execute this binary as a separate process (crash tests).
var childMode = map[string]func(){}

// check runs prop on quick (or thorough) generated cases, split over the shards.
func check(t *testing.T, quick, deep int, prop func(t *rapid.T)) {
	t.Helper()
	n := quick
	if thorough {
		n = deep
	}
	n = (n*scale/100 + nShards - 1) / nShards
	if n < 1 {
		n = 1
	}
	if err := flag.Set("rapid.checks", strconv.Itoa(n)); err != nil {
		t.Fatal(err)
	}
	rapid.Check(t, func(t *rapid.T) {
		progress()
		if deadline > 0 && !failing.Load() && time.Now().Unix() > deadline {
			return // out of time: explore no more cases (none is counted for this call)
		}
		ok := false
		defer func() {
			if !ok {
				failing.Store(true)
			}
		}()
		prop(t)
		ok = true
	})
}
