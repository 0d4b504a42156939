// Package harness holds the property-based checks of go-sqlparser.
package harness

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"sort"
	"strconv"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- statistics

type stats struct {
	mu      sync.Mutex
	Evals   int
	hashes  map[uint64]struct{}
	Classes map[string]int
	Samples []string
	seen    int
	sampled map[string]int
	slowest time.Duration
}

var st = &stats{hashes: map[uint64]struct{}{}, Classes: map[string]int{}, sampled: map[string]int{}}

func hash64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// note records one evaluated case. key identifies the case; nontrivial is the
// property's stated rule; classes describe the shape of the case.
func note(nontrivial bool, key string, classes ...string) {
	st.mu.Lock()
	defer st.mu.Unlock()
	st.Evals++
	for _, c := range classes {
		st.Classes[c]++
	}
	if !nontrivial {
		return
	}
	h := hash64(key)
	if _, ok := st.hashes[h]; ok {
		return
	}
	st.hashes[h] = struct{}{}
	st.seen++
	// Keep a spread of samples: the first ones of every class, not too small.
	label := ""
	if len(classes) > 0 {
		label = classes[0]
	}
	n := st.sampled[label]
	st.sampled[label]++
	if n == 3 || n == 200 {
		if len(key) > 600 {
			key = key[:600] + "..."
		}
		st.Samples = append(st.Samples, key)
	}
}

func writeStats() {
	path := os.Getenv("VERIF_STATS")
	if path == "" {
		return
	}
	st.mu.Lock()
	defer st.mu.Unlock()
	hs := make([]string, 0, len(st.hashes))
	for h := range st.hashes {
		hs = append(hs, strconv.FormatUint(h, 36))
	}
	sort.Strings(hs)
	b, err := json.Marshal(map[string]any{
		"evals": st.Evals, "slowest_case_s": st.slowest.Seconds(), "hashes": hs, "classes": st.Classes, "samples": st.Samples,
	})
	if err == nil {
		err = os.WriteFile(path, b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS-ERROR", err)
		os.Exit(4)
	}
}

// ------------------------------------------------------------------ watchdog

// caseStart is the start of the current case; a single case that runs for
// hangLimit (thousands of times its usual duration) is reported as a hang.
var (
	caseMu    sync.Mutex
	caseStart time.Time
	caseDesc  string
)

const hangLimit = 180 * time.Second

func beginCase() {
	caseMu.Lock()
	caseStart = time.Now()
	caseDesc = ""
	caseMu.Unlock()
}

// describe records the input of the current case for hang reports.
func describe(s string) {
	caseMu.Lock()
	caseDesc = s
	caseMu.Unlock()
}

func endCase() {
	caseMu.Lock()
	if !caseStart.IsZero() {
		st.slowest = max(st.slowest, time.Since(caseStart))
	}
	caseStart = time.Time{}
	caseMu.Unlock()
}

func watchdog() {
	for {
		time.Sleep(time.Second)
		caseMu.Lock()
		start, desc := caseStart, caseDesc
		caseMu.Unlock()
		if !start.IsZero() && time.Since(start) > hangLimit {
			buf := make([]byte, 1<<20)
			n := runtime.Stack(buf, true)
			fmt.Printf("HANG: case still running after %v\ninput: %q\n%s\n", hangLimit, desc, buf[:n])
			writeStats()
			os.Exit(7)
		}
	}
}

// Main is called by TestMain.
func Main(m *testing.M) int {
	go watchdog()
	code := m.Run()
	writeStats()
	return code
}

// ---------------------------------------------------------------- the runner

// scale is the number of generated cases per unit of weight.
func scale() int {
	n, err := strconv.Atoi(os.Getenv("VERIF_CHECKS"))
	if err != nil || n <= 0 {
		return 200
	}
	return n
}

// collected, when set, takes the properties instead of running them.
var collected *[]func(t *rapid.T)

// prop runs one generated property with weight*scale/100 cases.
func prop(t *testing.T, weight int, f func(t *rapid.T)) {
	t.Helper()
	if collected != nil {
		*collected = append(*collected, f)
		return
	}
	n := scale() * weight / 100
	if n < 1 {
		n = 1
	}
	if f := flag.Lookup("rapid.checks"); f != nil {
		if err := flag.Set("rapid.checks", strconv.Itoa(n)); err != nil {
			t.Fatal(err)
		}
	}
	defer endCase()
	rapid.Check(t, func(t *rapid.T) {
		beginCase()
		defer endCase()
		defer forget(t)
		f(t)
	})
}
