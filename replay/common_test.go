package main

// Shared part of the replay harnesses. Each property's file defines vfRun.

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
)

type vfFailure struct {
	Case string      `json:"case"`
	Key  string      `json:"key"`
	Why  string      `json:"why"`
	In   interface{} `json:"input"`
}

type vfH struct {
	mode     string // replay, bounded, thorough
	secs     int
	rng      *rand.Rand
	hints    []int64
	scratch  string
	t0       time.Time
	out      string
	cur      *os.File
	curDesc  string
	curStart time.Time
	mu       sync.Mutex
	crashy   bool // the current case is recorded on disk before it runs
	hang     time.Duration
	rule     string
	cases    int64
	distinct map[uint64]bool
	fails    []vfFailure
	keys     map[string]int
	samples  []string
	known    map[string]bool
	extra    map[string]interface{}
}

// over reports whether the harness should stop.
func (h *vfH) over() bool {
	return h.enough() || time.Since(h.t0) > time.Duration(h.secs)*time.Second
}

// enough: failures that are not listed findings have been seen
func (h *vfH) enough() bool {
	n := 0
	for _, f := range h.fails {
		if !h.known[f.Key] {
			n++
		}
	}
	return n >= 2
}

// frac: whether less than f of the time has been used
func (h *vfH) frac(f float64) bool {
	return !h.enough() && time.Since(h.t0).Seconds() < f*float64(h.secs)
}

func (h *vfH) n(a int) int { return h.rng.Intn(a) }

// hint picks an integer from the solver models, or a random small one.
func (h *vfH) hint(lo, hi int64) int64 {
	if len(h.hints) > 0 && h.n(2) == 0 {
		for t := 0; t < 8; t++ {
			v := h.hints[h.n(len(h.hints))]
			if v >= lo && v <= hi {
				return v
			}
		}
	}
	return lo + h.rng.Int63n(hi-lo+1)
}

func (h *vfH) failKey(key, desc, why string, in interface{}) {
	h.mu.Lock()
	defer h.mu.Unlock()
	if h.keys[key] >= 2 {
		return
	}
	h.keys[key]++
	h.fails = append(h.fails, vfFailure{Case: desc, Key: key, Why: why, In: in})
}

// check runs one case; a non-empty result or a panic is a failure.
func (h *vfH) check(key, desc string, nontrivial bool, in interface{}, fn func() string) {
	h.mu.Lock()
	h.cases++
	h.curDesc = desc
	h.curStart = time.Now()
	h.mu.Unlock()
	if nontrivial {
		f := fnv.New64a()
		f.Write([]byte(desc))
		if len(h.distinct) < 2000000 {
			h.distinct[f.Sum64()] = true
		}
		if len(h.samples) < 3 && h.rng.Intn(5) == 0 {
			h.samples = append(h.samples, vfTrunc(desc, 300))
		}
	}
	if h.crashy && h.cur != nil {
		h.cur.Truncate(0)
		h.cur.WriteAt([]byte(desc), 0)
	}
	why := func() (w string) {
		defer func() {
			if e := recover(); e != nil {
				buf := make([]byte, 2000)
				buf = buf[:runtime.Stack(buf, false)]
				w = fmt.Sprintf("panic: %v\n%s", e, buf)
			}
		}()
		return fn()
	}()
	h.mu.Lock()
	h.curDesc = ""
	h.mu.Unlock()
	if why != "" {
		h.failKey(key, desc, why, in)
	}
}

// note counts a non-trivial case known as such only after it ran
func (h *vfH) note(desc string) {
	f := fnv.New64a()
	f.Write([]byte(desc))
	if len(h.distinct) < 2000000 {
		h.distinct[f.Sum64()] = true
	}
	if len(h.samples) < 3 && h.rng.Intn(5) == 0 {
		h.samples = append(h.samples, vfTrunc(desc, 300))
	}
}

func vfTrunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func (h *vfH) write() {
	h.mu.Lock()
	defer h.mu.Unlock()
	var sm []interface{}
	for _, s := range h.samples {
		sm = append(sm, s)
	}
	b, err := json.MarshalIndent(map[string]interface{}{"cases": h.cases, "distinct_nontrivial": len(h.distinct), "rule": h.rule, "failures": h.fails, "samples": sm, "extra": h.extra}, "", " ")
	if err != nil {
		for i := range h.fails {
			h.fails[i].In = fmt.Sprint(h.fails[i].In)
		}
		b, _ = json.MarshalIndent(map[string]interface{}{"cases": h.cases, "distinct_nontrivial": len(h.distinct), "rule": h.rule, "failures": h.fails, "samples": sm}, "", " ")
	}
	os.WriteFile(h.out, b, 0644)
}

// vfPanics runs fn and returns the panic message, if any.
func vfPanics(fn func()) (msg string) {
	defer func() {
		if e := recover(); e != nil {
			msg = fmt.Sprint(e)
			if msg == "" {
				msg = "panic"
			}
		}
	}()
	fn()
	return ""
}

func TestVerif(t *testing.T) {
	h := &vfH{mode: os.Getenv("VF_MODE"), out: os.Getenv("VF_OUT"), scratch: os.Getenv("VF_SCRATCH"), t0: time.Now(), distinct: map[uint64]bool{}, keys: map[string]int{}, hang: 40 * time.Second, extra: map[string]interface{}{}}
	h.secs, _ = strconv.Atoi(os.Getenv("VF_SECS"))
	seed, _ := strconv.ParseInt(os.Getenv("VF_SEED"), 10, 64)
	h.rng = rand.New(rand.NewSource(seed + 1))
	h.known = map[string]bool{}
	for _, k := range strings.Split(os.Getenv("VF_KNOWN"), ",") {
		h.known[k] = true
	}
	if b, err := os.ReadFile(os.Getenv("VF_HINTS")); err == nil {
		var ss []string
		json.Unmarshal(b, &ss)
		for _, s := range ss {
			if v, err := strconv.ParseInt(strings.TrimSpace(s), 10, 64); err == nil {
				h.hints = append(h.hints, v)
			}
		}
	}
	if h.out == "" {
		t.Skip("run through gover")
	}
	h.cur, _ = os.Create(h.out + ".cur")
	if dn, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = dn
	}
	go func() { // a case that never ends is a failure too
		for {
			time.Sleep(time.Second)
			h.mu.Lock()
			d, st := h.curDesc, h.curStart
			h.mu.Unlock()
			if d != "" && time.Since(st) > h.hang {
				h.failKey("hang", d, "does not terminate", nil)
				h.write()
				os.Exit(0)
			}
		}
	}()
	vfRun(h)
	h.cur.Truncate(0)
	h.write()
}

func vfMin(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func vfMax(a, b int) int {
	if a > b {
		return a
	}
	return b
}
