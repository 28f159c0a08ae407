// Package hx is the frame of the bounded cross-checks: it records the history of the case under
// way, turns a failed check, an unexpected panic, a hang or a memory explosion into a FAIL line with
// that history, and counts what was tried.
package hx

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type failure struct{ msg string }

// H is the state of one run
type H struct {
	R        *rand.Rand
	Deadline time.Time
	Evals    int64
	distinct map[uint64]struct{}
	samples  []string
	mu       sync.Mutex
	hist     []any
	hash     uint64
	ticks    int64
	nOps     int
	trace    *os.File
	rule     string
	exh      []string
	Conc     bool // history is written by several goroutines
}

// Begin starts a new case
func (h *H) Begin(desc ...any) {
	if h.nOps > 0 {
		h.end()
	}
	h.mu.Lock()
	h.hist = h.hist[:0]
	h.mu.Unlock()
	h.hash = 14695981039346656037
	h.nOps = 0
	h.Op(desc...)
	h.nOps = 0
}

func (h *H) end() {
	h.Evals++
	if len(h.distinct) < 400000 {
		h.distinct[h.hash] = struct{}{}
	}
	if len(h.samples) < 3 && h.Evals%37 == 1 {
		s := h.history()
		if len(s) > 12 {
			s = append(s[:12], fmt.Sprintf("... %d operations in all", h.nOps))
		}
		h.samples = append(h.samples, strings.Join(s, "; "))
	}
}

func mix(x uint64, v uint64) uint64 {
	x ^= v
	x *= 1099511628211
	x ^= x >> 29
	return x
}

// Op records an operation of the current case
func (h *H) Op(args ...any) {
	atomic.AddInt64(&h.ticks, 1)
	h.mu.Lock()
	h.nOps++
	h.hist = append(h.hist, args...)
	h.hist = append(h.hist, opEnd)
	for _, a := range args {
		switch v := a.(type) {
		case int:
			h.hash = mix(h.hash, uint64(v)+1)
		case string:
			for i := 0; i < len(v); i++ {
				h.hash = mix(h.hash, uint64(v[i]))
			}
		default:
			h.hash = mix(h.hash, 77)
		}
	}
	if h.trace != nil {
		fmt.Fprintln(h.trace, args...)
	}
	h.mu.Unlock()
}

type endMark struct{}

var opEnd = endMark{}

// Tick tells the watchdog that progress is made
func (h *H) Tick() { atomic.AddInt64(&h.ticks, 1) }

func (h *H) history() []string {
	h.mu.Lock()
	defer h.mu.Unlock()
	var out []string
	var cur []string
	for _, a := range h.hist {
		if a == opEnd {
			out = append(out, strings.Join(cur, " "))
			cur = nil
			continue
		}
		s := fmt.Sprintf("%+v", a)
		if len(s) > 4000 {
			s = s[:4000] + "..."
		}
		cur = append(cur, s)
	}
	return out
}

// Check fails the run when ok is false
func (h *H) Check(ok bool, format string, args ...any) {
	if !ok {
		panic(failure{fmt.Sprintf(format, args...)})
	}
}

// Fail fails the run
func (h *H) Fail(format string, args ...any) { h.Check(false, format, args...) }

// Panics runs f and reports whether it panicked
func (h *H) Panics(f func()) (p bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(failure); ok {
				panic(x)
			}
			p = true
		}
	}()
	f()
	return
}

// More reports whether there is time for another case
func (h *H) More() bool { return time.Now().Before(h.Deadline) }

// Exhaustive notes that a finite space was enumerated completely
func (h *H) Exhaustive(what string) { h.exh = append(h.exh, what) }

// Rule describes how the cases are made
func (h *H) Rule(s string) { h.rule = s }

// Start returns the time from which a phase may use a fraction of the budget
func (h *H) Until(frac float64, total time.Duration, start time.Time) bool {
	return time.Since(start) < time.Duration(float64(total)*frac)
}

func (h *H) fail(msg string) {
	hs := h.history()
	if len(hs) > 400 {
		hs = append([]string{fmt.Sprintf("(%d earlier operations; run again with -trace to see them)", len(hs)-400)}, hs[len(hs)-400:]...)
	}
	if len(msg) > 4000 {
		msg = msg[:4000]
	}
	b, _ := json.Marshal(map[string]any{"what": msg, "history": hs})
	fmt.Printf("FAIL %s\n", b)
	os.Exit(1)
}

// Main runs f
func Main(f func(h *H, budget time.Duration)) {
	seed := flag.Int64("seed", 1, "seed")
	secs := flag.Float64("seconds", 5, "time budget")
	trace := flag.String("trace", "", "write every operation to this file")
	flag.Parse()
	budget := time.Duration(*secs * float64(time.Second))
	h := &H{R: rand.New(rand.NewSource(*seed)), Deadline: time.Now().Add(budget), distinct: map[uint64]struct{}{}}
	if *trace != "" {
		h.trace, _ = os.Create(*trace)
	}
	go func() {
		last, since := int64(-1), time.Now()
		for {
			time.Sleep(500 * time.Millisecond)
			t := atomic.LoadInt64(&h.ticks)
			if t != last {
				last, since = t, time.Now()
			} else if time.Since(since) > 25*time.Second {
				buf := make([]byte, 1<<16)
				n := runtime.Stack(buf, true)
				fmt.Println(string(buf[:n]))
				h.fail("the last operation of the history does not finish")
			}
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 4<<30 {
				h.fail("the last operation of the history uses unbounded memory")
			}
		}
	}()
	func() {
		defer func() {
			if x := recover(); x != nil {
				if fl, ok := x.(failure); ok {
					h.fail(fl.msg)
				}
				buf := make([]byte, 1<<14)
				n := runtime.Stack(buf, false)
				h.fail(fmt.Sprintf("unexpected panic: %v\n%s", x, buf[:n]))
			}
		}()
		f(h, budget)
	}()
	if h.nOps > 0 {
		h.end()
	}
	b, _ := json.Marshal(map[string]any{"evaluations": h.Evals, "distinct_nontrivial": len(h.distinct), "rule": h.rule,
		"samples": h.samples, "exhaustive_parts": h.exh})
	fmt.Printf("REPORT %s\n", b)
}

// Seqs calls f with every sequence of length n over 0..k-1; it stops when f returns false
func Seqs(k, n int, f func(s []int) bool) bool {
	s := make([]int, n)
	for {
		if !f(s) {
			return false
		}
		i := n - 1
		for i >= 0 && s[i] == k-1 {
			s[i] = 0
			i--
		}
		if i < 0 {
			return true
		}
		s[i]++
	}
}

// EqInts compares slices
func EqInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// Insert, Remove and Clone on model slices
func Insert(s []int, pos, v int) []int {
	r := append([]int{}, s[:pos]...)
	r = append(r, v)
	return append(r, s[pos:]...)
}

// Cut removes [i, j)
func Cut(s []int, i, j int) []int {
	r := append([]int{}, s[:i]...)
	return append(r, s[j:]...)
}
