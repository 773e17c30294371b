// Package kit runs explorations in parallel, counts what they cover and records what they find.
package kit

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"sync"
	"sync/atomic"
	"time"
)

// Replay describes one failing execution well enough to run it again.
type Replay struct {
	Kind    string         `json:"kind"`
	Data    string         `json:"data_hex,omitempty"`
	EOF     bool           `json:"at_eof,omitempty"`
	Params  map[string]any `json:"params,omitempty"`
	Message string         `json:"message"`
	GoTest  string         `json:"go_test,omitempty"`
	size    int
}

// Run is one check run.
type Run struct {
	Prop     string
	Thorough bool
	shard    int
	shards   int
	Out      string
	start    time.Time
	deadline time.Time

	mu       sync.Mutex
	found    []Replay
	stop     atomic.Bool
	timedOut atomic.Bool
	coverage map[string]any
	samples  []any
	phases   []map[string]any
	workers  []*Worker
}

// Worker is the per-goroutine part of a run.
type Worker struct {
	Run   *Run
	Calls uint64 // calls of the code under test
	Data  []byte // arguments of the current call
	EOF   bool
	Note  string
	Rune  rune // in a sweep: the character under test, and its offset
	At    int
	// In a repetition: its parts and count.
	Pre, Loop, Suf []byte
	N              int
	busy           atomic.Bool
	beat           atomic.Uint64
	S              map[string]uint64
}

// New starts a run. limit bounds the exploration in time; a run which reaches it is not exhaustive, but not an error.
func New(prop string, thorough bool, out string, limit time.Duration) *Run {
	r := &Run{Prop: prop, Thorough: thorough, Out: out, start: time.Now(), coverage: map[string]any{}}
	// Where threads do not run in parallel, several processes share the jobs: VERIF_SHARD=k/n.
	if s := os.Getenv("VERIF_SHARD"); s != "" {
		if n, err := fmt.Sscanf(s, "%d/%d", &r.shard, &r.shards); n != 2 || err != nil || r.shard >= r.shards {
			panic("VERIF_SHARD=" + s)
		}
		r.coverage["share_of_jobs"] = s
	}
	r.deadline = r.start.Add(limit)
	go r.watch()
	return r
}

// Stopped reports whether explorations should end.
func (r *Run) Stopped() bool {
	if r.stop.Load() {
		return true
	}
	if time.Now().After(r.deadline) {
		r.timedOut.Store(true)
		r.stop.Store(true)
		return true
	}
	return false
}

// Incomplete says that something was left out for lack of time.
func (r *Run) Incomplete() { r.timedOut.Store(true) }

func (r *Run) watch() {
	type seen struct {
		beat  uint64
		ticks int
	}
	last := map[*Worker]seen{}
	for {
		time.Sleep(2 * time.Second)
		r.mu.Lock()
		ws := append([]*Worker{}, r.workers...)
		r.mu.Unlock()
		for _, w := range ws {
			b := w.progress()
			if s, ok := last[w]; !ok || s.beat != b || !w.busy.Load() {
				last[w] = seen{b, 0}
			} else if last[w] = (seen{b, s.ticks + 1}); s.ticks >= 45 {
				r.Fail(Replay{Kind: "hang", Data: fmt.Sprintf("%x", w.Data), EOF: w.EOF, Message: "no result after 90 s of one call " + w.Note})
				r.Finish()
			}
		}
	}
}

// Fail records a violation and stops the run.
func (r *Run) Fail(v Replay) {
	r.mu.Lock()
	defer r.mu.Unlock()
	v.size = len(v.Data)
	if len(r.found) < 64 {
		r.found = append(r.found, v)
	}
	r.stop.Store(true)
}

// Failed reports whether anything was found.
func (r *Run) Failed() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.found) > 0
}

// Count sets a coverage entry.
func (r *Run) Count(key string, v any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.coverage[key] = v
}

// Add adds to a numeric coverage entry.
func (r *Run) Add(key string, n uint64) {
	r.mu.Lock()
	defer r.mu.Unlock()
	old, _ := r.coverage[key].(uint64)
	r.coverage[key] = old + n
}

// Sample keeps an example case (the first few).
func (r *Run) Sample(v any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.samples) < 24 {
		r.samples = append(r.samples, v)
	}
}

// Parallel runs jobs 0..n-1 on all cores, as the named phase, and reports the phase's counters in the coverage.
func (r *Run) Parallel(phase, bound string, n int, job func(w *Worker, i int)) {
	r.ParallelN(phase, bound, n, runtime.NumCPU(), job)
}

// ParallelN is Parallel with a given number of workers.
func (r *Run) ParallelN(phase, bound string, n, workers int, job func(w *Worker, i int)) {
	if r.Stopped() {
		r.mu.Lock()
		r.phases = append(r.phases, map[string]any{"phase": phase, "bound": bound, "skipped": true})
		r.mu.Unlock()
		return
	}
	t0 := time.Now()
	var next atomic.Int64
	var done atomic.Int64
	var wg sync.WaitGroup
	ws := make([]*Worker, min(workers, n))
	for k := range ws {
		w := &Worker{Run: r, S: map[string]uint64{}}
		ws[k] = w
		r.mu.Lock()
		r.workers = append(r.workers, w)
		r.mu.Unlock()
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer w.busy.Store(false)
			for {
				i := int(next.Add(1)) - 1
				if i >= n || r.Stopped() {
					return
				}
				if r.shards > 1 && i%r.shards != r.shard {
					continue
				}
				func() {
					defer func() {
						if p := recover(); p != nil {
							r.Fail(Replay{Kind: "panic", Data: fmt.Sprintf("%x", w.Data), EOF: w.EOF,
								Message: fmt.Sprintf("panic: %v %s\n%s", p, w.Note, debug.Stack())})
						}
					}()
					w.busy.Store(true)
					job(w, i)
					w.busy.Store(false)
					done.Add(1)
				}()
			}
		}()
	}
	wg.Wait()
	calls := uint64(0)
	sum := map[string]uint64{}
	for _, w := range ws {
		calls += w.Calls
		for k, v := range w.S {
			sum[k] += v
		}
	}
	mine := n
	if r.shards > 1 {
		mine = (n - r.shard + r.shards - 1) / r.shards
	}
	ph := map[string]any{"phase": phase, "bound": bound, "calls": calls, "jobs": mine, "jobs_completed": done.Load(),
		"complete": int(done.Load()) == mine, "wall_s": float64(time.Since(t0).Milliseconds()) / 1000}
	for k, v := range sum {
		ph[k] = v
	}
	r.mu.Lock()
	r.phases = append(r.phases, ph)
	r.workers = nil
	old, _ := r.coverage["calls"].(uint64)
	r.coverage["calls"] = old + calls
	r.mu.Unlock()
	for k, v := range sum {
		r.Add(k, v)
	}
}

// progress reads Calls while it changes; it only has to see that calls go on.
//
//go:norace
//go:noinline
func (w *Worker) progress() uint64 { return w.beat.Load() + w.Calls }

// Beat tells the watchdog that the worker is alive.
func (w *Worker) Beat() { w.beat.Add(1) }

// Finish writes the result and ends the process.
func (r *Run) Finish() {
	r.mu.Lock()
	sort.SliceStable(r.found, func(i, j int) bool { return r.found[i].size < r.found[j].size })
	complete := !r.timedOut.Load()
	for _, p := range r.phases {
		if c, ok := p["complete"].(bool); ok && !c {
			complete = false
		}
		if p["skipped"] == true {
			complete = false
		}
	}
	r.coverage["phases"] = r.phases
	r.coverage["samples"] = r.samples
	r.coverage["exhaustive"] = complete
	res := map[string]any{"found": r.found, "coverage": r.coverage, "wall_s": time.Since(r.start).Seconds()}
	b, err := json.MarshalIndent(res, "", " ")
	if err == nil {
		err = os.WriteFile(r.Out, b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "cannot write result:", err)
		os.Exit(2)
	}
	for i, f := range r.found {
		if i == 5 {
			break
		}
		fmt.Printf("found: %s data=%s eof=%v: %.600s\n", f.Kind, f.Data, f.EOF, f.Message)
	}
	if len(r.found) > 0 {
		os.Exit(1)
	}
	os.Exit(0)
}
