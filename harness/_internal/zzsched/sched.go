// Package zzsched runs threads one at a time and switches between them where it is told to. The library's statements are
// preceded by calls of Point in a build-time copy (cmd/instrument).
//
// All hand-over is through plain variables in functions that the race detector does not see, so that a run under the
// race detector has no happens-before edges between threads other than those that the library makes itself.
package zzsched

import "runtime"

const MaxThreads = 4

// Choice: at step Step, continue with thread To.
type Choice struct{ Step, To int }

// Event is a step at which another thread could have gone on.
type Event struct {
	Step     int
	From     int    // the thread that was running; -1 at the start
	Runnable uint32 // who else could go on
	Free     bool   // the running thread could not (it ended or is blocked), so that switching is no preemption
}

var (
	active   bool
	cur      int
	step     int
	n        int
	ended    uint32
	blocked  uint32
	plan     []Choice
	events   []Event
	since    int // steps since the last switch
	deadlock bool
	resets   []func()
	idle     uint64 // steps outside of runs
)

// Idle returns how many steps were made outside of runs (by one thread, or approximately).
//
//go:norace
func Idle() uint64 { return idle }

// OnReset registers a function that gives a package's variables their initial values.
func OnReset(f func()) { resets = append(resets, f) }

// Reset gives all variables of the instrumented packages their initial values.
func Reset() {
	for i := 0; i < 2; i++ {
		for _, f := range resets {
			f()
		}
	}
}

//go:norace
func others(me int) uint32 {
	r := (uint32(1)<<n - 1) &^ ended &^ blocked
	if me >= 0 {
		r &^= 1 << me
	}
	return r
}

//go:norace
func lowest(m uint32) int {
	for i := 0; i < MaxThreads; i++ {
		if m>>i&1 == 1 {
			return i
		}
	}
	return -1
}

// decide is called at every step; it returns the thread that goes on.
//
//go:norace
func decide(me int, free bool) int {
	s := step
	step++
	r := others(me)
	if r == 0 {
		if free {
			return -1
		}
		return me
	}
	if len(events) < cap(events) {
		e := &events[:len(events)+1][len(events)]
		e.Step, e.From, e.Runnable, e.Free = s, me, r, free
		events = events[:len(events)+1]
	}
	if len(plan) > 0 && plan[0].Step == s {
		to := plan[0].To
		plan = plan[1:]
		if r>>to&1 == 1 {
			return to
		}
	}
	if free {
		return lowest(r)
	}
	return me
}

//go:norace
func handOver(me, to int) {
	since = 0
	cur = to
	for cur != me {
		runtime.Gosched()
	}
}

// Point is a scheduling point.
//
//go:norace
func Point() {
	if !active {
		idle++
		return
	}
	me := cur
	since++
	if since > 200000 { // the thread waits for another one, without saying so
		if to := lowest(others(me)); to >= 0 {
			step++
			handOver(me, to)
			return
		}
	}
	if to := decide(me, false); to != me {
		handOver(me, to)
	}
}

// Blocked is called by a thread that cannot go on until another one has run.
//
//go:norace
func Blocked() {
	if !active {
		runtime.Gosched()
		return
	}
	me := cur
	blocked |= 1 << me
	to := decide(me, true)
	if to < 0 {
		deadlock = true
		blocked = 0
		for {
			runtime.Gosched() // this run never ends; the explorer sees the flag
		}
	}
	handOver(me, to)
	blocked &^= 1 << me
}

// Unblocked says that blocked threads may be able to go on.
//
//go:norace
func Unblocked() { blocked = 0 }

//go:norace
func start(me int) {
	for cur != me {
		runtime.Gosched()
	}
}

//go:norace
func end(me int) {
	ended |= 1 << me
	blocked = 0
	if to := decide(me, true); to >= 0 {
		since = 0
		cur = to
	} else {
		active = false
		cur = -1
	}
}

//go:norace
func prepare(threads int, p []Choice, ev []Event) {
	n, plan, events = threads, p, ev[:0]
	step, since, ended, blocked, deadlock = 0, 0, 0, 0, false
	active = true
	cur = -2
}

//go:norace
func begin() { cur = decide(-1, true) }

//go:norace
func wait() bool {
	for active {
		if deadlock {
			return false
		}
		runtime.Gosched()
	}
	return true
}

//go:norace
func result() ([]Event, int) { return events, step }

// Workers run the bodies of threads; each keeps its goroutine from run to run.
type Workers struct {
	work []chan func()
	done chan bool
}

func NewWorkers() *Workers {
	w := &Workers{done: make(chan bool, MaxThreads)}
	for i := 0; i < MaxThreads; i++ {
		c := make(chan func())
		w.work = append(w.work, c)
		go func() {
			for f := range c {
				start(i)
				f()
				end(i)
				w.done <- true // orders what the thread wrote before what the explorer does next
			}
		}()
	}
	return w
}

// Run runs the threads to their ends under the given choices. ok is false after a deadlock, which leaves the process
// unusable. The events go into ev's memory, as far as it reaches.
func (w *Workers) Run(bodies []func(), p []Choice, ev []Event) (events []Event, steps int, ok bool) {
	prepare(len(bodies), p, ev)
	for i, f := range bodies {
		w.work[i] <- f
	}
	begin()
	if ok = wait(); ok {
		for range bodies {
			<-w.done
		}
	}
	events, steps = result()
	return
}
