// sched explores the interleavings of concurrent calls (C07), statement by statement, in an instrumented copy of the
// library (cmd/instrument). Built with the race detector, it reports any two conflicting accesses in an explored
// interleaving that the library does not order itself.
//
//	sched C07 quick|thorough RESULT.json   (environment: SCHED_RACE=1 in the binary with the race detector, SCHED_FREE=1 if not instrumented)
//	sched child
//	sched replay FILE
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/apparentlymart/go-textseg/v17/textseg"
	"github.com/apparentlymart/go-textseg/v17/textseg/internal/zzverif/zzsched"
	"verif.local/harness/kit"
)

type call struct {
	Text []byte
	EOF  bool
}

// Job is one configuration of threads, of which all schedules are run.
type Job struct {
	Threads [][]call
	Bound   int  // preemptions
	Shared  bool // equal texts are the same memory
	Free    int  // run freely, this many times, instead
	Plan    []zzsched.Choice
	Replay  bool // run Plan only
	Limit   time.Duration
}

type Answer struct {
	Schedules, Steps, Preempted uint64
	Fail                        string
	Plan                        []zzsched.Choice
	Cut                         bool
	Slow                        bool // the library prepares itself at length; see setup
	Alive                       bool // more will come
}

type result struct {
	adv, off, n int
	err         string
	panicked    string
}

func do(c call) (r result) {
	defer func() {
		if p := recover(); p != nil {
			r.panicked = fmt.Sprint(p)
		}
	}()
	adv, tok, err := textseg.ScanGraphemeClusters(c.Text, c.EOF)
	r.adv, r.n, r.off = adv, len(tok), -1
	if len(tok) > 0 && len(c.Text) > 0 {
		for i := range c.Text {
			if &c.Text[i] == &tok[0] {
				r.off = i
			}
		}
	}
	if err != nil {
		r.err = err.Error()
	}
	return
}

func (c call) String() string { return fmt.Sprintf("%+q (atEOF %v)", c.Text, c.EOF) }
func (r result) String() string {
	if r.panicked != "" {
		return "panic: " + r.panicked
	}
	return fmt.Sprintf("advance %d, token of %d bytes at %d, error %q", r.adv, r.n, r.off, r.err)
}

type explorer struct {
	job     Job
	workers *zzsched.Workers
	want    [][]result
	got     [][]result
	texts   [][]string
	bodies  []func()
	ans     Answer
	end     time.Time
	report  func()
	events  [][]zzsched.Event // memory, by depth
	slow    bool
	cold    int // the steps before this one can be preempted in runs from the start
	coldEnd time.Time
}

// slowStart is how many steps the library may make to give its variables their initial values, and in a first call. If it
// makes more (a table that is computed when the program starts, or when it is first needed), then not all runs start
// anew: with one preemption at each of the first 40 steps and with a limit of time, they do; with all the others, the
// library is as earlier calls left it.
const slowStart = 100000

func (e *explorer) setup() {
	mem := map[string][]byte{}
	for t := range e.job.Threads {
		e.want = append(e.want, make([]result, len(e.job.Threads[t])))
		e.got = append(e.got, make([]result, len(e.job.Threads[t])))
		e.texts = append(e.texts, nil)
		for i := range e.job.Threads[t] {
			c := &e.job.Threads[t][i]
			s := string(c.Text)
			e.texts[t] = append(e.texts[t], s)
			b := mem[s]
			if b == nil || !e.job.Shared {
				b = append(make([]byte, 0, len(s)), s...)
				mem[s] = b
			}
			c.Text = b
			if !e.slow {
				before := zzsched.Idle()
				zzsched.Reset()
				e.want[t][i] = do(*c)
				e.slow = zzsched.Idle()-before > slowStart
				e.ans.Slow = e.slow
			}
			if e.slow {
				e.want[t][i] = do(*c)
			}
		}
		e.bodies = append(e.bodies, func() {
			for i, c := range e.job.Threads[t] {
				e.got[t][i] = do(c)
			}
		})
	}
}

func (e *explorer) check() string {
	for t := range e.want {
		for i := range e.want[t] {
			if e.got[t][i] != e.want[t][i] {
				return fmt.Sprintf("thread %d, call %d, %v: %v; alone: %v", t, i, e.job.Threads[t][i], e.got[t][i], e.want[t][i])
			}
			if string(e.job.Threads[t][i].Text) != e.texts[t][i] {
				return fmt.Sprintf("thread %d, call %d: the text %+q became %+q", t, i, e.texts[t][i], e.job.Threads[t][i].Text)
			}
		}
	}
	return ""
}

func (e *explorer) run(plan []zzsched.Choice, depth int) ([]zzsched.Event, bool) {
	for len(e.events) <= depth {
		e.events = append(e.events, make([]zzsched.Event, 0, 1<<16))
	}
	for t := range e.got {
		clear(e.got[t])
	}
	if !e.slow || e.cold > 0 {
		zzsched.Reset()
	}
	ev, steps, ok := e.workers.Run(e.bodies, plan, e.events[depth])
	e.ans.Schedules++
	e.ans.Steps += uint64(steps)
	m := ""
	if !ok {
		m = "all threads wait for each other"
	} else {
		m = e.check()
	}
	if m != "" {
		e.ans.Fail = m
		e.ans.Plan = append([]zzsched.Choice{}, plan...)
		return nil, false
	}
	if e.ans.Schedules%1024 == 0 || steps > 1000 {
		e.report()
		if time.Now().After(e.end) {
			e.ans.Cut = true
			return nil, false
		}
	}
	return ev, true
}

// explore runs every schedule that starts with plan and makes further choices after it.
func (e *explorer) explore(plan []zzsched.Choice, preemptions, depth int) bool {
	ev, ok := e.run(plan, depth)
	if !ok {
		return false
	}
	last := -1
	if len(plan) > 0 {
		last = plan[len(plan)-1].Step
	}
	for _, v := range ev {
		if v.Step <= last {
			continue
		}
		if e.cold > 0 && (v.Step >= e.cold || time.Now().After(e.coldEnd)) {
			break
		}
		cost := 1
		if v.Free {
			cost = 0
		}
		if preemptions+cost > e.job.Bound {
			continue
		}
		first := true
		for t := 0; t < zzsched.MaxThreads; t++ {
			if v.Runnable>>t&1 == 0 {
				continue
			}
			if v.Free && first {
				first = false // what happens without a choice
				continue
			}
			p := append(plan[:len(plan):len(plan)], zzsched.Choice{Step: v.Step, To: t})
			if !e.explore(p, preemptions+cost, depth+1) {
				return false
			}
		}
	}
	return true
}

func (e *explorer) free() {
	var wg sync.WaitGroup
	var mu sync.Mutex
	for round := 0; round < e.job.Free; round++ {
		if !e.slow || round == 0 {
			zzsched.Reset()
		}
		gate := make(chan bool)
		for t := range e.job.Threads {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-gate
				for i, c := range e.job.Threads[t] {
					if r := do(c); r != e.want[t][i] {
						mu.Lock()
						e.ans.Fail = fmt.Sprintf("thread %d, call %d, %v: %v; alone: %v", t, i, c, r, e.want[t][i])
						mu.Unlock()
						return
					}
				}
			}()
		}
		close(gate)
		wg.Wait()
		e.ans.Schedules++
		e.report()
		if e.ans.Fail != "" || time.Now().After(e.end) {
			return
		}
	}
}

func child() {
	in := json.NewDecoder(bufio.NewReader(os.Stdin))
	out := json.NewEncoder(os.Stdout)
	workers := zzsched.NewWorkers()
	for {
		e := &explorer{workers: workers}
		if in.Decode(&e.job) != nil {
			return
		}
		e.end = time.Now().Add(e.job.Limit)
		last := time.Now()
		e.report = func() {
			if time.Since(last) > time.Second {
				last = time.Now()
				a := e.ans
				a.Alive = true
				out.Encode(a)
			}
		}
		e.setup()
		switch {
		case e.job.Free > 0:
			runtime.GOMAXPROCS(runtime.NumCPU())
			e.free()
			runtime.GOMAXPROCS(1)
		case e.job.Replay:
			e.cold = 1
			e.run(e.job.Plan, 0)
			if e.cold = 0; e.slow && e.ans.Fail == "" {
				e.run(e.job.Plan, 0)
			}
		default:
			if e.slow {
				bound := e.job.Bound
				e.job.Bound, e.cold, e.coldEnd = 1, 40, time.Now().Add(2*time.Second)
				ok := e.explore(nil, 0, 0)
				e.job.Bound, e.cold = bound, 0
				if !ok {
					break
				}
			}
			e.explore(nil, 0, 0)
		}
		out.Encode(e.ans)
	}
}

// ---- The parent.

type proc struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	enc    *json.Encoder
	dec    *json.Decoder
	stderr *bytes.Buffer
}

func newProc() *proc {
	p := &proc{cmd: exec.Command(os.Args[0], "child"), stderr: &bytes.Buffer{}}
	p.cmd.Stderr = p.stderr
	p.cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0", "GOTRACEBACK=all")
	p.in, _ = p.cmd.StdinPipe()
	out, _ := p.cmd.StdoutPipe()
	if err := p.cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	p.enc, p.dec = json.NewEncoder(p.in), json.NewDecoder(out)
	return p
}

// do runs a job. crash is the standard error of a process that died.
func (p *proc) do(j *Job, beat func(Answer)) (a Answer, crash string) {
	if err := p.enc.Encode(j); err != nil {
		p.cmd.Wait()
		return a, "write: " + p.stderr.String()
	}
	for {
		a = Answer{}
		// A thread that runs on without reaching a scheduling point would never end.
		t := time.AfterFunc(90*time.Second, func() { p.cmd.Process.Kill() })
		err := p.dec.Decode(&a)
		fired := !t.Stop()
		if err != nil {
			p.cmd.Wait()
			if fired {
				return a, "hang: nothing was heard for 90 s"
			}
			return a, fmt.Sprintf("exit status %d\n%s", p.cmd.ProcessState.ExitCode(), p.stderr.String())
		}
		if !a.Alive {
			return a, ""
		}
		beat(a)
	}
}

func describe(j *Job) string {
	var ts []string
	for _, t := range j.Threads {
		var cs []string
		for _, c := range t {
			cs = append(cs, c.String())
		}
		ts = append(ts, strings.Join(cs, ", "))
	}
	return strings.Join(ts, " | ")
}

func judge(j *Job, a Answer, crash string) (kind, msg string) {
	switch {
	case crash != "" && strings.Contains(crash, "WARNING: DATA RACE"):
		return "race", "data race between concurrent calls " + describe(j) + "\n" + crash
	case strings.HasPrefix(crash, "hang"):
		return "hang", describe(j) + ": " + crash
	case crash != "":
		return "crash", describe(j) + ": " + crash
	case a.Fail != "":
		return "schedule", fmt.Sprintf("%s; switches (step, to): %v", a.Fail, a.Plan)
	}
	return "", ""
}

var texts = []string{"a", "a\u0300", "\r\n", "\r", "\n\u0300", "\U0001F600\u200D\U0001F600", "\U0001F600\u0300", "\U0001F1E6\U0001F1E7\U0001F1E8", "\U0001F1E6a", "क\u094Dक", "क\u093cक", "\u1100\u1161\u11A8", "\uac00\u1160", "\u0600a", "\xff", "a\xe2\x41", "\u00e9\xe2\x82", "\u0915\u0903", "\U0010FFFF"}

func jobs(thorough, race bool) (phases []string, bounds []string, ret [][]Job) {
	one := func(s string, eof bool) []call { return []call{{[]byte(s), eof}} }
	add := func(name, bound string, js []Job) {
		phases, bounds, ret = append(phases, name), append(bounds, bound), append(ret, js)
	}
	pb, mb := 2, 2 // preemptions: for pairs of calls, and for more
	if thorough {
		pb = 3
	}
	if race {
		mb = 1
		pb = 2
	}
	var pairs, same, two, three []Job
	for i, s := range texts {
		for k, t := range texts[i:] {
			b := pb
			if race && !thorough && (i+k)%3 != 0 {
				b = 1
			}
			pairs = append(pairs, Job{Threads: [][]call{one(s, (i+k)%2 == 0), one(t, k%3 != 0)}, Bound: b, Shared: k%2 == 0})
		}
		same = append(same, Job{Threads: [][]call{one(s, true), one(s, false)}, Bound: pb, Shared: true})
		u := texts[(i+5)%len(texts)]
		two = append(two, Job{Threads: [][]call{{{[]byte(s), true}, {[]byte(u), true}}, {{[]byte(u), true}, {[]byte(s), false}}}, Bound: mb, Shared: i%2 == 0})
		v := texts[(i+9)%len(texts)]
		three = append(three, Job{Threads: [][]call{one(s, true), one(u, false), one(v, true)}, Bound: mb, Shared: true})
	}
	add("two threads", fmt.Sprintf("all pairs of %d texts, one call per thread, at most %d preemptions, at every statement", len(texts), pb), pairs)
	add("two threads, one text", fmt.Sprintf("%d texts, one call per thread with different atEOF, at most %d preemptions", len(texts), pb), same)
	add("two threads, two calls", fmt.Sprintf("%d pairs of texts, two calls per thread, at most %d preemptions", len(texts), mb), two)
	add("three threads", fmt.Sprintf("%d triples of texts, one call per thread, at most %d preemptions", len(texts), mb), three)
	return
}

func freeJobs(rounds int) []Job {
	var ret []Job
	for k := 0; k < 8; k++ {
		var j Job
		for t := 0; t < 8; t++ {
			var cs []call
			for i := range texts {
				cs = append(cs, call{[]byte(texts[(i*(1+t%3)+t*k)%len(texts)]), (i+t)%3 != 0})
			}
			j.Threads = append(j.Threads, cs)
		}
		j.Free = rounds
		j.Shared = k%2 == 0
		ret = append(ret, j)
	}
	return ret
}

func main() {
	if len(os.Args) == 2 && os.Args[1] == "child" {
		child()
		return
	}
	race, freeOnly := os.Getenv("SCHED_RACE") != "", os.Getenv("SCHED_FREE") != ""
	if len(os.Args) == 3 && os.Args[1] == "replay" {
		raw, err := os.ReadFile(os.Args[2])
		var v kit.Replay
		var j Job
		if err == nil {
			err = json.Unmarshal(raw, &v)
		}
		if err == nil {
			s, _ := v.Params["job"].(string)
			err = json.Unmarshal([]byte(s), &j)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		a, crash := newProc().do(&j, func(Answer) {})
		if k, m := judge(&j, a, crash); k != "" {
			fmt.Println(k, m)
			os.Exit(1)
		}
		os.Exit(0)
	}
	thorough := os.Args[2] == "thorough"
	limit := 150 * time.Second
	if thorough {
		limit = 330 * time.Second
	}
	r := kit.New(os.Args[1], thorough, os.Args[3], limit)
	end := time.Now().Add(limit)
	run := func(phase, bound string, js []Job, workers int) {
		procs := make(chan *proc, 64)
		r.ParallelN(phase, bound, len(js), workers, func(w *kit.Worker, i int) {
			var p *proc
			select {
			case p = <-procs:
			default:
				p = newProc()
			}
			j := &js[i]
			w.Note = describe(j)
			j.Limit = time.Until(end)
			a, crash := p.do(j, func(Answer) { w.Beat() })
			n := uint64(0)
			for _, t := range j.Threads {
				n += uint64(len(t))
			}
			w.Calls += a.Schedules * n
			w.Beat()
			w.S["configurations"]++
			if j.Free > 0 {
				w.S["free_runs"] += a.Schedules
			} else {
				w.S["schedules"] += a.Schedules
				w.S["steps"] += a.Steps
			}
			if kind, m := judge(j, a, crash); kind != "" {
				j.Plan, j.Replay = a.Plan, kind == "schedule" && j.Free == 0
				j.Limit = 40 * time.Second
				js, _ := json.Marshal(j)
				r.Fail(kit.Replay{Kind: kind, Message: m, Params: map[string]any{"job": string(js)}})
				return
			}
			if a.Cut {
				r.Incomplete()
			}
			if a.Slow {
				r.Incomplete()
				w.S["configurations_not_always_started_anew"]++
			}
			if i%37 == 0 {
				r.Sample(map[string]any{"threads": describe(j), "bound": j.Bound, "schedules": a.Schedules, "steps": a.Steps})
			}
			procs <- p
		})
		for len(procs) > 0 {
			p := <-procs
			p.in.Close()
			p.cmd.Wait()
		}
	}
	if !freeOnly {
		names, bounds, js := jobs(thorough, race)
		for i := range js {
			run(names[i], bounds[i], js[i], runtime.NumCPU())
		}
	}
	if race {
		run("free running, with the race detector", "8 goroutines, 8 orders of the texts", freeJobs(40), 2)
	}
	r.Finish()
}
