// effects checks that calls depend on their arguments only, and have no effect but their results (C21).
//
//	effects C21 quick|thorough RESULT.json   (environment: EFFECTS_CHILD, this program built with a controlled runtime and with recording of what is asked of the system)
//	effects digest [SECTION CHUNK]
//	effects replay FILE
package main

import (
	"bufio"
	"bytes"
	"encoding/hex"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
	"unicode/utf8"
	"unsafe"
	"weak"

	auto "github.com/apparentlymart/go-textseg/autoversion/textseg"
	"github.com/apparentlymart/go-textseg/v17/textseg"
	"verif.local/harness/explore"
	"verif.local/harness/kit"
	"verif.local/harness/ucd"
)

// ---- Uses of the library.

type hash uint64

func (h *hash) add(v int) {
	x := uint64(*h)
	for i := 0; i < 4; i++ {
		x = (x ^ uint64(byte(v>>(8*i)))) * 0x100000001b3
	}
	*h = hash(x)
}

func (h *hash) result(b []byte, adv int, tok []byte, err error) {
	h.add(adv)
	h.add(len(tok))
	if tok == nil {
		h.add(1)
	}
	if len(tok) > 0 {
		h.add(int(tok[0]))
	}
	if err != nil {
		h.add(len(err.Error()))
	}
}

type splitter func([]byte, bool) (int, []byte, error)

// all segments b, and calls without EOF at every token.
func (f splitter) all(b []byte, h *hash) {
	for at := 0; ; {
		adv, tok, err := f(b[at:], false)
		h.result(b, adv, tok, err)
		adv, tok, err = f(b[at:], true)
		h.result(b, adv, tok, err)
		if adv <= 0 || at+adv > len(b) {
			return
		}
		at += adv
	}
}

type use struct {
	name string
	use  func(b []byte, h *hash)
}

var uses = []use{
	{"textseg.ScanGraphemeClusters", splitter(textseg.ScanGraphemeClusters).all},
	{"autoversion ScanGraphemeClusters", splitter(auto.ScanGraphemeClusters).all},
	{"autoversion ScanUTF8Sequences", splitter(auto.ScanUTF8Sequences).all},
	{"autoversion TokenCount", func(b []byte, h *hash) {
		n, err := auto.TokenCount(b, auto.ScanGraphemeClusters)
		h.result(b, n, nil, err)
	}},
	{"autoversion AllTokens", func(b []byte, h *hash) {
		ts, err := auto.AllTokens(b, auto.ScanGraphemeClusters)
		h.result(b, len(ts), nil, err)
		for _, t := range ts {
			h.result(b, 0, t, nil)
		}
	}},
}

func init() {
	// Ends other than the end of the text.
	stop := errors.New("stop")
	for name, end := range map[string]func(data []byte) (int, []byte, error){
		"an error":      func([]byte) (int, []byte, error) { return 0, nil, stop },
		"ErrFinalToken": func(data []byte) (int, []byte, error) { return 1, data[:1], bufio.ErrFinalToken },
		"no progress":   func([]byte) (int, []byte, error) { return -1, nil, nil },
	} {
		split := func() bufio.SplitFunc {
			n := 0
			return func(data []byte, atEOF bool) (int, []byte, error) {
				if n++; n > 2 {
					return end(data)
				}
				return textseg.ScanGraphemeClusters(data, atEOF)
			}
		}
		uses = append(uses, use{"autoversion AllTokens and TokenCount with a split function that ends with " + name, func(b []byte, h *hash) {
			defer func() {
				if recover() != nil { // bufio.Scanner's: too many empty tokens
					h.add(-1)
				}
			}()
			ts, err := auto.AllTokens(b, split())
			h.result(b, len(ts), nil, err)
			n, err := auto.TokenCount(b, split())
			h.result(b, n, nil, err)
		}})
	}
	sort.Slice(uses[5:], func(i, j int) bool { return uses[5+i].name < uses[5+j].name })
}

func fragments() [][]byte {
	var fs [][]byte
	for _, f := range append(explore.Chars(true), explore.Malformed()...) {
		fs = append(fs, f.Bytes)
	}
	return fs
}

// long repeats f.
func long(f []byte) []byte {
	return bytes.Repeat(f, 3000/max(len(f), 1)+1)
}

// veryLong is more than a scanner reads at once, and more than one buffers.
func veryLong(f []byte) []byte {
	return bytes.Repeat(f, 140000/max(len(f), 1)+1)
}

// ---- Digests.

const chunks = 64

type section struct {
	name string
	use  func(b []byte, h *hash)
	n    int                            // texts
	text func(i int, buf []byte) []byte // the i'th
}

func sections() []section {
	fs := fragments()
	n := len(fs)
	tree := func(i int, buf []byte) []byte {
		buf = append(buf[:0], fs[i%n]...)
		buf = append(buf, fs[i/n%n]...)
		return append(buf, fs[i/n/n]...)
	}
	var ret []section
	for k, u := range uses {
		depth := n * n * n
		if k > 0 {
			depth = n * n * 7
		}
		ret = append(ret, section{u.name + ", three fragments", u.use, depth, tree})
	}
	scalar := func(i int, buf []byte) []byte {
		r := rune(i)
		if r >= 0xd800 {
			r += 0x800
		}
		buf = buf[:0]
		for _, c := range [][2]string{{"a", "\u0301\n"}, {"\U0001F600\u200d", "\u200d\U0001F600\n"}, {"\u0915\u094d", "\u0915\n"}, {"\U0001F1E6", "\U0001F1E6\n"}, {"\u1100", "\u1161\n"}, {"\r", "\n"}} {
			buf = append(buf, c[0]...)
			buf = append(buf, string(r)...)
			buf = append(buf, c[1]...)
		}
		return buf
	}
	for k, u := range uses[:2] {
		ret = append(ret, section{u.name + ", long texts", uses[k].use, n * n, func(i int, buf []byte) []byte {
			buf = append(buf[:0], fs[i%n]...)
			return append(buf, long(fs[i/n])...)
		}})
	}
	for _, u := range uses {
		ret = append(ret, section{u.name + ", very long texts", u.use, n, func(i int, buf []byte) []byte {
			return append(append(buf[:0], veryLong(fs[i])...), 'a')
		}})
	}
	return append(ret, section{"textseg.ScanGraphemeClusters, every scalar value", uses[0].use, 0x110000 - 0x800, scalar})
}

// digest has one line per section and chunk.
func digest(out *bufio.Writer, one, chunk int) {
	var buf []byte
	for si, s := range sections() {
		if one >= 0 && si != one {
			continue
		}
		for c := 0; c < chunks; c++ {
			if one >= 0 && c != chunk {
				continue
			}
			h := hash(0xcbf29ce484222325)
			for i := c * s.n / chunks; i < (c+1)*s.n/chunks; i++ {
				buf = s.text(i, buf)
				if one >= 0 {
					h = hash(0xcbf29ce484222325)
				}
				s.use(buf, &h)
				if one >= 0 {
					fmt.Fprintf(out, "digest %x %016x\n", buf, uint64(h))
				}
			}
			if one < 0 {
				fmt.Fprintf(out, "digest %d %d %016x\n", si, c, uint64(h))
			}
		}
	}
}

// effects is replaced in the build that records.
var effects = func() []string { return nil }

// ---- Runs in other surroundings.

// Variant is one way to run the digest.
type Variant struct {
	Name string   `json:"name"`
	Env  []string `json:"env,omitempty"`
	Dir  string   `json:"dir,omitempty"`
	CPUs int      `json:"cpus,omitempty"`
}

// onCPUs calls f, so that a process that it starts may only use n processors.
func onCPUs(n int, f func()) {
	if n == 0 {
		f()
		return
	}
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	var old, some [128]uint64
	size := uintptr(len(old) * 8)
	if _, _, e := syscall.RawSyscall(syscall.SYS_SCHED_GETAFFINITY, 0, size, uintptr(unsafe.Pointer(&old[0]))); e != 0 {
		f()
		return
	}
	for i := 0; i < len(old)*64 && n > 0; i++ {
		if old[i/64]>>(i%64)&1 != 0 {
			some[i/64] |= 1 << (i % 64)
			n--
		}
	}
	syscall.RawSyscall(syscall.SYS_SCHED_SETAFFINITY, 0, size, uintptr(unsafe.Pointer(&some[0])))
	f()
	syscall.RawSyscall(syscall.SYS_SCHED_SETAFFINITY, 0, size, uintptr(unsafe.Pointer(&old[0])))
}

// run returns the lines of the digest, the recorded effects, and what else can be seen.
func (v Variant) run(args ...string) (lines, recorded []string, msg string) {
	top, err := os.MkdirTemp(os.Getenv("TMPDIR"), "effects-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(top)
	cmd := exec.Command(os.Getenv("EFFECTS_CHILD"), append([]string{"digest"}, args...)...)
	cmd.Env = append([]string{"PATH=/usr/bin:/bin", "VERIF_MAPS=0"}, v.Env...)
	cmd.Dir = top
	if v.Dir != "" {
		cmd.Dir = v.Dir
	}
	var stdout, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &stdout, &stderr
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	onCPUs(v.CPUs, func() { err = cmd.Start() })
	if err != nil {
		panic(err)
	}
	t := time.AfterFunc(120*time.Second, func() { syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
	err = cmd.Wait()
	if !t.Stop() {
		return nil, nil, "slow"
	}
	done := false
	var strange []string
	for _, l := range strings.Split(strings.TrimSuffix(stdout.String(), "\n"), "\n") {
		switch {
		case strings.HasPrefix(l, "digest "):
			lines = append(lines, l)
		case strings.HasPrefix(l, "effect "):
			recorded = append(recorded, strings.TrimPrefix(l, "effect "))
		case l == "done":
			done = true
		default:
			strange = append(strange, l)
		}
	}
	switch {
	case err != nil || !done:
		msg = fmt.Sprintf("the program fails: %v\n%.3000s", err, stderr.String())
	case len(strange) > 0:
		msg = fmt.Sprintf("something was written to standard output: %.300q", strange[0])
	case stderr.Len() > 0:
		msg = fmt.Sprintf("something was written to standard error: %.300q", stderr.String())
	case v.Dir == "":
		if es, err := os.ReadDir(top); err != nil || len(es) > 0 {
			msg = fmt.Sprintf("the working directory holds something new: %v %v", es, err)
		}
	}
	return
}

// differ compares a run with the digest of this process.
func (v Variant) differ(want []string) (recorded []string, kind, msg string) {
	lines, recorded, m := v.run()
	if m == "slow" {
		return recorded, "slow", ""
	}
	if m != "" {
		return recorded, "effect", m
	}
	for _, e := range recorded {
		if !strings.HasPrefix(e, "Getenv ") && !strings.HasPrefix(e, "runtime_envs") {
			return recorded, "effect", "the library has an effect: " + e
		}
	}
	for i := range want {
		if i >= len(lines) || lines[i] != want[i] {
			var si, c int
			fmt.Sscanf(want[i], "digest %d %d", &si, &c)
			// Which text?
			var b bytes.Buffer
			w := bufio.NewWriter(&b)
			digest(w, si, c)
			w.Flush()
			here := strings.Split(b.String(), "\n")
			there, _, _ := v.run(fmt.Sprint(si), fmt.Sprint(c))
			text := "(of this part)"
			for k := range there {
				if k < len(here) && there[k] != here[k] {
					raw, _ := hex.DecodeString(strings.Fields(here[k])[1])
					text = fmt.Sprintf("%.100x (%+.60q, %d bytes)", raw, raw, len(raw))
					break
				}
			}
			return recorded, "surroundings", fmt.Sprintf("%s gives something else for %s", sections()[si].name, text)
		}
	}
	return recorded, "", ""
}

func variants(thorough bool) []Variant {
	var ret []Variant
	n := 8
	if thorough {
		n = 256
	}
	for i := 0; i < n; i++ {
		ret = append(ret, Variant{Name: fmt.Sprint("random choices ", i), Env: []string{fmt.Sprint("VERIF_MAPS=", i)}})
	}
	for _, c := range []uint64{1 << 20, 1<<32 - 1, 1 << 32, 1 << 63, 1<<64 - 1, 0x5555555555555555} {
		ret = append(ret, Variant{Name: fmt.Sprint("random choices ", c), Env: []string{fmt.Sprint("VERIF_MAPS=", c)}})
	}
	for _, t := range []string{"1", "86400", "31536000", "2500000000", "9000000000"} {
		ret = append(ret, Variant{Name: "the clock ahead by " + t + " s", Env: []string{"VERIF_TIME=" + t}})
	}
	for _, t := range []string{"1000", "1000000", "1000000000", "3600000000000"} {
		ret = append(ret, Variant{Name: "a clock that advances by " + t + " ns whenever it is read", Env: []string{"VERIF_TIME_STEP=" + t}})
	}
	ret = append(ret, Variant{Name: "another host", Env: []string{"VERIF_HOST=build-host.example.org"}})
	for _, e := range [][]string{{"LANG=tr_TR.UTF-8", "LC_ALL=tr_TR.UTF-8", "TZ=Asia/Kathmandu"}, {"LANG=C", "LC_ALL=C", "TZ=UTC"}, {"HOME=/nonexistent", "TMPDIR=/nonexistent", "PWD=/", "USER=nobody"},
		{"GOGC=1"}, {"GOGC=off"}, {"GOMAXPROCS=1"}, {"GOMAXPROCS=2"}, {"GOMAXPROCS=3"}, {"DEBUG=1", "VERBOSE=1", "TRACE=1"}, {"GODEBUG=madvdontneed=1,asyncpreemptoff=1"}} {
		ret = append(ret, Variant{Name: strings.Join(e, " "), Env: e})
	}
	return append(ret, Variant{Name: "in /", Dir: "/"}, Variant{Name: "on one processor", CPUs: 1}, Variant{Name: "on two processors", CPUs: 2})
}

func ownDigest() []string {
	var b bytes.Buffer
	w := bufio.NewWriter(&b)
	digest(w, -1, 0)
	w.Flush()
	return strings.Split(strings.TrimSpace(b.String()), "\n")
}

func main() {
	if os.Args[1] == "digest" {
		out := bufio.NewWriter(os.Stdout)
		one, chunk := -1, 0
		if len(os.Args) == 4 {
			fmt.Sscan(os.Args[2], &one)
			fmt.Sscan(os.Args[3], &chunk)
		}
		if n := runtime.NumGoroutine(); n > 1 {
			fmt.Fprintln(out, "effect goroutines that were started for the package:", n-1)
		}
		digest(out, one, chunk)
		for i := 0; i < 40 && runtime.NumGoroutine() > 1; i++ {
			time.Sleep(50 * time.Millisecond)
		}
		if n := runtime.NumGoroutine(); n > 1 {
			fmt.Fprintln(out, "effect goroutines that are still running:", n-1)
		}
		flag.VisitAll(func(f *flag.Flag) { fmt.Fprintln(out, "effect a command line flag:", f.Name) })
		if n := debug.SetGCPercent(100); n != 100 && os.Getenv("GOGC") == "" {
			fmt.Fprintln(out, "effect the setting of the garbage collector:", n)
		}
		for _, e := range effects() {
			fmt.Fprintf(out, "effect %s\n", strings.ReplaceAll(e, "\n", " "))
		}
		fmt.Fprintln(out, "done")
		out.Flush()
		return
	}
	if os.Args[1] == "replay" {
		os.Exit(replay(os.Args[2]))
	}
	thorough := os.Args[2] == "thorough"
	r := kit.New(os.Args[1], thorough, os.Args[3], 600*time.Second)

	// What a call leaves behind, in this process.
	for k := range uses {
		leftovers(r, k, thorough)
	}

	// The surroundings.
	if os.Getenv("EFFECTS_CHILD") != "" {
		want := ownDigest()
		texts := 0
		for _, s := range sections() {
			texts += s.n
		}
		var asked atomic.Pointer[[]string]
		try := func(w *kit.Worker, v Variant) []string {
			w.Note = v.Name
			recorded, kind, msg := v.differ(want)
			w.Beat()
			w.S["runs"]++
			w.S["cases"] += uint64(texts)
			if kind == "slow" {
				r.Incomplete()
			} else if kind != "" {
				r.Fail(kit.Replay{Kind: kind, Message: v.Name + ": " + msg, Params: map[string]any{"variant": v}})
			}
			return recorded
		}
		vs := variants(thorough)
		r.Parallel("surroundings", fmt.Sprintf("%d texts, among them every scalar value, in %d surroundings: random choices of the runtime, time, environment, processors, directory", texts, len(vs)), len(vs), func(w *kit.Worker, i int) {
			e := try(w, vs[i])
			asked.Store(&e)
		})
		// Variables that the library asks for.
		names := map[string]bool{}
		if p := asked.Load(); p != nil {
			for _, e := range *p {
				if n := strings.TrimPrefix(e, "Getenv "); n != e && n != "" && !strings.HasPrefix(n, "VERIF_") {
					names[n] = true
				}
			}
		}
		vs = nil
		for n := range names {
			for _, val := range []string{"", "0", "1", "2", "true", "false", "yes", "on", "debug", "legacy", "strict", "15", "17", "/", "off", "none", "-1", "100", "C", "tr_TR.UTF-8", "ja_JP.eucJP", "dumb"} {
				vs = append(vs, Variant{Name: n + "=" + val, Env: []string{n + "=" + val}})
			}
		}
		sort.Slice(vs, func(i, j int) bool { return vs[i].Name < vs[j].Name })
		if len(vs) > 0 && !r.Stopped() {
			r.Parallel("variables that are asked for", fmt.Sprintf("%d variables x values", len(names)), len(vs), func(w *kit.Worker, i int) { try(w, vs[i]) })
		}
		r.Count("environment_variables_asked_for", len(names))
		r.Sample(map[string]any{"digest_line": want[len(want)-1], "variant": variants(false)[9]})
	}
	r.Finish()
}

// ---- What stays in the process.

// How much more memory may be in use.
const (
	always = 8 << 10 // after every quarter
	inAll  = 2 << 20
)

func heap() int64 {
	runtime.GC()
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

func descriptors() int {
	es, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return -1
	}
	return len(es)
}

// retained uses buffers that nothing else refers to, and returns the texts of those that are still there afterwards.
func retained(k int, once bool, texts func(yield func([]byte) bool)) (n int, still [][]byte) {
	type ref struct {
		p    weak.Pointer[byte]
		text string
	}
	var refs []ref
	done := make(chan bool)
	go func() {
		defer close(done)
		var h hash
		for t := range texts {
			b := append(make([]byte, 0, len(t)+64), t...) // large enough not to share memory with others
			refs = append(refs, ref{weak.Make(&b[:1][0]), string(t)})
			uses[k].use(b, &h)
		}
	}()
	<-done
	for i := 0; i < 12; i++ {
		if i >= 4 {
			time.Sleep(10 * time.Millisecond) // nothing should be left; be sure
		}
		runtime.GC()
		if i < 3 && !once {
			continue
		}
		still = nil
		for _, r := range refs {
			if r.p.Value() != nil {
				still = append(still, []byte(r.text))
			}
		}
		if still == nil || once {
			break
		}
	}
	return len(refs), still
}

func leftovers(r *kit.Run, k int, thorough bool) {
	u := uses[k]
	fail := func(kind, msg string) {
		r.Fail(kit.Replay{Kind: kind, Message: u.name + ": " + msg, Params: map[string]any{"use": k}})
	}
	fs := fragments()
	goroutines, fds := runtime.NumGoroutine(), descriptors()
	r.ParallelN(u.name+": buffers", fmt.Sprintf("every concatenation of up to 3 of %d fragments, and long texts of 2 of them", len(fs)), len(fs), 1, func(w *kit.Worker, i int) {
		n, still := retained(k, false, func(yield func([]byte) bool) {
			if !yield(fs[i]) || !yield(veryLong(fs[i])) {
				return
			}
			for _, b := range fs {
				if !yield(append(fs[i][:len(fs[i]):len(fs[i])], long(b)...)) {
					return
				}
				if !yield(append(fs[i][:len(fs[i]):len(fs[i])], b...)) {
					return
				}
				for _, c := range fs {
					if !yield(append(append(fs[i][:len(fs[i]):len(fs[i])], b...), c...)) {
						return
					}
				}
			}
		})
		w.Calls += uint64(n)
		w.S["texts"] += uint64(n)
		if len(still) > 0 {
			fail("retained", fmt.Sprintf("of %d buffers, %d are still referred to after the calls, such as that of %.80x (%d bytes)", n, len(still), still[0], len(still[0])))
		}
	})
	// What a pool keeps is gone after the second collection, not after the first.
	r.ParallelN(u.name+": pools", fmt.Sprintf("every concatenation of 1 and 2 of %d fragments, and long texts, and one collection of garbage", len(fs)), 1, 1, func(w *kit.Worker, _ int) {
		for _, a := range fs {
			w.Beat()
			for try := 0; ; try++ {
				n, still := retained(k, true, func(yield func([]byte) bool) {
					for _, t := range [][]byte{a, veryLong(a), append(long(a), 'a')} {
						if !yield(t) {
							return
						}
					}
					for _, b := range fs {
						if !yield(append(a[:len(a):len(a)], b...)) {
							return
						}
					}
				})
				w.Calls += uint64(n)
				w.S["texts"] += uint64(n)
				if len(still) == 0 {
					break
				}
				if try == 3 {
					fail("retained", fmt.Sprintf("of %d buffers, %d are still referred to after the calls and one collection, such as that of %.80x (%d bytes)", n, len(still), still[0], len(still[0])))
					return
				}
			}
		}
	})
	// Memory that grows.
	ls := ucd.Letters(false)
	depth := 5
	if k > 0 && !thorough || k > 2 {
		depth = 4
	}
	total := 1
	for i := 0; i < depth; i++ {
		total *= len(ls)
	}
	r.ParallelN(u.name+": memory", fmt.Sprintf("every text of %d characters over %d sample characters, the same repeated, and as many long clusters of 3 kinds", depth, len(ls)), 1, 1, func(w *kit.Worker, _ int) {
		var h hash
		var buf []byte
		run := func(from, to int) {
			for i := from; i < to; i++ {
				buf = buf[:0]
				for d, x := 0, i; d < depth; d, x = d+1, x/len(ls) {
					buf = append(buf, ls[x%len(ls)].Bytes...)
				}
				u.use(buf, &h)
				for rest := len(buf); len(buf) < 80; {
					buf = append(buf, buf[:rest]...)
				}
				u.use(buf, &h)
				// Longer clusters that all differ, in all their characters or only in what comes after them.
				const after = " and what comes after them is of no interest"
				first := ls[i%len(ls)].Bytes
				buf = append(buf[:0], first...)
				for x, k := i/len(ls), 0; k < 6; k, x = k+1, x/16 {
					buf = utf8.AppendRune(buf, 0x300+rune(x%16))
				}
				buf = append(buf, after...)
				u.use(buf, &h)
				buf = append(buf[:0], first...)
				for x, k := i/len(ls), 0; k < 8; k, x = k+1, x/16 {
					buf = append(utf8.AppendRune(buf, 0x1f600+rune(x%16)), "\u200d"...)
				}
				buf = append(buf, after...)
				u.use(buf, &h)
				buf = append(append(buf[:0], first...), "\u0301\u200d\u0301\u0308"...)
				for x, k := i/len(ls), 0; k < 6; k, x = k+1, x/16 {
					buf = append(buf, 'a'+byte(x%16))
				}
				buf = append(buf, after...)
				u.use(buf, &h)
				w.Calls += 5
				if i%4096 == 0 {
					w.Beat()
				}
			}
		}
		// Something may be prepared or remembered at first, but it has to end.
		run(0, total/4)
		at := []int64{heap()}
		for q := 1; q < 4; q++ {
			run(q*total/4, (q+1)*total/4)
			at = append(at, heap())
		}
		least := at[1] - at[0]
		for q := 1; q < 4; q++ {
			least = min(least, at[q]-at[q-1])
		}
		w.S["growth_bytes"] = uint64(max(least, 0))
		if least > always || at[3]-at[0] > inAll {
			fail("growth", fmt.Sprintf("every %d different short texts, the memory in use grows: %v", total/4, at))
		}
		w.S["texts"] += uint64(total)
	})
	for i := 0; i < 40 && runtime.NumGoroutine() > goroutines; i++ {
		time.Sleep(50 * time.Millisecond)
	}
	if n := runtime.NumGoroutine(); n > goroutines {
		fail("goroutines", fmt.Sprintf("%d goroutines more are running", n-goroutines))
	}
	if n := descriptors(); n > fds {
		fail("descriptors", fmt.Sprintf("%d files more are open", n-fds))
	}
}

func replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var v struct {
		Kind   string
		Params struct {
			Variant Variant
			Use     int
		}
	}
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if v.Kind == "surroundings" || v.Kind == "effect" {
		_, kind, msg := v.Params.Variant.differ(ownDigest())
		fmt.Println(kind, msg)
		if kind != "" && kind != "slow" {
			return 1
		}
		return 0
	}
	tmp, err := os.MkdirTemp("", "effects-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	r := kit.New("C21", false, filepath.Join(tmp, "result.json"), 100*time.Second)
	leftovers(r, v.Params.Use, false)
	if r.Failed() {
		return 1
	}
	return 0
}
