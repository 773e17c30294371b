// gendet checks that the generated table file is a function of the data files' contents alone (C20).
//
//	gendet C20 quick|thorough RESULT.json   (environment: GEN_BIN, GEN_CHOICE, GEN_UCD, GEN_COMMITTED)
//	gendet replay FILE
//
// GEN_BIN is the generator; GEN_CHOICE is the same program whose runtime takes the random choices of maps, and the
// clock, from the environment (lib/parts.py). Every run has a scratch directory of its own.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/scanner"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif.local/harness/kit"
)

const tableName = "property_table_raw.go"

var dataFiles = []string{"auxiliary/GraphemeBreakProperty.txt", "emoji/emoji-data.txt", "DerivedCoreProperties.txt"}

// A Case is one run.
type Case struct {
	Dataset string            `json:"dataset"`
	Files   map[string]string `json:"files,omitempty"` // nil: the repository's
	Choice  string            `json:"choice,omitempty"`
	Time    string            `json:"time,omitempty"`
	Procs   string            `json:"procs,omitempty"`
	Env     []string          `json:"env,omitempty"`
	Before  string            `json:"before,omitempty"` // what is there as the table
	Where   string            `json:"where,omitempty"`  // name of the working directory
	Layout  string            `json:"layout,omitempty"` // how the data files lie
	Twice   bool              `json:"twice,omitempty"`
	Build   string            `json:"build,omitempty"` // which build of the generator
	Host    string            `json:"host,omitempty"`  // the computer's name
}

func (c Case) String() string {
	c.Files = nil
	b, _ := json.Marshal(c)
	return string(b)
}

var (
	mu   sync.Mutex
	next int
)

func scratch() string {
	mu.Lock()
	defer mu.Unlock()
	next++
	return filepath.Join(os.Getenv("TMPDIR"), fmt.Sprintf("det-%d-%d", os.Getpid(), next))
}

// run returns the exit status and the table.
func (c *Case) run() (exit int, table []byte, err error) {
	top := scratch()
	defer os.RemoveAll(top)
	dir := top
	if c.Where != "" {
		dir = filepath.Join(top, c.Where)
	}
	if err = os.MkdirAll(filepath.Join(dir, "ucd"), 0o755); err != nil {
		return
	}
	order := append([]string{}, dataFiles...)
	if c.Layout == "reversed" {
		order[0], order[2] = order[2], order[0]
	}
	for _, f := range order {
		p := filepath.Join(dir, "ucd", f)
		if err = os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			return
		}
		var content []byte
		if c.Files != nil {
			content = []byte(c.Files[f])
		} else if content, err = os.ReadFile(filepath.Join(os.Getenv("GEN_UCD"), f)); err != nil {
			return
		}
		mode := os.FileMode(0o644)
		if c.Layout == "read-only" {
			mode = 0o444
		}
		if c.Layout == "links" {
			q := filepath.Join(top, "data-"+filepath.Base(f))
			if err = os.WriteFile(q, content, 0o644); err == nil {
				err = os.Symlink(q, p)
			}
		} else {
			err = os.WriteFile(p, content, mode)
		}
		if err != nil {
			return
		}
		if c.Layout == "old" || c.Layout == "future" {
			t := time.Unix(1, 0)
			if c.Layout == "future" {
				t = time.Unix(1<<32, 0)
			}
			os.Chtimes(p, t, t)
		}
	}
	if c.Layout == "more files" {
		for _, f := range []string{"ucd/emoji/emoji-test.txt", "ucd/auxiliary/A.txt", "ucd/A.txt", "ucd/.hidden", "A.txt", "zz.go"} {
			if err = os.WriteFile(filepath.Join(dir, f), []byte("0041 ; Prepend\n"), 0o644); err != nil {
				return
			}
		}
	}
	out := filepath.Join(dir, tableName)
	switch c.Before {
	case "":
	case "empty":
		err = os.WriteFile(out, nil, 0o644)
	case "short":
		err = os.WriteFile(out, []byte("package charprops\n"), 0o644)
	case "long":
		err = os.WriteFile(out, bytes.Repeat([]byte("package charprops // old\n"), 60000), 0o644)
	case "read-only":
		err = os.WriteFile(out, bytes.Repeat([]byte("package charprops // old\n"), 60000), 0o444)
	case "link":
		if err = os.WriteFile(filepath.Join(top, "elsewhere"), bytes.Repeat([]byte("x"), 1<<20), 0o644); err == nil {
			err = os.Symlink(filepath.Join(top, "elsewhere"), out)
		}
	default:
		panic(c.Before)
	}
	if err != nil {
		return
	}
	for n := 0; n < 2; n++ {
		bin := os.Getenv("GEN_BIN")
		env := append([]string{"PATH=/usr/bin:/bin"}, c.Env...)
		if c.Choice != "" || c.Time != "" {
			bin = os.Getenv("GEN_CHOICE")
			env = append(env, "VERIF_MAPS="+c.Choice, "VERIF_TIME="+c.Time, "VERIF_HOST="+c.Host)
		}
		if c.Build != "" {
			bin = others()[c.Build]
		}
		if c.Procs != "" {
			env = append(env, "GOMAXPROCS="+c.Procs)
		}
		cmd := exec.Command("/usr/bin/prlimit", "--as=3221225472", bin)
		cmd.Dir, cmd.Env = dir, env
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
		done := make(chan error, 1)
		if err = cmd.Start(); err != nil {
			return
		}
		go func() { done <- cmd.Wait() }()
		select {
		case <-done:
		case <-time.After(60 * time.Second):
			syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			<-done
			return exitNever, nil, nil
		}
		exit = cmd.ProcessState.ExitCode()
		if !c.Twice {
			break
		}
	}
	if exit != 0 {
		return exit, nil, nil
	}
	table, err = os.ReadFile(out)
	return exit, table, err
}

// tokens returns a file's tokens without comments, for comparing with a file that another release formatted.
func tokens(src []byte) string {
	var s scanner.Scanner
	fs := token.NewFileSet()
	s.Init(fs.AddFile("", -1, len(src)), src, nil, 0)
	var b strings.Builder
	for {
		_, t, lit := s.Scan()
		if t == token.EOF {
			return b.String()
		}
		if t == token.SEMICOLON {
			lit = ""
		}
		b.WriteString(t.String() + lit + " ")
	}
}

// datasets are small sets of data files that differ in which blocks of the table are equal, and where they lie.
func datasets(thorough bool) []Case {
	props := []string{"Extend", "Prepend", "SpacingMark", "L", "V", "T", "LV", "LVT", "Control", "ZWJ"}
	var ret []Case
	add := func(name string, gbp, emoji, dcp []string) {
		ret = append(ret, Case{Dataset: name, Files: map[string]string{dataFiles[0]: strings.Join(gbp, ""), dataFiles[1]: strings.Join(emoji, ""), dataFiles[2]: strings.Join(dcp, "")}})
	}
	line := func(r int, p string) string { return fmt.Sprintf("%04X ; %s\n", r, p) }
	add("empty", nil, nil, nil)
	places := []int{0x80, 0x7c0, 0x800, 0xfc0, 0x1000, 0xd7c0, 0xe000, 0xffc0, 0x10000, 0x1ffc0, 0x3f000, 0x40000, 0x100000, 0x10ffc0}
	for n := 1; n <= len(places); n++ {
		for _, kinds := range []int{1, 2, 3, len(props)} {
			var g []string
			for i := 0; i < n; i++ {
				g = append(g, line(places[i]+5, props[i%kinds]))
			}
			add(fmt.Sprintf("%d blocks of %d kinds", n, kinds), g, nil, nil)
			for i, j := 0, len(g)-1; i < j; i, j = i+1, j-1 {
				g[i], g[j] = g[j], g[i]
			}
			add(fmt.Sprintf("%d blocks of %d kinds, in reverse", n, kinds), g, nil, nil)
		}
	}
	count := []int{2, 3, 7, 8, 9, 16, 40, 100, 200, 254}
	for _, n := range count {
		var g, e, d []string
		for i := 0; i < n; i++ {
			// n different blocks.
			base := 0x1000 + i*64
			switch i % 3 {
			case 0:
				g = append(g, line(base+i%64, props[i/64%len(props)]))
			case 1:
				e = append(e, line(base+i%64, "Extended_Pictographic"), line(base+(i*7+1)%64+0x20000, "Extended_Pictographic"))
			case 2:
				d = append(d, line(base+i%64, "InCB; Linker"), line(base+0x10000+(i+1)%64, "InCB; Consonant"))
			}
		}
		add(fmt.Sprintf("%d blocks in three files", n), g, e, d)
		// Equal blocks of indices in several planes.
		g = nil
		for i := 0; i < n; i++ {
			g = append(g, line(0x10000*(1+i%16)+0x1000*(i/16%16)+i%5, props[i%7]))
		}
		add(fmt.Sprintf("%d blocks in planes", n), g, nil, d)
	}
	return ret
}

// others are other builds of the generator: by other releases, without optimisation, for other processors.
func others() map[string]string {
	ret := map[string]string{}
	for _, o := range strings.Split(os.Getenv("GEN_OTHERS"), "|") {
		if name, path, ok := strings.Cut(o, "="); ok {
			ret[name] = path
		}
	}
	return ret
}

// exitNever is the exit status of a run that was ended because it did not end.
const exitNever = -2

type ref struct {
	exit  int
	table []byte
}

func compare(c *Case, want ref) (string, bool, error) {
	exit, table, err := c.run()
	if err != nil {
		return "", false, err
	}
	if exit == exitNever || want.exit == exitNever {
		return "the generator does not end", false, nil
	}
	if (exit == 0) != (want.exit == 0) {
		return fmt.Sprintf("exit status %d, but %d in the reference run", exit, want.exit), false, nil
	}
	if exit == 0 && !bytes.Equal(table, want.table) {
		n := 0
		for n < len(table) && n < len(want.table) && table[n] == want.table[n] {
			n++
		}
		return fmt.Sprintf("the table file (%d bytes) differs from that of the reference run (%d bytes) from byte %d on", len(table), len(want.table), n), false, nil
	}
	return "", true, nil
}

func main() {
	if os.Args[1] == "replay" {
		os.Exit(replay(os.Args[2]))
	}
	if os.Args[1] == "probe" {
		m := map[string]int{}
		for i := 0; i < 8; i++ {
			m[string(rune('a'+i))] = i
		}
		for k := range m {
			fmt.Print(k)
		}
		m = map[string]int{}
		for i := 0; i < 100; i++ {
			m[fmt.Sprint(i)] = i
		}
		fmt.Print(" ")
		for _, v := range m {
			fmt.Print(v, ",")
		}
		return
	}
	thorough := os.Args[2] == "thorough"
	r := kit.New(os.Args[1], thorough, os.Args[3], 700*time.Second)
	check := func(w *kit.Worker, c Case, want ref) {
		w.Beat()
		w.Note = c.String()
		msg, ok, err := compare(&c, want)
		w.Beat()
		if err != nil {
			panic(err)
		}
		w.S["generator_runs"]++
		w.S["cases"]++
		if !ok {
			r.Fail(kit.Replay{Kind: "generate", Message: c.String() + ": " + msg, Params: map[string]any{"case": c}})
		}
	}
	reference := func(c Case) ref {
		if os.Getenv("GEN_CHOICE") != "" {
			c.Choice = "0"
		}
		exit, table, err := c.run()
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		return ref{exit, table}
	}
	real := Case{Dataset: "the repository's data"}
	realRef := reference(real)
	if realRef.exit != 0 {
		r.Fail(kit.Replay{Kind: "generate", Message: "the generator fails on the repository's data", Params: map[string]any{"case": real}})
		r.Finish()
	}
	committed, err := os.ReadFile(os.Getenv("GEN_COMMITTED"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	// For information: what the committed table says is for C08.
	r.Count("committed_table_has_the_same_tokens", tokens(committed) == tokens(realRef.table))

	// The runtime's choices, and the time.
	if os.Getenv("GEN_CHOICE") != "" {
		var choices []string
		for i := 0; i < map[bool]int{false: 16, true: 256}[thorough]; i++ {
			choices = append(choices, fmt.Sprint(i))
		}
		for _, v := range []uint64{1 << 20, 1<<32 - 1, 1 << 32, 1 << 63, 1<<64 - 1, 0x5555555555555555} {
			choices = append(choices, fmt.Sprint(v))
		}
		r.Parallel("choices of maps, the repository's data", fmt.Sprintf("%d values of all choices", len(choices)), len(choices), func(w *kit.Worker, i int) {
			c := real
			c.Choice = choices[i]
			check(w, c, realRef)
		})
		orders := make([]map[string]bool, 2)
		for i := range orders {
			orders[i] = map[string]bool{}
		}
		for _, ch := range choices {
			var outs [2]string
			for i := range outs {
				cmd := exec.Command(os.Getenv("GEN_PROBE"), "probe")
				cmd.Env = []string{"VERIF_MAPS=" + ch}
				b, err := cmd.Output()
				if err != nil {
					fmt.Fprintln(os.Stderr, "probe:", err)
					os.Exit(2)
				}
				outs[i] = string(b)
			}
			if outs[0] != outs[1] {
				fmt.Fprintln(os.Stderr, "the order of maps is not under control")
				os.Exit(2)
			}
			for i, o := range strings.Fields(outs[0]) {
				orders[i][o] = true
			}
		}
		if len(orders[0]) < 8 || len(orders[1]) < 4 {
			fmt.Fprintln(os.Stderr, "the choices lead to too few orders of maps", len(orders[0]), len(orders[1]))
			os.Exit(2)
		}
		r.Count("orders_of_a_map_of_8", len(orders[0]))
		r.Count("orders_of_a_map_of_100", len(orders[1]))
		times := []string{"1", "86400", "31536000", "2500000000", "9000000000"}
		r.Parallel("time", "the clock is ahead by up to 285 years", len(times), func(w *kit.Worker, i int) {
			c := real
			c.Choice, c.Time = "0", times[i]
			check(w, c, realRef)
		})
		hosts := []string{"a", "build-host.example.org", "localhost"}
		r.Parallel("host", "the computer has other names", len(hosts), func(w *kit.Worker, i int) {
			c := real
			c.Choice, c.Host = "0", hosts[i]
			check(w, c, realRef)
		})
		ds := datasets(thorough)
		r.Parallel("choices of maps, small data", fmt.Sprintf("%d datasets x (%d values of all choices, and each of the first %d choices made differently)", len(ds), len(choices), map[bool]int{false: 8, true: 48}[thorough]), len(ds), func(w *kit.Worker, i int) {
			want := reference(ds[i])
			w.S["datasets"]++
			if want.exit != 0 {
				w.S["datasets_refused"]++
			}
			for _, ch := range choices {
				if r.Stopped() {
					return
				}
				c := ds[i]
				c.Choice = ch
				check(w, c, want)
			}
			for k := 0; k < map[bool]int{false: 8, true: 48}[thorough]; k++ {
				for _, o := range []int{1, 3, 6} {
					if r.Stopped() {
						return
					}
					c := ds[i]
					c.Choice = fmt.Sprintf("0,%d,%d", k, o)
					check(w, c, want)
				}
			}
		})
		r.Sample(map[string]any{"dataset": ds[9].Dataset, "files": ds[9].Files, "choices": choices[:4]})
	}

	// Other builds of the generator.
	if o := others(); len(o) > 0 {
		var names []string
		for n := range o {
			names = append(names, n)
		}
		sort.Strings(names)
		ds := append([]Case{real}, datasets(thorough)...)
		r.Parallel("builds", fmt.Sprintf("%d datasets x %s", len(ds), strings.Join(names, ", ")), len(ds), func(w *kit.Worker, i int) {
			c := ds[i]
			want := reference(c)
			for _, n := range names {
				if r.Stopped() {
					return
				}
				c.Build = n
				check(w, c, want)
			}
		})
	}

	// The surroundings.
	befores := []string{"", "empty", "short", "long", "read-only", "link"}
	if os.Geteuid() != 0 {
		befores[4] = "short"
	}
	wheres := []string{"", "with spaces and ü", strings.Repeat("deep/", 40)}
	layouts := []string{"", "reversed", "read-only", "links", "old", "future", "more files"}
	envs := [][]string{nil, {"LANG=tr_TR.UTF-8", "LC_ALL=tr_TR.UTF-8", "TZ=Asia/Kathmandu"}, {"HOME=/nonexistent", "TMPDIR=/nonexistent", "PWD=/"}, {"GOFILE=generate.go", "GOLINE=1", "GOPACKAGE=main", "GOARCH=386", "GOOS=windows", "GOROOT=/nonexistent", "GOPATH=/nonexistent"}, {"USER=a", "LOGNAME=b", "HOSTNAME=c", "SOURCE_DATE_EPOCH=1", "COLUMNS=40", "NO_COLOR=1", "DEBUG=1", "VERBOSE=1"}, {"GOGC=1"}, {"GOGC=off", "GODEBUG=madvdontneed=1"}}
	procs := []string{"", "1", "2", "3"}
	var cases []Case
	for _, b := range befores {
		for _, wh := range wheres {
			for _, l := range layouts {
				for ei, e := range envs {
					for pi, p := range procs {
						if !thorough && (ei > 0 && pi > 0 || (b != "" && l != "" && wh != "")) {
							continue
						}
						cases = append(cases, Case{Dataset: real.Dataset, Before: b, Where: wh, Layout: l, Env: e, Procs: p, Twice: b == "" && l == ""})
					}
				}
			}
		}
	}
	r.Parallel("surroundings", "previous table file x working directory x how the data files lie x environment x processors (quick: without the combinations of three)", len(cases), func(w *kit.Worker, i int) { check(w, cases[i], realRef) })
	r.Sample(map[string]any{"case": cases[len(cases)-1], "table_bytes": len(realRef.table)})
	r.Finish()
}

func replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var v struct {
		Kind   string
		Params struct{ Case Case }
	}
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	c := v.Params.Case
	first := Case{Dataset: c.Dataset, Files: c.Files}
	if os.Getenv("GEN_CHOICE") != "" {
		first.Choice = "0"
	}
	exit, table, err := first.run()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if exit != 0 && c.Files == nil {
		return 1
	}
	msg, ok, err := compare(&c, ref{exit, table})
	fmt.Println(msg, ok, err)
	if err != nil {
		return 2
	}
	if !ok {
		return 1
	}
	return 0
}
