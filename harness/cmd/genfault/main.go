// genfault checks that table generation fails loudly (C15): it runs the real generator program under every failing
// operation, and on every malformed data file of a grammar, and judges the exit status and the table file.
//
//	genfault C15 quick|thorough RESULT.json   (environment: GEN_BIN, GEN_FAULTY, GEN_UCD)
//	genfault replay FILE
//
// GEN_BIN is the generator; GEN_FAULTY is the same program with a syscall package that fails on demand (lib/parts.py).
// Every run has a scratch directory of its own.
package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif.local/harness/kit"
)

const tableName = "property_table_raw.go"

var sentinel = []byte("package charprops // the previous table\n" + strings.Repeat("// The previous table is longer than any other.\n", 20000))

// Case is one run of the generator.
type Case struct {
	Name  string
	Files map[string]string // path in ucd/ -> content; content "dir:", "link:TARGET", "missing:" are special
	Real  bool              // use the repository's own files; Files then replaces some of them
	Fault string            // for GEN_FAULTY
	Out   string            // what is there as the table: "" the sentinel, "none", "empty", "dir", "full", "dangling", "readonly", "link", "limit:N"

	// What is demanded.
	Want string // "fail": exit status nonzero; "ok": status zero; "any"
	Same string // name of a reference dataset: on status zero, the table must be equal to its table
	Keep bool   // on failure, the previous table must be there unchanged
}

type Outcome struct {
	Exit   int // -1: killed by a signal; -2: no end
	Stderr string
	Ops    []op
	Table  []byte
	Kind   string // "sentinel", "none", "other"
}

type op struct {
	Idx      int
	Name     string // open, read, write, close, ...
	Path     string
	Writable bool
	Injected string
}

func (o op) input() bool  { return strings.HasPrefix(o.Path, "ucd/") && !o.Writable }
func (o op) output() bool { return o.Writable }

func (c *Case) run(dir string) (Outcome, error) {
	var out Outcome
	if err := os.RemoveAll(dir); err != nil {
		return out, err
	}
	if err := os.MkdirAll(filepath.Join(dir, "ucd"), 0o755); err != nil {
		return out, err
	}
	put := func(rel, content string) error {
		p := filepath.Join(dir, "ucd", rel)
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			return err
		}
		os.Remove(p)
		switch {
		case content == "missing:":
			return nil
		case content == "dir:":
			return os.Mkdir(p, 0o755)
		case strings.HasPrefix(content, "link:"):
			return os.Symlink(content[5:], p)
		}
		return os.WriteFile(p, []byte(content), 0o644)
	}
	if c.Real {
		for _, f := range paths {
			if err := put(f, "link:"+filepath.Join(os.Getenv("GEN_UCD"), f)); err != nil {
				return out, err
			}
		}
	}
	for f, s := range c.Files {
		if f == "." { // the whole directory
			if err := os.RemoveAll(filepath.Join(dir, "ucd")); err != nil {
				return out, err
			}
			if s == "file:" {
				if err := os.WriteFile(filepath.Join(dir, "ucd"), nil, 0o644); err != nil {
					return out, err
				}
			}
			continue
		}
		if err := put(f, s); err != nil {
			return out, err
		}
	}
	table := filepath.Join(dir, tableName)
	var err error
	limit := -1
	switch {
	case c.Out == "":
		err = os.WriteFile(table, sentinel, 0o644)
	case c.Out == "none":
	case c.Out == "empty":
		err = os.WriteFile(table, nil, 0o644)
	case c.Out == "dir":
		err = os.Mkdir(table, 0o755)
	case c.Out == "full":
		err = os.Symlink("/dev/full", table)
	case c.Out == "dangling":
		err = os.Symlink("nowhere/table.go", table)
	case c.Out == "loop":
		err = os.Symlink(tableName, table)
	case c.Out == "link":
		if err = os.Symlink("elsewhere.go", table); err == nil {
			err = os.WriteFile(filepath.Join(dir, "elsewhere.go"), sentinel, 0o644)
		}
	case strings.HasPrefix(c.Out, "limit:"):
		limit, err = strconv.Atoi(c.Out[6:])
	}
	if err != nil {
		return out, err
	}
	bin := os.Getenv("GEN_BIN")
	if c.Fault != "" {
		bin = os.Getenv("GEN_FAULTY")
	}
	argv := []string{"/usr/bin/prlimit", "--as=3221225472", bin}
	if limit >= 0 {
		// The shell's unit is 1024 bytes, or 512, so the limit is set with prlimit(1).
		argv = []string{"/usr/bin/prlimit", "--as=3221225472", fmt.Sprintf("--fsize=%d", limit), bin}
	}
	cmd := exec.Command(argv[0], argv[1:]...)
	cmd.Dir = dir
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + dir, "TMPDIR=" + dir}
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	var r, w *os.File
	logged := make(chan []byte, 1)
	if c.Fault != "" {
		if r, w, err = os.Pipe(); err != nil {
			return out, err
		}
		cmd.ExtraFiles = []*os.File{w}
		cmd.Env = append(cmd.Env, "VERIF_FAULT="+c.Fault, "GOGC=off") // finalizers close files at any time
	}
	if err := cmd.Start(); err != nil {
		return out, err
	}
	if c.Fault != "" {
		w.Close()
		go func() {
			b, _ := io.ReadAll(r)
			r.Close()
			logged <- b
		}()
	} else {
		logged <- nil
	}
	timer := time.AfterFunc(60*time.Second, func() { out.Exit = -2; cmd.Process.Kill() })
	err = cmd.Wait()
	var ee *exec.ExitError
	switch {
	case !timer.Stop():
		out.Exit = -2
	case err == nil:
	case errors.As(err, &ee):
		out.Exit = ee.ExitCode()
	default:
		return out, err
	}
	out.Stderr = stderr.String()
	if len(out.Stderr) > 600 {
		out.Stderr = out.Stderr[:600]
	}
	out.Ops = parseOps(<-logged)
	if st, e := os.Stat(table); e == nil && !st.Mode().IsRegular() {
		out.Kind = "none" // a device: there is nothing to read back
	} else if out.Table, err = os.ReadFile(table); err != nil {
		out.Kind, out.Table = "none", nil
	} else if bytes.Equal(out.Table, sentinel) {
		out.Kind = "sentinel"
	} else {
		out.Kind = "other"
	}
	return out, nil
}

func parseOps(b []byte) []op {
	var ret []op
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.SplitN(l, "\t", 5)
		if len(f) < 5 {
			continue
		}
		i, _ := strconv.Atoi(f[0])
		ret = append(ret, op{Idx: i, Name: f[1], Writable: f[2] == "w", Injected: f[3], Path: f[4]})
	}
	return ret
}

var paths = []string{"auxiliary/GraphemeBreakProperty.txt", "emoji/emoji-data.txt", "DerivedCoreProperties.txt"}

// ---- Judging.

// refs holds the tables of the reference datasets.
type refs struct {
	mu   sync.Mutex
	data map[string]Case
	got  map[string][]byte
	nd   bool // the generator's output differs from run to run
}

func (r *refs) table(name, dir string) ([]byte, string, error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if t, ok := r.got[name]; ok {
		return t, "", nil
	}
	c, ok := r.data[name]
	if !ok {
		return nil, "", fmt.Errorf("no reference dataset %q", name)
	}
	var first []byte
	for i := 0; i < 3; i++ {
		for _, fault := range []string{"", "none"} {
			c.Fault = fault
			o, err := c.run(dir)
			if err != nil {
				return nil, "", err
			}
			if o.Exit != 0 || o.Kind != "other" {
				return nil, fmt.Sprintf("the generator fails on the dataset %q: exit status %d: %s", name, o.Exit, o.Stderr), nil
			}
			if first == nil {
				first = o.Table
			} else if !bytes.Equal(first, o.Table) {
				r.nd = true
			}
		}
	}
	if m := wellTyped(first); m != "" {
		return nil, fmt.Sprintf("dataset %q: %s", name, m), nil
	}
	r.got[name] = first
	return first, "", nil
}

// wellTyped reports why a table file does not compile by itself.
func wellTyped(src []byte) string {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, tableName, src, 0)
	if err != nil {
		return "the table that was written is not a complete Go file: " + err.Error()
	}
	g, err := parser.ParseFile(fset, "p.go", "package charprops\ntype CharProperties uint8\n", 0)
	if err != nil {
		return err.Error()
	}
	n := 0
	ast.Inspect(f, func(x ast.Node) bool {
		if _, ok := x.(*ast.BasicLit); ok {
			n++
		}
		return true
	})
	if n < 128 && len(src) < 1024 {
		return "the table that was written is empty"
	}
	m := ""
	cfg := types.Config{Error: func(err error) {
		if s := err.Error(); m == "" && (strings.Contains(s, "overflow") || strings.Contains(s, "truncated") || strings.Contains(s, "cannot use")) {
			m = "the table that was written does not compile: " + s
		}
	}, Importer: noImports{}}
	cfg.Check("charprops", fset, []*ast.File{f, g}, nil)
	return m
}

type noImports struct{}

func (noImports) Import(string) (*types.Package, error) { return nil, errors.New("none") }

var soft = map[string]bool{"EINTR": true, "s1": true, "kill": true}

// judge returns what is wrong, or "".
func (r *refs) judge(c *Case, o Outcome, refDir string) (string, error) {
	what := func(s string) string {
		inj := ""
		for _, p := range o.Ops {
			if p.Injected != "-" {
				inj += fmt.Sprintf("; operation %d, %s %s, was made to fail with %s", p.Idx, p.Name, p.Path, p.Injected)
			}
		}
		return fmt.Sprintf("%s%s: %s (exit status %d, the table file is %s, stderr %q)", c.Name, inj, s, o.Exit, o.Kind, o.Stderr)
	}
	if o.Exit == -2 {
		return what("no end after 60 s"), nil
	}
	// Derived from what was injected.
	hardInput, hardOutput, killed, wrote := false, false, false, false
	for _, p := range o.Ops {
		if p.Injected != "-" && !soft[p.Injected] {
			if p.input() && (p.Name == "open" || p.Name == "read" || p.Name == "pread") {
				hardInput = hardInput || !hardOutput
			}
			if p.output() && (p.Name == "open" || p.Name == "write" || p.Name == "pwrite" || p.Name == "close") {
				hardOutput = true
			}
		}
		if p.Injected == "kill" {
			killed = true
			continue
		}
		if p.output() {
			wrote = true
		}
	}
	if o.Exit == 0 {
		if killed {
			return what("exit status 0 of a killed process"), nil
		}
		if c.Want == "fail" {
			return what("the generator claims success"), nil
		}
		if hardInput {
			return what("the generator claims success although an input could not be read"), nil
		}
		if hardOutput {
			return what("the generator claims success although the output failed"), nil
		}
		if o.Kind != "other" {
			return what("the generator claims success, but has written no table"), nil
		}
		if m := wellTyped(o.Table); m != "" {
			return what(m), nil
		}
		if c.Same != "" {
			want, m, err := r.table(c.Same, refDir)
			if err != nil || m != "" {
				return m, err
			}
			if !r.nd && !bytes.Equal(want, o.Table) {
				return what(fmt.Sprintf("the generator claims success, but the table is not the one of the dataset %q (%d bytes, want %d)", c.Same, len(o.Table), len(want))), nil
			}
		}
		return "", nil
	}
	if o.Exit > 0 && !killed && strings.TrimSpace(o.Stderr) == "" {
		return what("the generator fails without a message"), nil
	}
	if c.Want == "ok" && !hardInput && !hardOutput && !killed {
		// Short counts and interrupted calls are not failures, and neither is the dataset.
		for _, p := range o.Ops {
			if p.Injected != "-" && !soft[p.Injected] {
				return "", nil
			}
		}
		return what("the generator fails although nothing has failed"), nil
	}
	if o.Kind != "sentinel" && c.Out == "" && (c.Keep || hardInput || killed && !wrote) {
		return what("the previous table is damaged although the failure was before writing"), nil
	}
	return "", nil
}

// ---- Cases.

var base = map[string][]string{
	paths[0]: {"0000..0009    ; Control # Cc  [10] <control-0000>..<control-0009>", "000A          ; LF", "000D          ; CR", "0300..036F    ; Extend # Mn [112] X..Y", "1100..115F    ; L", "1F1E6..1F1FF  ; Regional_Indicator", "0903 ; SpacingMark"},
	paths[1]: {"0023          ; Emoji # E0.0 [1] (#) hash sign", "00A9          ; Extended_Pictographic", "231A..231B    ; Extended_Pictographic", "1F600         ; Extended_Pictographic"},
	paths[2]: {"0041..005A    ; Alphabetic", "0300..036F    ; InCB; Extend", "0915..0939    ; InCB; Consonant # Lo [37] X", "094D          ; InCB; Linker", "0061 ; Lowercase"},
}

var fieldsOf = map[string][]string{
	paths[0]: {"Extend", "Prepend # x"},
	paths[1]: {"Extended_Pictographic", "Emoji"},
	paths[2]: {"InCB; Linker", "Alphabetic"},
}

func files(m map[string][]string) map[string]string {
	ret := map[string]string{}
	for k, v := range m {
		ret[k] = "# header\n\n" + strings.Join(v, "\n") + "\n"
	}
	return ret
}

// with returns the base files with one file's lines changed.
func with(f string, ls []string) map[string]string {
	ret := files(base)
	ret[f] = "# header\n\n" + strings.Join(ls, "\n") + "\n"
	return ret
}

func insert(ls []string, i int, l ...string) []string {
	return append(append(append([]string{}, ls[:i]...), l...), ls[i:]...)
}

// Code points that are none.
var badPoints = []string{"", "G", "ZZZZ", "0300..", "..0301", "..", "0300..0301..0302", "0301..0300", "110000", "10FFFF..110000", "110000..110001", "FFFFFFFF", "100000300", "7FFFFFFF",
	"300..100000301", "300..80000301", "300..8000000000000301", "80000000", "8000000000000300", "10000000000000300", "300..10000000000000301", "-300", "+300", "0x300", "0300-0301", "U+0300", "0300..ZZ", "ZZ..0300", "0300 x", "0300,0301", "0300.0301", "0300...0301", "03\u066000", "0_300", "300h", "\xff", "FFFF..0000", "10FFFF..10FFFE"}

var gcbNames = []string{"CR", "Control", "Extend", "L", "LF", "LV", "LVT", "Prepend", "Regional_Indicator", "SpacingMark", "T", "V", "ZWJ"}

func contentCases(r *refs, realText map[string]string, thorough bool) []Case {
	var ret []Case
	fail := func(name string, fs map[string]string) {
		ret = append(ret, Case{Name: name, Files: fs, Want: "fail", Keep: true})
	}
	r.data["base"] = Case{Files: files(base)}
	// Missing and unreadable files.
	for _, f := range paths {
		for _, s := range []string{"missing:", "dir:", "link:nowhere", "link:" + filepath.Base(f), "link:/proc/self/mem"} {
			for _, out := range []string{"", "none", "empty"} {
				ret = append(ret, Case{Name: f + " is " + s, Files: map[string]string{f: s}, Real: true, Want: "fail", Keep: true, Out: out})
				fs := files(base)
				fs[f] = s
				ret = append(ret, Case{Name: f + " is " + s, Files: fs, Want: "fail", Keep: true, Out: out})
			}
		}
	}
	fail("no directory", map[string]string{".": "missing:"})
	fail("a file for the directory", map[string]string{".": "file:"})
	// Malformed lines, in every place, of every file.
	for _, f := range paths {
		for _, p := range badPoints {
			for _, fld := range fieldsOf[f] {
				for i := 0; i <= len(base[f]); i++ {
					fail(fmt.Sprintf("%s with the line %q in place %d", f, p+" ; "+fld, i), with(f, insert(base[f], i, p+" ; "+fld)))
				}
			}
		}
		// The last line, without a line end, and in real data.
		for _, p := range badPoints {
			fs := files(base)
			fs[f] += p + ";" + fieldsOf[f][0]
			fail(fmt.Sprintf("%s with the unterminated last line %q", f, p), fs)
			fail(fmt.Sprintf("%s with CRLF and the line %q", f, p), with(f, []string{base[f][0] + "\r", p + ";" + fieldsOf[f][0] + "\r", base[f][1] + "\r"}))
			if thorough || p == "G" || p == "110000" || p == "0301..0300" {
				t := realText[f]
				for _, at := range []int{0, strings.Index(t[len(t)/2:], "\n") + 1 + len(t)/2, len(t)} {
					c := Case{Name: fmt.Sprintf("the real %s with the line %q at byte %d", f, p, at), Real: true, Want: "fail", Keep: true}
					c.Files = map[string]string{f: t[:at] + p + " ; " + fieldsOf[f][0] + "\n" + t[at:]}
					ret = append(ret, c)
				}
			}
		}
	}
	// Long lines may be too much for the reader, but must not end the file quietly.
	for _, f := range paths {
		for _, n := range []int{4000, 4095, 4096, 4097, 60000, 65534, 65535, 65536, 65537, 70000, 1 << 17, 1 << 20} {
			for i := 0; i <= len(base[f]); i++ {
				if !thorough && i != 0 && i != len(base[f]) && i != 2 {
					continue
				}
				for _, l := range []string{"#" + strings.Repeat("x", n), strings.Repeat(" ", n)} {
					ret = append(ret, Case{Name: fmt.Sprintf("%s with a line of %d bytes in place %d", f, n, i), Files: with(f, insert(base[f], i, l)), Want: "any", Same: "base", Keep: true})
				}
			}
		}
	}
	// Conflicts: each pair of values, in each order and arrangement.
	arrangements := []struct{ name, a, b string }{{"equal", "0E10", "0E10"}, {"first of a range", "0E10", "0E10..0E15"}, {"last of a range", "0E15", "0E10..0E15"}, {"middle", "0E10..0E15", "0E12"},
		{"overlapping ranges", "0E10..0E15", "0E15..0E20"}, {"ranges across blocks", "0E3F..0E41", "0E30..0E40"}, {"ASCII", "0061", "0061"}, {"two bytes", "00C0", "00C0"}, {"four bytes", "10FFFF", "10FFFE..10FFFF"}}
	for _, a := range arrangements {
		for _, order := range []bool{false, true} {
			x, y := a.a, a.b
			if order {
				x, y = y, x
			}
			for i, g := range gcbNames {
				for j, h := range gcbNames {
					if i == j {
						continue
					}
					f := paths[0]
					fail(fmt.Sprintf("conflict %s/%s, %s", g, h, a.name), with(f, append(append([]string{}, base[f]...), x+" ; "+g, y+" ; "+h)))
					if a.name == "equal" && !order {
						fail(fmt.Sprintf("conflict %s/%s, in front", g, h), with(f, append([]string{x + " ; " + g, y + " ; " + h}, base[f]...)))
						fail(fmt.Sprintf("conflict %s/%s, apart", g, h), with(f, append(append([]string{x + " ; " + g}, base[f]...), y+" ; "+h)))
					}
				}
				fs := files(base)
				fs[paths[0]] += x + " ; " + g + "\n"
				fs[paths[1]] += y + " ; Extended_Pictographic\n"
				fail(fmt.Sprintf("conflict %s/Extended_Pictographic, %s", g, a.name), fs)
			}
			for _, g := range []string{"Consonant", "Extend", "Linker"} {
				for _, h := range []string{"Consonant", "Extend", "Linker"} {
					if g != h {
						f := paths[2]
						fail(fmt.Sprintf("conflict of conjunct values %s/%s, %s", g, h, a.name), with(f, append(append([]string{}, base[f]...), x+" ; InCB; "+g, y+" ; InCB; "+h)))
						fail(fmt.Sprintf("conflict of conjunct values %s/%s, %s, apart", g, h, a.name), with(f, append(append([]string{x + " ; InCB; " + g}, base[f]...), y+" ; InCB; "+h)))
					}
				}
			}
		}
	}
	// A conflict with each line of the real data, stated before and after it.
	for _, f := range paths[:] {
		i := 0
		for _, l := range strings.Split(realText[f], "\n") {
			l, _, _ = strings.Cut(l, "#")
			p, v, ok := strings.Cut(l, ";")
			p, v = strings.TrimSpace(p), strings.TrimSpace(v)
			other, file := "", f
			switch {
			case !ok:
			case f == paths[0]:
				other = "Prepend"
				if v == other {
					other = "LVT"
				}
				if i%3 == 1 {
					other, file = "Extended_Pictographic", paths[1]
				}
			case f == paths[1] && v == "Extended_Pictographic":
				other, file = "SpacingMark", paths[0]
			case f == paths[2] && strings.HasPrefix(v, "InCB"):
				other = "InCB; Consonant"
				if strings.HasSuffix(v, "Consonant") {
					other = "InCB; Extend"
				}
			}
			if other == "" {
				continue
			}
			i++
			if !thorough && i%10 != 1 {
				continue
			}
			from, to, isRange := strings.Cut(p, "..")
			if isRange && i%2 == 0 {
				from = to
			}
			for k, t := range []string{from + " ; " + other + "\n" + realText[file], realText[file] + from + " ; " + other + "\n"} {
				ret = append(ret, Case{Name: fmt.Sprintf("real data, %s has %s in %s, and %s (%d)", from, v, f, other, k), Real: true, Files: map[string]string{file: t}, Want: "fail", Keep: true})
			}
		}
	}
	// Values of different kinds for the same characters are no conflict.
	fs := files(base)
	fs[paths[0]] += "0E10 ; Extend\n0E11 ; L\n"
	fs[paths[2]] += "0E10 ; InCB; Linker\n0E12 ; InCB; Extend\n"
	fs[paths[1]] += "0E12 ; Extended_Pictographic\n0E10..0E11 ; Emoji\n"
	r.data["combined"] = Case{Files: fs}
	ret = append(ret, Case{Name: "no conflict", Files: fs, Want: "any", Same: "combined"})
	// Too much for the index type.
	for n := 1; n <= 310; n++ {
		if n%10 != 0 && (n < 240 || n > 275) && !thorough {
			continue
		}
		var g, h strings.Builder
		for k := 0; k < n; k++ {
			for bit := 0; bit < 9; bit++ {
				if (k+1)>>bit&1 == 1 {
					fmt.Fprintf(&g, "%04X ; Extend\n", 0x800+k*64+bit*5)
				}
			}
			if b := 0x1000 * (k + 1); b != 0xd000 && k < 271 {
				fmt.Fprintf(&h, "%04X ; %s\n", b+k%64*64, gcbNames[k/64])
			}
		}
		want := "any"
		if n > 256 {
			want = "fail"
		}
		ret = append(ret, Case{Name: fmt.Sprintf("%d distinct blocks of properties", n), Files: map[string]string{paths[0]: g.String(), paths[1]: "", paths[2]: ""}, Want: want, Keep: true})
		ret = append(ret, Case{Name: fmt.Sprintf("%d distinct blocks of indices", n), Files: map[string]string{paths[0]: h.String(), paths[1]: "", paths[2]: ""}, Want: "any", Keep: true})
	}
	for _, span := range []string{"10000..10FFFF", "20000..10FFFF", "0800..FFFF", "0000..10FFFF"} {
		for _, f := range paths {
			fs := files(map[string][]string{paths[0]: nil, paths[1]: nil, paths[2]: nil})
			fs[f] += span + " ; " + fieldsOf[f][0] + "\n"
			ret = append(ret, Case{Name: "a large range", Files: fs, Want: "any", Keep: true})
		}
	}
	return ret
}

// outputCases: real failures of the output.
func outputCases(r *refs, size int) []Case {
	ret := []Case{
		{Name: "the table is a link to /dev/full", Real: true, Out: "full", Want: "any", Same: "real"}, // it may be replaced
		{Name: "the table is a link to /dev/full", Files: files(base), Out: "full", Want: "any", Same: "base"},
		{Name: "the table is a directory", Real: true, Out: "dir", Want: "any", Same: "real"},
		{Name: "the table is a dangling link", Real: true, Out: "dangling", Want: "any", Same: "real"},
		{Name: "the table is a link to itself", Real: true, Out: "loop", Want: "any", Same: "real"},
		{Name: "the table is a link", Real: true, Out: "link", Want: "any", Same: "real"},
		{Name: "no table before", Real: true, Out: "none", Want: "ok", Same: "real"},
		{Name: "an empty table before", Real: true, Out: "empty", Want: "ok", Same: "real"},
		{Name: "a longer table before", Real: true, Want: "ok", Same: "real"},
		{Name: "a longer table before", Files: files(base), Want: "ok", Same: "base"},
	}
	for _, n := range []int{0, 1, 100, 511, 512, 4095, 4096, 4097, size / 2, size - 4096, size - 2, size - 1, size} {
		if n < 0 {
			continue
		}
		c := Case{Name: fmt.Sprintf("at most %d of %d bytes can be written", n, size), Real: true, Out: fmt.Sprintf("limit:%d", n), Want: "fail"}
		if n == size {
			c.Want = "any"
			c.Same = "real"
		}
		ret = append(ret, c)
	}
	return ret
}

var kinds = map[string][]string{
	"open":   {"EACCES", "EMFILE", "ENOENT", "EIO", "EINTR", "kill"},
	"read":   {"EIO", "EISDIR", "ENOMEM", "EINTR", "s1", "kill"},
	"pread":  {"EIO", "EINTR", "s1", "kill"},
	"write":  {"EIO", "ENOSPC", "EDQUOT", "EINTR", "s1", "zero", "kill"},
	"pwrite": {"EIO", "ENOSPC", "EINTR", "s1", "zero", "kill"},
	"close":  {"EIO", "ENOSPC", "EDQUOT", "kill"},
	"fsync":  {"EIO", "kill"},
	"trunc":  {"EIO", "kill"},
	"rename": {"EIO", "EACCES", "kill"},
	"unlink": {"EIO", "kill"},
	"chmod":  {"EPERM", "kill"},
}

func main() {
	if len(os.Args) == 3 && os.Args[1] == "replay" {
		replay()
	}
	thorough := os.Args[2] == "thorough"
	limit := 400 * time.Second
	if thorough {
		limit = 750 * time.Second
	}
	k := kit.New(os.Args[1], thorough, os.Args[3], limit)
	root, err := os.MkdirTemp("", "genfault")
	if err != nil {
		fatal(err)
	}
	defer os.RemoveAll(root)
	r := &refs{data: map[string]Case{"real": {Real: true}}, got: map[string][]byte{}}
	refDir := filepath.Join(root, "ref")
	realText := map[string]string{}
	for _, f := range paths {
		b, err := os.ReadFile(filepath.Join(os.Getenv("GEN_UCD"), f))
		if err != nil {
			fatal(err)
		}
		realText[f] = string(b)
	}
	content := contentCases(r, realText, thorough)
	sizes := map[string]int{}
	for _, n := range []string{"real", "base", "combined"} {
		t, m, err := r.table(n, refDir)
		if err != nil {
			fatal(err)
		}
		if m != "" {
			c := r.data[n]
			c.Name, c.Want = n, "ok"
			js, _ := json.Marshal(c)
			k.Fail(kit.Replay{Kind: "generate", Message: m, Params: map[string]any{"case": string(js)}})
			os.RemoveAll(root)
			k.Finish()
		}
		sizes[n] = len(t)
	}
	dirs := make(chan string, 64)
	var made int
	var mu sync.Mutex
	exec := func(w *kit.Worker, c *Case) (Outcome, bool) {
		if k.Stopped() {
			return Outcome{}, false
		}
		var d string
		select {
		case d = <-dirs:
		default:
			mu.Lock()
			made++
			d = filepath.Join(root, fmt.Sprint("w", made))
			mu.Unlock()
		}
		defer func() { dirs <- d }()
		w.Note = c.Name
		o, err := c.run(d)
		w.Calls++
		w.Beat()
		if err != nil {
			fatal(fmt.Errorf("%s: %w", c.Name, err))
		}
		m, err := r.judge(c, o, refDir)
		if err != nil {
			fatal(err)
		}
		w.S["cases"]++
		if o.Exit == 0 {
			w.S["cases_claimed_success"]++
		} else {
			w.S["cases_failed_loudly"]++
		}
		if m != "" {
			js, _ := json.Marshal(c)
			k.Fail(kit.Replay{Kind: "generator", Message: m, Params: map[string]any{"case": string(js)}})
		}
		o.Table = nil
		if w.S["cases"]%499 == 3 {
			k.Sample(map[string]any{"case": c.Name, "fault": c.Fault, "exit": o.Exit, "table": o.Kind})
		}
		return o, true
	}
	list := func(phase, bound string, cs []Case) {
		k.Parallel(phase, bound, len(cs), func(w *kit.Worker, i int) { exec(w, &cs[i]) })
	}
	list("outputs", "every kind of output file and of limit on its size", outputCases(r, sizes["real"]))
	list("contents", "missing and unreadable files, each malformed code point on a line in each place of each file, long lines, all pairs of conflicting values, numbers of distinct blocks around the limits", content)

	// Faults: every operation of the run, with every kind of failure, and then what the run does after that.
	for _, ds := range []struct {
		name  string
		c     Case
		depth int
	}{{"real data", Case{Real: true, Same: "real", Want: "ok"}, 1}, {"small data", Case{Files: files(base), Same: "base", Want: "ok"}, 3}, {"small data, no table before", Case{Files: files(base), Same: "base", Want: "ok", Out: "none"}, 1}} {
		depth := ds.depth
		if thorough && ds.name == "small data" {
			depth = 4
		}
		var level []Case
		first := ds.c
		first.Name, first.Fault = "faults in the generator, "+ds.name, "none"
		var seen sync.Mutex
		expand := func(c *Case, o Outcome) []Case {
			last := -1
			if c.Fault != "none" && c.Fault != "all1" {
				parts := strings.Split(c.Fault, ",")
				last, _ = strconv.Atoi(strings.Split(parts[len(parts)-1], ":")[0])
			}
			var ret []Case
			for _, p := range o.Ops {
				if p.Idx <= last {
					continue
				}
				for _, kd := range kinds[p.Name] {
					d := *c
					if last < 0 {
						d.Fault = fmt.Sprintf("%d:%s:%s", p.Idx, p.Name, kd)
					} else {
						d.Fault = fmt.Sprintf("%s,%d:%s:%s", c.Fault, p.Idx, p.Name, kd)
					}
					ret = append(ret, d)
				}
			}
			return ret
		}
		k.ParallelN("faults, "+ds.name+", none", "the operations of a run in which nothing fails, and in which all reads and writes move one byte", 1, 1, func(w *kit.Worker, _ int) {
			o, ok := exec(w, &first)
			if !ok {
				return
			}
			in, out := 0, 0
			for _, p := range o.Ops {
				if p.input() && p.Name == "open" {
					in++
				}
				if p.output() && strings.HasSuffix(p.Name, "write") {
					out++
				}
			}
			w.S["operations"] = uint64(len(o.Ops))
			if in < 3 || out < 1 {
				k.Count("note_"+ds.name, "the program's operations are not all visible to the fault injector")
				k.Count("exhaustive_faults", false)
			}
			level = expand(&first, o)
			if ds.name != "real data" || thorough {
				c := first
				c.Fault = "all1"
				exec(w, &c)
			}
		})
		for d := 1; d <= depth; d++ {
			cs := level
			level = nil
			k.Parallel(fmt.Sprintf("faults, %s, %d", ds.name, d), fmt.Sprintf("every sequence of %d failing operations, with every kind of failure", d), len(cs), func(w *kit.Worker, i int) {
				o, ok := exec(w, &cs[i])
				if ok && d < depth {
					l := expand(&cs[i], o)
					seen.Lock()
					level = append(level, l...)
					seen.Unlock()
				}
			})
		}
	}
	if r.nd {
		k.Count("note", "the generator's output differs from run to run, so tables were not compared")
	}
	os.RemoveAll(root)
	k.Finish()
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, err)
	os.Exit(2)
}

func replay() {
	raw, err := os.ReadFile(os.Args[2])
	var v kit.Replay
	var c Case
	if err == nil {
		err = json.Unmarshal(raw, &v)
	}
	if err == nil {
		s, _ := v.Params["case"].(string)
		err = json.Unmarshal([]byte(s), &c)
	}
	if err != nil {
		fatal(err)
	}
	root, err := os.MkdirTemp("", "genfault")
	if err != nil {
		fatal(err)
	}
	defer os.RemoveAll(root)
	r := &refs{data: map[string]Case{"real": {Real: true}}, got: map[string][]byte{}}
	contentCases(r, map[string]string{}, false)
	o, err := c.run(filepath.Join(root, "w"))
	m := ""
	if err == nil {
		m, err = r.judge(&c, o, filepath.Join(root, "ref"))
	}
	os.RemoveAll(root)
	if err != nil {
		fatal(err)
	}
	if m != "" {
		fmt.Println(m)
		os.Exit(1)
	}
	os.Exit(0)
}
