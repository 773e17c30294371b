// ucdp checks the readers of Unicode data (C09): ucdp C09 quick|thorough RESULT.json, or ucdp replay FILE.
package main

import (
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"slices"
	"strings"
	"time"

	"github.com/apparentlymart/go-textseg/v17/textseg/internal/charprops/ucdparse"
	"verif.local/harness/kit"
)

// ---- What the files mean.

type entry struct {
	start, end int // inclusive
	fields     []string
}

type lineKind int

const (
	none lineKind = iota
	data
	malformed
	either // malformed in a way that a reader may tolerate: spaces inside of the range
)

func isHex(s string) bool {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c >= '0' && c <= '9' || c >= 'A' && c <= 'F' || c >= 'a' && c <= 'f') {
			return false
		}
	}
	return s != ""
}

// hexValue parses hexadecimal digits; at most U+10FFFF.
func hexValue(s string) (int, bool) {
	if !isHex(s) {
		return 0, false
	}
	v := 0
	for _, c := range strings.ToLower(s) {
		v = v*16 + strings.IndexRune("0123456789abcdef", c)
		if v > 0x10ffff {
			return 0, false
		}
	}
	return v, true
}

func dataLine(l string) (lineKind, entry) {
	l, _, _ = strings.Cut(l, "#")
	rng, rest, ok := strings.Cut(l, ";")
	if !ok {
		return none, entry{}
	}
	rng = strings.TrimSpace(rng)
	from, to, isRange := strings.Cut(rng, "..")
	k := data
	if strings.TrimSpace(from) != from || strings.TrimSpace(to) != to {
		k = either
		from, to = strings.TrimSpace(from), strings.TrimSpace(to)
	}
	a, ok1 := hexValue(from)
	b, ok2 := a, true
	if isRange {
		b, ok2 = hexValue(to)
	}
	if !ok1 || !ok2 || a > b {
		return malformed, entry{}
	}
	var fields []string
	for _, f := range strings.Split(rest, ";") {
		fields = append(fields, strings.TrimSpace(f))
	}
	return k, entry{a, b, fields}
}

type testEntry struct {
	segs []string
}

func testLine(l string) (lineKind, testEntry) {
	l, _, _ = strings.Cut(l, "#")
	l = strings.TrimSpace(l)
	if l == "" {
		return none, testEntry{}
	}
	var e testEntry
	for _, seg := range strings.Split(l, "÷") {
		s := ""
		for _, c := range strings.Split(seg, "×") {
			c = strings.TrimSpace(c)
			if c == "" {
				continue
			}
			v, ok := hexValue(c)
			if !ok || v >= 0xd800 && v <= 0xdfff {
				return malformed, testEntry{}
			}
			s += string(rune(v))
		}
		if s != "" {
			e.segs = append(e.segs, s)
		}
	}
	return data, e
}

// lines splits like a text file: LF or CRLF, the last terminator being optional.
func lines(s string) []string {
	if s == "" {
		return nil
	}
	s = strings.TrimSuffix(s, "\n")
	ls := strings.Split(s, "\n")
	for i, l := range ls {
		ls[i] = strings.TrimSuffix(l, "\r")
	}
	return ls
}

// ---- Reading with the code under test.

type script struct {
	s      string
	cuts   uint64
	failAt int
	err    error
	withIt bool
	empty  int
	pos    int
}

func (r *script) Read(p []byte) (int, error) {
	if r.empty == r.pos {
		r.empty = -1
		return 0, nil
	}
	if r.pos >= r.failAt {
		return 0, r.err
	}
	n := 0
	for r.pos < r.failAt && n < len(p) {
		p[n] = r.s[r.pos]
		cut := r.cuts>>min(r.pos, 63)&1 == 1
		r.pos++
		n++
		if cut && r.pos < r.failAt {
			break
		}
	}
	if r.pos == r.failAt && r.withIt {
		return n, r.err
	}
	return n, nil
}

// readData compares. failed: the reader fails with err after s[:k].
func readData(r *script) string {
	sc := ucdparse.NewScanner(r)
	broken := r.err != io.EOF
	ls := lines(r.s[:r.failAt])
	for i, l := range ls {
		last := broken && i == len(ls)-1 && !strings.HasSuffix(r.s[:r.failAt], "\n")
		k, e := dataLine(l)
		if last {
			// The last line is incomplete: it may or may not be reported, but then the error must follow.
			got, err := sc.NextEntry()
			if err == nil {
				if k == none || k == malformed {
					return fmt.Sprintf("incomplete line %q gives an entry", l)
				}
				if m := same(got, e); m != "" {
					return m
				}
				_, err = sc.NextEntry()
			}
			return mustFail(err)
		}
		if k == none {
			continue
		}
		got, err := sc.NextEntry()
		if k == malformed || k == either && err != nil {
			if err == nil || err == io.EOF {
				return fmt.Sprintf("malformed line %q: entry %X..%X %q, error %v", l, got.Start, got.End-1, []byte(got.Fields), err)
			}
			return "" // the iteration ended with an error, as it must
		}
		if err != nil {
			return fmt.Sprintf("line %q (line %d of %d): error %v", short(l), i+1, len(ls), err)
		}
		if m := same(got, e); m != "" {
			return fmt.Sprintf("line %q (line %d of %d): %s", short(l), i+1, len(ls), m)
		}
	}
	got, err := sc.NextEntry()
	if broken {
		return mustFail(err)
	}
	if err != io.EOF {
		return fmt.Sprintf("after the last line: entry %X..%X %q, error %v; want io.EOF", got.Start, got.End-1, []byte(got.Fields), err)
	}
	return ""
}

func short(s string) string {
	if len(s) > 80 {
		return s[:40] + "..." + s[len(s)-40:]
	}
	return s
}

func mustFail(err error) string {
	if err == nil || err == io.EOF {
		return fmt.Sprintf("the reader failed, but the iteration ended with %v", err)
	}
	return ""
}

func same(got ucdparse.Entry, e entry) string {
	if int(got.Start) != e.start || int(got.End) != e.end+1 {
		return fmt.Sprintf("range %X..%X, want %X..%X", got.Start, got.End-1, e.start, e.end)
	}
	for i := 0; i < 2; i++ { // the fields can be read more than once
		if f := got.FirstField(); f != e.fields[0] {
			return fmt.Sprintf("first field %q, want %q", f, e.fields[0])
		}
		if fs := slices.Collect(got.AllFields()); !slices.Equal(fs, e.fields) {
			return fmt.Sprintf("fields %q, want %q", fs, e.fields)
		}
	}
	// One sequence, iterated again after every kind of early stop.
	seq := got.AllFields()
	for stop := 1; stop <= len(e.fields); stop++ {
		if stop > 9 && stop < len(e.fields)-2 && stop != len(e.fields)/2 {
			continue // with many fields, not everywhere
		}
		n := 0
		for f := range seq {
			if n++; n > stop {
				return "AllFields does not stop when told to"
			}
			if f != e.fields[n-1] {
				return fmt.Sprintf("field %d is %q when the fields are iterated again, want %q", n, f, e.fields[n-1])
			}
			if n == stop {
				break
			}
		}
		if fs := slices.Collect(seq); !slices.Equal(fs, e.fields) {
			return fmt.Sprintf("iterated again after a stop at field %d: fields %q, want %q", stop, fs, e.fields)
		}
	}
	return ""
}

func readTest(r *script) string {
	sc := ucdparse.NewTestDataScanner(r)
	broken := r.err != io.EOF
	ls := lines(r.s[:r.failAt])
	var all []ucdparse.TestDataEntry
	var want []testEntry
	check := func(got ucdparse.TestDataEntry, e testEntry) string {
		var segs []string
		for _, s := range got.WantSegments {
			segs = append(segs, string(s))
		}
		if string(got.Input) != strings.Join(e.segs, "") || !slices.Equal(segs, e.segs) {
			return fmt.Sprintf("input %+q in segments %+q, want segments %+q", got.Input, segs, e.segs)
		}
		return ""
	}
	finish := func(err error) string {
		for i := range all { // entries must stay what they were
			if m := check(all[i], want[i]); m != "" {
				return fmt.Sprintf("entry %d, after all have been read: %s", i, m)
			}
		}
		if broken {
			return mustFail(err)
		}
		if err != io.EOF {
			return fmt.Sprintf("after the last line: error %v; want io.EOF", err)
		}
		return ""
	}
	for i, l := range ls {
		last := broken && i == len(ls)-1 && !strings.HasSuffix(r.s[:r.failAt], "\n")
		k, e := testLine(l)
		if last {
			got, err := sc.NextEntry()
			if err == nil {
				if k != data {
					return fmt.Sprintf("incomplete line %q gives an entry", l)
				}
				if m := check(got, e); m != "" {
					return m
				}
				_, err = sc.NextEntry()
			}
			return finish(err)
		}
		if k == none {
			continue
		}
		got, err := sc.NextEntry()
		if k == malformed {
			if err == nil || err == io.EOF {
				return fmt.Sprintf("malformed line %q: input %+q, error %v", l, got.Input, err)
			}
			return ""
		}
		if err != nil {
			return fmt.Sprintf("line %q (line %d of %d): error %v", short(l), i+1, len(ls), err)
		}
		if m := check(got, e); m != "" {
			return fmt.Sprintf("line %q (line %d of %d): %s", short(l), i+1, len(ls), m)
		}
		all, want = append(all, got), append(want, e)
	}
	_, err := sc.NextEntry()
	return finish(err)
}

var errInjected = errors.New("injected read error")
var errs = map[string]error{"EOF": io.EOF, "injected": errInjected, "unexpected EOF": io.ErrUnexpectedEOF}

type reader struct {
	kind string
	read func(*script) string
}

var readers = []reader{{"data", readData}, {"test", readTest}}

type expl struct{ *kit.Run }

func (x *expl) one(w *kit.Worker, rd reader, r script, errName string) bool {
	r.err = errs[errName]
	w.Data = []byte(r.s)
	w.Calls++
	in := r
	if m := safely(rd, &r); m != "" {
		x.Fail(kit.Replay{Kind: "file", Data: hex.EncodeToString([]byte(in.s)), Message: fmt.Sprintf("%s file %q: %s", rd.kind, short(in.s), m),
			Params: map[string]any{"reader": rd.kind, "cuts": fmt.Sprint(in.cuts), "fail_at": in.failAt, "error": errName, "with_data": in.withIt, "empty": in.empty}})
		return false
	}
	return true
}

func safely(rd reader, r *script) (m string) {
	defer func() {
		if p := recover(); p != nil {
			m = fmt.Sprintf("panic: %v", p)
		}
	}()
	return rd.read(r)
}

// deliveries reads one file in many ways.
func (x *expl) deliveries(w *kit.Worker, rd reader, s string, parts bool) bool {
	n := len(s)
	if !x.one(w, rd, script{s: s, failAt: n, empty: -1}, "EOF") || !x.one(w, rd, script{s: s, failAt: n, empty: -1, withIt: true, cuts: ^uint64(0)}, "EOF") {
		return false
	}
	if !parts {
		return true
	}
	for k := 0; k <= n; k++ {
		for _, e := range []string{"injected", "unexpected EOF"} {
			for _, c := range []uint64{0, ^uint64(0)} {
				if !x.one(w, rd, script{s: s, failAt: k, empty: -1, cuts: c}, e) || k > 0 && !x.one(w, rd, script{s: s, failAt: k, empty: -1, cuts: c, withIt: true}, e) {
					return false
				}
			}
		}
		if !x.one(w, rd, script{s: s, failAt: n, empty: k, cuts: ^uint64(0)}, "EOF") || !x.one(w, rd, script{s: s, failAt: n, empty: -1, cuts: 1 << min(k, 63)}, "EOF") {
			return false
		}
	}
	return true
}

// sequences reads every file made of up to depth tokens.
func (x *expl) sequences(name string, rd reader, tokens []string, depth, partsTo int) {
	n := len(tokens)
	x.Parallel(name, fmt.Sprintf("every concatenation of 0..%d of the tokens %q; up to %d tokens with every single cut, empty read and failing offset", depth, tokens, partsTo), n*n, func(w *kit.Worker, job int) {
		var rec func(s string, d int) bool
		rec = func(s string, d int) bool {
			if x.Stopped() {
				return false
			}
			w.S["files"]++
			if !x.deliveries(w, rd, s, d <= partsTo) {
				return false
			}
			if d == depth {
				return true
			}
			for _, t := range tokens {
				if !rec(s+t, d+1) {
					return false
				}
			}
			return true
		}
		if job == 0 && !x.deliveries(w, rd, "", true) {
			return
		}
		if job%n == 0 && !x.deliveries(w, rd, tokens[job/n], true) {
			return
		}
		rec(tokens[job/n]+tokens[job%n], 2)
	})
}

// grid reads lines that combine alternatives for each of their parts, in pairs.
func (x *expl) grid(name string, rd reader, parts [][]string) {
	total := 1
	for _, p := range parts {
		total *= len(p)
	}
	line := func(i int) string {
		s := ""
		for _, p := range parts {
			s += p[i%len(p)]
			i /= len(p)
		}
		return s
	}
	x.Parallel(name, fmt.Sprintf("every line that combines %v alternatives of its parts, alone and followed by a plain line", lens(parts)), total, func(w *kit.Worker, i int) {
		s := line(i)
		w.S["files"]++
		if x.Stopped() || !x.deliveries(w, rd, s, false) {
			return
		}
		x.deliveries(w, rd, s+"\n"+line(0)+"\n", false)
	})
}

func lens(parts [][]string) []int {
	var ret []int
	for _, p := range parts {
		ret = append(ret, len(p))
	}
	return ret
}

func (x *expl) long(rd reader, plain func(i int) string) {
	// Files of many lines, so that the reader's buffer ends at every place within a line.
	x.Parallel("long "+rd.kind+" files", "files of 0..400 lines with 0..100 bytes before them", 101, func(w *kit.Worker, pad int) {
		var b strings.Builder
		b.WriteString("#" + strings.Repeat("x", pad) + "\n")
		for i := 0; i < 400; i++ {
			b.WriteString(plain(i))
			if (pad+i)%3 == 0 {
				b.WriteString("\r")
			}
			b.WriteString("\n")
			if i%50 == 49 || b.Len() > 4000 && b.Len() < 4300 || b.Len() > 8100 && b.Len() < 8400 {
				w.S["files"]++
				if x.Stopped() || !x.one(w, rd, script{s: b.String(), failAt: b.Len(), empty: -1}, "EOF") || !x.one(w, rd, script{s: b.String(), failAt: b.Len(), empty: -1}, "injected") {
					return
				}
			}
		}
		full := b.String()
		for k := 4000; k < 4200 && k < len(full); k++ {
			if !x.one(w, rd, script{s: full, failAt: k, empty: -1}, "EOF") || !x.one(w, rd, script{s: full, failAt: k, empty: -1}, "injected") {
				return
			}
		}
	})
	// Long lines: read exactly, or an error.
	x.Parallel("long "+rd.kind+" lines", "lines of 100 to 140000 bytes, as comment, spaces or content", 60, func(w *kit.Worker, job int) {
		sizes := []int{100, 1000, 4094, 4095, 4096, 4097, 8192, 20000, 32768, 60000, 65000, 65530, 65534, 65535, 65536, 65537, 66000, 70000, 131072, 140000}
		n := sizes[job%20]
		fill := []string{"#" + strings.Repeat("y", n), strings.Repeat(" ", n), plain(3) + " # " + strings.Repeat("z;", n/2)}[job/20]
		s := plain(1) + "\n" + fill + "\n" + plain(2) + "\n"
		w.Calls++
		w.S["files"]++
		r := script{s: s, failAt: len(s), empty: -1, err: io.EOF}
		if m := safely(rd, &r); m != "" {
			// Not read like a short line: then it must end with an error, after exactly the entry before.
			if m2 := prefixThenError(rd.kind, s); m2 != "" || n < 60000 {
				x.Fail(kit.Replay{Kind: "file", Data: hex.EncodeToString([]byte(s)), Message: fmt.Sprintf("%s file with a line of %d bytes: %s; %s", rd.kind, n, m, m2), Params: map[string]any{"reader": rd.kind, "cuts": "0", "fail_at": len(s), "error": "EOF", "with_data": false, "empty": -1, "long": n >= 60000}})
			}
		}
	})
}

// sizes reads lines of which each part, and each pair of parts, has every size; part(k, n) is part k in size n (at least
// 0; 1 is ordinary).
func (x *expl) sizes(rd reader, parts []func(n int) string, one, two int) {
	ask := func(w *kit.Worker, n []int) bool {
		s := ""
		for k, p := range parts {
			s += p(n[k])
		}
		w.S["files"]++
		for _, f := range []string{s, s + "\n" + s + "\r\n"} {
			if x.Stopped() || !x.one(w, rd, script{s: f, failAt: len(f), empty: -1}, "EOF") {
				return false
			}
		}
		return true
	}
	np := len(parts)
	x.Parallel(rd.kind+" lines, sizes", fmt.Sprintf("each of %d parts of a line in size 0..%d with up to two others left out; each pair of parts in sizes 0..%d", np, one, two), np*np*np, func(w *kit.Worker, job int) {
		a, b, c := job/np/np, job/np%np, job%np
		n := make([]int, np)
		for k := range n {
			n[k] = 1
		}
		if b <= c { // b and c left out, except a
			n[b], n[c] = 0, 0
			for n[a] = 0; n[a] <= one && ask(w, n); n[a]++ {
			}
			n[b], n[c], n[a] = 1, 1, 1
		}
		if a < b {
			for n[a] = c; n[a] <= two; n[a] += np {
				for n[b] = 0; n[b] <= two; n[b]++ {
					if !ask(w, n) {
						return
					}
				}
			}
		}
	})
}

// oddBytes puts every byte, and every pair of bytes if it is to, at every place of some lines.
func (x *expl) oddBytes(rd reader, lines []string, pairs bool) {
	x.Parallel(rd.kind+" lines, bytes", fmt.Sprintf("every byte value, and every character of two bytes and some of three, inserted at and put in place of every byte of %d lines; all pairs of byte values: %v", len(lines), pairs), 256*len(lines), func(w *kit.Worker, job int) {
		l, c := lines[job/256], byte(job%256)
		ins := []string{string([]byte{c}), string(rune(0x80 + job%256)), string(rune(0x2000 + job%256)), string([]byte{c, c})}
		if pairs {
			for d := 0; d < 256; d++ {
				ins = append(ins, string([]byte{c, byte(d)}))
			}
		} else {
			for d := 0; d < 8; d++ {
				ins = append(ins, string(rune(0x80+d*256+job%256)))
			}
		}
		for _, in := range ins {
			for k := 0; k <= len(l); k++ {
				w.S["files"]++
				if x.Stopped() || !x.deliveries(w, rd, l[:k]+in+l[k:], false) || k < len(l) && !x.deliveries(w, rd, l[:k]+in+l[k+1:]+"\n0041", false) {
					return
				}
			}
		}
	})
}

// ranges reads lines for every code point and ranges of many widths.
func (x *expl) ranges(thorough bool) {
	widths := []int{-1, 0, 1, 0x3f, 0xff, 0x3ff, 0xfff, 0xffff, 0x10000}
	if thorough {
		widths = append(widths, 2, 0x40, 0x7f, 0x80, 0x100, 0x7ff, 0x800, 0xff00, 0xfffe, 0x1ffff, 0xfffff)
	}
	x.Parallel("ranges", fmt.Sprintf("every code point alone and as the start of ranges of %d widths", len(widths)), 0x110000/0x400, func(w *kit.Worker, job int) {
		for _, wd := range widths {
			var b strings.Builder
			for r := job * 0x400; r < (job+1)*0x400; r++ {
				switch {
				case wd < 0:
					fmt.Fprintf(&b, "%04X ; A\n", r)
				case r+wd <= 0x10ffff:
					fmt.Fprintf(&b, "%04X..%04X;A\n", r, r+wd)
				}
			}
			w.S["files"]++
			if x.Stopped() || !x.one(w, readers[0], script{s: b.String(), failAt: b.Len(), empty: -1}, "EOF") {
				return
			}
		}
	})
	var ends []int
	for k := 0; k < 21; k++ {
		for d := -1; d <= 1; d++ {
			if v := 1<<k + d; v >= 0 && v <= 0x10ffff && !slices.Contains(ends, v) {
				ends = append(ends, v)
			}
		}
	}
	for p := 1; p <= 17; p++ {
		for d := -1; d <= 1; d++ {
			if v := p<<16 + d; v <= 0x10ffff && !slices.Contains(ends, v) {
				ends = append(ends, v)
			}
		}
	}
	ends = append(ends, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xfffd)
	x.Parallel("range ends", fmt.Sprintf("every pair of %d code points, in two notations", len(ends)), len(ends), func(w *kit.Worker, i int) {
		for _, e := range ends {
			for _, f := range []string{"%04X..%04X;A", "%x..%08x ; A\n0041;B"} {
				s := fmt.Sprintf(f, ends[i], e)
				w.S["files"]++
				if x.Stopped() || !x.one(w, readers[0], script{s: s, failAt: len(s), empty: -1}, "EOF") {
					return
				}
			}
		}
	})
	x.Parallel("test characters", "every code point after, before and apart from another in test lines", 0x110000/0x400, func(w *kit.Worker, job int) {
		for _, f := range []string{"÷ %04X ÷\n", "÷ 0041 × %04X ÷ 0308 ÷\n", "÷ %04x × 0041 ÷\n", "÷ 0041 ÷ %06X ÷\n"} {
			var b strings.Builder
			for r := job * 0x400; r < (job+1)*0x400; r++ {
				if r < 0xd800 || r > 0xdfff {
					fmt.Fprintf(&b, f, r)
				}
			}
			w.S["files"]++
			if x.Stopped() || !x.one(w, readers[1], script{s: b.String(), failAt: b.Len(), empty: -1}, "EOF") {
				return
			}
		}
	})
}

func rep(s string) func(int) string { return func(n int) string { return strings.Repeat(s, n) } }

func zeros(hex string) func(int) string {
	return func(n int) string { return strings.Repeat("0", n) + hex }
}

// prefixThenError requires an error at the end of the iteration.
func prefixThenError(kind, s string) string {
	n := 0
	if kind == "data" {
		sc := ucdparse.NewScanner(strings.NewReader(s))
		for {
			_, err := sc.NextEntry()
			if err == nil {
				if n++; n > 3 {
					return "too many entries"
				}
				continue
			}
			return mustFail(err)
		}
	}
	sc := ucdparse.NewTestDataScanner(strings.NewReader(s))
	for {
		_, err := sc.NextEntry()
		if err == nil {
			if n++; n > 3 {
				return "too many entries"
			}
			continue
		}
		return mustFail(err)
	}
}

func replay(path string) int {
	raw, err := os.ReadFile(path)
	var v kit.Replay
	if err == nil {
		err = json.Unmarshal(raw, &v)
	}
	b, err2 := hex.DecodeString(v.Data)
	if err != nil || err2 != nil {
		return 2
	}
	p := v.Params
	r := script{s: string(b), failAt: int(p["fail_at"].(float64)), empty: int(p["empty"].(float64)), withIt: p["with_data"].(bool), err: errs[p["error"].(string)]}
	fmt.Sscan(p["cuts"].(string), &r.cuts)
	for _, rd := range readers {
		if rd.kind == p["reader"] {
			if m := safely(rd, &r); m != "" {
				if p["long"] == true && prefixThenError(rd.kind, r.s) == "" {
					return 0
				}
				fmt.Println(m)
				return 1
			}
		}
	}
	return 0
}

func main() {
	if len(os.Args) == 3 && os.Args[1] == "replay" {
		os.Exit(replay(os.Args[2]))
	}
	thorough := os.Args[2] == "thorough"
	limit := 600 * time.Second
	if thorough {
		limit = 780 * time.Second
	}
	x := &expl{kit.New(os.Args[1], thorough, os.Args[3], limit)}
	d := 5
	if thorough {
		d = 6
	}
	x.sequences("data tokens", readers[0], []string{"0041", "1F600", "..", ";", " ", "\t", "#", "Aa", "\n", "\r\n", "x"}, d, 3)
	x.sequences("data lines", readers[0], []string{"0041;A\n", "0041..0043 ; A; B # c\n", "# c\n", "\n", " \t\n", "no data\n", "10FFFF ;\n", "zz;A\n", "0041;A", "\r", ";"}, d-1, 3)
	x.sequences("test tokens", readers[1], []string{"÷", "×", "0041", "1F600", " ", "\t", "#", "\n", "\r\n", "x", "D800"}, d, 3)
	x.sequences("test lines", readers[1], []string{"÷ 0041 × 0308 ÷ 1F600 ÷\t# c\n", "÷ 000D ÷ 000A ÷\n", "# c\n", "\n", " \n", "÷ 110000 ÷\n", "÷ 0041 ÷", "÷\n", "\r"}, d-1, 3)
	nums := []string{"0041", "41", "0", "0000", "10FFFF", "10ffff", "00000041", "D800", "DFFF", "FFFD", "aBcD", "110000", "7FFFFFFF", "80000000", "FFFFFFFF", "FFFFFFFE", "100000041", "8000000000000041", "10000000000000041", "", "-41", "0x41", "U+0041", "4_1", "4 1", "G", "41.", "+41", "½"}
	seps := []string{";", " ; ", "\t;\t", "  ;", ""}
	x.grid("data line grid", readers[0], [][]string{{"", " ", "\t", "#"}, nums, {"", "..0041", "..10FFFF", "..FFFFFFFF", "..100000041", "..80000041", "..8000000000000041", "..10000000000000041", "..", "..x", ".. 0041", " ..0041", "...0041", "..0041..0042", ".0041", "-0041"}, seps,
		{"Extend", "", " ", "InCB", "A B", "a;b;c", "A ; ; B ", ";", "é\u2003", "Lo [12]", "A..B"}, {"", " # c", "#;x", " #", "; Linker # ÷ ;", " \r"}})
	x.grid("test line grid", readers[1], [][]string{{"÷ ", "× ", "", " ÷", "÷÷"}, nums, {" ÷ ", "×", " ", "÷", " × × "}, {"0041", "1F1E6", "", "D7FF", "E000"}, {" ÷ ", "", " ×"}, {"0308", "", "110000"}, {" ÷\t# c", "", "#", " ÷ # ÷ 0041 ×"}})
	one, two := 300, 24
	if thorough {
		one, two = 600, 40
	}
	x.sizes(readers[0], []func(int) string{rep(" "), zeros("41"), func(n int) string {
		return strings.Repeat("..", min(n, 1)) + strings.Repeat("0", n) + "43"[:2*min(n, 1)]
	}, rep(" "), func(n int) string { return ";" }, rep("\t"), rep("Ab"), rep(" "), rep("c d"), rep(";e"), rep(" ; F"), rep(" "), rep(";"), rep("# g;")}, one, two)
	x.sizes(readers[1], []func(int) string{rep(" "), rep("÷"), rep(" "), zeros("41"), rep(" × 0308"), rep(" × 1F600 ×"), rep(" ÷ 0915 × 094D"), rep(" ÷ 00E9"), rep(" ÷"), rep("\t"), rep("# 41;")}, one, two)
	dl := []string{"0041..0043 ; Ab c ; D # e", "10FFFF;A;;B", "1F ; A; ;"}
	tl := []string{"÷ 0041 × 0308 ÷ 1F600 ÷ # c", "÷0915×094D÷"}
	x.oddBytes(readers[0], dl, thorough)
	x.oddBytes(readers[1], tl, thorough)
	x.ranges(thorough)
	x.long(readers[0], func(i int) string {
		return fmt.Sprintf("%04X..%04X ; Field%d ; %d # comment %d", i*16, i*16+i%16, i%7, i, i)
	})
	x.long(readers[1], func(i int) string { return fmt.Sprintf("÷ %04X × 0308 ÷ %04X ÷\t# %d", 0x41+i, 0x1F600+i, i) })
	for _, s := range []string{"0041..0043 ; A; B # c\n", "0041 ; ", "zz;A"} {
		sc := ucdparse.NewScanner(strings.NewReader(s))
		e, err := sc.NextEntry()
		x.Sample(map[string]any{"file": s, "start": e.Start, "end": e.End, "fields": string(e.Fields), "error": fmt.Sprint(err)})
	}
	x.Finish()
}
