package main

import (
	"bufio"
	"bytes"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"slices"
	"strings"

	auto "github.com/apparentlymart/go-textseg/autoversion/textseg"
	"verif.local/harness/explore"
	"verif.local/harness/kit"
)

// ---- ScanUTF8Sequences.

// sequence is written from Table 3-7 of the Unicode standard: the length of the well-formed sequence at the start of b;
// -1 if there is none, and 0 if more bytes could make one.
func sequence(b []byte) int {
	in := func(c, lo, hi byte) bool { return c >= lo && c <= hi }
	c := b[0]
	n := 0
	lo, hi := byte(0x80), byte(0xbf)
	switch {
	case c <= 0x7f:
		return 1
	case in(c, 0xc2, 0xdf):
		n = 2
	case in(c, 0xe0, 0xef):
		n = 3
		if c == 0xe0 {
			lo = 0xa0
		} else if c == 0xed {
			hi = 0x9f
		}
	case in(c, 0xf0, 0xf4):
		n = 4
		if c == 0xf0 {
			lo = 0x90
		} else if c == 0xf4 {
			hi = 0x8f
		}
	default:
		return -1
	}
	for i := 1; i < n; i++ {
		if i == len(b) {
			return 0
		}
		if i == 1 && !in(b[1], lo, hi) || i > 1 && !in(b[i], 0x80, 0xbf) {
			return -1
		}
	}
	return n
}

func wantUTF8(b []byte, eof bool) int {
	if len(b) == 0 {
		return 0
	}
	switch n := sequence(b); {
	case n > 0:
		return n
	case n < 0 || eof:
		return 1
	}
	return 0
}

func checkUTF8(b []byte, eof bool) string {
	adv, tok, err := auto.ScanUTF8Sequences(b, eof)
	want := wantUTF8(b, eof)
	if adv != want || err != nil || (want == 0) != (tok == nil) || len(tok) != want || want > 0 && &tok[0] != &b[0] {
		return fmt.Sprintf("ScanUTF8Sequences(%x, %v): advance %d, token %x (nil: %v), error %v; want a token of %d bytes", b, eof, adv, tok, tok == nil, err, want)
	}
	return ""
}

// utf8Ends returns the ends of the sequences of a whole input.
func utf8Ends(b []byte) []int {
	var ret []int
	for p := 0; p < len(b); {
		p += wantUTF8(b[p:], true)
		ret = append(ret, p)
	}
	return ret
}

// chunked delivers the parts of b that cuts says (bit i: a read ends after byte i).
type chunked struct {
	b    []byte
	cuts uint64
	pos  int
	err  error
}

func (r *chunked) Read(p []byte) (int, error) {
	if r.pos == len(r.b) {
		return 0, r.err
	}
	n := 0
	for r.pos < len(r.b) && n < len(p) {
		p[n] = r.b[r.pos]
		n++
		r.pos++
		if r.cuts>>min(r.pos-1, 63)&1 == 1 {
			break
		}
	}
	return n, nil
}

var errRead = errors.New("injected read error")

func checkUTF8Chunks(b []byte, cuts uint64, buf int, readErr error) string {
	sc := bufio.NewScanner(&chunked{b: b, cuts: cuts, err: readErr})
	sc.Split(auto.ScanUTF8Sequences)
	if buf > 0 {
		sc.Buffer(make([]byte, buf), 1<<16)
	}
	var got []int
	pos := 0
	for sc.Scan() {
		t := sc.Bytes()
		if pos+len(t) > len(b) || !bytes.Equal(t, b[pos:pos+len(t)]) {
			return fmt.Sprintf("input %x in parts %b: token %x at offset %d", b, cuts, t, pos)
		}
		pos += len(t)
		got = append(got, pos)
	}
	if readErr == io.EOF {
		readErr = nil
	}
	if want := utf8Ends(b); !slices.Equal(got, want) || sc.Err() != readErr {
		return fmt.Sprintf("input %x in parts %b: token ends %v, error %v; want %v, error %v", b, cuts, got, sc.Err(), want, readErr)
	}
	return ""
}

// delivered checks that tokens come as soon as they are decided: after each byte of b, the tokens so far are those that
// are decided by what has arrived.
func delivered(b []byte) string {
	start := 0
	for n := 1; n <= len(b); n++ {
		for start < n {
			if m := checkUTF8(b[start:n], false); m != "" {
				return m
			}
			adv, _, _ := auto.ScanUTF8Sequences(b[start:n], false)
			if adv == 0 {
				break
			}
			start += adv
		}
		if n-start > 3 {
			return fmt.Sprintf("input %x: %d bytes are withheld", b[:n], n-start)
		}
	}
	return ""
}

func replayUTF8(v *kit.Replay) int {
	b, err := hex.DecodeString(v.Data)
	if err != nil {
		return 2
	}
	ms := []string{checkUTF8(b, true), checkUTF8(b, false), delivered(b)}
	for cuts := uint64(0); cuts < 1<<max(0, min(len(b)-1, 12)); cuts++ {
		ms = append(ms, checkUTF8Chunks(b, cuts, 0, io.EOF), checkUTF8Chunks(b, cuts, 1, errRead))
	}
	for _, m := range ms {
		if m != "" {
			fmt.Println(m)
			return 1
		}
	}
	return 0
}

// ---- AllTokens and TokenCount.

var errSplit = errors.New("split error")

// splits are split functions; a new value is made for each use, as some have state. n is a parameter.
var splits = []struct {
	name string
	mk   func(n int) bufio.SplitFunc
}{
	{"ScanGraphemeClusters", func(int) bufio.SplitFunc { return auto.ScanGraphemeClusters }},
	{"ScanUTF8Sequences", func(int) bufio.SplitFunc { return auto.ScanUTF8Sequences }},
	{"bufio.ScanLines", func(int) bufio.SplitFunc { return bufio.ScanLines }},
	{"bufio.ScanWords", func(int) bufio.SplitFunc { return bufio.ScanWords }},
	{"bufio.ScanRunes", func(int) bufio.SplitFunc { return bufio.ScanRunes }},
	{"bufio.ScanBytes", func(int) bufio.SplitFunc { return bufio.ScanBytes }},
	{"blocks of n", func(n int) bufio.SplitFunc {
		return func(d []byte, eof bool) (int, []byte, error) {
			if len(d) >= n {
				return n, d[:n], nil
			}
			if eof && len(d) > 0 {
				return len(d), d, nil
			}
			return 0, nil, nil
		}
	}},
	{"every second block of n", func(n int) bufio.SplitFunc {
		i := 0
		return func(d []byte, eof bool) (int, []byte, error) {
			if len(d) < n && (!eof || len(d) == 0) {
				return 0, nil, nil
			}
			m := min(n, len(d))
			if i++; i%2 == 0 {
				return m, nil, nil
			}
			return m, d[:m], nil
		}
	}},
	{"blocks and empty tokens", func(n int) bufio.SplitFunc {
		i := 0
		return func(d []byte, eof bool) (int, []byte, error) {
			if len(d) < n && (!eof || len(d) == 0) {
				return 0, nil, nil
			}
			m := min(n, len(d))
			if i++; i%3 == 0 {
				return m, []byte{}, nil
			}
			return m, d[:m], nil
		}
	}},
	{"an empty token at the end", func(n int) bufio.SplitFunc {
		done := false
		return func(d []byte, eof bool) (int, []byte, error) {
			if len(d) == 0 && eof && !done {
				done = true
				return 0, []byte{}, bufio.ErrFinalToken
			}
			if len(d) < n && (!eof || len(d) == 0) {
				return 0, nil, nil
			}
			m := min(n, len(d))
			return m, d[:m], nil
		}
	}},
	{"tokens from a reused buffer", func(n int) bufio.SplitFunc {
		own := make([]byte, n)
		return func(d []byte, eof bool) (int, []byte, error) {
			if len(d) < n && (!eof || len(d) == 0) {
				return 0, nil, nil
			}
			m := min(n, len(d))
			for i := range m {
				own[i] = d[i] ^ 0x20
			}
			return m, own[:m], nil
		}
	}},
	{"error after n tokens", func(n int) bufio.SplitFunc {
		i := 0
		return func(d []byte, eof bool) (int, []byte, error) {
			if len(d) == 0 {
				return 0, nil, nil
			}
			if i++; i > n {
				return 0, nil, errSplit
			}
			return 1, d[:1], nil
		}
	}},
	{"error with a token after n tokens", func(n int) bufio.SplitFunc {
		i := 0
		return func(d []byte, eof bool) (int, []byte, error) {
			if len(d) == 0 {
				return 0, nil, nil
			}
			if i++; i > n {
				return 1, d[:1], errSplit
			}
			return 1, d[:1], nil
		}
	}},
	{"final token after n tokens", func(n int) bufio.SplitFunc {
		i := 0
		return func(d []byte, eof bool) (int, []byte, error) {
			if len(d) == 0 {
				return 0, nil, nil
			}
			if i++; i > n {
				return 1, d[:1], bufio.ErrFinalToken
			}
			return 1, d[:1], nil
		}
	}},
	{"end without a token after n tokens", func(n int) bufio.SplitFunc {
		i := 0
		return func(d []byte, eof bool) (int, []byte, error) {
			if len(d) == 0 {
				return 0, nil, nil
			}
			if i++; i > n {
				return 0, nil, bufio.ErrFinalToken
			}
			return 1, d[:1], nil
		}
	}},
	{"negative advance after n tokens", func(n int) bufio.SplitFunc {
		i := 0
		return func(d []byte, eof bool) (int, []byte, error) {
			if len(d) == 0 {
				return 0, nil, nil
			}
			if i++; i > n {
				return -1, d[:1], nil
			}
			return 1, d[:1], nil
		}
	}},
	{"advance too far after n tokens", func(n int) bufio.SplitFunc {
		i := 0
		return func(d []byte, eof bool) (int, []byte, error) {
			if len(d) == 0 {
				return 0, nil, nil
			}
			if i++; i > n {
				return len(d) + 1, d[:1], nil
			}
			return 1, d[:1], nil
		}
	}},
}

var fills = []struct {
	name string
	mk   func(n int) []byte
}{
	{"counter", func(n int) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(i) ^ byte(i>>8)*31
		}
		return b
	}},
	{"text", func(n int) []byte {
		return fill(n, "e\u0301x \U0001F468\u200D\U0001F469\r\n\u0915\u094D\u0915 \xff\u1100\u1161\uFFFD\n")
	}},
	{"lines", func(n int) []byte { return fill(n, "the quick brown fox\njumps over\r\n\nthe lazy dog ") }},
	{"marks", func(n int) []byte { return fill(n, "\u0301") }},
	{"blank ends", func(n int) []byte {
		b := fill(n, "lorem ipsum\n")
		for i := range min(n, 5) {
			b[i], b[n-1-i] = " \n\t\r "[i], "\n\n \t\r"[i]
		}
		if n%2 == 0 && n > 0 {
			b[n-1] = b[0]
		}
		return b
	}},
	{"marked ends", func(n int) []byte {
		b := fill(n, "dolor\x00sit")
		copy(b, "\ufeff")
		copy(b[max(0, n-3):], "\x00\x00\x00")
		return b
	}},
}

func fill(n int, s string) []byte {
	b := []byte(strings.Repeat(s, n/len(s)+1))[:n]
	// So that equal tokens at different places differ.
	for i := range b {
		if b[i] >= 'a' && b[i] <= 'z' {
			b[i] = 'a' + byte((int(b[i])+i/7)%26)
		}
	}
	return b
}

type tokenCase struct {
	Split string
	N     int
	Fill  string
	Size  int
	// Cap is the size of the memory that follows the buffer in the same array.
	Cap int
}

// wantTokens runs the split function under a scanner.
func (c *tokenCase) run() string {
	var mk func(int) bufio.SplitFunc
	for _, s := range splits {
		if s.name == c.Split {
			mk = s.mk
		}
	}
	var buf []byte
	for _, f := range fills {
		if f.name == c.Fill {
			buf = f.mk(c.Size)
		}
	}
	if mk == nil {
		panic("no such split function: " + c.Split)
	}
	array := fill(len(buf)+c.Cap, "quux\n")
	buf = array[:copy(array, buf):len(array)]
	before := bytes.Clone(array)
	var want [][]byte
	sc := bufio.NewScanner(bytes.NewReader(buf))
	sc.Split(mk(c.N))
	for sc.Scan() {
		want = append(want, append([]byte{}, sc.Bytes()...))
	}
	wantErr := sc.Err()
	got, err := auto.AllTokens(buf, mk(c.N))
	name := fmt.Sprintf("%s (n=%d) on %d bytes of %s", c.Split, c.N, c.Size, c.Fill)
	if err != wantErr {
		return fmt.Sprintf("AllTokens with %s: error %v, want %v", name, err, wantErr)
	}
	n, err := auto.TokenCount(buf, mk(c.N))
	if n != len(want) || err != wantErr {
		return fmt.Sprintf("TokenCount with %s: %d, error %v; want %d, error %v", name, n, err, len(want), wantErr)
	}
	if len(got) != len(want) {
		return fmt.Sprintf("AllTokens with %s: %d tokens, want %d (error %v)", name, len(got), len(want), wantErr)
	}
	// More calls, which must not touch what was returned.
	other := fill(c.Size, "ZYX \n")
	auto.AllTokens(other, mk(c.N))
	for i := range want {
		if !bytes.Equal(got[i], want[i]) {
			return fmt.Sprintf("AllTokens with %s: token %d is %.40q, want %.40q", name, i, got[i], want[i])
		}
	}
	if !bytes.Equal(array, before) {
		return fmt.Sprintf("AllTokens with %s: the argument has changed", name)
	}
	return ""
}

func replayTokens(v *kit.Replay) int {
	var c tokenCase
	s, _ := v.Params["case"].(string)
	if json.Unmarshal([]byte(s), &c) != nil {
		return 2
	}
	defer func() {
		if p := recover(); p != nil {
			fmt.Println("panic:", p)
			os.Exit(1)
		}
	}()
	if m := c.run(); m != "" {
		fmt.Println(m)
		return 1
	}
	return 0
}

func c11(k *kit.Run, thorough bool) {
	failU := func(b []byte, m string) { k.Fail(kit.Replay{Kind: "utf8", Data: hex.EncodeToString(b), Message: m}) }
	// ScanUTF8Sequences.
	k.ParallelN("nothing", "the empty input", 1, 1, func(w *kit.Worker, _ int) {
		for _, b := range [][]byte{nil, {}} {
			for _, eof := range []bool{false, true} {
				w.Calls++
				w.S["inputs"]++
				if m := checkUTF8(b, eof); m != "" {
					failU(b, m)
				}
			}
		}
	})
	k.Parallel("sequences: all bytes", "all byte strings of 1 to 3 bytes, with either atEOF", 256, func(w *kit.Worker, i int) {
		b := []byte{byte(i), 0, 0}
		try := func(b []byte) {
			w.Data = b
			w.Calls += 2
			w.S["inputs"]++
			if m := checkUTF8(b, false) + checkUTF8(b, true); m != "" {
				failU(b, m)
			}
		}
		try(b[:1])
		for x := 0; x < 256 && !k.Stopped(); x++ {
			b[1] = byte(x)
			try(b[:2])
			for y := 0; y < 256; y++ {
				b[2] = byte(y)
				try(b)
			}
		}
	})
	keys := explore.KeyBytes()
	keys = append(keys, 0xbd, 0xee) // U+FFFD is EF BF BD
	depth := 4
	if thorough {
		depth = 5
	}
	k.Parallel("sequences: key bytes", fmt.Sprintf("all strings of up to %d of %d bytes at the limits of the byte classes, with either atEOF", depth, len(keys)), len(keys)*len(keys), func(w *kit.Worker, i int) {
		b := make([]byte, 0, 8)
		b = append(b, keys[i/len(keys)], keys[i%len(keys)])
		var rec func(b []byte)
		rec = func(b []byte) {
			w.Data = b
			w.Calls += 2
			w.S["inputs"]++
			if m := checkUTF8(b, false) + checkUTF8(b, true); m != "" {
				failU(b, m)
				return
			}
			if len(b) == depth || k.Stopped() {
				return
			}
			for _, c := range keys {
				rec(append(b, c))
			}
		}
		rec(b)
	})
	k.Parallel("sequences: scalar values", "every scalar value, alone, in parts, and before and after others", 0x110, func(w *kit.Worker, i int) {
		for r := rune(i) << 12; r < rune(i+1)<<12; r++ {
			if r >= 0xd800 && r <= 0xdfff {
				continue
			}
			w.S["scalar_values"]++
			for _, s := range []string{string(r), string(r) + "a", "\u00e9" + string(r) + "\xff", string(r) + string(r)} {
				b := []byte(s)
				w.Data = b
				w.Calls += 6
				if m := checkUTF8(b, true) + checkUTF8(b, false) + delivered(b); m != "" {
					failU(b, m)
					return
				}
			}
		}
	})
	frags := [][]byte{[]byte("a"), []byte("\n"), []byte("\u00e9"), []byte("\u20ac"), []byte("\uFFFD"), []byte("\U0001F600"), []byte("\U0010FFFF"), {0xff}, {0x80}, {0xc0, 0x80}, {0xe2}, {0xe2, 0x82}, {0xf0, 0x9f}, {0xf0, 0x9f, 0x98}, {0xed, 0xa0, 0x80}, {0xf4, 0x90, 0x80, 0x80}, {0xef, 0xbf}, {0xe2, 0x41}}
	fd, maxLen := 3, 9
	if thorough {
		fd, maxLen = 4, 12
	}
	k.Parallel("sequences: deliveries", fmt.Sprintf("all sequences of up to %d of %d characters and malformed pieces (at most %d bytes), in every partition into reads, with a plain end and with a read error, and small buffers", fd, len(frags), maxLen), len(frags)*len(frags), func(w *kit.Worker, i int) {
		var rec func(d int, b []byte)
		rec = func(d int, b []byte) {
			if len(b) > maxLen || k.Stopped() {
				return
			}
			w.Data = b
			w.S["inputs"]++
			if m := delivered(b); m != "" {
				failU(b, m)
				return
			}
			for cuts := uint64(0); cuts < 1<<(len(b)-1); cuts++ {
				w.Calls += uint64(len(b))
				w.S["scanner_runs"] += 2
				if m := checkUTF8Chunks(b, cuts, 0, io.EOF); m != "" {
					failU(b, m)
					return
				}
				if m := checkUTF8Chunks(b, cuts, 1, errRead); m != "" {
					failU(b, m)
					return
				}
			}
			if d < fd {
				for _, f := range frags {
					rec(d+1, append(b[:len(b):len(b)], f...))
				}
			}
		}
		if i%len(frags) == 0 {
			b := frags[i/len(frags)]
			if m := delivered(b); m != "" {
				failU(b, m)
			}
		}
		rec(2, append(append([]byte{}, frags[i/len(frags)]...), frags[i%len(frags)]...))
	})
	k.Parallel("sequences: around the buffer limit", "each piece at every offset from 4080 to 4112 and around 65536, in a scanner", len(frags), func(w *kit.Worker, i int) {
		for _, base := range []int{4096, 8192, 65536} {
			for o := base - 16; o <= base+16; o++ {
				for _, f := range []string{"x", "\u00e9"} {
					b := append([]byte(strings.Repeat(f, o))[:o], frags[i]...)
					b = append(b, "z\uFFFDz"...)
					w.Calls += uint64(len(b))
					w.S["inputs"]++
					w.Data = b
					if m := checkUTF8Chunks(b, 0, 0, io.EOF); m != "" {
						failU(b, m)
						return
					}
				}
			}
		}
	})

	// AllTokens and TokenCount.
	var cases []tokenCase
	var sizes []int
	for i := 0; i <= 40; i++ {
		sizes = append(sizes, i)
	}
	for _, b := range []int{64, 100, 1000, 1 << 11, 1 << 12, 3 << 11, 1 << 13, 3 << 12, 1 << 14, 1 << 15, 1 << 16, 3 << 15, 1 << 17, 1 << 18} {
		for d := -3; d <= 3; d++ {
			sizes = append(sizes, b+d)
		}
	}
	sizes = append(sizes, 1<<20)
	if thorough {
		sizes = append(sizes, 1<<20+1, 3<<20)
		for i := 4000; i < 4200; i++ {
			sizes = append(sizes, i)
		}
		for i := 8000; i < 9000; i += 7 {
			sizes = append(sizes, i)
		}
	}
	for si, s := range splits {
		ns := []int{1, 2, 3, 7, 16, 100, 1000, 4095, 4096, 4097, 5000, 65535, 65536, 65537}
		if si < 6 {
			ns = []int{0}
			if thorough {
				ns = []int{0, 1, 2} // no parameter: with more capacities
			}
		} else if strings.HasSuffix(s.name, "after n tokens") {
			ns = []int{0, 1, 2, 5, 4095, 4096, 4097, 5000}
		}
		for _, n := range ns {
			for fi, f := range fills {
				for _, z := range sizes {
					if z > 100000 && (n > 0 && n < 7) {
						continue // slow, and not different
					}
					if !thorough && z > 300 && fi != 1 && (si+fi+n+z)%3 != 0 {
						continue
					}
					cases = append(cases, tokenCase{s.name, n, f.name, z, []int{0, 1, 8, 4096, 3*z + 200}[(si+n+z+fi)%5]})
				}
			}
		}
	}
	for _, f := range fills {
		for _, n := range []int{4096, 65536} {
			cases = append(cases, tokenCase{"blocks of n", n, f.name, 1<<21 + 1, 7})
		}
		cases = append(cases, tokenCase{"ScanGraphemeClusters", 0, f.name, 1<<21 + 1, 0}, tokenCase{"bufio.ScanLines", 0, f.name, 1 << 22, 7})
	}
	k.Parallel("tokens", fmt.Sprintf("%d split functions and their parameters x %d contents x %d sizes around the scanner's buffer sizes", len(splits), len(fills), len(sizes)), len(cases), func(w *kit.Worker, i int) {
		c := &cases[len(cases)-1-i]
		w.Note = fmt.Sprint(*c)
		w.Calls += 3
		w.S["cases"]++
		if m := c.run(); m != "" {
			js, _ := json.Marshal(c)
			k.Fail(kit.Replay{Kind: "tokens", Message: m, Params: map[string]any{"case": string(js)}})
		}
		if i%1499 == 0 {
			k.Sample(map[string]any{"split": c.Split, "n": c.N, "content": c.Fill, "size": c.Size})
		}
	})
	scripts(k, thorough)
	overlaps(k, thorough)
}

// step is what a scripted split function does in one call.
type step struct {
	Adv, Tok, Err int
}

func (s step) do(d []byte) (int, []byte, error) {
	adv := []int{0, 1, 2, len(d), len(d) + 1, -1}[s.Adv]
	var tok []byte
	switch s.Tok {
	case 1:
		tok = []byte{}
	case 2:
		tok = d[:min(1, len(d))]
	case 3:
		tok = d
	case 4:
		tok = []byte("token")
	}
	return adv, tok, []error{nil, errSplit, bufio.ErrFinalToken, io.EOF, io.ErrNoProgress}[s.Err]
}

type scriptCase struct {
	Steps []step
	Buf   string
}

func (c *scriptCase) split() bufio.SplitFunc {
	i := 0
	return func(d []byte, eof bool) (int, []byte, error) {
		if i == len(c.Steps) {
			return 0, nil, bufio.ErrFinalToken
		}
		i++
		return c.Steps[i-1].do(d)
	}
}

func (c *scriptCase) run() string {
	var want []string
	sc := bufio.NewScanner(strings.NewReader(c.Buf))
	sc.Split(c.split())
	for sc.Scan() {
		want = append(want, sc.Text())
	}
	buf := []byte(c.Buf)
	all, err := auto.AllTokens(buf, c.split())
	var got []string
	for _, t := range all {
		got = append(got, string(t))
	}
	n, err2 := auto.TokenCount(buf, c.split())
	if !slices.Equal(got, want) || err != sc.Err() || n != len(want) || err2 != sc.Err() {
		return fmt.Sprintf("split function that does %+v on %q: AllTokens %q, error %v; TokenCount %d, error %v; want %q, error %v", c.Steps, c.Buf, got, err, n, err2, want, sc.Err())
	}
	return ""
}

// scripts runs every split function that does one of a set of things in each of its first calls.
func scripts(k *kit.Run, thorough bool) {
	var steps []step
	for a := range 6 {
		for t := range 5 {
			for e := range 5 {
				steps = append(steps, step{a, t, e})
			}
		}
	}
	depth := 2
	if thorough {
		depth = 3
	}
	bufs := []string{"", "a", "ab", "\xff\u0301\n"}
	few := []step{{0, 0, 0}, {1, 2, 0}, {1, 0, 0}, {0, 2, 0}, {3, 3, 0}, {1, 4, 0}, {2, 1, 0}}
	k.Parallel("scripted split functions", fmt.Sprintf("every sequence of up to %d of %d things that a split function can do, after up to 2 of %d ordinary ones, on %d buffers", depth, len(steps), len(few), len(bufs)), len(steps)*len(bufs), func(w *kit.Worker, i int) {
		c := &scriptCase{Buf: bufs[i%len(bufs)]}
		var rec func(d int) bool
		rec = func(d int) bool {
			w.Calls += 2
			w.S["cases"]++
			if m := c.run(); m != "" {
				js, _ := json.Marshal(c)
				k.Fail(kit.Replay{Kind: "script", Message: m, Params: map[string]any{"case": string(js)}})
				return false
			}
			if d == depth || k.Stopped() {
				return true
			}
			for _, s := range steps {
				c.Steps = append(c.Steps, s)
				ok := rec(d + 1)
				c.Steps = c.Steps[:len(c.Steps)-1]
				if !ok {
					return false
				}
			}
			return true
		}
		pre := [][]step{nil}
		for _, a := range few {
			pre = append(pre, []step{a})
			for _, b := range few {
				pre = append(pre, []step{a, b})
			}
		}
		for _, p := range pre {
			c.Steps = append(append([]step{}, p...), steps[i/len(bufs)])
			w.Note = fmt.Sprintf("(after steps %v on %q)", c.Steps, c.Buf)
			if !rec(1) {
				return
			}
		}
	})
}

func replayScript(v *kit.Replay) int {
	var c scriptCase
	s, _ := v.Params["case"].(string)
	if json.Unmarshal([]byte(s), &c) != nil {
		return 2
	}
	defer func() {
		if p := recover(); p != nil {
			fmt.Println("panic:", p)
			os.Exit(1)
		}
	}()
	if m := c.run(); m != "" {
		fmt.Println(m)
		return 1
	}
	return 0
}
