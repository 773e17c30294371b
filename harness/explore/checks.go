package explore

import (
	"encoding/hex"
	"fmt"
	"runtime"
	"strings"

	"verif.local/harness/kit"
	"verif.local/harness/spec"
	"verif.local/harness/ucd"
)

// selfTest makes sure of the model before it is used.
func (x *X) selfTest(length int) {
	n, err := spec.SelfTest(x.M, length)
	if err != nil {
		panic("the model is inconsistent: " + err.Error())
	}
	x.Count("model_self_test_texts", n)
}

func (x *X) sampleSegment(text string) {
	if x.Stopped() {
		return
	}
	var toks []string
	pos := 0
	for pos < len(text) {
		adv, _, err := x.Scan([]byte(text[pos:]), true)
		if adv <= 0 || err != nil {
			break
		}
		toks = append(toks, fmt.Sprintf("%+q", text[pos:pos+adv]))
		pos += adv
	}
	x.Sample(map[string]any{"input": fmt.Sprintf("%+q", text), "tokens": toks})
}

func (x *X) samples() {
	for _, s := range []string{"e\u0301\r\n\u1100\u1161\u11a8", "\U0001F1E6\U0001F1E7\U0001F1E8", "\U0001F468\u0301\u200d\U0001F469x", "\u0915\u0301\u094d\u200d\u0915", "\u0600\U0001F1E6\U0001F1E7\u0903"} {
		x.sampleSegment(s)
	}
}

func (x *X) badSamples() {
	for _, s := range []string{"a\xcc", "\xe2\x41\u0301", "\U0001F1E6\xff\U0001F1E7\U0001F1E8", "\xf7\xbf\xbf\xbf\u0301", "\xc0\x8d\n"} {
		x.sampleSegment(s)
	}
}

func bytesOf(fs []Frag) [][]byte {
	var ret [][]byte
	for _, f := range fs {
		ret = append(ret, f.Bytes)
	}
	return ret
}

func products(fs []Frag) [][]byte {
	ret := bytesOf(fs)
	for _, a := range fs {
		for _, b := range fs {
			ret = append(ret, append(append([]byte{}, a.Bytes...), b.Bytes...))
		}
	}
	return ret
}

func upTo(n int) []int {
	var ret []int
	for i := 0; i <= n; i++ {
		ret = append(ret, i)
	}
	return ret
}

func around(vs ...int) []int {
	var ret []int
	for _, v := range vs {
		ret = append(ret, v-2, v-1, v, v+1)
	}
	return ret
}

func hexes(ss ...string) [][]byte {
	var ret [][]byte
	for _, s := range ss {
		b, err := hex.DecodeString(s)
		if err != nil {
			panic(err)
		}
		ret = append(ret, b)
	}
	return ret
}

// SpecialRunes are scalar values which are neither Other nor precomposed Hangul.
func SpecialRunes() []rune {
	var ret []rune
	for r := rune(0); r < 0x110000; r++ {
		if c := ucd.Of(r); c != ucd.Other && c != ucd.LV && c != ucd.LVT {
			if c == ucd.Control && r >= 0xe0000 && r&0x3f != 0 { // thousands of reserved ignorable code points
				continue
			}
			ret = append(ret, r)
		}
	}
	return ret
}

// Sizes runs buffers whose sizes are next to powers of two and to the limits of bufio.Scanner: repetitions of each fragment,
// so that there are huge clusters as well as small clusters in huge buffers. Each is segmented at EOF, and called without
// EOF from each of the first and last few positions.
func (x *X) Sizes(name string) {
	sizes := pickn(x.Thorough, []int{256, 1024, 4096, 32768, 65536}, []int{128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072, 262144})
	loops := bytesOf(append(Chars(false), Malformed()...))
	suffixes := [][]byte{nil, []byte("a"), []byte("\u0301"), []byte("\U0001F1E6"), {0xff}, {0xe2}}
	x.Parallel(name, fmt.Sprintf("%d loops x (none or 'a' before) x %d suffixes x sizes up to %d, each -1, 0 and +1 repetitions", len(loops), len(suffixes), sizes[len(sizes)-1]), len(loops)*2, func(w *kit.Worker, job int) {
		lp := loops[job/2]
		var b []byte
		for _, size := range sizes {
			for n := size/len(lp) - 1; n <= size/len(lp)+1; n++ {
				b = b[:0]
				if job%2 == 1 {
					b = append(b, 'a')
				}
				for i := 0; i < n; i++ {
					b = append(b, lp...)
				}
				base := len(b)
				for _, s := range suffixes {
					if x.Stopped() {
						return
					}
					b = append(b[:base], s...)
					w.S["texts"]++
					w.Note = fmt.Sprintf("(%x, %d times, then %x)", lp, n, s)
					pos := 0
					for k := 0; pos < len(b); k++ {
						if k < 3 || len(b)-pos < 12 {
							if x.first(w, b[pos:], false) < 0 {
								return
							}
						}
						adv := x.first(w, b[pos:], true)
						if adv <= 0 {
							return
						}
						pos += adv
					}
					w.Note = ""
				}
			}
		}
	})
}

// C01: UAX #29 on valid text.
func (x *X) C01() {
	one, byLen := ucd.Letters(false), ucd.Letters(true)
	x.selfTest(pick(x.Thorough, 5, 6))
	x.Conformance("W-method conformance", one, pick(x.Thorough, 4, 5))
	x.Words("texts over class samples", one, pick(x.Thorough, 6, 7))
	x.Words("texts over samples of each class and length", byLen, pick(x.Thorough, 5, 6))
	x.Open("cluster prefixes", one, pick(x.Thorough, 9, 11))
	x.Sweep("every scalar value in every context")
	x.Near("pairs that differ in one bit")
	x.Pairs("pairs of range ends", "every ordered pair of scalar values at or next to an end of a range of equal class", edges(), true)
	x.Pairs("pairs of special characters", "every ordered pair of scalar values that are not Other or precomposed Hangul", SpecialRunes(), x.Thorough)
	x.Joins("combinations of all members")
	x.Beside("every scalar value beside special characters", map[bool]string{false: "well-known characters, combining marks, variation selectors, flag halves", true: "everything but Other, precomposed Hangul and reserved code points of plane 14"}[x.Thorough], neighbours(x.Thorough))
	x.Words("texts over well-known characters", WellKnown(), 4)
	if x.Thorough {
		x.Words("longer texts over well-known characters", some(WellKnown(), 2), 5)
	}
	cs := Chars(false)
	x.Lasso("repetition", append([][]byte{nil}, bytesOf(cs)...), products(cs), append([][]byte{nil}, bytesOf(cs)...), pickn(x.Thorough, upTo(24), upTo(100)), false)
	x.Deep("every state at every offset", [][]byte{nil, []byte("\u0d4e")}, hexes("d880"), x.fromStates(2), pick(x.Thorough, 140, 540))
	x.Deep("every state after every number of characters", [][]byte{nil}, hexes("e0b58e", "f09182bd"), x.fromStates(2), pick(x.Thorough, 70, 280))
	x.Deep("loops and pairs", append([][]byte{nil}, bytesOf(cs)...), bytesOf(cs), products(cs), pick(x.Thorough, 70, 280))
	x.Sizes("buffer sizes")
	x.Huge("huge buffers", append(bytesOf(cs), hexes("f09f9880e2808d", "e0a495e0a58d", "e0a58de0a495")...), 18, pick(x.Thorough, 25, 32))
	x.samples()
}

// fromStates returns a text for each state, alone and followed by each text of 1..n further characters.
func (x *X) fromStates(n int) [][]byte {
	cs := Chars(false)
	var ret [][]byte
	for _, w := range x.M.Access {
		if w == nil {
			continue
		}
		var b []byte
		for _, c := range w {
			b = append(b, cs[c].Bytes...)
		}
		from := len(ret)
		ret = append(ret, b)
		for k := 0; k < n; k++ {
			to := len(ret)
			for ; from < to; from++ {
				for _, c := range cs {
					ret = append(ret, append(ret[from][:len(ret[from]):len(ret[from])], c.Bytes...))
				}
			}
		}
	}
	return ret
}

func edges() []rune {
	var ret []rune
	for _, r := range ucd.Edges() {
		if c := ucd.Of(r); c == ucd.LV || c == ucd.LVT {
			if r > 0xac40 && r < 0xd760 {
				continue // every third precomposed syllable is an end of a range
			}
		}
		ret = append(ret, r)
	}
	return ret
}

// C02: the public part (the lookup itself is checked by the internal harness).
func (x *X) C02() {
	x.selfTest(4)
	x.Owns = x.ownsC02()
	x.Sweep("every scalar value in every context")
	x.Near("pairs that differ in one bit")
	x.Count("states", uint64(len(x.M.States)))
	x.Count("transitions", uint64(len(x.M.States)*ucd.NumClasses))
}

// C03: chunking.
func (x *X) C03() {
	x.selfTest(4)
	x.Owns = x.ownsC03
	x.Stable = true
	all := append(Chars(false), Malformed()...)
	x.Tree("fragment tree", all, pick(x.Thorough, 4, 5))
	x.Tree("fragment tree, by class and length", append(Chars(true), Malformed()...), pick(x.Thorough, 3, 4))
	x.Tree("well-known characters and malformed bytes", append(famous(), Malformed()...), 3)
	small := pickFrags(all, "Other", "CR", "LF", "Extend(", "ZWJ", "RI", "Prepend", "ExtPict", "Consonant", "Linker", "L(", "V(", "bytes(80)", "bytes(e2)", "bytes(f09f)", "bytes(cc)", "bytes(ff)", "bytes(e241)", "bytes(f09f41)", "bytes(c08d)", "bytes(eda080)")
	x.Tree("deep fragment tree", small, pick(x.Thorough, 5, 6))
	x.Chunks("scanner, all partitions", small, pick(x.Thorough, 3, 4), pick(x.Thorough, 9, 11))
	x.Chunks("scanner, all partitions of pairs", all, pick(x.Thorough, 2, 3), pick(x.Thorough, 10, 10))
	x.Straddle("around the scanner's buffer limit", all, pickn(x.Thorough, []int{4087, 4088, 4089, 4090, 4091, 4092, 4093, 4094, 4095, 4096}, around2(4080, 4100)))
	x.ByteTree("raw bytes", "every byte string of length up to 3, at every prefix", [][]byte{AllBytes(0, 255), AllBytes(0, 255), AllBytes(0, 255)})
	if x.Thorough {
		x.ByteTree("four raw bytes", "every byte string of length up to 4, at every prefix, with and without EOF", [][]byte{AllBytes(0, 255), AllBytes(0, 255), AllBytes(0, 255), AllBytes(0, 255)})
	}
	kb := KeyBytes()
	x.ByteTree("key bytes", fmt.Sprintf("every string over %d key byte values, at every prefix", len(kb)), alpha(kb, pick(x.Thorough, 5, 6)))
	x.Sizes("buffer sizes")
	x.samples()
	x.badSamples()
}

// C04: arbitrary bytes.
func (x *X) C04() {
	x.Shape = true
	x.selfTest(4)
	x.Empty("no input")
	all := append(Chars(true), Malformed()...)
	x.Memory("argument memory", all, 2)
	x.Memory("argument memory, longer", append(Chars(false), Malformed()...), pick(x.Thorough, 3, 4))
	x.ByteTree("raw bytes", "every byte string of length up to 3, at every prefix, with and without EOF", [][]byte{AllBytes(0, 255), AllBytes(0, 255), AllBytes(0, 255)})
	if x.Thorough {
		x.ByteTree("raw bytes, 4", "every byte string of length 4", [][]byte{AllBytes(0, 255), AllBytes(0, 255), AllBytes(0, 255), AllBytes(0, 255)})
	} else {
		x.ByteTree("raw bytes, 3- and 4-byte leads", "every byte string of length 4 that starts with E0..FF", [][]byte{AllBytes(0xe0, 0xff), AllBytes(0, 255), AllBytes(0, 255), AllBytes(0, 255)})
	}
	kb := KeyBytes()
	x.ByteTree("key bytes", fmt.Sprintf("every string over %d key byte values, at every prefix", len(kb)), alpha(kb, pick(x.Thorough, 5, 6)))
	x.Tree("fragment tree", append(Chars(false), Malformed()...), pick(x.Thorough, 4, 5))
	x.Lasso("long inputs", [][]byte{nil, []byte("a"), {0xff}, []byte("\u0600")}, bytesOf(append(Chars(false), Malformed()...)), [][]byte{nil, []byte("a"), []byte("\u0301"), {0xe2}, {0xf0, 0x9f}, {0xff}}, append(upTo(40), around(64, 128, 256, 512, 1024, 4096, 8192)...), false)
	x.Sizes("buffer sizes")
	x.Huge("huge buffers", bytesOf(append(Chars(false), Malformed()...)), 18, pick(x.Thorough, 24, 27))
	x.badSamples()
	x.samples()
}

// C05: invalid bytes.
func (x *X) C05() {
	x.selfTest(4)
	x.Owns = x.ownsC05
	all := append(Chars(false), Malformed()...)
	x.Tree("fragment tree", all, pick(x.Thorough, 4, 5))
	x.Tree("well-known characters and malformed bytes", append(famous(), Malformed()...), 3)
	x.Around("every state, malformed bytes, every continuation", pick(x.Thorough, 2, 3))
	x.ByteTree("raw bytes", "every byte string of length up to 3, at every prefix, with and without EOF", [][]byte{AllBytes(0, 255), AllBytes(0, 255), AllBytes(0, 255)})
	if x.Thorough {
		x.ByteTree("four raw bytes", "every byte string of length up to 4, at every prefix, with and without EOF", [][]byte{AllBytes(0, 255), AllBytes(0, 255), AllBytes(0, 255), AllBytes(0, 255)})
	}
	kb := KeyBytes()
	x.ByteTree("key bytes", fmt.Sprintf("every string over %d key byte values, at every prefix", len(kb)), alpha(kb, pick(x.Thorough, 5, 6)))
	for _, l := range []struct {
		name string
		hi   []byte
	}{{"after a character", []byte("a")}, {"after a flag half", []byte("\U0001F1E6")}, {"after a ZWJ sequence", []byte("\U0001F600\u200d")}, {"after a conjunct prefix", []byte("\u0915\u094d")}, {"after a prepended mark", []byte("\u0600")}, {"after CR", []byte("\r")}} {
		var a [][]byte
		for _, c := range l.hi {
			a = append(a, []byte{c})
		}
		x.ByteTree("raw bytes "+l.name, fmt.Sprintf("%+q followed by every string of three bytes", l.hi), append(a[:len(a):len(a)], AllBytes(0, 255), AllBytes(0, 255), AllBytes(0, 255)))
		if x.Thorough {
			x.ByteTree("four-byte sequences "+l.name, fmt.Sprintf("%+q followed by every string of four bytes the first of which is F0 or more", l.hi), append(a[:len(a):len(a)], AllBytes(0xf0, 255), AllBytes(0, 255), AllBytes(0, 255), AllBytes(0, 255)))
		}
		x.ByteTree("key bytes "+l.name, fmt.Sprintf("%+q followed by every string of %d key bytes", l.hi, pick(x.Thorough, 4, 5)), append(a, alpha(kb, pick(x.Thorough, 4, 5))...))
	}
	x.Lasso("runs of malformed bytes", append([][]byte{nil}, bytesOf(Chars(false))...), bytesOf(Malformed()), append([][]byte{nil}, bytesOf(Chars(false))...), append(upTo(12), 63, 64, 255, 256), false)
	x.Sizes("buffer sizes")
	x.badSamples()
}

// Around runs access word of every state, 1..n malformed fragments, then every class word of length 2.
func (x *X) Around(name string, n int) {
	m := x.M
	letters := Chars(false)
	mal := Malformed()
	var before [][]byte
	for _, w := range m.Word {
		var b []byte
		for _, c := range w {
			b = append(b, letters[c].Bytes...)
		}
		before = append(before, b)
	}
	after := append(products(letters), nil)
	x.Parallel(name, fmt.Sprintf("%d state-reaching texts x 1..%d of %d malformed fragments x %d continuations", len(before), n, len(mal), len(after)), len(before)*len(mal), func(w *kit.Worker, job int) {
		var rec func(b []byte, left int)
		rec = func(b []byte, left int) {
			if x.Stopped() {
				return
			}
			for _, a := range after {
				w.S["inputs"]++
				if !x.segment(w, append(b[:len(b):len(b)], a...), nil) {
					return
				}
			}
			if left > 0 {
				for _, f := range mal {
					rec(append(b[:len(b):len(b)], f.Bytes...), left-1)
				}
			}
		}
		rec(append(append([]byte{}, before[job/len(mal)]...), mal[job%len(mal)].Bytes...), n-1)
	})
}

// C06: promptness.
func (x *X) C06() {
	x.selfTest(4)
	x.Owns = x.ownsC06
	all := append(Chars(true), Malformed()...)
	x.Tree("fragment tree, by class and length", all, pick(x.Thorough, 3, 4))
	x.Tree("fragment tree", append(Chars(false), Malformed()...), pick(x.Thorough, 4, 5))
	x.Tree("well-known characters and malformed bytes", append(famous(), Malformed()...), 3)
	x.OpenMore("cluster prefixes without EOF", ucd.Letters(false), pick(x.Thorough, 8, 10))
	x.SweepMore("every scalar value as look-ahead and as cluster")
	x.ByteTree("raw bytes", "every byte string of length up to 3, at every prefix, with and without EOF", [][]byte{AllBytes(0, 255), AllBytes(0, 255), AllBytes(0, 255)})
	x.ByteTree("raw bytes after a character", "'a' followed by every string of three bytes", [][]byte{{'a'}, AllBytes(0, 255), AllBytes(0, 255), AllBytes(0, 255)})
	kb := KeyBytes()
	x.ByteTree("key bytes", fmt.Sprintf("every string over %d key byte values, at every prefix", len(kb)), alpha(kb, pick(x.Thorough, 5, 6)))
	x.Lasso("long buffers", [][]byte{nil}, products(Chars(false)), append([][]byte{nil, {0xff}, {0xe2, 0x41}}, bytesOf(Chars(false))...), append(upTo(8), 31, 32, 33, 64, 100, 256, 1000), false)
	x.Sizes("buffer sizes")
	for _, s := range []string{"a", "ab", "a\xe2A", "\xe2A", "\r", "\n", "\U0001F1E6\U0001F1E7\xf0\x9f\x87"} {
		if x.Stopped() {
			break
		}
		adv, _, _ := x.Scan([]byte(s), false)
		x.Sample(map[string]any{"buffer": fmt.Sprintf("%+q", s), "at_eof": false, "advance": adv, "allowed": x.M.First([]byte(s), false).String()})
	}
}

// OpenMore is Open without EOF: as soon as the next character is complete, and it does not join, the cluster must be
// delivered; and not before anything that may join.
func (x *X) OpenMore(name string, letters []ucd.Letter, depth int) {
	n := len(letters)
	m := x.M
	x.Parallel(name, fmt.Sprintf("every cluster prefix of up to %d characters over %d samples followed by every sample, byte by byte", depth-1, n), n*n, func(w *kit.Worker, job int) {
		var buf [80]byte
		var rec func(d, pos, state, from, to int)
		rec = func(d, pos, state, from, to int) {
			if x.Stopped() {
				return
			}
			for i := from; i < to; i++ {
				l := &letters[i]
				p := pos
				for _, c := range l.Bytes {
					buf[p] = c
					p++
					if x.first(w, buf[:p], false) < 0 {
						return
					}
				}
				w.S["inputs"]++
				if m.Break[state]>>l.Class&1 == 0 && d+1 < depth {
					rec(d+1, p, int(m.Next[state][l.Class]), 0, n)
				}
			}
		}
		l := &letters[job/n]
		p := copy(buf[:], l.Bytes)
		rec(1, p, int(l.Class), job%n, job%n+1)
	})
}

// SweepMore calls without EOF for every scalar value after each class sample and before each.
func (x *X) SweepMore(name string) {
	letters := ucd.Letters(false)
	const step = 0x400
	x.Parallel(name, "all 1112064 scalar values, alone, and before and after each class sample, without EOF", 0x110000/step, func(w *kit.Worker, job int) {
		var buf [16]byte
		for r := rune(job * step); r < rune((job+1)*step); r++ {
			if !ucd.Valid(r) {
				continue
			}
			if x.Stopped() {
				return
			}
			p := copy(buf[:], string(r))
			x.first(w, buf[:p], false)
			for i := range letters {
				p := copy(buf[:], string(r))
				x.first(w, buf[:p+copy(buf[p:], letters[i].Bytes)], false)
				p = copy(buf[:], letters[i].Bytes)
				x.first(w, buf[:p+copy(buf[p:], string(r))], false)
			}
			w.S["scalar_values"]++
		}
	})
}

// C07: the sequential part.
func (x *X) C07() {
	x.selfTest(4)
	x.Owns = x.ownsC07
	in := x.HistoryInputs(64)
	x.History("call pairs", in, 2)
	x.History("call triples", in, 3)
	if x.Thorough {
		x.History("call quadruples", x.HistoryInputs(20), 4)
	}
	x.Far("calls that differ in one bit")
	x.Again("very many calls", in, pickn(x.Thorough, []int{70000}, []int{1 << 20})[0])
	x.Interleave("two scanners", [][]byte{[]byte("\U0001F1E6\U0001F1E7\U0001F1E8"), []byte("a\u0301\r\n"), []byte("\u0915\u094d\u0915"), []byte("\U0001F600\u200d\U0001F600x"), []byte("\xffa\xe2"), []byte("\u1100\u1161\u11a8\u0600")})
	x.Sizes("buffer sizes")
	x.Sample(map[string]any{"history": "1f1e6 (no EOF), then 1f1e6 1f1e6 at EOF", "expected": "0, then 8"})
}

// C16: long texts.
func (x *X) C16() {
	x.selfTest(4)
	x.Owns = x.ownsC16
	cs := Chars(false)
	none := [][]byte{nil}
	x.Lasso("all short counts", append(none, bytesOf(cs)...), products(cs), append(none, bytesOf(cs)...), pickn(x.Thorough, upTo(20), upTo(64)), false)
	x.Lasso("counts to 70", none, products(cs), append(none, bytesOf(cs)...), upTo(70), false)
	x.Lasso("single loops, counts to 300", append(none, bytesOf(cs)...), bytesOf(cs), append(none, bytesOf(cs)...), pickn(x.Thorough, upTo(300), upTo(1100)), false)
	x.Lasso("round counts", none, products(cs), append(none, bytesOf(cs)...), around(100, 128, 200, 256, 512, 1000, 1024), false)
	x.Lasso("large counts", none, products(cs), [][]byte{nil, []byte("a"), []byte("\u0301"), []byte("\U0001F1E6"), []byte("\U0001F600"), []byte("\u0915"), {0xff}}, pickn(x.Thorough, around(2048, 4096, 10000), around(2048, 4096, 8192, 10000, 16384, 32768, 65536)), false)
	x.Lasso("very large counts", none, bytesOf(cs), [][]byte{nil, []byte("a"), []byte("\u0301"), []byte("\U0001F1E6"), {0xff}}, pickn(x.Thorough, around(16384, 32768, 65536, 100000), around(131072, 262144, 1<<20)), false)
	conj := [][]byte{[]byte("\u0301\u094d"), []byte("\u094d\u0301\u0301"), []byte("\u200d\u094d"), []byte("\u0915\u094d\u0301"), []byte("\U0001F600\u0301\u0301\u200d"), []byte("\U0001F600\u200d"), []byte("\u200c\u0301\u094d"), []byte("\U0001F1E6\U0001F1E7\u0301"), []byte("\u1100\u1161\u11a8"), []byte("\u0600\U0001F1E6\U0001F1E7")}
	x.Lasso("longer loops", append(none, bytesOf(cs)...), conj, append(none, bytesOf(cs)...), append(upTo(70), around(128, 256, 1024)...), false)
	x.Deep("every state at every offset", [][]byte{nil, []byte("\u0d4e")}, hexes("d880"), x.fromStates(2), pick(x.Thorough, 270, 1050))
	x.Deep("every state after every number of characters", none, hexes("e0b58e", "f09182bd"), x.fromStates(2), pick(x.Thorough, 140, 350))
	x.Deep("loops and pairs", append(none, bytesOf(cs)...), bytesOf(cs), products(cs), pick(x.Thorough, 140, 540))
	x.Deep("loops of two and pairs", none, products(cs), products(cs), pick(x.Thorough, 40, 140))
	x.LongScanner("long clusters through bufio.Scanner")
	x.Huge("huge counts", append(bytesOf(cs), conj...), 18, pick(x.Thorough, 24, 28))
	x.samples()
}

// LongScanner reads texts with clusters up to nearly the scanner's default limit of 64 KiB.
func (x *X) LongScanner(name string) {
	ns := []int{100, 511, 512, 1000, 1023, 1024, 1364, 1365, 1366, 2047, 2048, 2049, 4095, 4096, 8000, 15000}
	loops := bytesOf(Chars(false))
	x.Parallel(name, fmt.Sprintf("%d loops x %d counts x read sizes", len(loops), len(ns)), len(loops)*len(ns), func(w *kit.Worker, job int) {
		lp, n := loops[job/len(ns)], ns[job%len(ns)]
		var b []byte
		b = append(b, "a\u0915"...)
		for i := 0; i < n; i++ {
			b = append(b, lp...)
		}
		const tail = "\u094d\u0915\U0001F1E6\U0001F1E7\U0001F1E8"
		b = append(b, tail...)
		w.Pre, w.Loop, w.N, w.Suf = []byte("a\u0915"), lp, n, []byte(tail)
		want := x.direct(w, b)
		if want == nil {
			return
		}
		x.runScanner(w, &script{data: b, failAt: len(b), err: errEOF, empty: -1}, 0, want)
		if len(b) < 9000 || len(want) > n/2 {
			x.runScanner(w, &script{data: b, cuts: ^uint64(0), failAt: len(b), err: errEOF, empty: -1}, 0, want)
		}
	})
}

// C19: a selection of everything, to be run in each build of the library.
func (x *X) C19() {
	emulated := strings.HasPrefix(runtime.GOARCH, "mips")
	deep := x.Thorough && runtime.GOARCH != "wasm" && !emulated
	quick := emulated && !x.Thorough
	x.selfTest(3)
	x.Count("built_for", runtime.GOOS+"/"+runtime.GOARCH+" with "+runtime.Version())
	one := ucd.Letters(false)
	all := append(Chars(false), Malformed()...)
	x.Empty("no input")
	x.Conformance("W-method conformance", one, pick(deep, 2, 3))
	x.Words("texts over class samples", one, pick(deep, 4, 5))
	x.Words("texts over samples of each class and length", ucd.Letters(true), pick(deep, 3, 4))
	x.Open("cluster prefixes", one, pick(deep, 5, 8))
	if quick {
		x.SweepOnce("every scalar value")
	} else {
		x.Sweep("every scalar value in every context")
	}
	x.Tree("fragment tree", all, pick(deep, 2, 3))
	x.ByteTree("raw bytes", "every byte string of length up to 2, at every prefix, with and without EOF", [][]byte{AllBytes(0, 255), AllBytes(0, 255)})
	x.ByteTree("key bytes", "every string over the key byte values, at every prefix", alpha(KeyBytes(), pick(deep, 4, 5)))
	x.Memory("argument memory", all, pick(deep, 1, 2))
	x.Lasso("repetition", append([][]byte{nil}, bytesOf(Chars(false))...), bytesOf(Chars(false)), append([][]byte{nil}, bytesOf(Chars(false))...), pickn(quick, append(upTo(8), around(16, 32, 64, 128, 256)...), []int{1, 2, 3, 7, 8, 31, 32}), false)
	x.Lasso("large counts", [][]byte{nil}, bytesOf(Chars(false)), [][]byte{nil, []byte("a"), []byte("\u0301"), []byte("\U0001F1E6"), {0xff}}, pickn(deep, pickn(quick, around(4096, 32768), []int{1000, 4097}), around(2048, 4096, 8192, 16384, 32768, 65536, 131072)), false)
	x.samples()
}
