// Package explore enumerates inputs for a grapheme cluster split function and compares every result with the model.
package explore

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"strings"
	"sync/atomic"
	"time"
	"unsafe"

	"verif.local/harness/kit"
	"verif.local/harness/spec"
	"verif.local/harness/ucd"
)

// ScanFunc is the function under test.
type ScanFunc func(data []byte, atEOF bool) (int, []byte, error)

// X is an exploration of one function.
type X struct {
	*kit.Run
	M    *spec.Model
	Scan ScanFunc
	// Ref, if not nil, replaces the model as the oracle: the results must be equal to Ref's.
	Ref ScanFunc
	// Owns, if not nil, decides whether a call that the model does not allow breaks the property that is being checked.
	// If not, it belongs to another property, is counted, and the exploration goes on.
	Owns func(w *kit.Worker, b []byte, eof bool, adv int) bool
	// Shape: only the form of the results matters, not the advances.
	Shape bool
	// Stable: answers must not change when more input arrives.
	Stable bool
	judged atomic.Int64 // nanoseconds spent in Owns
	// Import is used in the replay test.
	Import string
}

// A Frag is a piece of input: a character, or some malformed bytes.
type Frag struct {
	Name  string
	Bytes []byte
	Char  bool
}

// Chars returns the class samples as fragments.
func Chars(byLength bool) []Frag {
	var ret []Frag
	for _, l := range ucd.Letters(byLength) {
		ret = append(ret, Frag{fmt.Sprintf("%s(U+%04X)", l.Class, l.Rune), l.Bytes, true})
	}
	return ret
}

// Malformed returns fragments that are not, or not on their own, characters.
func Malformed() []Frag {
	var ret []Frag
	for _, h := range []string{
		"80", "bf", "ff", "f8", "fe", // never valid here
		"c2", "cc", "e0", "e2", "e280", "e1", "ed", "ea", "f0", "f09f", "f09f87", "f3", "f3a0", "f4", "f0908d", // truncated
		"c0", "f7", "f7bfbf", "ed a0", "e0 80", "f4 90", // truncated, and with no scalar value
		"c08d", "c1bf", "e08080", "eda080", "edbfbf", "f0808080", "f4908080", "f5808080", "f7bfbfbf", // complete, with no scalar value
		"e241", "f09f41", "f0410000", "c20d", "e0cc81", "f09fcc81", // cut short by something else
	} {
		b, err := hex.DecodeString(strings.ReplaceAll(h, " ", ""))
		if err != nil {
			panic(err)
		}
		ret = append(ret, Frag{"bytes(" + h + ")", b, false})
	}
	return ret
}

// call makes one call, checking everything that must hold whatever the input is.
// It returns the advance.
func (x *X) call(w *kit.Worker, b []byte, eof bool) int {
	w.Data, w.EOF = b, eof
	w.Calls++
	adv, tok, err := x.Scan(b, eof)
	if x.Ref != nil {
		adv2, tok2, err2 := x.Ref(b, eof)
		if adv != adv2 || len(tok) != len(tok2) || len(tok) > 0 && &tok[0] != &tok2[0] || (tok == nil) != (tok2 == nil) || err != err2 {
			x.failScan(w, b, eof, fmt.Sprintf("got (%d, %d bytes: %.64x, %v), want the same as the selected version: (%d, %d bytes: %.64x, %v)", adv, len(tok), tok, err, adv2, len(tok2), tok2, err2))
			return -1
		}
		return adv
	}
	if err != nil || adv < 0 || adv > len(b) || adv == 0 && tok != nil || adv > 0 && (len(tok) != adv || &tok[0] != &b[0]) || adv == 0 && eof && len(b) > 0 {
		x.failScan(w, b, eof, fmt.Sprintf("malformed result: advance %d, token %.64x (nil: %v, aliases the input: %v), err %v", adv, tok, tok == nil, len(tok) > 0 && len(b) > 0 && unsafe.SliceData(tok) == unsafe.SliceData(b), err))
		return -1
	}
	return adv
}

// first calls with b and compares with the model.
func (x *X) first(w *kit.Worker, b []byte, eof bool) int {
	adv := x.call(w, b, eof)
	if adv < 0 || x.Ref != nil || x.Shape {
		return adv
	}
	if a := x.M.First(b, eof); !a.Has(adv) {
		if x.wrong(w, b, eof, adv, fmt.Sprintf("advance %d, want %v", adv, a)) {
			return -1
		}
	}
	return adv
}

// wrong handles an advance that the model does not allow. It reports whether the exploration has to stop.
func (x *X) wrong(w *kit.Worker, b []byte, eof bool, adv int, msg string) bool {
	if adv < 0 {
		return true // reported already
	}
	if x.Owns != nil {
		const most, mostTime = 3000, 200 * time.Second // judging takes time
		if n := w.S["deviations_of_other_properties"]; n > most || x.judged.Load() > int64(mostTime) {
			w.S["deviations_of_other_properties"]++
			x.Incomplete()
			return false
		}
		start := time.Now()
		mine := x.Owns(w, b, eof, adv)
		x.judged.Add(int64(time.Since(start)))
		if !mine {
			w.S["deviations_of_other_properties"]++
			return false
		}
	}
	x.failScan(w, b, eof, msg)
	return true
}

func (x *X) failScan(w *kit.Worker, b []byte, eof bool, msg string) {
	want := "the model's result"
	if x.Ref == nil {
		want = x.M.First(b, eof).String()
	}
	v := kit.Replay{Kind: "scan", EOF: eof, Message: msg + " " + w.Note, Params: map[string]any{"want_advance": want, "len": len(b)}}
	var lit string
	switch {
	case len(b) > 1<<20 && w.N > 0: // too much to write down
		v.Params["prefix_hex"], v.Params["loop_hex"], v.Params["times"], v.Params["suffix_hex"] = hex.EncodeToString(w.Pre), hex.EncodeToString(w.Loop), w.N, hex.EncodeToString(w.Suf)
		lit = fmt.Sprintf("%q+strings.Repeat(%q, %d)+%q", w.Pre, w.Loop, w.N, w.Suf)
	default:
		v.Data = hex.EncodeToString(b)
		lit = fmt.Sprintf("%q", b)
	}
	if len(b) > 4096 {
		v.Params["head"] = fmt.Sprintf("%.64q", b[:4096])
		if v.Data != "" {
			lit = "string(mustHex(`...`)) /* see data_hex */"
		}
	}
	v.GoTest = fmt.Sprintf("package replay\n\nimport (\n\t\"strings\"\n\t\"testing\"\n\t%q\n)\n\nvar _ = strings.Repeat\n\nfunc TestReplay(t *testing.T) {\n\tadv, tok, err := textseg.ScanGraphemeClusters([]byte(%s), %v)\n\tt.Fatalf(\"advance %%d token %%q err %%v; want advance %s\", adv, tok, err)\n}\n", x.Import, lit, eof, want)
	x.Fail(v)
}

// segment calls repeatedly over all of b, as the end of the input, and compares each call with the model.
// ends, if not nil, are the cluster ends that a valid text must have (from the declarative rules).
func (x *X) segment(w *kit.Worker, b []byte, ends []int) bool {
	pos, k := 0, 0
	before := w.S["deviations_of_other_properties"]
	for pos < len(b) {
		adv := x.first(w, b[pos:], true)
		if w.S["deviations_of_other_properties"] > before+20 {
			x.Incomplete() // from here on they are of the same kind
			return true
		}
		if adv <= 0 {
			return false
		}
		pos += adv
		if ends != nil && x.Ref == nil {
			if (k >= len(ends) || ends[k] != pos) && x.Owns == nil {
				x.failScan(w, b[pos-adv:], true, fmt.Sprintf("cluster ends at %d of %x, want ends %v", pos, b, ends))
				return false
			}
			k++
		}
	}
	return true
}

func ends(text []ucd.Class, sizes []int, buf []int) []int {
	pos := 0
	for i := range text {
		pos += sizes[i]
		if i+1 == len(text) || spec.Boundary(text, i+1) {
			buf = append(buf, pos)
		}
	}
	return buf
}

// Words runs every text of up to depth characters from letters: each is segmented to its end, as the whole input,
// against the declarative rules, and its first cluster is also requested with more input possible.
func (x *X) Words(name string, letters []ucd.Letter, depth int) {
	n := len(letters)
	x.Parallel(name, fmt.Sprintf("every text of 1..%d characters over %d sample characters", depth, n), n*n, func(w *kit.Worker, job int) {
		var buf [80]byte
		var sizes [20]int
		var text [20]ucd.Class
		var eb [20]int
		var rec func(d, pos int)
		check := func(d, pos int) {
			w.S["texts"]++
			if !x.segment(w, buf[:pos], ends(text[:d], sizes[:d], eb[:0])) {
				return
			}
			x.first(w, buf[:pos], false)
		}
		put := func(d, pos int, l *ucd.Letter) int {
			text[d], sizes[d] = l.Class, len(l.Bytes)
			return pos + copy(buf[pos:], l.Bytes)
		}
		rec = func(d, pos int) {
			if x.Stopped() {
				return
			}
			for i := range letters {
				p := put(d, pos, &letters[i])
				check(d+1, p)
				if d+1 < depth {
					rec(d+1, p)
				}
			}
		}
		p := put(0, 0, &letters[job/n])
		if job%n == 0 {
			check(1, p)
		}
		if depth < 2 {
			return
		}
		p = put(1, p, &letters[job%n])
		check(2, p)
		if depth > 2 {
			rec(2, p)
		}
	})
}

// Open runs every text whose characters but the last belong to one cluster, of up to depth characters: the verdict on
// every next character after every cluster prefix.
func (x *X) Open(name string, letters []ucd.Letter, depth int) {
	n := len(letters)
	m := x.M
	x.Parallel(name, fmt.Sprintf("every cluster prefix of up to %d characters over %d sample characters, followed by every sample character", depth-1, n), n*n, func(w *kit.Worker, job int) {
		var buf [80]byte
		var rec func(d, pos, state int, from, to int)
		rec = func(d, pos, state int, from, to int) {
			if x.Stopped() {
				return
			}
			for i := from; i < to; i++ {
				l := &letters[i]
				p := pos + copy(buf[pos:], l.Bytes)
				brk := m.Break[state]>>l.Class&1 == 1
				want := p
				if brk {
					want = pos
				}
				w.S["texts"]++
				if adv := x.call(w, buf[:p], true); adv != want && x.Ref == nil && x.wrong(w, buf[:p], true, adv, fmt.Sprintf("advance %d, want %d", adv, want)) {
					return
				}
				if !brk && d+1 < depth {
					rec(d+1, p, int(m.Next[state][l.Class]), 0, n)
				}
			}
		}
		l := &letters[job/n]
		p := copy(buf[:], l.Bytes)
		rec(1, p, int(l.Class), job%n, job%n+1)
	})
}

// Conformance is a complete test suite (W-method) for implementations that are automata over the letters with up to
// extra-1 more states than the model: access words of all states, times all words of up to extra letters, times
// distinguishing suffixes.
func (x *X) Conformance(name string, letters []ucd.Letter, extra int) {
	n := len(letters)
	m := x.M
	suf := m.Suffixes()
	byClass := func(c ucd.Class) *ucd.Letter {
		for i := range letters {
			if letters[i].Class == c {
				return &letters[i]
			}
		}
		panic("no letter")
	}
	x.Parallel(name, fmt.Sprintf("%d model states x all words of 0..%d letters (%d letters) x %d distinguishing suffixes", len(m.States), extra, n, len(suf)), len(m.States)*n, func(w *kit.Worker, job int) {
		st := job / n
		var buf [160]byte
		var sizes, eb [40]int
		var text [40]ucd.Class
		d, pos := 0, 0
		put := func(d, pos int, l *ucd.Letter) int {
			text[d], sizes[d] = l.Class, len(l.Bytes)
			return pos + copy(buf[pos:], l.Bytes)
		}
		for _, c := range m.Word[st] {
			pos = put(d, pos, byClass(c))
			d++
		}
		var rec func(d, pos, left int)
		leaf := func(d, pos int) {
			for _, s := range suf {
				d2, p2 := d, pos
				for _, c := range s {
					p2 = put(d2, p2, byClass(c))
					d2++
				}
				w.S["traces"]++
				if !x.segment(w, buf[:p2], ends(text[:d2], sizes[:d2], eb[:0])) {
					return
				}
			}
		}
		rec = func(d, pos, left int) {
			if x.Stopped() {
				return
			}
			leaf(d, pos)
			if left == 0 {
				return
			}
			for i := range letters {
				rec(d+1, put(d, pos, &letters[i]), left-1)
			}
		}
		if job%n == 0 {
			leaf(d, pos)
		}
		rec(d+1, put(d, pos, &letters[job%n]), extra-1)
	})
	x.Count("states", uint64(len(m.States)))
	x.Count("transitions", uint64(len(m.States)*ucd.NumClasses))
}

// Sweep puts every scalar value after every open model state, and, as the start of a text and wherever it joins,
// before every distinguishing suffix.
func (x *X) Sweep(name string) {
	m := x.M
	letters := ucd.Letters(false)
	suf := m.Suffixes()
	var sufBytes [][]byte
	for _, s := range suf {
		var b []byte
		for _, c := range s {
			b = append(b, letters[c].Bytes...)
		}
		sufBytes = append(sufBytes, b)
	}
	type acc struct {
		b     []byte
		state int
	}
	var open []acc
	for i, a := range m.Access {
		if a == nil {
			continue
		}
		var b []byte
		for _, c := range a {
			b = append(b, letters[c].Bytes...)
		}
		open = append(open, acc{b, i})
	}
	const step = 0x400
	x.Parallel(name, fmt.Sprintf("all 1112064 scalar values x %d contexts before x %d suffixes after", len(open)+1, len(suf)+1), 0x110000/step, func(w *kit.Worker, job int) {
		var buf [64]byte
		for r := rune(job * step); r < rune((job+1)*step); r++ {
			if !ucd.Valid(r) {
				continue
			}
			if x.Stopped() {
				return
			}
			c := ucd.Of(r)
			w.S["scalar_values"]++
			p := copy(buf[:], string(r))
			w.Rune, w.At = r, 0
			x.first(w, buf[:p], true)
			x.first(w, buf[:p], false)
			for _, s := range sufBytes {
				x.first(w, buf[:p+copy(buf[p:], s)], true)
			}
			for i := range open {
				o := &open[i]
				p := copy(buf[:], o.b)
				p2 := p + copy(buf[p:], string(r))
				want := p2
				brk := m.Break[o.state]>>c&1 == 1
				if brk {
					want = p
				}
				w.At = p
				if adv := x.call(w, buf[:p2], true); adv != want && x.Ref == nil && x.wrong(w, buf[:p2], true, adv, fmt.Sprintf("advance %d, want %d", adv, want)) {
					return
				}
				if !brk {
					for _, s := range sufBytes {
						x.first(w, buf[:p2+copy(buf[p2:], s)], true)
					}
				}
			}
		}
	})
}

// SweepOnce is a Sweep in which every scalar value is run alone, and in one context before and one after it, in turn.
func (x *X) SweepOnce(name string) {
	m := x.M
	letters := ucd.Letters(false)
	var before, after [][]byte
	bytesOf := func(w []ucd.Class) (b []byte) {
		for _, c := range w {
			b = append(b, letters[c].Bytes...)
		}
		return
	}
	for _, a := range m.Access {
		if a != nil {
			before = append(before, bytesOf(a))
		}
	}
	for _, s := range m.Suffixes() {
		after = append(after, bytesOf(s))
	}
	const step = 0x400
	x.Parallel(name, fmt.Sprintf("all 1112064 scalar values, alone, after one of %d contexts and before one of %d suffixes, in turn", len(before), len(after)), 0x110000/step, func(w *kit.Worker, job int) {
		var buf [64]byte
		for r := rune(job * step); r < rune((job+1)*step); r++ {
			if !ucd.Valid(r) {
				continue
			}
			if x.Stopped() {
				return
			}
			w.S["scalar_values"]++
			w.Rune, w.At = r, 0
			s := string(r)
			p := copy(buf[:], s)
			x.first(w, buf[:p], true)
			x.first(w, buf[:p], false)
			x.first(w, buf[:p+copy(buf[p:], after[int(r)%len(after)])], true)
			b := before[int(r)%len(before)]
			p = copy(buf[:], b)
			w.At = p
			x.first(w, buf[:p+copy(buf[p:], s)], true)
		}
	})
}

// Pairs runs every ordered pair of the given characters.
func (x *X) Pairs(name, bound string, rs []rune, suffixes bool) {
	m := x.M
	enc := make([][]byte, len(rs))
	for i, r := range rs {
		enc[i] = []byte(string(r))
	}
	letters := ucd.Letters(false)
	suf := m.Suffixes()
	x.Parallel(name, bound, len(rs), func(w *kit.Worker, i int) {
		var buf [64]byte
		p := copy(buf[:], enc[i])
		s := int(ucd.Of(rs[i]))
		if x.Stopped() {
			return
		}
		for j := range rs {
			p2 := p + copy(buf[p:], enc[j])
			c := ucd.Of(rs[j])
			want := p2
			brk := m.Break[s]>>c&1 == 1
			if brk {
				want = p
			}
			if adv := x.call(w, buf[:p2], true); adv != want && x.Ref == nil && x.wrong(w, buf[:p2], true, adv, fmt.Sprintf("advance %d, want %d", adv, want)) {
				return
			}
			if suffixes && !brk {
				for _, sx := range suf {
					q := p2
					for _, c := range sx {
						q += copy(buf[q:], letters[c].Bytes)
					}
					x.first(w, buf[:q], true)
				}
			}
		}
		w.S["pairs"] += uint64(len(rs))
	})
}

// Lasso runs prefix loop^n suffix texts.
func (x *X) Lasso(name string, prefixes, loops, suffixes [][]byte, ns []int, grow bool) {
	x.Parallel(name, fmt.Sprintf("%d prefixes x %d loops x %d suffixes x %d repetition counts up to %d", len(prefixes), len(loops), len(suffixes), len(ns), ns[len(ns)-1]), len(loops)*len(prefixes), func(w *kit.Worker, job int) {
		lp, pre := loops[job/len(prefixes)], prefixes[job%len(prefixes)]
		var b []byte
		for _, n := range ns {
			b = append(b[:0], pre...)
			for k := 0; k < n; k++ {
				b = append(b, lp...)
			}
			base := len(b)
			w.Pre, w.Loop, w.N = pre, lp, n
			for _, s := range suffixes {
				w.Suf = s
				if x.Stopped() {
					return
				}
				b = append(b[:base], s...)
				w.S["texts"]++
				w.Note = fmt.Sprintf("(prefix %x, loop %x, %d times, suffix %x)", pre, lp, n, s)
				if len(b) == 0 {
					continue
				}
				if !x.segment(w, b, nil) {
					return
				}
				if x.first(w, b, false) < 0 {
					return
				}
				w.Note = ""
			}
		}
	})
}

// Deep looks at the first cluster of prefix loop^n suffix texts, for loops that stay in one cluster.
func (x *X) Deep(name string, prefixes, loops, suffixes [][]byte, max int) {
	x.Parallel(name, fmt.Sprintf("%d prefixes x %d loops x %d suffixes x 1..%d repetitions that stay in one cluster, with and without EOF", len(prefixes), len(loops), len(suffixes), max), len(loops)*len(prefixes)*max, func(w *kit.Worker, job int) {
		n := max - job%max
		job /= max
		lp, pre := loops[job/len(prefixes)], prefixes[job%len(prefixes)]
		b := append(append(make([]byte, 0, len(pre)+len(lp)*n+64), pre...), bytes.Repeat(lp, n)...)
		base := len(b)
		state := x.M.Within(b)
		if state < 0 {
			return
		}
		w.Pre, w.Loop, w.N = pre, lp, n
		for _, s := range suffixes {
			if x.Stopped() {
				return
			}
			w.Suf = s
			b = append(b[:base], s...)
			w.S["texts"]++
			w.Note = fmt.Sprintf("(prefix %x, loop %x, %d times, suffix %x)", pre, lp, n, s)
			for _, eof := range [...]bool{true, false} {
				adv := x.call(w, b, eof)
				if adv < 0 {
					return
				}
				if x.Ref != nil || x.Shape {
					continue
				}
				if a := x.M.From(b, base, state, eof); !a.Has(adv) && x.wrong(w, b, eof, adv, fmt.Sprintf("advance %d, want %v", adv, a)) {
					return
				}
			}
			w.Note = ""
		}
	})
}

// Tree runs every concatenation of up to depth fragments. At every byte-wise prefix it calls with and without EOF,
// compares with the model, and requires that a token given out while more could follow stays the same under every
// extension.
func (x *X) Tree(name string, frags []Frag, depth int) {
	n := len(frags)
	x.Parallel(name, fmt.Sprintf("every concatenation of 1..%d of %d fragments, at every byte-wise prefix, with and without EOF", depth, n), n*n, func(w *kit.Worker, job int) {
		var buf [64]byte
		// feed extends the buffer by f byte by byte. It returns the new length and the committed advance.
		feed := func(pos, committed int, f []byte) (int, int) {
			for _, c := range f {
				buf[pos] = c
				pos++
				committed = x.prefix(w, buf[:pos], committed)
				if committed < 0 {
					return pos, -1
				}
			}
			return pos, committed
		}
		var rec func(d, pos, committed int)
		rec = func(d, pos, committed int) {
			for i := range frags {
				if x.Stopped() {
					return
				}
				p, c := feed(pos, committed, frags[i].Bytes)
				if c < 0 {
					return
				}
				w.S["inputs"]++
				if d+1 < depth {
					rec(d+1, p, c)
				} else if !x.segment(w, buf[:p], nil) {
					return
				}
			}
		}
		p, c := feed(0, 0, frags[job/n].Bytes)
		if c < 0 {
			return
		}
		if job%n == 0 {
			x.segment(w, buf[:p], nil)
		}
		if depth < 2 {
			return
		}
		p, c = feed(p, c, frags[job%n].Bytes)
		if c < 0 {
			return
		}
		w.S["inputs"]++
		x.segment(w, buf[:p], nil)
		if depth > 2 {
			rec(2, p, c)
		}
	})
}

// prefix checks one buffer content with and without EOF, given the advance which a prefix of it has committed to
// (0: none). It returns the updated commitment, or -1 on failure.
func (x *X) prefix(w *kit.Worker, b []byte, committed int) int {
	open := x.first(w, b, false)
	if open < 0 {
		return -1
	}
	last := x.first(w, b, true)
	if last < 0 {
		return -1
	}
	if !x.Stable {
		return open
	}
	if committed > 0 && (open != committed || last != committed) || open > 0 && last != open {
		x.failScan(w, b, false, fmt.Sprintf("not stable under further input: a prefix gave %d (0: none), now %d, at EOF %d", committed, open, last))
		return -1
	}
	return open
}

// ByteTree runs every byte string whose i'th byte is from alpha[i], at every prefix, like Tree.
func (x *X) ByteTree(name, bound string, alpha [][]byte) {
	n0 := len(alpha[0])
	n1 := 1
	if len(alpha) > 1 {
		n1 = len(alpha[1])
	}
	x.Parallel(name, bound, n0*n1, func(w *kit.Worker, job int) {
		var buf [16]byte
		// Whatever lies beyond the slice must not matter: characters that would join.
		copy(buf[8:], "\u0301\u0301\u0301\u0301")
		var rec func(d, committed int)
		inputs := uint64(0)
		rec = func(d, committed int) {
			if x.Stopped() {
				return
			}
			for _, c := range alpha[d] {
				buf[d] = c
				k := x.prefix(w, buf[:d+1], committed)
				if k < 0 {
					return
				}
				inputs++
				if d+1 < len(alpha) {
					rec(d+1, k)
				}
			}
		}
		buf[0] = alpha[0][job/n1]
		k := x.prefix(w, buf[:1], 0)
		if k < 0 || len(alpha) < 2 {
			return
		}
		buf[1] = alpha[1][job%n1]
		if k = x.prefix(w, buf[:2], k); k < 0 {
			return
		}
		inputs++
		if len(alpha) > 2 {
			rec(2, k)
		}
		w.S["inputs"] += inputs
	})
}

// AllBytes returns all byte values from lo to hi.
func AllBytes(lo, hi int) []byte {
	var b []byte
	for i := lo; i <= hi; i++ {
		b = append(b, byte(i))
	}
	return b
}

// KeyBytes are byte values at, or next to, every limit of the UTF-8 byte classes, and those that spell the class samples.
func KeyBytes() []byte {
	var b []byte
	seen := map[byte]bool{}
	add := func(cs ...byte) {
		for _, c := range cs {
			if !seen[c] {
				seen[c] = true
				b = append(b, c)
			}
		}
	}
	add(0x61, 0x0d, 0x0a, 0x00, 0x7f, 0x80, 0x8d, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xcc, 0xdf, 0xe0, 0xe1, 0xe2, 0xed, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf7, 0xf8, 0xff)
	return b
}

// Memory checks that the argument is not modified, that nothing beyond its length matters or is touched, and that the
// capacity of the slice makes no difference, on every concatenation of up to depth fragments.
func (x *X) Memory(name string, frags []Frag, depth int) {
	n := len(frags)
	fills := [][]byte{[]byte("\u0301"), {0x80}, {'\n'}, []byte("\U0001F1E6"), {0xbf, 0x80}, {0xff}}
	x.Parallel(name, fmt.Sprintf("every concatenation of 1..%d of %d fragments x {cap=len, %d kinds of bytes after the end} x both EOF values", depth, n, len(fills)), n, func(w *kit.Worker, job int) {
		var rec func(d int, b []byte)
		big := make([]byte, 256)
		want := make([]byte, 256)
		check := func(b []byte) {
			for _, eof := range []bool{true, false} {
				exact := make([]byte, len(b))
				copy(exact, b)
				a0 := x.first(w, exact[:len(b):len(b)], eof)
				if a0 < 0 {
					return
				}
				if !bytes.Equal(exact, b) {
					x.failScan(w, b, eof, fmt.Sprintf("the argument was modified, to %x", exact))
					return
				}
				for _, f := range fills {
					for i := range big {
						big[i] = f[(i+len(f)*8-(16+len(b))%len(f))%len(f)]
					}
					copy(big[16:], b)
					for k := 0; k < 8; k++ { // complete a truncated sequence at the end with the fill's start
						big[16+len(b)+k] = f[k%len(f)]
					}
					copy(want, big)
					a1 := x.call(w, big[16:16+len(b)], eof)
					if a1 < 0 {
						return
					}
					if a1 != a0 {
						x.failScan(w, b, eof, fmt.Sprintf("advance %d if followed in memory by %x, but %d otherwise", a1, f, a0))
						return
					}
					if !bytes.Equal(big, want) {
						x.failScan(w, b, eof, "memory was modified")
						return
					}
				}
			}
			w.S["inputs"]++
		}
		rec = func(d int, b []byte) {
			if x.Stopped() {
				return
			}
			check(b)
			if d == depth {
				return
			}
			for i := range frags {
				rec(d+1, append(b[:len(b):len(b)], frags[i].Bytes...))
			}
		}
		rec(1, append([]byte{}, frags[job].Bytes...))
	})
}
