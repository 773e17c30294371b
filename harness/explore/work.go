package explore

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"runtime/debug"
	"time"

	"verif.local/harness/kit"
)

const (
	slack  = 4096     // readable bytes after the text
	beyond = 16 << 20 // bytes of the buffer that cannot be read
	front  = 8192     // space for the text
)

// guarded is a buffer whose end is memory that cannot be read.
type guarded struct{ mem []byte }

// with returns the buffer that begins with text, goes on with 4096 times 'x', and then with memory that cannot be read.
func (g guarded) with(text []byte) []byte {
	copy(g.mem[front-len(text):], text)
	return g.mem[front-len(text):]
}

// reach makes one call with text at the start of a huge buffer. msg is empty if it did what it should.
func reach(scan ScanFunc, g guarded, text []byte, eof bool) (adv int, msg string) {
	all := g.with(text)
	defer func() {
		if p := recover(); p != nil {
			msg = fmt.Sprintf("a buffer of 16 MiB that starts with %x and goes on with 4096 times 'x': the call touches what lies beyond, or panics: %v", text, p)
		}
	}()
	adv, _, _ = scan(all, eof)
	return
}

// Reach calls with huge buffers of which only the start can be read.
func (x *X) Reach(name string, frags []Frag, depth int) {
	n := len(frags)
	x.Parallel(name, fmt.Sprintf("every concatenation of 1..%d of %d fragments at the start of a buffer of 16 MiB, of which nothing beyond 4096 bytes after it can be read, with and without EOF", depth, n), n, func(w *kit.Worker, job int) {
		old := debug.SetPanicOnFault(true)
		defer debug.SetPanicOnFault(old)
		g := newGuarded()
		defer g.free()
		var rec func(d int, b []byte)
		rec = func(d int, b []byte) {
			if x.Stopped() {
				return
			}
			w.S["inputs"]++
			for _, eof := range []bool{false, true} {
				w.Data, w.EOF = b, eof
				w.Calls++
				if _, msg := reach(x.Scan, g, b, eof); msg != "" {
					x.Fail(kit.Replay{Kind: "reach", Data: hex.EncodeToString(b), EOF: eof, Message: msg})
					return
				}
			}
			if d < depth {
				for i := range frags {
					rec(d+1, append(b[:len(b):len(b)], frags[i].Bytes...))
				}
			}
		}
		rec(1, append([]byte{}, frags[job].Bytes...))
	})
}

// ReachMany is Reach for prefix loop^n texts.
func (x *X) ReachMany(name string, prefixes, loops [][]byte, ns []int) {
	x.Parallel(name, fmt.Sprintf("%d prefixes x %d loops x %d counts up to %d, at the start of a buffer of 16 MiB", len(prefixes), len(loops), len(ns), ns[len(ns)-1]), len(loops), func(w *kit.Worker, job int) {
		old := debug.SetPanicOnFault(true)
		defer debug.SetPanicOnFault(old)
		g := newGuarded()
		defer g.free()
		for _, pre := range prefixes {
			for _, n := range ns {
				b := append([]byte{}, pre...)
				for k := 0; k < n; k++ {
					b = append(b, loops[job]...)
				}
				for _, eof := range []bool{false, true} {
					if x.Stopped() {
						return
					}
					w.S["inputs"]++
					w.Calls++
					w.Data, w.EOF = b, eof
					if _, msg := reach(x.Scan, g, b, eof); msg != "" {
						x.Fail(kit.Replay{Kind: "reach", Data: hex.EncodeToString(b), EOF: eof, Message: msg})
						return
					}
				}
			}
		}
	})
}

// Time splits long texts, each of one repeated piece. Splitting takes about 20 ms, and less than a second even on a busy
// machine; work that is quadratic in the length of a cluster, or of the buffer, takes more than 10 s even if it is done
// by the fastest functions of the standard library.
func (x *X) Time(name string, pieces [][]byte) {
	const size, limit = 1 << 20, 4 * time.Second
	x.Parallel(name, fmt.Sprintf("%d repeated pieces, texts of %d bytes, three attempts to split each in %v", len(pieces), size, limit), len(pieces), func(w *kit.Worker, i int) {
		b := bytes.Repeat(pieces[i], size/len(pieces[i])+1)[:size]
		w.S["texts"]++
		w.Data = b[:len(pieces[i])]
		w.Note = "(repeated up to 1 MiB)"
		defer func() { w.Note = "" }()
		if adv := timed(w, x.Scan, b, limit); adv >= 0 {
			x.Fail(kit.Replay{Kind: "time", Data: hex.EncodeToString(pieces[i]), Message: fmt.Sprintf("splitting 1 MiB made of repetitions of %x does not end in %v, in three attempts; the last one got to offset %d", pieces[i], limit, adv)})
		}
	})
}

// timed returns -1, or how far splitting b got before the limit, in three attempts.
func timed(w *kit.Worker, scan ScanFunc, b []byte, limit time.Duration) (pos int) {
	for try := 0; try < 3; try++ {
		start := time.Now()
		for pos = 0; pos < len(b); {
			w.Calls++
			adv, _, _ := scan(b[pos:], true)
			if adv <= 0 {
				return -1 // not this property
			}
			if pos += adv; time.Since(start) > limit {
				break
			}
		}
		if time.Since(start) <= limit {
			return -1
		}
	}
	return pos
}

// C17: the public part of the bound on work.
func (x *X) C17() {
	x.selfTest(4)
	cs := Chars(false)
	x.Reach("reach of a call", append(cs, Malformed()...), 4)
	x.ReachMany("reach of a call after many characters", append([][]byte{nil}, bytesOf(cs)...), append(bytesOf(Chars(false)), bytesOf(Malformed())...), pickn(x.Thorough, around(4, 8, 16, 32, 64), upTo(260)))
	x.Time("time", append(append(bytesOf(Chars(false)), bytesOf(Malformed())...), products(Chars(false))...))
	x.Sample(map[string]any{"buffer": "e\u0301, 4096 times x, and 16 MiB that cannot be read", "expected": "advance 3, and no access to what cannot be read"})
}
