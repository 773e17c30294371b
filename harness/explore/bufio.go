package explore

import (
	"bufio"
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"
	"io"

	"verif.local/harness/kit"
)

// script is a reader whose every answer is chosen by the explorer.
type script struct {
	data   []byte
	cuts   uint64 // bit i: a read ends after byte i (0-based)
	failAt int    // deliver only this many bytes, then err (len(data) and io.EOF for a plain end)
	err    error
	withIt bool // return err together with the last bytes
	empty  int  // return (0, nil) once, before the read at this offset; -1: never
	pos    int
}

func (r *script) Read(p []byte) (int, error) {
	if r.empty == r.pos {
		r.empty = -1
		return 0, nil
	}
	if r.pos >= r.failAt {
		return 0, r.err
	}
	n := 0
	for r.pos < r.failAt && n < len(p) {
		p[n] = r.data[r.pos]
		cut := r.cuts>>min(r.pos, 63)&1 == 1
		r.pos++
		n++
		if cut && r.pos < r.failAt {
			break
		}
	}
	if r.pos == r.failAt && r.withIt {
		return n, r.err
	}
	return n, nil
}

var errRead = errors.New("injected read error")

// direct returns the cluster ends of a whole input by calling the function directly.
func (x *X) direct(w *kit.Worker, b []byte) []int {
	var ret []int
	pos := 0
	for pos < len(b) {
		adv := x.first(w, b[pos:], true)
		if adv <= 0 {
			return nil
		}
		pos += adv
		ret = append(ret, pos)
	}
	return ret
}

func (x *X) runScanner(w *kit.Worker, r *script, bufSize int, want []int) bool {
	w.Data, w.EOF = r.data, false
	w.S["scanner_runs"]++
	empty := r.empty
	sc := bufio.NewScanner(r)
	if bufSize > 0 {
		sc.Buffer(make([]byte, bufSize), 1<<16)
	}
	split := func(d []byte, eof bool) (int, []byte, error) {
		w.Calls++
		return x.Scan(d, eof)
	}
	sc.Split(split)
	pos, k := 0, 0
	desc := func() kit.Replay {
		return kit.Replay{Kind: "bufio", Data: hex.EncodeToString(r.data), Params: map[string]any{"cuts": fmt.Sprintf("%b", r.cuts), "fail_at": r.failAt,
			"error": fmt.Sprint(r.err), "error_with_data": r.withIt, "empty": empty, "buffer": bufSize, "want_ends": want}}
	}
	for sc.Scan() {
		t := sc.Bytes()
		if k >= len(want) || pos+len(t) != want[k] || !bytes.Equal(t, r.data[pos:want[k]]) {
			v := desc()
			v.Message = fmt.Sprintf("token %d at offset %d is %x; the same input in one piece gives token ends %v", k, pos, t, want)
			x.Fail(v)
			return false
		}
		pos = want[k]
		k++
	}
	wantErr := r.err
	if wantErr == io.EOF {
		wantErr = nil
	}
	if k != len(want) || sc.Err() != wantErr {
		v := desc()
		v.Message = fmt.Sprintf("scanner ended after %d tokens (offset %d) with error %v; want %d tokens and error %v", k, pos, sc.Err(), len(want), wantErr)
		x.Fail(v)
		return false
	}
	return true
}

// runLimited runs a scanner whose buffer never grows beyond limit bytes. It must return right tokens as far as it gets,
// and may give up only at a cluster that cannot be decided within that many bytes.
func (x *X) runLimited(w *kit.Worker, r *script, limit int, want []int) bool {
	w.Data, w.EOF = r.data, false
	w.S["scanner_runs"]++
	sc := bufio.NewScanner(r)
	sc.Buffer(make([]byte, limit), limit)
	sc.Split(func(d []byte, eof bool) (int, []byte, error) {
		w.Calls++
		return x.Scan(d, eof)
	})
	pos, k := 0, 0
	fail := func(msg string) bool {
		x.Fail(kit.Replay{Kind: "bufio", Data: hex.EncodeToString(r.data), Message: fmt.Sprintf("a scanner with a buffer of %d bytes: %s", limit, msg),
			Params: map[string]any{"cuts": fmt.Sprintf("%b", r.cuts), "fail_at": r.failAt, "limit": limit, "want_ends": want}})
		return false
	}
	for sc.Scan() {
		t := sc.Bytes()
		if k >= len(want) || !bytes.Equal(t, r.data[pos:want[k]]) {
			return fail(fmt.Sprintf("token %d at offset %d is %x; the same input in one piece gives token ends %v", k, pos, t, want))
		}
		pos = want[k]
		k++
	}
	switch err := sc.Err(); {
	case err == nil && k == len(want):
	case err == bufio.ErrTooLong && len(r.data)-pos >= limit && x.adv(w, r.data[pos:pos+limit], false) == 0:
		w.S["too_long"]++
	default:
		return fail(fmt.Sprintf("it ended after %d of %d tokens, at offset %d, with error %v", k, len(want), pos, err))
	}
	return true
}

// Chunks runs bufio.Scanner over every concatenation of up to depth fragments of at most maxBytes bytes, with every
// partition into reads, and for each partition: a plain end, data together with EOF, and (for a bounded number of
// partitions) one empty read anywhere, failure after every byte, small initial buffers, and buffers that may not grow.
func (x *X) Chunks(name string, frags []Frag, depth, maxBytes int) {
	n := len(frags)
	x.Parallel(name, fmt.Sprintf("every concatenation of 1..%d of %d fragments (at most %d bytes) x every partition into reads x reader endings and faults", depth, n, maxBytes), n*n, func(w *kit.Worker, job int) {
		var rec func(d int, b []byte)
		check := func(b []byte) {
			if len(b) > maxBytes {
				return
			}
			want := x.direct(w, b)
			if want == nil {
				return
			}
			w.S["inputs"]++
			parts := uint64(1) << (len(b) - 1)
			for c := uint64(0); c < parts; c++ {
				for _, with := range []bool{false, true} {
					if !x.runScanner(w, &script{data: b, cuts: c, failAt: len(b), err: io.EOF, withIt: with, empty: -1}, 16, want) {
						return
					}
				}
			}
			// Faults and buffer sizes, for the whole, the byte-wise and all two-part deliveries.
			few := []uint64{0, parts - 1}
			for i := 0; i < len(b)-1; i++ {
				few = append(few, 1<<i)
			}
			for _, c := range few {
				for size := 1; size <= 5; size += 2 {
					if !x.runScanner(w, &script{data: b, cuts: c, failAt: len(b), err: io.EOF, empty: -1}, size, want) {
						return
					}
				}
			}
			for _, c := range []uint64{0, parts - 1, 0x5555555555555555 & (parts - 1)} {
				for limit := 1; limit <= len(b)+1; limit++ {
					if !x.runLimited(w, &script{data: b, cuts: c, failAt: len(b), err: io.EOF, empty: -1}, limit, want) {
						return
					}
				}
			}
			for e := 0; e <= len(b); e++ {
				if !x.runScanner(w, &script{data: b, cuts: parts - 1, failAt: len(b), err: io.EOF, empty: e}, 16, want) {
					return
				}
			}
			for k := 0; k < len(b); k++ {
				wantK := x.direct(w, b[:k])
				if wantK == nil && k > 0 {
					return
				}
				for _, c := range []uint64{0, parts - 1} {
					for _, with := range []bool{false, true} {
						if with && k == 0 {
							continue
						}
						if !x.runScanner(w, &script{data: b, cuts: c, failAt: k, err: errRead, withIt: with, empty: -1}, 16, wantK) {
							return
						}
					}
				}
			}
		}
		rec = func(d int, b []byte) {
			if x.Stopped() {
				return
			}
			check(b)
			if d == depth {
				return
			}
			for i := range frags {
				if len(b)+len(frags[i].Bytes) <= maxBytes {
					rec(d+1, append(b[:len(b):len(b)], frags[i].Bytes...))
				}
			}
		}
		b := append([]byte{}, frags[job/n].Bytes...)
		if job%n == 0 {
			check(b)
		}
		if depth < 2 {
			return
		}
		rec(2, append(b, frags[job%n].Bytes...))
	})
}

// Straddle places every concatenation of two fragments at every offset around the end of the scanner's 4096-byte
// buffer, and reads with several read sizes.
func (x *X) Straddle(name string, frags []Frag, offsets []int) {
	n := len(frags)
	x.Parallel(name, fmt.Sprintf("every concatenation of two of %d fragments at %d offsets around the 4096-byte buffer limit, with fillers of 1 and 2 bytes", n, len(offsets)), n, func(w *kit.Worker, i int) {
		for j := range frags {
			word := append(append([]byte{}, frags[i].Bytes...), frags[j].Bytes...)
			for _, o := range offsets {
				if x.Stopped() {
					return
				}
				b := make([]byte, 0, o+32)
				for len(b) < o {
					if (i+j)%2 == 0 || len(b)+2 > o {
						b = append(b, 'x')
					} else {
						b = append(b, 0xc3, 0xa9)
					}
				}
				b = append(b, word...)
				b = append(b, "z\u0301z"...)
				want := x.direct(w, b)
				if want == nil {
					return
				}
				if !x.runScanner(w, &script{data: b, failAt: len(b), err: io.EOF, empty: -1}, 0, want) {
					return
				}
				w.S["inputs"]++
			}
		}
	})
}
