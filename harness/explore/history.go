package explore

import (
	"encoding/hex"
	"fmt"
	"io"

	"bufio"
	"bytes"

	"verif.local/harness/kit"
)

// HistoryInputs are buffers chosen so that any remembered piece of one call (classes, state, counts, decoded units)
// gives a wrong answer to another: every model state is left pending by some buffer.
func (x *X) HistoryInputs(max int) [][]byte {
	letters := Chars(false)
	var ret [][]byte
	for _, wd := range x.M.Word {
		var b []byte
		for _, c := range wd {
			b = append(b, letters[c].Bytes...)
		}
		ret = append(ret, b)
	}
	join := func(ixs ...int) {
		var b []byte
		for _, i := range ixs {
			b = append(b, letters[i].Bytes...)
		}
		ret = append(ret, b)
	}
	join(6, 6)
	join(6, 6, 6)
	join(14, 5, 14)
	join(15, 16, 15)
	join(1, 2)
	join(0, 4, 0)
	join(7, 6, 6)
	ret = append(ret, []byte("\xe2"), []byte("\xf0\x9f"), []byte("\xff"), []byte("a\xcc"), []byte("\x80\x8d"), nil)
	if len(ret) > max {
		ret = append(ret[:max-7:max-7], ret[len(ret)-7:]...)
	}
	return ret
}

// History makes every sequence of up to depth calls over the inputs (each with and without EOF) in one goroutine, so
// that each call is made after every combination of preceding calls, all of them using one and the same buffer.
func (x *X) History(name string, inputs [][]byte, depth int) {
	type call struct {
		b    []byte
		eof  bool
		adv  int // the first result
		made bool
		hist []string
	}
	var calls []call
	for _, b := range inputs {
		for _, e := range []bool{false, true} {
			calls = append(calls, call{b: b, eof: e})
		}
	}
	x.ParallelN(name, fmt.Sprintf("every sequence of %d calls over %d inputs x 2 EOF values, in one shared buffer", depth, len(inputs)), 1, 1, func(w *kit.Worker, _ int) {
		shared := make([]byte, 64)
		stack := make([]int, 0, depth)
		one := func(i int) bool {
			c := &calls[i]
			n := copy(shared, c.b)
			adv := x.call(w, shared[:n], c.eof)
			if adv >= 0 && c.made && adv == c.adv {
				return true
			}
			hist := []string{}
			for _, k := range stack {
				hist = append(hist, fmt.Sprintf("%x/%v", calls[k].b, calls[k].eof))
			}
			if adv >= 0 && !c.made {
				c.adv, c.made, c.hist = adv, true, hist
				return true
			}
			if a := x.M.First(c.b, c.eof); a.Has(adv) && !a.Has(c.adv) {
				hist, c.hist, adv, c.adv = c.hist, hist, c.adv, adv // the other history is the one that goes wrong
			}
			x.Fail(kit.Replay{Kind: "history", Data: hex.EncodeToString(c.b), EOF: c.eof, Message: fmt.Sprintf("the last of the calls %v advances %d, but the last of the calls %v advances %d", hist, adv, c.hist, c.adv),
				Params: map[string]any{"calls": hist}})
			return false
		}
		var rec func(d int) bool
		rec = func(d int) bool {
			for i := range calls {
				if x.Stopped() {
					return false
				}
				// Re-establish the history, then make this call.
				for _, k := range stack {
					c := &calls[k]
					n := copy(shared, c.b)
					x.Scan(shared[:n], c.eof)
					w.Calls++
				}
				if d == depth {
					w.S["histories"]++
				}
				stack = append(stack, i)
				if d == depth {
					if !one(i) {
						return false
					}
				} else if !rec(d + 1) {
					return false
				}
				stack = stack[:len(stack)-1]
			}
			return true
		}
		rec(1)
	})
}

// Interleave advances two scanners in every interleaving of their Scan calls.
func (x *X) Interleave(name string, texts [][]byte) {
	x.ParallelN(name, fmt.Sprintf("every interleaving of the token requests of two scanners, over all pairs of %d texts, one byte per read", len(texts)), 1, 1, func(w *kit.Worker, _ int) {
		// Expected tokens: those of each text alone.
		want := make([][][]byte, len(texts))
		for i, t := range texts {
			sc := bufio.NewScanner(&script{data: t, cuts: ^uint64(0), failAt: len(t), err: io.EOF, empty: -1})
			sc.Buffer(make([]byte, 8), 1<<16)
			sc.Split(func(d []byte, eof bool) (int, []byte, error) { w.Calls++; return x.Scan(d, eof) })
			for sc.Scan() {
				want[i] = append(want[i], append([]byte{}, sc.Bytes()...))
			}
		}
		for i := range texts {
			for j := range texts {
				ni, nj := len(want[i])+1, len(want[j])+1
				for sched := 0; sched < 1<<(ni+nj); sched++ {
					ones := 0
					for k := 0; k < ni+nj; k++ {
						ones += sched >> k & 1
					}
					if ones != nj {
						continue
					}
					if x.Stopped() {
						return
					}
					w.S["interleavings"]++
					var sc [2]*bufio.Scanner
					var k [2]int
					src := [2]int{i, j}
					for s := range sc {
						t := texts[src[s]]
						sc[s] = bufio.NewScanner(&script{data: t, cuts: ^uint64(0), failAt: len(t), err: io.EOF, empty: -1})
						sc[s].Buffer(make([]byte, 8), 1<<16)
						sc[s].Split(func(d []byte, eof bool) (int, []byte, error) { w.Calls++; return x.Scan(d, eof) })
					}
					for step := 0; step < ni+nj; step++ {
						s := sched >> step & 1
						ok := sc[s].Scan()
						ws := want[src[s]]
						if ok != (k[s] < len(ws)) || ok && !bytes.Equal(sc[s].Bytes(), ws[k[s]]) {
							x.Fail(kit.Replay{Kind: "interleave", Data: hex.EncodeToString(texts[src[s]]), Message: fmt.Sprintf("token %d of %x is %x (more: %v) when interleaved with %x by schedule %b", k[s], texts[src[s]], sc[s].Bytes(), ok, texts[src[1-s]], sched),
								Params: map[string]any{"other_hex": hex.EncodeToString(texts[src[1-s]]), "schedule": sched}})
							return
						}
						k[s]++
					}
				}
			}
		}
	})
}
