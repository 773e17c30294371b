package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"math/bits"
	"os"
	"strings"

	auto "github.com/apparentlymart/go-textseg/autoversion/textseg"
	"verif.local/harness/kit"
)

// Calls of the helpers that overlap in time. The split functions are where one can be stopped while the other goes on.

// helperCall is a call of a helper.
type helperCall struct {
	Count bool // TokenCount, not AllTokens
	Split string
	N     int
	Text  string
	Rep   int
}

type helperResult struct {
	tokens [][]byte
	n      int
	err    error
}

func (c *helperCall) String() string {
	name := "AllTokens"
	if c.Count {
		name = "TokenCount"
	}
	return fmt.Sprintf("%s(%.20q x %d, %s %d)", name, c.Text, c.Rep, c.Split, c.N)
}

func (c *helperCall) call(at func()) (r helperResult) {
	var split bufio.SplitFunc
	for _, s := range splits {
		if s.name == c.Split {
			split = s.mk(c.N)
		}
	}
	f := func(data []byte, eof bool) (int, []byte, error) {
		at()
		return split(data, eof)
	}
	buf := []byte(strings.Repeat(c.Text, c.Rep))
	if c.Count {
		r.n, r.err = auto.TokenCount(buf, f)
	} else {
		r.tokens, r.err = auto.AllTokens(buf, f)
	}
	return
}

// expect has copies of what the call gives when it is alone, and how often it uses the split function.
func (c *helperCall) expect() (r helperResult, steps int) {
	r = c.call(func() { steps++ })
	for i, t := range r.tokens {
		r.tokens[i] = bytes.Clone(t)
	}
	return
}

func (r *helperResult) differs(want *helperResult) string {
	if r.err != want.err || r.n != want.n || len(r.tokens) != len(want.tokens) {
		return fmt.Sprintf("count %d, %d tokens, error %v; alone %d, %d, %v", r.n, len(r.tokens), r.err, want.n, len(want.tokens), want.err)
	}
	for i := range r.tokens {
		if !bytes.Equal(r.tokens[i], want.tokens[i]) {
			return fmt.Sprintf("token %d is %.40q, alone %.40q", i, r.tokens[i], want.tokens[i])
		}
	}
	return ""
}

// overlap is two calls; Order says whose turn it is (bit k: the second), or the second runs within step At of the first.
type overlap struct {
	A, B   helperCall
	Nested bool
	At     int
	Order  uint64
}

func (o *overlap) run() (ret string) {
	var res [2]helperResult
	calls := [2]*helperCall{&o.A, &o.B}
	wantA, na := o.A.expect()
	wantB, nb := o.B.expect()
	want := [2]*helperResult{&wantA, &wantB}
	if o.Nested {
		n := 0
		res[0] = o.A.call(func() {
			if n++; n == o.At+1 {
				res[1] = o.B.call(func() {})
			}
		})
	} else {
		type event struct{ done bool }
		var gate [2]chan bool
		var at [2]chan event
		for i := range calls {
			gate[i], at[i] = make(chan bool), make(chan event)
			go func() {
				defer func() {
					if p := recover(); p != nil {
						ret = fmt.Sprint("panic: ", p)
					}
					at[i] <- event{true}
				}()
				res[i] = calls[i].call(func() { at[i] <- event{}; <-gate[i] })
			}()
			if e := <-at[i]; e.done {
				return fmt.Sprintf("%v: ends at once", calls[i])
			}
		}
		var done [2]bool
		for k := 0; k < na+nb || !done[0] || !done[1]; k++ {
			i := 0
			if k < na+nb {
				i = int(o.Order >> k & 1)
			} else if done[0] {
				i = 1
			}
			if done[i] {
				if k > na+nb+4*(na+nb) {
					break
				}
				continue
			}
			gate[i] <- true
			done[i] = (<-at[i]).done
		}
		if ret != "" {
			return
		}
	}
	// And later calls.
	for _, c := range calls {
		other := *c
		other.Text = strings.Repeat("#", len(c.Text))
		other.call(func() {})
	}
	for i := range calls {
		if m := res[i].differs(want[i]); m != "" {
			return fmt.Sprintf("%v overlapping with %v: %s", calls[i], calls[1-i], m)
		}
	}
	return ""
}

func replayOverlap(v *kit.Replay) int {
	var o overlap
	s, _ := v.Params["case"].(string)
	if json.Unmarshal([]byte(s), &o) != nil {
		return 2
	}
	if m := o.run(); m != "" {
		fmt.Fprintln(os.Stdout, m)
		return 1
	}
	return 0
}

func overlaps(k *kit.Run, thorough bool) {
	var calls []helperCall
	for _, count := range []bool{false, true} {
		for _, s := range []struct {
			name string
			n    int
		}{{"ScanGraphemeClusters", 0}, {"ScanUTF8Sequences", 0}, {"blocks of n", 2}, {"tokens from a reused buffer", 2}, {"blocks and empty tokens", 1}, {"error after n tokens", 2}, {"final token after n tokens", 1}} {
			for _, t := range []string{"ab", "e\u0301\r\n\xff", "\U0001F1E6\U0001F1E7\U0001F1E6"} {
				calls = append(calls, helperCall{count, s.name, s.n, t, 1})
			}
		}
		calls = append(calls, helperCall{count, "blocks of n", 2500, "0123456789", 800}, helperCall{count, "every second block of n", 3000, "abcdefg", 1400}, helperCall{count, "tokens from a reused buffer", 5000, "xyz", 4000})
	}
	limit := 9
	if thorough {
		limit = 12
	}
	n := len(calls)
	k.Parallel("overlapping calls", fmt.Sprintf("every interleaving of every 2 of %d calls, at the calls of their split functions (up to %d of these), and every call within each step of another", n, limit), n*n, func(w *kit.Worker, i int) {
		o := overlap{A: calls[i/n], B: calls[i%n]}
		_, na := o.A.expect()
		_, nb := o.B.expect()
		try := func() bool {
			w.Calls += 4
			w.S["interleavings"]++
			w.Note = fmt.Sprint(o)
			if m := o.run(); m != "" {
				js, _ := json.Marshal(o)
				k.Fail(kit.Replay{Kind: "overlap", Message: m, Params: map[string]any{"case": string(js)}})
				return false
			}
			return !k.Stopped()
		}
		o.Nested = true
		for o.At = 0; o.At < na; o.At++ {
			if !try() {
				return
			}
		}
		o.Nested, o.At = false, 0
		if na+nb > limit {
			// Where the first is interrupted, and for how many steps of the second.
			for a := 0; a <= na; a++ {
				for b := 0; b <= nb; b++ {
					o.Order = (1<<b - 1) << a
					if b > 0 && !try() {
						return
					}
				}
			}
			return
		}
		for o.Order = 0; o.Order < 1<<(na+nb); o.Order++ {
			if bits.OnesCount64(o.Order) == nb && !try() {
				return
			}
		}
	})
}
