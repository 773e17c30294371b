// steps counts the statements that a call executes and the memory that it allocates (C17), in an instrumented copy of
// the library (cmd/instrument).
//
//	steps C17 quick|thorough RESULT.json
//	steps replay FILE
package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"time"

	"github.com/apparentlymart/go-textseg/v17/textseg"
	"github.com/apparentlymart/go-textseg/v17/textseg/internal/zzverif/zzsched"
	"verif.local/harness/explore"
	"verif.local/harness/kit"
)

// What a call may use. On the tree that this was written for, a call makes at most 25 statements per byte and allocates
// nothing; the allowances only have to exclude work that grows with something else than the first cluster.
const (
	fixedSteps, stepsPerByte = 4000, 200
	fixedBytes, bytesPerByte = 16384, 256
	lookahead                = 16
)

// warm has the library do what it does only once, if there is such a thing: all short texts of two characters.
func warm() {
	var fs [][]byte
	for _, f := range append(explore.Chars(false), explore.Malformed()...) {
		fs = append(fs, f.Bytes)
	}
	for _, a := range fs {
		for _, b := range fs {
			t := append(append([]byte{}, a...), b...)
			textseg.ScanGraphemeClusters(t, false)
			textseg.ScanGraphemeClusters(t, true)
		}
	}
}

func use(b []byte, eof bool) (adv int, steps uint64) {
	s := zzsched.Idle()
	adv, _, _ = textseg.ScanGraphemeClusters(b, eof)
	return adv, zzsched.Idle() - s
}

func judge(b []byte, eof bool) (adv int, steps uint64, msg string) {
	adv, steps = use(b, eof)
	seen := adv + lookahead
	if adv == 0 || seen > len(b) { // it had to look at everything
		seen = len(b)
	}
	if max := uint64(fixedSteps + stepsPerByte*seen); steps > max {
		msg = fmt.Sprintf("a call on %d bytes with a first cluster of %d bytes (atEOF %v) executes %d statements, more than %d + %d per byte it has to look at", len(b), adv, eof, steps, fixedSteps, stepsPerByte)
	}
	return
}

// allocated is the memory that a call allocates, on average over some calls.
func allocated(b []byte, eof bool) (adv int, bytes uint64) {
	const n = 8
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	for i := 0; i < n; i++ {
		adv, _, _ = textseg.ScanGraphemeClusters(b, eof)
	}
	runtime.ReadMemStats(&m1)
	return adv, (m1.TotalAlloc - m0.TotalAlloc) / n
}

func judgeMemory(b []byte, eof bool) (bytes uint64, msg string) {
	adv, bytes := allocated(b, eof)
	seen := adv + lookahead
	if adv == 0 || seen > len(b) {
		seen = len(b)
	}
	if max := uint64(fixedBytes + bytesPerByte*seen); bytes > max {
		msg = fmt.Sprintf("a call on %d bytes with a first cluster of %d bytes (atEOF %v) allocates %d bytes, more than %d + %d per byte it has to look at", len(b), adv, eof, bytes, fixedBytes, bytesPerByte)
	}
	return
}

// Text describes a long text.
type Text struct {
	Pre, Loop, Tail string // hex
	N, Tails        int
}

func (t Text) bytes(buf []byte) []byte {
	un := func(s string) []byte {
		b, err := hex.DecodeString(s)
		if err != nil {
			panic(err)
		}
		return b
	}
	b := append(buf[:0], un(t.Pre)...)
	l, a := un(t.Loop), un(t.Tail)
	for i := 0; i < t.N; i++ {
		b = append(b, l...)
	}
	for i := 0; i < t.Tails; i++ {
		b = append(b, a...)
	}
	return b
}

func main() {
	if len(os.Args) == 3 && os.Args[1] == "replay" {
		raw, err := os.ReadFile(os.Args[2])
		var v kit.Replay
		var t Text
		if err == nil {
			err = json.Unmarshal(raw, &v)
		}
		if err == nil {
			s, _ := v.Params["text"].(string)
			err = json.Unmarshal([]byte(s), &t)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		warm()
		b := t.bytes(nil)
		_, _, m1 := judge(b, v.EOF)
		_, m2 := judgeMemory(b, v.EOF)
		if m1+m2 != "" {
			fmt.Println(m1, m2)
			os.Exit(1)
		}
		os.Exit(0)
	}
	warm()
	thorough := os.Args[2] == "thorough"
	r := kit.New(os.Args[1], thorough, os.Args[3], 250*time.Second)
	var frags []string
	for _, f := range explore.Chars(false) {
		frags = append(frags, hex.EncodeToString(f.Bytes))
	}
	loops := append([]string{}, frags...)
	for _, a := range frags {
		for _, b := range frags {
			if a != b {
				loops = append(loops, a+b)
			}
		}
	}
	bad := []string{"80", "ff", "c2", "e2", "e280", "f09f", "f09f87", "eda080", "c08d", "f7bfbfbf"}
	loops = append(loops, bad...)
	pres := append([]string{""}, frags...)
	pres = append(pres, bad...)
	ns := []int{0, 1, 2, 7, 64, 1000, 4096}
	pick := []string{""}
	if thorough {
		ns = append(ns, 20000)
		pick = append(pick, frags...)
	}
	worst, worstBytes := 0.0, uint64(0)
	var worstText Text
	calls := func(phase, bound string, texts []Text, memory bool) {
		// One thread: the counters are the process's.
		r.ParallelN(phase, bound, len(texts), 1, func(w *kit.Worker, i int) {
			t := texts[i]
			b := t.bytes(nil)
			w.S["texts"]++
			js, _ := json.Marshal(t)
			for _, eof := range []bool{false, true} {
				w.Calls++
				w.Data, w.EOF = nil, eof
				w.Note = string(js)
				adv, steps, msg := judge(b, eof)
				w.S["steps"] += steps
				if msg == "" && memory {
					var m uint64
					w.Calls += 8
					m, msg = judgeMemory(b, eof)
					if m > worstBytes {
						worstBytes = m
					}
				}
				seen := adv + lookahead
				if adv == 0 || seen > len(b) {
					seen = len(b)
				}
				if f := float64(steps) / float64(seen+8); f > worst {
					worst, worstText = f, t
				}
				if msg != "" {
					r.Fail(kit.Replay{Kind: "work", EOF: eof, Message: msg + "; the text: " + string(js), Params: map[string]any{"text": string(js)}})
					return
				}
			}
		})
	}
	var ts []Text
	for _, l := range loops {
		for _, p := range pick {
			for _, n := range ns {
				ts = append(ts, Text{Pre: p, Loop: l, N: n, Tail: "78", Tails: 40})
			}
		}
	}
	calls("long clusters", fmt.Sprintf("%d prefixes x %d loops x counts %v", len(pick), len(loops), ns), ts, true)
	ts = nil
	for _, p := range pres {
		for _, q := range pres {
			for _, l := range append(append([]string{}, frags...), bad...) {
				ts = append(ts, Text{Pre: p, Loop: q, N: 1, Tail: l, Tails: 3000})
			}
		}
	}
	calls("short clusters in large buffers", fmt.Sprintf("%d x %d short starts x %d characters that fill the buffer", len(pres), len(pres), len(frags)+len(bad)), ts, false)
	ts = nil
	for _, p := range pres {
		for _, l := range append(append([]string{}, frags...), bad...) {
			ts = append(ts, Text{Pre: p, Tail: l, Tails: 40000})
		}
	}
	calls("short clusters in very large buffers", fmt.Sprintf("%d starts x %d characters that fill the buffer", len(pres), len(frags)+len(bad)), ts, true)
	r.Count("most_statements_per_byte", fmt.Sprintf("%.1f", worst))
	r.Count("most_bytes_allocated_by_a_call", worstBytes)
	r.Sample(map[string]any{"text": worstText, "statements_per_byte": worst})
	r.Finish()
}
