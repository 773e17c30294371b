package explore

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime/debug"
	"strconv"
	"strings"
	"time"

	"verif.local/harness/kit"
	"verif.local/harness/spec"
)

// ReplayRef is ReplayFile with another function as the oracle.
func ReplayRef(path string, scan, ref ScanFunc) int {
	raw, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var v kit.Replay
	if err := json.Unmarshal(raw, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	b, err := hex.DecodeString(v.Data)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer func() {
		if p := recover(); p != nil {
			fmt.Println("panic:", p)
			os.Exit(1)
		}
	}()
	adv, tok, err := scan(b, v.EOF)
	adv2, tok2, err2 := ref(b, v.EOF)
	fmt.Println(adv, tok, err, adv2, tok2, err2)
	if adv != adv2 || string(tok) != string(tok2) || (tok == nil) != (tok2 == nil) || err != err2 || len(tok) > 0 && &tok[0] != &tok2[0] {
		return 1
	}
	return 0
}

// ReplayFile runs a recorded violation again, without an explorer. Exit code 1: it happened again. 0: it did not.
func ReplayFile(path string, scan ScanFunc) int {
	raw, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var v kit.Replay
	if err := json.Unmarshal(raw, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	b, err := hex.DecodeString(v.Data)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	m := spec.NewModel()
	if v.Kind == "reach" {
		debug.SetPanicOnFault(true)
		if adv, msg := reach(scan, newGuarded(), b, v.EOF); msg != "" {
			fmt.Println(msg, adv)
			return 1
		}
		return 0
	}
	switch v.Kind {
	case "time":
		w := &kit.Worker{S: map[string]uint64{}}
		if pos := timed(w, scan, bytes.Repeat(b, 1<<20/len(b)), 4*time.Second); pos >= 0 {
			fmt.Println("too slow, got to", pos)
			return 1
		}
		return 0
	case "bufio":
		return replayBufio(m, scan, b, v.Params)
	case "history":
		return replayHistory(scan, v.Params)
	}
	if h, _ := v.Params["loop_hex"].(string); h != "" {
		pre, _ := v.Params["prefix_hex"].(string)
		suf, _ := v.Params["suffix_hex"].(string)
		n, _ := v.Params["times"].(float64)
		unhex := func(s string) []byte { b, _ := hex.DecodeString(s); return b }
		b = append(append(unhex(pre), bytes.Repeat(unhex(h), int(n))...), unhex(suf)...)
	}
	quiet := len(b) > 1<<16
	bad := false
	if len(b) == 0 && v.Kind == "scan" {
		for _, data := range [][]byte{nil, {}, make([]byte, 8)[8:]} {
			for _, eof := range []bool{false, true} {
				adv, tok, err := scan(data, eof)
				fmt.Printf("no input, eof=%v: advance %d token %#v err %v\n", eof, adv, tok, err)
				bad = bad || adv != 0 || tok != nil || err != nil
			}
		}
	}
	for _, eof := range []bool{v.EOF, !v.EOF} {
		if eof != v.EOF && v.Kind == "scan" {
			break
		}
		for pos := 0; pos < len(b); {
			adv, tok, err := scan(b[pos:], eof)
			acc := m.First(b[pos:], eof)
			ok := acc.Has(adv) && err == nil && len(tok) == adv && (adv > 0 || tok == nil)
			if !ok || !quiet {
				fmt.Printf("offset %d eof=%v: advance %d err %v, allowed %v: %v\n", pos, eof, adv, err, acc, ok)
			}
			if !ok {
				bad = true
			}
			if adv <= 0 || !ok {
				break
			}
			pos += adv
		}
	}
	if bad {
		return 1
	}
	return 0
}

// replayBufio runs one scanner again.
func replayBufio(m *spec.Model, scan ScanFunc, b []byte, params map[string]any) int {
	num := func(k string, def int) int {
		if f, ok := params[k].(float64); ok {
			return int(f)
		}
		return def
	}
	r := &script{data: b, failAt: num("fail_at", len(b)), err: io.EOF, empty: num("empty", -1)}
	if s, _ := params["cuts"].(string); s != "" {
		fmt.Sscanf(s, "%b", &r.cuts)
	}
	r.withIt, _ = params["error_with_data"].(bool)
	if s, _ := params["error"].(string); s == errRead.Error() {
		r.err = errRead
	}
	x := &X{Run: kit.New("", false, os.DevNull, time.Hour), M: m, Scan: scan}
	w := &kit.Worker{Run: x.Run, S: map[string]uint64{}}
	want := x.direct(w, b[:r.failAt])
	if limit := num("limit", 0); limit > 0 {
		x.runLimited(w, r, limit, want)
	} else {
		x.runScanner(w, r, num("buffer", 0), want)
	}
	if x.Failed() {
		fmt.Println("the scanner's tokens are wrong again")
		return 1
	}
	return 0
}

// replayHistory makes a sequence of calls again, and the last of them alone, in a process of its own.
func replayHistory(scan ScanFunc, params map[string]any) int {
	calls, _ := params["calls"].([]any)
	if len(calls) == 0 {
		return 2
	}
	results := func(calls []any) (ret []int) {
		shared := make([]byte, 64)
		for _, c := range calls {
			s, _ := c.(string)
			h, e, _ := strings.Cut(s, "/")
			b, _ := hex.DecodeString(h)
			n := copy(shared, b)
			adv, _, _ := scan(shared[:n], e == "true")
			ret = append(ret, adv)
		}
		return
	}
	if os.Getenv("REPLAY_ALONE") != "" {
		fmt.Println(results(calls[len(calls)-1:])[0])
		return 0
	}
	got := results(calls)
	cmd := exec.Command(os.Args[0], os.Args[1:]...)
	cmd.Env = append(os.Environ(), "REPLAY_ALONE=1")
	out, err := cmd.Output()
	alone, err2 := strconv.Atoi(strings.TrimSpace(string(out)))
	fmt.Println("results", got, "the last call alone:", alone, err, err2)
	if err != nil || err2 != nil {
		return 2
	}
	if alone != got[len(got)-1] {
		return 1
	}
	return 0
}
