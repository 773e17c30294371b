package explore

import (
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"

	"verif.local/harness/kit"
	"verif.local/harness/spec"
	"verif.local/harness/ucd"
)

// A telling context tells two classes apart.
type telling struct{ before, after []byte }

// tell returns, for each pair of classes, contexts in which the first of them is split otherwise than the second: with
// what is before (at most one character), and after (at most two). first: the difference is in the first cluster.
// With near set, the second class itself stands before that.
func tell(near bool) (ret [ucd.NumClasses][ucd.NumClasses][]telling) {
	ls := ucd.Letters(false)
	var words [][]ucd.Class
	words = append(words, nil)
	for i := range ls {
		words = append(words, []ucd.Class{ucd.Class(i)})
		for j := range ls {
			words = append(words, []ucd.Class{ucd.Class(i), ucd.Class(j)})
		}
	}
	var befores [][]ucd.Class
	for _, w := range words {
		if len(w) < 2 {
			befores = append(befores, w)
		}
	}
	enc := func(w []ucd.Class) (b []byte) {
		for _, c := range w {
			b = append(b, ls[c].Bytes...)
		}
		return
	}
	bounds := func(text []ucd.Class) (v uint) {
		for i := 1; i < len(text); i++ {
			if spec.Boundary(text, i) {
				v |= 1 << i
				if !near {
					return // only the first cluster counts
				}
			}
		}
		return
	}
	for a := range ls {
		for b := range ls {
			if a == b {
				continue
			}
			one := func(before []ucd.Class) bool {
				for _, after := range words {
					var t, u []ucd.Class
					if near {
						t, u = append(t, ucd.Class(b)), append(u, ucd.Class(b))
					}
					t, u = append(append(t, before...), ucd.Class(a)), append(append(u, before...), ucd.Class(b))
					t, u = append(t, after...), append(u, after...)
					if bounds(t) != bounds(u) {
						ret[a][b] = append(ret[a][b], telling{enc(before), enc(after)})
						return true
					}
				}
				return false
			}
			for _, w := range befores {
				if one(w) && len(ret[a][b]) == 3 {
					break
				}
			}
		}
	}
	return
}

// flips calls f for all pairs of scalar values of different classes that differ in one bit, or by a power of two.
func flips(from, to rune, f func(r, other rune) bool) {
	for r := from; r < to; r++ {
		if !ucd.Valid(r) {
			continue
		}
		c := ucd.Of(r)
		for k := 0; k < 21; k++ {
			for way := 0; way < 3; way++ {
				o := r ^ 1<<k
				switch {
				case way == 1 && r>>k&1 == 1:
					o = r + 1<<k
				case way == 2 && r>>k&1 == 0:
					o = r - 1<<k
				case way > 0:
					continue // the same as the flip
				}
				if !ucd.Valid(o) || ucd.Of(o) == c {
					continue
				}
				if !f(r, o) {
					return
				}
			}
		}
	}
}

const flipBound = "every pair of scalar values of different classes that differ in one bit or by a power of two, in contexts that tell the classes apart"

// Near runs texts in which such a pair is close together.
func (x *X) Near(name string) {
	tells := tell(true)
	const step = 0x400
	x.Parallel(name, flipBound+", one shortly after the other", 0x110000/step, func(w *kit.Worker, job int) {
		var buf [64]byte
		flips(rune(job*step), rune((job+1)*step), func(r, o rune) bool {
			if x.Stopped() {
				return false
			}
			w.S["pairs"]++
			for _, t := range tells[ucd.Of(r)][ucd.Of(o)] {
				b := append(append(append(append(buf[:0], string(o)...), t.before...), string(r)...), t.after...)
				at := len(string(o)) + len(t.before)
				for pos := 0; pos <= at; {
					w.Rune, w.At = r, at-pos
					adv := x.first(w, b[pos:], true)
					if adv <= 0 {
						return false
					}
					pos += adv
				}
			}
			return true
		})
	})
}

// Far makes a call with one of such a pair, and then a call with the other.
func (x *X) Far(name string) {
	tells := tell(false)
	x.ParallelN(name, flipBound+": one in one call, the other in the next", 1, 1, func(w *kit.Worker, _ int) {
		var shared [64]byte
		judged := 0
		flips(0, 0x110000, func(r, o rune) bool {
			if x.Stopped() {
				return false
			}
			w.S["pairs"]++
			for _, t := range tells[ucd.Of(r)][ucd.Of(o)] {
				b := append(append(append(shared[:0], t.before...), string(o)...), t.after...)
				first := fmt.Sprintf("%x/true", b)
				if x.call(w, b, true) < 0 {
					return false
				}
				b = append(append(append(shared[:0], t.before...), string(r)...), t.after...)
				adv := x.call(w, b, true)
				if adv < 0 {
					return false
				}
				if !x.M.First(b, true).Has(adv) {
					if judged++; judged > 300 {
						x.Incomplete()
						return false
					}
					if x.dependent(w, []string{first, fmt.Sprintf("%x/true", b)}, adv) {
						return false
					}
				}
			}
			return true
		})
	})
}

// dependent runs a history in a process of its own and reports the failure if its last call depends on the others.
func (x *X) dependent(w *kit.Worker, calls []string, adv int) bool {
	v := kit.Replay{Kind: "history", Message: fmt.Sprintf("the last of the calls %v advances %d, but otherwise when it is made alone", calls, adv), Params: map[string]any{"calls": calls}}
	raw, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	path := filepath.Join(os.TempDir(), fmt.Sprintf("history-%d.json", os.Getpid()))
	if err := os.WriteFile(path, raw, 0o600); err != nil {
		panic(err)
	}
	defer os.Remove(path)
	w.Beat()
	err = exec.Command(os.Args[0], "replay", path).Run()
	w.Beat()
	var e *exec.ExitError
	if err == nil || !errors.As(err, &e) || e.ExitCode() != 1 {
		w.S["deviations_of_other_properties"]++
		return false
	}
	v.Data = hex.EncodeToString([]byte(calls[len(calls)-1]))
	x.Fail(v)
	return true
}

// Again makes one call very often, and then all others.
func (x *X) Again(name string, inputs [][]byte, times int) {
	x.ParallelN(name, fmt.Sprintf("each of %d inputs x 2 EOF values %d times, and after that all others", len(inputs), times), 1, 1, func(w *kit.Worker, _ int) {
		var shared [64]byte
		ref := map[string]int{}
		for round := 0; round < 2; round++ {
			for i := range inputs {
				for _, eof := range []bool{false, true} {
					b := shared[:copy(shared[:], inputs[i])]
					key := fmt.Sprintf("%x/%v", inputs[i], eof)
					for n := 0; n < times; n++ {
						adv := x.call(w, b, eof)
						if adv < 0 || x.Stopped() {
							return
						}
						want, ok := ref[key]
						if !ok {
							ref[key], want = adv, adv
						}
						if adv != want {
							calls := make([]string, n+1)
							for k := range calls {
								calls[k] = key
							}
							x.Fail(kit.Replay{Kind: "history", Data: hex.EncodeToString(b), EOF: eof, Message: fmt.Sprintf("the call advances %d, but %d when it was first made (call %d)", adv, want, n), Params: map[string]any{"calls": calls}})
							return
						}
					}
				}
			}
		}
	})
}
