// oracledump prints the model's segmentation of generated texts, for comparison with another implementation
// (tools/validate_oracle.sh): every scalar value in contexts that tell all classes apart, and class words.
package main

import (
	"bufio"
	"fmt"
	"os"

	"verif.local/harness/spec"
	"verif.local/harness/ucd"
)

func main() {
	m := spec.NewModel()
	w := bufio.NewWriterSize(os.Stdout, 1<<20)
	defer w.Flush()
	emit := func(text []rune) {
		cs := make([]ucd.Class, len(text))
		for i, r := range text {
			cs[i] = ucd.Of(r)
		}
		for i, r := range text {
			if i > 0 && spec.Boundary(cs, i) {
				w.WriteByte('|')
			} else if i > 0 {
				w.WriteByte(' ')
			}
			fmt.Fprintf(w, "%x", r)
		}
		w.WriteByte('\n')
	}
	ls := ucd.Letters(false)
	pre := [][]int{{}, {0}, {1}, {7}, {9}, {10}, {11}, {12}, {13}, {6}, {14}, {14, 5}, {15}, {15, 16}}
	post := [][]int{{0}, {2}, {4}, {10}, {11}, {6}, {5, 14}, {15}, {16, 15}, {9}}
	for r := rune(0); r < 0x110000; r++ {
		if !ucd.Valid(r) {
			continue
		}
		var text []rune
		for _, p := range pre {
			for _, i := range p {
				text = append(text, ls[i].Rune)
			}
			text = append(text, r, 0)
		}
		for _, p := range post {
			text = append(text, r)
			for _, i := range p {
				text = append(text, ls[i].Rune)
			}
			text = append(text, 0)
		}
		emit(text)
	}
	var rec func(t []rune, n int)
	rec = func(t []rune, n int) {
		if n == 0 {
			emit(t)
			return
		}
		for _, l := range ls {
			rec(append(t, l.Rune), n-1)
		}
	}
	rec(nil, 4)
	// Longer: state words, times two letters, times two letters.
	for _, a := range m.Word {
		var t []rune
		for _, c := range a {
			t = append(t, ls[c].Rune)
		}
		rec(t, 3)
	}
}
