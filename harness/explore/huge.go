package explore

import (
	"fmt"

	"verif.local/harness/kit"
)

// Huge calls with very large buffers: repetitions of each loop, where each buffer of about 2^k bytes is the end of the
// buffer of 2^(k+1) bytes. The memory is the same few pages mapped many times, so that sizes beyond 32 bits cost only time.
func (x *X) Huge(name string, loops [][]byte, from, to int) {
	if !canAlias {
		return
	}
	suffixes := [][]byte{nil, []byte("a"), []byte("\u0301"), {0xe2}}
	x.Parallel(name, fmt.Sprintf("%d loops x up to %d suffixes x buffers of at least 2^%d .. 2^%d bytes", len(loops), len(suffixes), from, to), len(loops), func(w *kit.Worker, job int) {
		lp := loops[job]
		for si, s := range suffixes {
			if si > 0 && to > 28 {
				break
			}
			b, free := alias(lp, 1<<to+len(lp), s)
			func() {
				defer free()
				for k := from; k <= to; k++ {
					for more := 0; more < 2; more++ {
						if k > 20 && (more == 0 || si%2 == 1) {
							continue
						}
						n := 1<<k/len(lp) + more // with more, just beyond 2^k, so that int32(len) and the like are small
						at := len(b) - n*len(lp) - len(s)
						w.Pre, w.Loop, w.N, w.Suf = nil, lp, n, s
						w.Note = fmt.Sprintf("(%x, %d times, then %x)", lp, n, s)
						w.S["texts"]++
						for i := 0; i < 3 && at < len(b); i++ {
							if x.Stopped() {
								return
							}
							if k <= 28 && x.first(w, b[at:], false) < 0 {
								return
							}
							adv := x.first(w, b[at:], true)
							w.Beat()
							if adv <= 0 {
								return
							}
							at += adv
						}
						w.Note = ""
					}
				}
			}()
		}
		w.Pre, w.Loop, w.N, w.Suf = nil, nil, 0, nil
	})
}
