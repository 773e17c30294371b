package explore

import (
	"bytes"
	"sync"

	"verif.local/harness/kit"
	"verif.local/harness/spec"
	"verif.local/harness/ucd"
)

// The functions in this file decide which property a wrong answer breaks, by comparing the code under test with itself,
// so that, for example, a wrong boundary rule is not reported as a dependence on chunking.

func (x *X) adv(w *kit.Worker, b []byte, eof bool) int {
	w.Calls++
	a, _, _ := x.Scan(b, eof)
	return a
}

// tokens returns the ends of the clusters of b, or nil if the function makes no progress.
func (x *X) tokens(w *kit.Worker, b []byte) (ends []int) {
	for p := 0; p < len(b); {
		a := x.adv(w, b[p:], true)
		if a <= 0 || p+a > len(b) {
			return nil
		}
		p += a
		ends = append(ends, p)
	}
	return
}

// someRunes has all characters of classes other than Other, and some of Other.
var someRunes = sync.OnceValue(func() (ret []rune) {
	for r := rune(0x80); r < 0x110000; r++ {
		if ucd.Valid(r) && (ucd.Of(r) != ucd.Other || r&0xf == 0) {
			ret = append(ret, r)
		}
	}
	return
})

// ownsC03: the answer was given too early, because more input changes it.
func (x *X) ownsC03(w *kit.Worker, b []byte, eof bool, adv int) bool {
	if eof || adv == 0 {
		return false
	}
	if x.adv(w, b, true) != adv {
		return true
	}
	frags := append(Chars(true), Malformed()...)
	e := append([]byte{}, b...)
	for i := range frags {
		one := append(e[:len(b)], frags[i].Bytes...)
		if x.adv(w, one, true) != adv {
			return true
		}
		for j := range frags {
			if x.adv(w, append(one[:len(one):len(one)], frags[j].Bytes...), true) != adv {
				return true
			}
		}
	}
	// The rest of an incomplete sequence.
	for t := max(0, len(b)-3); t < len(b); t++ {
		if k, _ := spec.Structure(b[t:]); k != spec.Incomplete {
			continue
		}
		for _, r := range someRunes() {
			if s := string(r); len(s) > len(b)-t && s[:len(b)-t] == string(b[t:]) && x.adv(w, append(e[:t:t], s...), true) != adv {
				return true
			}
		}
	}
	return false
}

// ownsC05: well-formed text next to invalid bytes is split otherwise than it is on its own, or invalid bytes are not
// alone.
func (x *X) ownsC05(w *kit.Worker, b []byte, eof bool, adv int) bool {
	if !eof {
		// Bytes that may become a sequence say nothing yet.
		for t := max(0, len(b)-3); t < len(b); t++ {
			if k, _ := spec.Structure(b[t:]); k == spec.Incomplete {
				b = b[:t]
				break
			}
		}
	}
	var want []int
	invalid := false
	for p := 0; p < len(b); {
		q := p
		for q < len(b) {
			k, n := spec.Structure(b[q:])
			if k != spec.Strict {
				break
			}
			q += n
		}
		if q > p {
			for _, e := range x.tokens(w, b[p:q:q]) {
				want = append(want, p+e)
			}
		}
		if p = q; p < len(b) {
			invalid = true
			p++
			want = append(want, p)
		}
	}
	if !invalid || len(want) == 0 {
		return false
	}
	if !eof {
		return adv > 0 && adv != want[0] && want[0] < len(b)
	}
	got := x.tokens(w, b)
	if len(got) != len(want) {
		return true
	}
	for i := range got {
		if got[i] != want[i] {
			return true
		}
	}
	return false
}

// ownsC06: more input is asked for although the first cluster and what follows it are there.
func (x *X) ownsC06(w *kit.Worker, b []byte, eof bool, adv int) bool {
	if eof || adv > 0 || len(b) == 0 {
		return false
	}
	if k, _ := spec.Structure(b); k == spec.Invalid {
		return true
	}
	t := x.adv(w, b, true)
	if t <= 0 || t >= len(b) {
		return false
	}
	k, _ := spec.Structure(b[t:])
	return k != spec.Incomplete
}

// ownsC07: the same call gives something else in other circumstances.
func (x *X) ownsC07(w *kit.Worker, b []byte, eof bool, adv int) bool {
	c := append([]byte("xyz"), b...)[3:]
	x.adv(w, []byte("a"), false)
	x.adv(w, []byte("\nb"), true)
	return x.adv(w, c, eof) != adv || x.adv(w, c, eof) != adv
}

// confused reports for each class whether the code treats its characters exactly as it treats those of another class,
// after every kind of text and before every pair of characters.
func (x *X) confused(w *kit.Worker) (ret [ucd.NumClasses]bool) {
	ls := ucd.Letters(false)
	var sufs [][]byte
	sufs = append(sufs, nil)
	for i := range ls {
		sufs = append(sufs, ls[i].Bytes)
		for j := range ls {
			sufs = append(sufs, append(append([]byte{}, ls[i].Bytes...), ls[j].Bytes...))
		}
	}
	seen := map[string]int{}
	for c := range ls {
		var sig []byte
		for _, word := range x.M.Access {
			var pre []byte
			for _, k := range word {
				pre = append(pre, ls[k].Bytes...)
			}
			for _, suf := range sufs {
				t := append(append(append([]byte{}, pre...), ls[c].Bytes...), suf...)
				for _, e := range x.tokens(w, t) {
					if e > len(pre) {
						if e < len(pre)+len(ls[c].Bytes) {
							sig = append(sig, 0xfe)
							continue
						}
						e += 1 - len(ls[c].Bytes) // as if it were one byte
					}
					sig = append(sig, byte(e))
				}
				sig = append(sig, 0xff)
			}
			w.Beat()
		}
		if o, ok := seen[string(sig)]; ok {
			ret[o], ret[c] = true, true
		}
		seen[string(sig)] = c
	}
	return
}

// ownsC02: another character of the same class gives another result in the same place; or the code treats the whole
// class as another one.
func (x *X) ownsC02() func(w *kit.Worker, b []byte, eof bool, adv int) bool {
	var members [ucd.NumClasses][]rune
	for c := range members {
		var all []rune
		for r := rune(0); r < 0x110000; r++ {
			if ucd.Valid(r) && int(ucd.Of(r)) == c {
				all = append(all, r)
			}
		}
		const n = 24
		for i := 0; i < n; i++ {
			r := all[i*(len(all)-1)/(n-1)]
			if m := members[c]; len(m) == 0 || m[len(m)-1] != r {
				members[c] = append(m, r)
			}
		}
	}
	var once sync.Once
	var confused [ucd.NumClasses]bool
	return func(w *kit.Worker, b []byte, eof bool, adv int) bool {
		once.Do(func() { confused = x.confused(w) })
		n := len(string(w.Rune))
		if confused[ucd.Of(w.Rune)] {
			return true
		}
		if w.At+n > len(b) || adv > w.At && adv < w.At+n {
			return true
		}
		for _, r := range members[ucd.Of(w.Rune)] {
			v := append(append(append([]byte{}, b[:w.At]...), string(r)...), b[w.At+n:]...)
			want := adv
			if adv > w.At {
				want += len(string(r)) - n
			}
			if x.adv(w, v, eof) != want {
				return true
			}
		}
		return false
	}
}

// ownsC16: the same text with up to two repetitions is right.
func (x *X) ownsC16(w *kit.Worker, _ []byte, _ bool, _ int) bool {
	if w.N <= 2 {
		return false
	}
	for n := 0; n <= 2; n++ {
		b := append(append(append([]byte{}, w.Pre...), bytes.Repeat(w.Loop, n)...), w.Suf...)
		if len(b) == 0 {
			continue
		}
		if !x.M.First(b, false).Has(x.adv(w, b, false)) {
			return false
		}
		for p := 0; p < len(b); {
			a := x.adv(w, b[p:], true)
			if a <= 0 || !x.M.First(b[p:], true).Has(a) {
				return false
			}
			p += a
		}
	}
	return true
}
