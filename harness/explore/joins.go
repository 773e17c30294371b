package explore

import (
	"fmt"

	"verif.local/harness/kit"
	"verif.local/harness/ucd"
)

// members are the characters of the classes.
func members(cs ...ucd.Class) (ret []rune) {
	var mask uint32
	for _, c := range cs {
		mask |= 1 << c
	}
	for r := rune(0); r < 0x110000; r++ {
		if ucd.Valid(r) && mask>>ucd.Of(r)&1 == 1 {
			ret = append(ret, r)
		}
	}
	return
}

// spread returns about n of rs, with the first and the last.
func spread(rs []rune, n int) []rune {
	if len(rs) <= n {
		return rs
	}
	var ret []rune
	for i := 0; i < n; i++ {
		ret = append(ret, rs[i*(len(rs)-1)/(n-1)])
	}
	return ret
}

// Products segments every text that has one character of each set of a pattern.
func (x *X) Products(name, bound string, patterns [][][]rune) {
	type job struct{ pattern, split, i int }
	var jobs []job
	for p, sets := range patterns {
		split := 0
		for s := range sets {
			if len(sets[s]) > len(sets[split]) {
				split = s
			}
		}
		for i := range sets[split] {
			jobs = append(jobs, job{p, split, i})
		}
	}
	x.Parallel(name, fmt.Sprintf("%d patterns: %s", len(patterns), bound), len(jobs), func(w *kit.Worker, n int) {
		j := jobs[n]
		sets := patterns[j.pattern]
		var buf [64]byte
		var rec func(d, pos int) bool
		rec = func(d, pos int) bool {
			if d == len(sets) {
				w.S["texts"]++
				return x.segment(w, buf[:pos], nil)
			}
			if x.Stopped() {
				return false
			}
			if d == j.split {
				return rec(d+1, pos+copy(buf[pos:], string(sets[d][j.i])))
			}
			for _, r := range sets[d] {
				if !rec(d+1, pos+copy(buf[pos:], string(r))) {
					return false
				}
			}
			return true
		}
		rec(0, 0)
	})
}

// Joins covers the rules that involve more than two characters with all their members.
func (x *X) Joins(name string) {
	few := 2
	if x.Thorough {
		few = 6
	}
	var (
		c, k, e    = members(ucd.Consonant), members(ucd.Linker), members(ucd.Extend, ucd.ZWJ)
		c1, k1, e1 = spread(c, few), spread(k, few), spread(e, few)
		p, p1      = members(ucd.ExtPict), spread(members(ucd.ExtPict), few)
		ext        = members(ucd.Extend, ucd.ExtendPlain, ucd.Linker)
		z, ri      = []rune{0x200d}, members(ucd.RI)
		pre, sp    = members(ucd.Prepend), members(ucd.SpacingMark)
		l, v, t    = members(ucd.L), members(ucd.V), members(ucd.T)
		lv, lvt    = members(ucd.LV), members(ucd.LVT)
		l1, v1, t1 = spread(l, few), spread(v, few), spread(t, few)
	)
	pat := func(sets ...[]rune) [][]rune { return sets }
	x.Products(name, "of all consonants and linkers; of all pictographs around ZWJ; of all extending characters within both; of four regional indicators; of all jamo and syllables; of prepended characters and spacing marks", [][][]rune{
		pat(c, k, c), pat(c1, e, k1, c), pat(c1, k1, e, c), pat(c, e, k1, c1[:1]), pat(c1, k, e, k), pat(c1, e, e, k1[:1], c1[:1]), pat(c1[:1], k1[:1], e, e, c1[:1]), pat(c1, k, k, k, c1),
		pat(c, sp, k1, c1), pat(c, k1, sp, c1), pat(c1, sp, k, c), pat(pre, c, k, c1),
		pat(p, z, p), pat(p1[:1], ext, z, p), pat(p, ext, z, p1[:1]), pat(p1, ext, ext, z, p1[:1]), pat(p, z, z, p1), pat(p, z, ext, p1[:1]), pat(p1, sp, z, p), pat(pre, p, z, p1), pat(p1, z, p, z, p1),
		pat(ri, ri, ri, ri), pat(pre, ri, ri, ri), pat(ri, ext, ri, ri), pat(ri, z, ri, ri), pat(ri, ri, ext, ri),
		pat(l, v, t), pat(l, l, v), pat(l, l, l, v1[:1]), pat(l, lv, t1), pat(l1, lv, t), pat(l1, lv, v), pat(lv, v, t1), pat(lv, v1, t), pat(lv, t, t1), pat(lv, t1, t), pat(lvt, t, t1), pat(lvt, t1, t), pat(l, lvt, t1), pat(l1, lvt, t1), pat(v, v, t), pat(v, t, t), pat(v, v, v), pat(t, t, t), pat(lvt, v, t1), pat(t, v, t), pat(l, t, v1), pat(v, l, v),
		pat(pre, pre, pre), pat(pre, pre, sp), pat(pre, sp, ext), pat(pre, l, v), pat(pre, []rune{'\r', '\n', 0x85, 'a', 0x4e00, 0xac00}, ext), pat([]rune{'\r'}, []rune{'\n'}, ext), pat(sp, sp, e1), pat(ext, sp, z),
	})
}

// Famous are characters that programs treat specially, and those that emoji sequences consist of.
var Famous = []rune{
	'\t', '\n', '\r', ' ', '#', '*', '0', '9', 'A', 'e', 0x7f, 0x85, 0xa0, 0xa9, 0xad, 0x300, 0x301, 0x34f, 0x600, 0x6dd, 0x903, 0x915, 0x937, 0x93c, 0x93f, 0x94d, 0x9cd, 0xb95, 0xbcd, 0xd15, 0xd4d, 0xe33, 0xe49, 0x1100, 0x1160, 0x11a8,
	0x1039, 0x17d2, 0x180e, 0x2028, 0x200b, 0x200c, 0x200d, 0x200e, 0x2060, 0x20e3, 0x2122, 0x2640, 0x2642, 0x2695, 0x26f9, 0x2764, 0x3030, 0x3042, 0x302a, 0x4e00, 0xac00, 0xac01, 0xfe0e, 0xfe0f, 0xfeff, 0xff9e, 0xfffd, 0xffff,
	0x1f1e6, 0x1f1fa, 0x1f1f8, 0x1f308, 0x1f3f3, 0x1f3f4, 0x1f3fb, 0x1f3ff, 0x1f468, 0x1f469, 0x1f466, 0x1f48b, 0x1f525, 0x1f5e8, 0x1f600, 0x1f91d, 0x1f9b0, 0x1f9d1, 0x1faef, 0xe0001, 0xe0020, 0xe0067, 0xe007f, 0xe0100, 0x10ffff,
}

// WellKnown are the letters of Famous.
func WellKnown() (ret []ucd.Letter) {
	for _, r := range Famous {
		ret = append(ret, ucd.NewLetter(r))
	}
	return
}

func famous() (ret []Frag) {
	for _, l := range WellKnown() {
		ret = append(ret, Frag{fmt.Sprintf("U+%04X", l.Rune), l.Bytes, true})
	}
	return
}

// some returns every n-th of ls.
func some(ls []ucd.Letter, n int) (ret []ucd.Letter) {
	for i := 0; i < len(ls); i += n {
		ret = append(ret, ls[i])
	}
	return
}

// Empty calls with no input at all, in every form and after calls of all kinds: no token and no error, or else
// bufio.Scanner would return empty tokens without end.
func (x *X) Empty(name string) {
	before := append(append([][]byte{nil}, bytesOf(Chars(false))...), bytesOf(Malformed())...)
	x.ParallelN(name, fmt.Sprintf("5 forms of no input x 2 EOF values, first, and after each of %d calls", 2*len(before)), 1, 1, func(w *kit.Worker, _ int) {
		var arr [8]byte
		for i := range before {
			for _, eof := range []bool{false, true} {
				if len(before[i]) > 0 {
					x.Scan(before[i], eof)
				}
				for f, data := range [][]byte{nil, {}, arr[:0], arr[8:], arr[4:4:4]} {
					for _, eof := range []bool{false, true} {
						w.Data, w.EOF = data, eof
						w.Calls++
						w.S["empty_inputs"]++
						adv, tok, err := x.Scan(data, eof)
						if adv != 0 || tok != nil || err != nil {
							w.Note = fmt.Sprintf("(no input, in form %d)", f)
							x.failScan(w, data, eof, fmt.Sprintf("advance %d, token %#v, err %v; want 0, nil, nil", adv, tok, err))
							return
						}
					}
				}
			}
		}
	})
}

// Beside segments every scalar value together with every one of rs, in both orders.
func (x *X) Beside(name, bound string, rs []rune) {
	m := x.M
	enc := make([]string, len(rs))
	class := make([]ucd.Class, len(rs))
	for i, r := range rs {
		enc[i], class[i] = string(r), ucd.Of(r)
	}
	const step = 1 << 9
	x.Parallel(name, fmt.Sprintf("every scalar value before and after each of %d characters: %s", len(rs), bound), 0x110000/step, func(w *kit.Worker, job int) {
		var buf, back [8]byte
		for r := rune(job * step); r < rune((job+1)*step); r++ {
			if !ucd.Valid(r) {
				continue
			}
			if x.Stopped() {
				return
			}
			s, c := string(r), ucd.Of(r)
			n := copy(buf[:], s)
			for i, e := range enc {
				end := n + copy(buf[n:], e)
				want := end
				if m.Break[c]>>class[i]&1 == 1 {
					want = n
				}
				if adv := x.call(w, buf[:end], true); adv != want && x.wrong(w, buf[:end], true, adv, fmt.Sprintf("advance %d, want %d", adv, want)) {
					return
				}
				p := copy(back[:], e)
				copy(back[p:], s)
				if want = end; m.Break[class[i]]>>c&1 == 1 {
					want = p
				}
				if adv := x.call(w, back[:end], true); adv != want && x.wrong(w, back[:end], true, adv, fmt.Sprintf("advance %d, want %d", adv, want)) {
					return
				}
			}
		}
		w.S["pairs"] += 2 * step * uint64(len(rs))
	})
}

// neighbours are characters that others are often found next to: well-known ones, the blocks of combining marks for
// general use, variation selectors, skin tones and some tags; or, if all is set, everything that is not Other or
// precomposed Hangul.
func neighbours(all bool) (ret []rune) {
	for r := rune(0); r < 0x110000; r++ {
		if c := ucd.Of(r); ucd.Valid(r) && all && c != ucd.Other && c != ucd.LV && c != ucd.LVT && (c != ucd.Control || r < 0xe0000) {
			ret = append(ret, r)
		}
	}
	if all {
		return append(ret, 0xe0000, 0xe0001, 0xe0080, 0xe01f0, 0xe0fff, 0xac00, 0xac01)
	}
	for _, l := range WellKnown() {
		ret = append(ret, l.Rune)
	}
	for _, b := range [][2]rune{{0x300, 0x36f}, {0x483, 0x489}, {0x20d0, 0x20f0}, {0x3099, 0x309a}, {0xfe00, 0xfe0f}, {0xfe20, 0xfe2f}, {0xff9e, 0xff9f}, {0x1f3fb, 0x1f3ff}, {0xe0100, 0xe0103}, {0xe007e, 0xe007f}, {0x1f1e6, 0x1f1ff}} {
		for r := b[0]; r <= b[1]; r++ {
			ret = append(ret, r)
		}
	}
	return
}
