// lookup checks internal package charprops: lookup C02|C13|C14 quick|thorough RESULT.json, or lookup replay FILE.
package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"strings"
	"time"

	"github.com/apparentlymart/go-textseg/v17/textseg/internal/charprops"
	"verif.local/harness/kit"
	"verif.local/harness/spec"
	"verif.local/harness/ucd"
)

var gcbOf = map[string]charprops.GCBProperty{
	"Other": charprops.GCBNone, "CR": charprops.GCBCR, "LF": charprops.GCBLF, "Control": charprops.GCBControl, "Extend": charprops.GCBExtend,
	"ZWJ": charprops.GCBZWJ, "Regional_Indicator": charprops.GCBRegionalIndicator, "Prepend": charprops.GCBPrepend, "SpacingMark": charprops.GCBSpacingMark,
	"L": charprops.GCBL, "V": charprops.GCBV, "T": charprops.GCBT, "LV": charprops.GCBLV, "LVT": charprops.GCBLVT,
}
var incbOf = map[string]charprops.InCBProperty{"None": charprops.InCBNone, "Extend": charprops.InCBExtend, "Linker": charprops.InCBLinker, "Consonant": charprops.InCBConsonant}

func want(c ucd.Class) (charprops.GCBProperty, charprops.InCBProperty) {
	g := gcbOf[c.GCB()]
	if c == ucd.ExtPict {
		g = charprops.GCBExtendedPictographic
	}
	return g, incbOf[c.InCB()]
}

// judge checks one buffer (of at most cap 16 bytes in use) and returns a description of what is wrong.
func judge(b []byte) string {
	props, n := charprops.LookupFirstChar(b)
	if len(b) == 0 {
		if n != 0 || props == charprops.Error {
			return fmt.Sprintf("empty buffer: (%v, %d)", props, n)
		}
		return ""
	}
	k, m := spec.Structure(b)
	switch k {
	case spec.Invalid:
		if props != charprops.Error || n != 1 {
			return fmt.Sprintf("(%v, %d), want (Error, 1)", props, n)
		}
	case spec.Incomplete:
		if n != 0 || props == charprops.Error {
			return fmt.Sprintf("(%v, %d), want incomplete: length 0", props, n)
		}
	default:
		if n != m || props == charprops.Error {
			return fmt.Sprintf("(%v, %d), want a sequence of length %d", props, n, m)
		}
	}
	return ""
}

func full(b []byte) string {
	if s := judge(b); s != "" {
		return s
	}
	if len(b) == 0 {
		return ""
	}
	// Only the bytes of the sequence matter.
	props, n := charprops.LookupFirstChar(b)
	if n > 0 && props != charprops.Error {
		exact := append(make([]byte, 0, n), b[:n]...)
		p2, n2 := charprops.LookupFirstChar(exact)
		if p2 != props || n2 != n {
			return fmt.Sprintf("(%v, %d), but (%v, %d) if nothing follows the sequence", props, n, p2, n2)
		}
	}
	if k, m, c := spec.Unit(b); k == spec.Strict {
		g, i := want(c)
		if props.GCBProperty() != g || props.InCBProperty() != i || n != m {
			return fmt.Sprintf("(%v, %v, %d), want (%v, %v, %d)", props.GCBProperty(), props.InCBProperty(), n, g, i, m)
		}
	}
	return ""
}

func short(b []byte) string {
	if len(b) > 64 {
		return fmt.Sprintf("% x ..., %d bytes", b[:16], len(b))
	}
	return fmt.Sprintf("% x", b)
}

func fail(r *kit.Run, kind string, b []byte, msg string) {
	r.Fail(kit.Replay{Kind: kind, Data: hex.EncodeToString(b), Message: fmt.Sprintf("LookupFirstChar(%s): %s", short(b), msg),
		GoTest: fmt.Sprintf("package charprops\n\nimport \"testing\"\n\nfunc TestReplay(t *testing.T) {\n\tp, n := LookupFirstChar([]byte(%+q))\n\tt.Fatalf(\"got %%v, %%d: %%s\", p, n, %q)\n}\n", b, msg)})
}

// c02: every scalar value, followed by various bytes.
func c02(r *kit.Run) {
	after := [][]byte{nil, {'a'}, {0x80}, {0xff}, {0xcc, 0x81}, {0xbf, 0xbf, 0xbf, 0xbf}}
	const step = 0x400
	r.Parallel("lookup of every scalar value", fmt.Sprintf("all 1112064 scalar values x %d following byte strings", len(after)), 0x110000/step, func(w *kit.Worker, job int) {
		var buf [16]byte
		for c := rune(job * step); c < rune((job+1)*step); c++ {
			if !ucd.Valid(c) {
				continue
			}
			if r.Stopped() {
				return
			}
			w.S["scalar_values"]++
			g, i := want(ucd.Of(c))
			p := copy(buf[:], string(c))
			for _, a := range after {
				b := buf[:p+copy(buf[p:], a)]
				w.Data = b
				w.Calls++
				props, n := charprops.LookupFirstChar(b)
				if props.GCBProperty() != g || props.InCBProperty() != i || n != p {
					fail(r, "lookup", b, fmt.Sprintf("U+%04X: (%v, %v, %d), want (%v, %v, %d)", c, props.GCBProperty(), props.InCBProperty(), n, g, i, p))
					return
				}
			}
		}
	})
	for _, c := range []rune{'a', 0x1f1e6, 0x94d, 0x200c, 0xac01} {
		props, n := charprops.LookupFirstChar([]byte(string(c)))
		r.Sample(map[string]any{"character": fmt.Sprintf("U+%04X", c), "properties": props.String(), "length": n})
	}
}

func keyBytes() []byte {
	return []byte{0x61, 0x0d, 0x00, 0x7f, 0x80, 0x8d, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xcc, 0xdf, 0xe0, 0xe2, 0xed, 0xef, 0xf0, 0xf3, 0xf4, 0xf5, 0xf7, 0xf8, 0xff}
}

// c13: delimiting.
func c13(r *kit.Run) {
	r.ParallelN("empty and nil", "the empty buffer", 1, 1, func(w *kit.Worker, _ int) {
		for _, b := range [][]byte{nil, {}, []byte("\xe2\x80")[:0]} {
			w.Calls++
			w.S["buffers"]++
			if s := judge(b); s != "" {
				fail(r, "lookup", b, s)
			}
		}
	})
	// Every string of four bytes and all of its prefixes. A complete sequence must give what its own bytes give.
	r.Parallel("all buffers of 1 to 4 bytes", "every byte string of length 1..4 (2^32 of length 4)", 0x10000, func(w *kit.Worker, job int) {
		var buf [12]byte
		copy(buf[4:], "\x80\x80\x80\x80\x80\x80\x80\x80") // beyond the slice
		buf[0], buf[1] = byte(job>>8), byte(job)
		w.Data = buf[:4]
		try := func(b []byte) (charprops.CharProperties, int, bool) {
			w.Calls++
			props, n := charprops.LookupFirstChar(b)
			k, m := spec.Structure(b)
			ok := false
			switch k {
			case spec.Invalid:
				ok = props == charprops.Error && n == 1
			case spec.Incomplete:
				ok = props != charprops.Error && n == 0
			default:
				ok = props != charprops.Error && n == m
			}
			if !ok {
				fail(r, "lookup", b, judge(b))
			}
			return props, n, ok
		}
		p1, n1, ok := try(buf[:1])
		if !ok {
			return
		}
		p2, n2, ok := try(buf[:2])
		if !ok {
			return
		}
		differ := func(n int) { fail(r, "lookup", buf[:n], "not the same as without the trailing bytes") }
		if n1 > 0 && (p1 != p2 || n1 != n2) {
			differ(2)
			return
		}
		if job&0xff == 0 {
			w.S["buffers"]++
		}
		w.S["buffers"] += 1 + 256 + 65536
		for c := 0; c < 256; c++ {
			if r.Stopped() {
				return
			}
			buf[2] = byte(c)
			p3, n3, ok := try(buf[:3])
			if !ok {
				return
			}
			if n2 > 0 && (p2 != p3 || n2 != n3) {
				differ(3)
				return
			}
			for d := 0; d < 256; d++ {
				buf[3] = byte(d)
				p4, n4, ok := try(buf[:4])
				if !ok {
					return
				}
				if n3 > 0 && (p3 != p4 || n3 != n4) {
					differ(4)
					return
				}
			}
		}
	})
	kb := keyBytes()
	depth := 5
	if r.Thorough {
		depth = 7
	}
	r.Parallel("longer buffers", fmt.Sprintf("every string of %d bytes over %d key bytes", depth, len(kb)), len(kb)*len(kb), func(w *kit.Worker, job int) {
		buf := make([]byte, depth)
		buf[0], buf[1] = kb[job/len(kb)], kb[job%len(kb)]
		w.Data = buf
		var rec func(d int)
		rec = func(d int) {
			if d == depth {
				w.Calls++
				w.S["buffers"]++
				if s := full(buf); s != "" {
					fail(r, "lookup", buf, s)
				}
				return
			}
			if r.Stopped() {
				return
			}
			for _, c := range kb {
				buf[d] = c
				rec(d + 1)
			}
		}
		rec(2)
	})
	// Every sequence of the key bytes up to 4, in buffers of every length up to 70 and around powers of two.
	lens := []int{}
	for i := 4; i <= 70; i++ {
		lens = append(lens, i)
	}
	lens = append(lens, 127, 128, 255, 256, 257, 511, 512, 1023, 1024, 4095, 4096, 4097, 65535, 65536, 65537, 1<<20, 1<<20+1, 1<<21+1)
	r.Parallel("long buffers", fmt.Sprintf("every string of 4 key bytes at the start of buffers of %d lengths up to %d, with 3 fillings, with and without memory after them", len(lens), lens[len(lens)-1]), len(lens), func(w *kit.Worker, job int) {
		for _, f := range []byte{'a', 0x80, 0xff} {
			b := make([]byte, lens[job], lens[job]+5000*int(f>>7)*int(f&1^1))
			for i := range b {
				b[i] = f
			}
			w.Data = b[:4]
			n := len(kb)
			for i := 0; i < n*n*n*n; i++ {
				b[0], b[1], b[2], b[3] = kb[i%n], kb[i/n%n], kb[i/n/n%n], kb[i/n/n/n]
				w.Calls++
				w.S["buffers"]++
				if s := judge(b); s != "" {
					fail(r, "lookup", append([]byte{}, b...), s)
					return
				}
				if p, n := charprops.LookupFirstChar(b); n > 0 && p != charprops.Error {
					if p2, n2 := charprops.LookupFirstChar(b[:n:n]); p2 != p || n2 != n {
						fail(r, "lookup", append([]byte{}, b...), fmt.Sprintf("(%v, %d), but (%v, %d) if nothing follows the sequence", p, n, p2, n2))
						return
					}
				}
			}
			if r.Stopped() {
				return
			}
		}
	})
	for _, s := range []string{"a", "\xe2", "\xe2\x41", "\xe2\x82\xac!", "\xf7\xbf\xbf\xbf", "\xf8", "\xc2"} {
		props, n := charprops.LookupFirstChar([]byte(s))
		r.Sample(map[string]any{"buffer": fmt.Sprintf("%+q", s), "properties": props.String(), "length": n})
	}
}

type gcb struct {
	v    charprops.GCBProperty
	name string
}

var gcbs = []gcb{
	{charprops.GCBNone, ""}, {charprops.GCBCR, "CR"}, {charprops.GCBControl, "Control"}, {charprops.GCBExtend, "Extend"}, {charprops.GCBExtendedPictographic, ""},
	{charprops.GCBL, "L"}, {charprops.GCBLF, "LF"}, {charprops.GCBLV, "LV"}, {charprops.GCBLVT, "LVT"}, {charprops.GCBPrepend, "Prepend"},
	{charprops.GCBRegionalIndicator, "Regional_Indicator"}, {charprops.GCBSpacingMark, "SpacingMark"}, {charprops.GCBT, "T"}, {charprops.GCBV, "V"}, {charprops.GCBZWJ, "ZWJ"},
}

type incb struct {
	v    charprops.InCBProperty
	name string
}

var incbs = []incb{{charprops.InCBNone, ""}, {charprops.InCBConsonant, "Consonant"}, {charprops.InCBExtend, "Extend"}, {charprops.InCBLinker, "Linker"}}

func checkName(name string) string {
	wg, we, wi := charprops.GCBNone, charprops.GCBNone, charprops.InCBNone
	if name != "" {
		for _, g := range gcbs {
			if g.name == name {
				wg = g.v
			}
		}
		for _, i := range incbs {
			if i.name == name {
				wi = i.v
			}
		}
		if name == "Extended_Pictographic" {
			we = charprops.GCBExtendedPictographic
		}
	}
	if v := charprops.LookupGCBProperty(name); v != wg {
		return fmt.Sprintf("LookupGCBProperty(%q) = %v, want %v", name, v, wg)
	}
	if v := charprops.LookupEmojiProperty(name); v != we {
		return fmt.Sprintf("LookupEmojiProperty(%q) = %v, want %v", name, v, we)
	}
	if v := charprops.LookupInCBProperty(name); v != wi {
		return fmt.Sprintf("LookupInCBProperty(%q) = %v, want %v", name, v, wi)
	}
	return ""
}

// checkValues returns what is wrong with packing and printing.
func checkValues(count func()) string {
	printed := map[string]charprops.CharProperties{}
	if charprops.Error.String() != "" {
		printed[charprops.Error.String()] = charprops.Error
	}
	packed := map[charprops.CharProperties]string{charprops.Error: "the error marker"}
	for _, g := range gcbs {
		for _, i := range incbs {
			count()
			id := fmt.Sprintf("(%v, %v)", g.v, i.v)
			var p charprops.CharProperties
			if g.v == charprops.GCBExtendedPictographic {
				p = charprops.MakeCharProperties(charprops.GCBNone, g.v, i.v)
			} else {
				p = charprops.MakeCharProperties(g.v, charprops.GCBNone, i.v)
			}
			if p.GCBProperty() != g.v || p.InCBProperty() != i.v {
				return fmt.Sprintf("packing %s and unpacking gives (%v, %v)", id, p.GCBProperty(), p.InCBProperty())
			}
			if o, ok := packed[p]; ok {
				return fmt.Sprintf("%s is packed like %s", id, o)
			}
			packed[p] = id
			if o, ok := printed[p.String()]; ok {
				return fmt.Sprintf("packed values %#v and %#v are both printed as %q", o, p, p.String())
			}
			printed[p.String()] = p
		}
	}
	// The error values are packed like all others, and are no others.
	for _, g := range gcbs {
		if g.v == charprops.GCBError {
			return fmt.Sprintf("the error value is also the break value %v", g)
		}
	}
	for _, i := range incbs {
		if i.v == charprops.InCBError {
			return fmt.Sprintf("the error value is also the conjunct value %v", i)
		}
	}
	for _, g := range append(gcbs[:len(gcbs):len(gcbs)], gcb{charprops.GCBError, ""}) {
		for _, i := range append(incbs[:len(incbs):len(incbs)], incb{charprops.InCBError, ""}) {
			if g.v != charprops.GCBError && i.v != charprops.InCBError {
				continue
			}
			count()
			p := charprops.MakeCharProperties(g.v, charprops.GCBNone, i.v)
			if p.GCBProperty() != g.v || p.InCBProperty() != i.v {
				return fmt.Sprintf("packing (%v, %v) and unpacking gives (%v, %v)", g.v, i.v, p.GCBProperty(), p.InCBProperty())
			}
			if isError := g.v == charprops.GCBError && i.v == charprops.InCBError; isError != (p == charprops.Error) {
				return fmt.Sprintf("packing (%v, %v) gives the error marker: %v", g.v, i.v, !isError)
			}
		}
	}
	seen := map[string]charprops.GCBProperty{}
	for _, g := range gcbs {
		count()
		s := g.v.String()
		if o, ok := seen[s]; ok {
			return fmt.Sprintf("GCB values %d and %d are both printed as %q", o, g.v, s)
		}
		seen[s] = g.v
		if g.name != "" && s != g.name {
			return fmt.Sprintf("GCB value %s is printed as %q", g.name, s)
		}
		if back := charprops.LookupGCBProperty(s); g.v != charprops.GCBExtendedPictographic && back != g.v {
			return fmt.Sprintf("GCB value %v is printed as %q, which is parsed as %v", uint8(g.v), s, back)
		}
		if back := charprops.LookupEmojiProperty(s); g.v == charprops.GCBExtendedPictographic && back != g.v {
			return fmt.Sprintf("emoji value %v is printed as %q, which is parsed as %v", uint8(g.v), s, back)
		}
	}
	if s := charprops.GCBError.String(); seen[s] != 0 || s == charprops.GCBNone.String() {
		return fmt.Sprintf("the error value is printed as %q", s)
	}
	seenI := map[string]charprops.InCBProperty{}
	for _, i := range incbs {
		count()
		s := i.v.String()
		if o, ok := seenI[s]; ok {
			return fmt.Sprintf("InCB values %d and %d are both printed as %q", o, i.v, s)
		}
		seenI[s] = i.v
		if back := charprops.LookupInCBProperty(s); back != i.v {
			return fmt.Sprintf("InCB value %v is printed as %q, which is parsed as %v", uint8(i.v), s, back)
		}
	}
	for v := 0; v < 256; v++ {
		count()
		g := charprops.GCBProperty(v)
		if w := g == charprops.GCBCR || g == charprops.GCBLF || g == charprops.GCBControl; g.IsAnyControl() != w {
			return fmt.Sprintf("IsAnyControl of %v (%#x) is %v", g, v, !w)
		}
	}
	for c := rune(0); c < 0x110000; c++ {
		if ucd.Valid(c) {
			if p, _ := charprops.LookupFirstChar([]byte(string(c))); p == charprops.Error {
				return fmt.Sprintf("U+%04X has the error marker as its properties", c)
			}
		}
	}
	return ""
}

func c14(r *kit.Run) {
	r.ParallelN("values", "every pair of break or pictographic value and conjunct value, every 8-bit break value, the properties of every scalar value", 1, 1, func(w *kit.Worker, _ int) {
		if s := checkValues(func() { w.Calls++; w.S["values"]++ }); s != "" {
			r.Fail(kit.Replay{Kind: "values", Message: s})
		}
	})
	alpha := "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_ -=;|.\t\x00\xff"
	depth := 3
	if r.Thorough {
		depth = 4
	}
	n := len(alpha)
	r.Parallel("short names", fmt.Sprintf("every string of 0..%d of %d bytes", depth, n), n*n, func(w *kit.Worker, job int) {
		buf := []byte{alpha[job/n], alpha[job%n]}
		try := func(b []byte) bool {
			w.Calls++
			w.S["names"]++
			if s := checkName(string(b)); s != "" {
				r.Fail(kit.Replay{Kind: "name", Data: hex.EncodeToString(b), Message: s})
				return false
			}
			return true
		}
		if job == 0 && !try(nil) {
			return
		}
		if job%n == 0 && !try(buf[:1]) {
			return
		}
		var rec func(b []byte) bool
		rec = func(b []byte) bool {
			if !try(b) || r.Stopped() {
				return false
			}
			if len(b) < depth {
				for i := 0; i < n; i++ {
					if !rec(append(b[:len(b):len(b)], alpha[i])) {
						return false
					}
				}
			}
			return true
		}
		rec(buf)
	})
	var names []string
	for _, g := range gcbs {
		if g.name != "" {
			names = append(names, g.name)
		}
	}
	names = append(names, "Extended_Pictographic", "Consonant", "Linker", "None", "Other", "XX", "CN", "EX", "PP", "RI", "SM", "EB", "EM", "GAZ", "EBG", "E_Base", "E_Modifier", "Glue_After_Zwj", "E_Base_GAZ",
		"Emoji", "Emoji_Presentation", "Emoji_Modifier", "Emoji_Modifier_Base", "Emoji_Component", "ExtPict", "InCB", "Indic_Conjunct_Break", "Error", "Extended", "Any", "Hangul_Syllable_Type",
		"RegionalIndicator", "ExtendedPictographic", "GCBExtend", "InCBLinker", "0x00", "0x0f", "Virama")
	edits := 1
	if r.Thorough {
		edits = 2
	}
	r.Parallel("names near the known names", fmt.Sprintf("every string within %d one-byte edits of %d names, any change of case of up to 12 letters, repetitions", edits, len(names)), len(names), func(w *kit.Worker, job int) {
		name := names[job]
		try := func(s string) bool {
			w.Calls++
			w.S["names_near"]++
			if m := checkName(s); m != "" {
				r.Fail(kit.Replay{Kind: "name", Data: hex.EncodeToString([]byte(s)), Message: m})
				return false
			}
			return true
		}
		var edit func(s string, left int) bool
		edit = func(s string, left int) bool {
			if !try(s) || r.Stopped() {
				return false
			}
			if left == 0 {
				return true
			}
			for i := 0; i <= len(s); i++ {
				for k := 0; k < n; k++ {
					if !edit(s[:i]+alpha[k:k+1]+s[i:], left-1) {
						return false
					}
					if i < len(s) && !edit(s[:i]+alpha[k:k+1]+s[i+1:], left-1) {
						return false
					}
				}
				if i < len(s) && !edit(s[:i]+s[i+1:], left-1) {
					return false
				}
			}
			return true
		}
		if !edit(name, edits) {
			return
		}
		var letters []int
		for i := range name {
			if strings.ToUpper(name[i:i+1]) != strings.ToLower(name[i:i+1]) && len(letters) < 12 {
				letters = append(letters, i)
			}
		}
		for m := 0; m < 1<<len(letters); m++ {
			b := []byte(name)
			for k, i := range letters {
				if m>>k&1 == 1 {
					b[i] ^= 0x20
				}
			}
			if !try(string(b)) {
				return
			}
		}
		for _, o := range names {
			for _, sep := range []string{"", " ", "_", ";", "|", "\x00"} {
				if !try(name + sep + o) {
					return
				}
			}
		}
		for i := 0; i <= len(name); i++ {
			for j := i; j <= len(name); j++ {
				if !try(name[i:j]) {
					return
				}
			}
		}
	})
	r.Sample(map[string]any{"name": "extend", "break value": charprops.LookupGCBProperty("extend").String()})
	r.Sample(map[string]any{"packed": charprops.MakeCharProperties(charprops.GCBExtend, 0, charprops.InCBLinker).String()})
}

func replay(path string) int {
	raw, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var v kit.Replay
	if err := json.Unmarshal(raw, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	b, err := hex.DecodeString(v.Data)
	if err != nil {
		return 2
	}
	msg := ""
	switch v.Kind {
	case "name":
		msg = checkName(string(b))
	case "values":
		msg = checkValues(func() {})
	default:
		msg = full(b)
	}
	if msg != "" {
		fmt.Println(msg)
		return 1
	}
	return 0
}

// cmp compares the lookup with a file of one byte per code point: 16 * number of the break value + conjunct value, in
// the order of gcbs and incbs.
func cmp(path string) int {
	want, err := os.ReadFile(path)
	if err != nil || len(want) != 0x110000 {
		return 2
	}
	for c := rune(0); c < 0x110000; c++ {
		if !ucd.Valid(c) {
			continue
		}
		p, n := charprops.LookupFirstChar([]byte(string(c)))
		g, i := gcbs[want[c]>>4].v, incbs[want[c]&15].v
		if p.GCBProperty() != g || p.InCBProperty() != i || n != len(string(c)) {
			fmt.Printf("U+%04X is (%v, %v, length %d), but the data says (%v, %v)\n", c, p.GCBProperty(), p.InCBProperty(), n, g, i)
			return 1
		}
	}
	return 0
}

func main() {
	if len(os.Args) == 3 && os.Args[1] == "replay" {
		os.Exit(replay(os.Args[2]))
	}
	if len(os.Args) == 3 && os.Args[1] == "cmp" {
		os.Exit(cmp(os.Args[2]))
	}
	limit := 600 * time.Second
	if os.Args[2] == "thorough" {
		limit = 780 * time.Second
	}
	r := kit.New(os.Args[1], os.Args[2] == "thorough", os.Args[3], limit)
	switch os.Args[1] {
	case "C02":
		c02(r)
	case "C13":
		c13(r)
	case "C14":
		c14(r)
	default:
		os.Exit(2)
	}
	r.Finish()
}
