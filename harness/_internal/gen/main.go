// gen checks the table generator (C08): it runs the real generator on enumerated data files, loads the tables that it
// wrote into the real lookup code, and compares the lookup of every scalar value with the data.
//
//	gen C08 quick|thorough RESULT.json   (environment: GEN_BIN, GEN_UCD)
//	gen child                            (the process that does the work for one worker)
//	gen replay FILE
//	gen e2e DIR                          (writes a few datasets with their expected outcome)
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"github.com/apparentlymart/go-textseg/v17/textseg/internal/charprops"
	"verif.local/harness/kit"
	"verif.local/harness/ucd"
)

type rng struct {
	Lo, Hi rune
	Val    string
}

// Data is the content of the three files.
type Data struct {
	Name  string
	GBP   []rng
	Emoji []rng // Extended_Pictographic
	InCB  []rng
	Form  int // 0: as in the Unicode files; others: other ways to write the same
}

var gcbIDs = []struct {
	name string
	v    charprops.GCBProperty
}{{"", charprops.GCBNone}, {"CR", charprops.GCBCR}, {"Control", charprops.GCBControl}, {"Extend", charprops.GCBExtend}, {"Extended_Pictographic", charprops.GCBExtendedPictographic},
	{"L", charprops.GCBL}, {"LF", charprops.GCBLF}, {"LV", charprops.GCBLV}, {"LVT", charprops.GCBLVT}, {"Prepend", charprops.GCBPrepend}, {"Regional_Indicator", charprops.GCBRegionalIndicator},
	{"SpacingMark", charprops.GCBSpacingMark}, {"T", charprops.GCBT}, {"V", charprops.GCBV}, {"ZWJ", charprops.GCBZWJ}}
var incbIDs = []struct {
	name string
	v    charprops.InCBProperty
}{{"", charprops.InCBNone}, {"Consonant", charprops.InCBConsonant}, {"Extend", charprops.InCBExtend}, {"Linker", charprops.InCBLinker}}

func gcbID(name string) byte {
	for i, g := range gcbIDs {
		if g.name == name {
			return byte(i)
		}
	}
	panic("no such break value: " + name)
}
func incbID(name string) byte {
	for i, g := range incbIDs {
		if g.name == name {
			return byte(i)
		}
	}
	panic("no such conjunct value: " + name)
}

func (d *Data) expected(buf []byte) []byte {
	if buf == nil {
		buf = make([]byte, 0x110000)
	}
	clear(buf)
	for _, r := range d.GBP {
		id := gcbID(r.Val) << 4
		for c := r.Lo; c <= r.Hi; c++ {
			buf[c] |= id
		}
	}
	id := gcbID("Extended_Pictographic") << 4
	for _, r := range d.Emoji {
		for c := r.Lo; c <= r.Hi; c++ {
			buf[c] |= id
		}
	}
	for _, r := range d.InCB {
		id := incbID(r.Val)
		for c := r.Lo; c <= r.Hi; c++ {
			buf[c] |= id
		}
	}
	return buf
}

func (d *Data) write(dir string) error {
	line := func(b *strings.Builder, r rng, fields string) {
		switch d.Form {
		case 0:
			s := fmt.Sprintf("%04X", r.Lo)
			if r.Lo != r.Hi {
				s = fmt.Sprintf("%04X..%04X", r.Lo, r.Hi)
			}
			fmt.Fprintf(b, "%-14s; %s # Mn   [%d] NAME..NAME; X\n", s, fields, r.Hi-r.Lo+1)
		case 1:
			fmt.Fprintf(b, "%04x..%04x;%s\n", r.Lo, r.Hi, strings.ReplaceAll(fields, " ", ""))
		case 2:
			fmt.Fprintf(b, " %06X..%06X\t;\t%s\t;\r\n", r.Lo, r.Hi, fields)
		case 3: // one character per line
			for c := r.Lo; c <= r.Hi; c++ {
				fmt.Fprintf(b, "%04X ; %s\n", c, fields)
			}
		}
	}
	var g, e, i strings.Builder
	for _, b := range []*strings.Builder{&g, &e, &i} {
		if d.Form == 0 {
			b.WriteString("# Data-17.0.0.txt\n# @missing: 0000..10FFFF; Other\n\n")
		}
	}
	for _, r := range d.GBP {
		line(&g, r, r.Val)
	}
	if d.Form == 0 {
		e.WriteString("0023          ; Emoji                # E0.0   [1] (#)       hash sign\n231A..231B    ; Emoji_Presentation   # E0.6   [2]\n")
		i.WriteString("002B          ; Math # Sm       PLUS SIGN\n0041..005A    ; Alphabetic # L&  [26]\n0300..036F    ; Grapheme_Extend # Mn\n")
	}
	for _, r := range d.Emoji {
		line(&e, r, "Extended_Pictographic")
	}
	for _, r := range d.InCB {
		line(&i, r, "InCB; "+r.Val)
	}
	trim := func(s string) string {
		if d.Form == 1 {
			return strings.TrimSuffix(s, "\n")
		}
		return s
	}
	for _, f := range []struct{ p, s string }{{"auxiliary/GraphemeBreakProperty.txt", g.String()}, {"emoji/emoji-data.txt", e.String()}, {"DerivedCoreProperties.txt", i.String()}} {
		p := filepath.Join(dir, "ucd", f.p)
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			return err
		}
		if err := os.WriteFile(p, []byte(trim(f.s)), 0o644); err != nil {
			return err
		}
	}
	return nil
}

// readTable evaluates the variables of a generated file.
func readTable(path string) (map[string][]uint64, error) {
	f, err := parser.ParseFile(token.NewFileSet(), path, nil, 0)
	if err != nil {
		return nil, err
	}
	ret := map[string][]uint64{}
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR {
			return nil, fmt.Errorf("unexpected declaration")
		}
		for _, s := range g.Specs {
			v := s.(*ast.ValueSpec)
			lit, ok := v.Values[0].(*ast.CompositeLit)
			if !ok {
				return nil, fmt.Errorf("unexpected value")
			}
			vals := make([]uint64, len(lit.Elts))
			for i, e := range lit.Elts {
				b, ok := e.(*ast.BasicLit)
				if !ok {
					return nil, fmt.Errorf("unexpected element")
				}
				if vals[i], err = strconv.ParseUint(b.Value, 0, 64); err != nil {
					return nil, err
				}
			}
			ret[v.Names[0].Name] = vals
		}
	}
	return ret, nil
}

// Verdict is what became of one dataset.
type Verdict struct {
	Outcome string // "exact", "refused", "wrong", "broken" (the harness failed)
	Detail  string
}

// compare looks up every scalar value.
func compare(want []byte) string {
	var buf [4]byte
	for c := rune(0); c < 0x110000; c++ {
		if !ucd.Valid(c) {
			continue
		}
		b := buf[:copy(buf[:], string(c))]
		p, n := charprops.LookupFirstChar(b)
		g, i := gcbIDs[want[c]>>4].v, incbIDs[want[c]&15].v
		if p.GCBProperty() != g || p.InCBProperty() != i || n != len(b) {
			return fmt.Sprintf("U+%04X is (%v, %v, length %d), but the data says (%v, %v)", c, p.GCBProperty(), p.InCBProperty(), n, g, i)
		}
	}
	return ""
}

func evaluate(d *Data, dir string, buf []byte) (v Verdict) {
	defer func() {
		if p := recover(); p != nil {
			v = Verdict{"wrong", fmt.Sprintf("the lookup panics with the generated table: %v", p)}
		}
	}()
	out := filepath.Join(dir, "property_table_raw.go")
	os.Remove(out)
	if err := d.write(dir); err != nil {
		return Verdict{"broken", err.Error()}
	}
	cmd := exec.Command("/usr/bin/prlimit", "--as=3221225472", os.Getenv("GEN_BIN"))
	cmd.Dir = dir
	timer := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
	msg, err := cmd.CombinedOutput()
	if !timer.Stop() {
		return Verdict{"wrong", "the generator does not end"}
	}
	if err != nil {
		if _, ok := err.(*exec.ExitError); !ok {
			return Verdict{"broken", err.Error()}
		}
		return Verdict{"refused", firstLine(msg)}
	}
	t, err := readTable(out)
	if err != nil {
		if os.IsNotExist(err) {
			return Verdict{"wrong", "the generator succeeded, but wrote no table"}
		}
		return Verdict{"broken", err.Error()}
	}
	if err := charprops.VerifSetTable(t); err != nil {
		return Verdict{"refused", err.Error()} // would not compile
	}
	if m := compare(d.expected(buf)); m != "" {
		return Verdict{"wrong", m}
	}
	return Verdict{"exact", ""}
}

func firstLine(b []byte) string {
	l, _, _ := bytes.Cut(b, []byte("\n"))
	return string(l)
}

func child() {
	dir, err := os.MkdirTemp("", "gen")
	if err != nil {
		os.Exit(2)
	}
	defer os.RemoveAll(dir)
	in := json.NewDecoder(bufio.NewReader(os.Stdin))
	out := json.NewEncoder(os.Stdout)
	buf := make([]byte, 0x110000)
	for {
		var d Data
		if in.Decode(&d) != nil {
			return
		}
		out.Encode(evaluate(&d, dir, buf))
	}
}

// ---- Datasets.

var points = []rune{0, 0x0d, 0x3f, 0x40, 0x41, 0x7e, 0x7f, 0x80, 0xbf, 0xc0, 0x100, 0x7bf, 0x7c0, 0x7fe, 0x7ff, 0x800, 0x801, 0x83f, 0x840, 0xfff, 0x1000, 0x2fff, 0x3000, 0xcfff, 0xd000, 0xd7be, 0xd7c0, 0xd7ff,
	0xe000, 0xe001, 0xefff, 0xf000, 0xfffc, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10001, 0x1003f, 0x10040, 0x10fff, 0x11000, 0x1ffff, 0x20000, 0x3ffff, 0x40000, 0x7ffff, 0x80000, 0xbffff, 0xc0000, 0xfffff, 0x100000, 0x10ffc0, 0x10fffe, 0x10ffff}

func one(c rune, v string) rng { return rng{c, c, v} }

func datasets(real *Data, thorough bool) []Data {
	var ret []Data
	add := func(d Data) { ret = append(ret, d) }
	add(*real)
	add(Data{Name: "nothing"})
	add(Data{Name: "nothing, unadorned", Form: 1})
	// Single ranges.
	for i, a := range points {
		for _, b := range points[i:] {
			if b-a > 0x10000 && !thorough && (i%5 != 0) {
				continue // mostly too many blocks for the generator
			}
			n := fmt.Sprintf("range %04X..%04X", a, b)
			add(Data{Name: n, GBP: []rng{{a, b, "Extend"}}, Form: i % 3})
			add(Data{Name: n, Emoji: []rng{{a, b, ""}}})
			add(Data{Name: n, InCB: []rng{{a, b, "Linker"}}, Form: (i + 1) % 3})
		}
	}
	// Surrogates.
	for _, r := range [][2]rune{{0xd800, 0xd800}, {0xdfff, 0xdfff}, {0xd800, 0xdfff}, {0xd7ff, 0xd800}, {0xdfff, 0xe000}, {0xd7ff, 0xe000}, {0xd000, 0xffff}, {0xdbff, 0xdc00}} {
		for f := 0; f < 3; f++ {
			add(Data{Name: "surrogates", GBP: []rng{{r[0], r[1], "Control"}}, Form: f})
			add(Data{Name: "surrogates", Emoji: []rng{{r[0], r[1], ""}}, Form: f})
			add(Data{Name: "surrogates", InCB: []rng{{r[0], r[1], "Consonant"}}, Form: f})
			add(Data{Name: "surrogates and U+FFFD", GBP: []rng{{r[0], min(r[1], 0xdfff), "Control"}}, Emoji: []rng{one(0xfffd, "")}, Form: f})
		}
	}
	// All pairs of characters, with equal and with different values.
	for i, a := range points {
		for _, b := range points[i+1:] {
			add(Data{Name: "two characters", GBP: []rng{one(a, "SpacingMark"), one(b, "SpacingMark")}})
			add(Data{Name: "two characters", GBP: []rng{one(b, "ZWJ"), one(a, "CR")}, Form: 1})
			add(Data{Name: "two characters", GBP: []rng{one(a, "V")}, InCB: []rng{one(b, "Extend")}, Form: 2})
			if thorough {
				add(Data{Name: "two characters", Emoji: []rng{one(a, "")}, GBP: []rng{one(b, "LVT")}})
				add(Data{Name: "two characters", Emoji: []rng{one(b, "")}, InCB: []rng{one(a, "Consonant")}})
			}
		}
	}
	// All pairs of values, at each point.
	for k, c := range points {
		if !thorough && k%4 != 1 {
			continue
		}
		for _, g := range gcbIDs {
			for _, i := range incbIDs {
				d := Data{Name: "values", Form: k % 4}
				if g.name == "Extended_Pictographic" {
					d.Emoji = []rng{one(c, "")}
				} else if g.name != "" {
					d.GBP = []rng{one(c, g.name)}
				}
				if i.name != "" {
					d.InCB = []rng{one(c, i.name)}
				}
				add(d)
			}
		}
	}
	// Every position in each level of the tree.
	for i := rune(0); i < 64; i++ {
		for _, c := range []rune{i, 0x40 + i, 0x80 + i, 0x40 * i, 0x800 + i, 0x1000 + 0x40*i, 0x1000 * i, 0x10000 + i, 0x10000 + 0x40*i, 0x40000*i + 0x10000, 0x40000 + 0x1000*i} {
			if ucd.Valid(c) {
				add(Data{Name: "position", GBP: []rng{one(c, "Prepend")}})
			}
		}
	}
	// Blocks that differ in one position only: of properties, and of indices on both levels.
	for p := rune(0); p < 64; p++ {
		for _, l := range []struct{ a, b, unit rune }{{0x100, 0x140, 1}, {0x800, 0x840, 1}, {0x10000, 0x10040, 1}, {0x1000, 0x2000, 64}, {0x10000, 0x11000, 64}, {0x21000, 0x22000, 64}, {0x40000, 0x80000, 0x1000}} {
			var d Data
			d.Name = fmt.Sprintf("blocks %X and %X, different in position %d", l.a, l.b, p)
			for q := rune(0); q < 64; q++ {
				va, vb := "Extend", "Extend"
				if q == p {
					vb = "T"
				}
				d.GBP = append(d.GBP, one(l.a+q*l.unit, va), one(l.b+q*l.unit, vb))
			}
			add(d)
			var e Data
			e.Name = d.Name + " only"
			e.GBP = []rng{one(l.a+p*l.unit, "L"), one(l.b+(p+1)%64*l.unit, "L")}
			add(e)
			e.GBP = []rng{one(l.a+p*l.unit, "L"), one(l.b+p*l.unit, "LV")}
			add(e)
			e.GBP = []rng{one(l.a+p*l.unit, "L"), one(l.b+p*l.unit, "L")}
			add(e)
		}
	}
	// ASCII blocks that are equal to each other, or to others.
	for _, o := range []rune{0, 0x40, 0x80, 0x7c0, 0x800, 0xffc0, 0x10000, 0x10ffc0} {
		for _, q := range []rune{0, 0x40, 0x80, 0x7c0, 0x800, 0xffc0, 0x10000, 0x10ffc0} {
			add(Data{Name: "equal blocks", GBP: []rng{{o, o + 63, "Control"}}, InCB: []rng{{q, q + 63, "Extend"}}})
			if o != q {
				add(Data{Name: "equal blocks", GBP: []rng{{o, o + 63, "Control"}, {q, q + 63, "Control"}}})
				add(Data{Name: "equal blocks", GBP: []rng{{o, o + 62, "Control"}, {q, q + 62, "Control"}}})
			}
		}
	}
	// N distinct blocks of properties, and N distinct blocks of indices: up to and beyond what fits.
	step := 7
	if thorough {
		step = 1
	}
	for n := 1; n <= 310; n++ {
		if n > 12 && (n < 225 || n > 275) && n%step != 0 {
			continue
		}
		var d Data
		d.Name = fmt.Sprintf("%d distinct property blocks", n)
		for k := 0; k < n; k++ {
			for bit := 0; bit < 9; bit++ {
				if (k+1)>>bit&1 == 1 {
					d.GBP = append(d.GBP, one(rune(0x800+k*64+bit*5), "Extend"))
				}
			}
		}
		add(d)
		var e Data
		e.Name = fmt.Sprintf("%d distinct index blocks", n)
		for k := 0; k < n && k < 271; k++ {
			base := rune(0x1000 * (k + 1))
			if base == 0xd000 {
				continue
			}
			vals := []string{"Extend", "T", "V", "L", "CR"}
			e.GBP = append(e.GBP, one(base+rune(k%64)*64, vals[k/64]))
		}
		if n <= 271 {
			add(e)
		}
	}
	// Every subset of ten characters around the limits.
	sub := []rune{0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10ffff}
	for m := 0; m < 1<<len(sub); m++ {
		if !thorough && m%3 != 0 {
			continue
		}
		d := Data{Name: "subset", Form: m % 4}
		for i, c := range sub {
			if m>>i&1 == 1 {
				switch i % 3 {
				case 0:
					d.GBP = append(d.GBP, one(c, "Extend"))
				case 1:
					d.Emoji = append(d.Emoji, one(c, ""))
				default:
					d.InCB = append(d.InCB, one(c, "Linker"))
				}
			}
		}
		add(d)
	}
	// The real data, with one value missing, in other forms, and with something taken away or added.
	for f := 0; f < 3; f++ {
		d := *real
		d.Form = f
		d.Name = "real data, another form"
		add(d)
	}
	drop := func(rs []rng, keep func(i int, r rng) bool) []rng {
		var ret []rng
		for i, r := range rs {
			if keep(i, r) {
				ret = append(ret, r)
			}
		}
		return ret
	}
	for _, g := range gcbIDs[1:] {
		d := *real
		d.Name = "real data without " + g.name
		d.GBP = drop(d.GBP, func(_ int, r rng) bool { return r.Val != g.name })
		if g.name == "Extended_Pictographic" {
			d.Emoji = nil
		}
		add(d)
		d = *real
		d.Name = "real data, only " + g.name
		d.GBP = drop(d.GBP, func(_ int, r rng) bool { return r.Val == g.name })
		if g.name != "Extended_Pictographic" {
			d.Emoji = nil
		}
		add(d)
	}
	for _, g := range incbIDs[1:] {
		d := *real
		d.Name = "real data without " + g.name
		d.InCB = drop(d.InCB, func(_ int, r rng) bool { return r.Val != g.name })
		add(d)
	}
	every := 25
	if thorough {
		every = 1
	}
	for i := 0; i < len(real.GBP); i += every {
		d := *real
		d.Name = fmt.Sprintf("real data without line %d of the break values", i)
		d.GBP = drop(d.GBP, func(k int, _ rng) bool { return k != i })
		add(d)
	}
	for i := 0; i < len(real.InCB); i += every {
		d := *real
		d.Name = fmt.Sprintf("real data without line %d of the conjunct values", i)
		d.InCB = drop(d.InCB, func(k int, _ rng) bool { return k != i })
		add(d)
	}
	for i := 0; i < len(real.Emoji); i += every {
		d := *real
		d.Name = fmt.Sprintf("real data without line %d of the pictographics", i)
		d.Emoji = drop(d.Emoji, func(k int, _ rng) bool { return k != i })
		add(d)
	}
	for _, c := range points {
		d := *real
		d.Name = fmt.Sprintf("real data and a Linker at %04X", c)
		if ucd.Of(c).InCB() != "None" {
			continue
		}
		d.InCB = append(d.InCB[:len(d.InCB):len(d.InCB)], one(c, "Linker"))
		add(d)
	}
	// Lines in another order.
	d := *real
	d.Name = "real data, reversed"
	rev := func(rs []rng) []rng {
		var ret []rng
		for i := len(rs) - 1; i >= 0; i-- {
			ret = append(ret, rs[i])
		}
		return ret
	}
	d.GBP, d.Emoji, d.InCB = rev(d.GBP), rev(d.Emoji), rev(d.InCB)
	add(d)
	return ret
}

// realData reads the repository's files, with a reader of its own.
func realData(dir string) (*Data, error) {
	d := &Data{Name: "real data"}
	for _, f := range []struct {
		path string
		take func(fields []string, lo, hi rune)
	}{
		{"auxiliary/GraphemeBreakProperty.txt", func(f []string, lo, hi rune) { d.GBP = append(d.GBP, rng{lo, hi, f[0]}) }},
		{"emoji/emoji-data.txt", func(f []string, lo, hi rune) {
			if f[0] == "Extended_Pictographic" {
				d.Emoji = append(d.Emoji, rng{lo, hi, ""})
			}
		}},
		{"DerivedCoreProperties.txt", func(f []string, lo, hi rune) {
			if f[0] == "InCB" {
				d.InCB = append(d.InCB, rng{lo, hi, f[1]})
			}
		}},
	} {
		raw, err := os.ReadFile(filepath.Join(dir, f.path))
		if err != nil {
			return nil, err
		}
		for _, l := range strings.Split(string(raw), "\n") {
			if i := strings.IndexByte(l, '#'); i >= 0 {
				l = l[:i]
			}
			parts := strings.Split(l, ";")
			if len(parts) < 2 {
				continue
			}
			for i := range parts {
				parts[i] = strings.TrimSpace(parts[i])
			}
			var lo, hi rune
			if n, _ := fmt.Sscanf(parts[0], "%X..%X", &lo, &hi); n == 1 {
				hi = lo
			} else if n != 2 {
				return nil, fmt.Errorf("%s: %q", f.path, l)
			}
			f.take(parts[1:], lo, hi)
		}
	}
	return d, nil
}

func judge(d *Data, v Verdict) string {
	switch v.Outcome {
	case "exact":
		return ""
	case "refused":
		if strings.HasPrefix(d.Name, "real data") && (d.Name == "real data" || strings.Contains(d.Name, "form") || strings.Contains(d.Name, "reversed")) {
			return "the generator refuses the repository's own data: " + v.Detail
		}
		return ""
	}
	return v.Detail
}

func main() {
	if len(os.Args) == 2 && os.Args[1] == "child" {
		child()
		return
	}
	if len(os.Args) == 3 && os.Args[1] == "replay" {
		raw, err := os.ReadFile(os.Args[2])
		var v kit.Replay
		var d Data
		if err == nil {
			err = json.Unmarshal(raw, &v)
		}
		if err == nil {
			s, _ := v.Params["dataset"].(string)
			err = json.Unmarshal([]byte(s), &d)
		}
		if err != nil {
			os.Exit(2)
		}
		if d.Name == "committed" {
			real, err := realData(os.Getenv("GEN_UCD"))
			if err != nil {
				os.Exit(2)
			}
			if m := compare(real.expected(nil)); m != "" {
				fmt.Println(m)
				os.Exit(1)
			}
			os.Exit(0)
		}
		dir, _ := os.MkdirTemp("", "gen")
		defer os.RemoveAll(dir)
		r := evaluate(&d, dir, nil)
		fmt.Println(r)
		if r.Outcome != "broken" && judge(&d, r) != "" {
			os.Exit(1)
		}
		os.Exit(0)
	}
	real, err := realData(os.Getenv("GEN_UCD"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if len(os.Args) == 3 && os.Args[1] == "e2e" {
		e2e(real, os.Args[2])
		return
	}
	thorough := os.Args[2] == "thorough"
	limit := 500 * time.Second
	if thorough {
		limit = 700 * time.Second
	}
	r := kit.New(os.Args[1], thorough, os.Args[3], limit)
	r.ParallelN("the committed table", "every scalar value, against the repository's data files", 1, 1, func(w *kit.Worker, _ int) {
		w.Calls += 1112064
		w.S["committed_table_lookups"] += 1112064
		if m := compare(real.expected(nil)); m != "" {
			r.Fail(kit.Replay{Kind: "dataset", Message: "the committed table: " + m, Params: map[string]any{"dataset": `{"Name":"committed"}`}})
		}
	})
	ds := datasets(real, thorough)
	children := make(chan *worker, 64)
	r.Parallel("generated tables", "every dataset of the families listed in DESIGN.md, through the generator program and the lookup code, all scalar values compared", len(ds), func(w *kit.Worker, i int) {
		var c *worker
		select {
		case c = <-children:
		default:
			c = newWorker()
		}
		d := &ds[i]
		w.Note = d.Name
		v, err := c.do(d)
		if err != nil {
			fmt.Fprintln(os.Stderr, "child:", err)
			os.Exit(2)
		}
		w.Calls++
		w.Beat()
		w.S["datasets"]++
		w.S["datasets_"+v.Outcome]++
		if v.Outcome == "broken" {
			fmt.Fprintln(os.Stderr, d.Name, v.Detail)
			os.Exit(2)
		}
		if m := judge(d, v); m != "" {
			js, _ := json.Marshal(d)
			r.Fail(kit.Replay{Kind: "dataset", Message: d.Name + ": " + m, Params: map[string]any{"dataset": string(js)}})
		}
		if i%997 == 1 {
			r.Sample(map[string]any{"dataset": d.Name, "outcome": v.Outcome, "detail": v.Detail})
		}
		children <- c
	})
	for len(children) > 0 {
		c := <-children
		c.in.Close()
		c.cmd.Wait()
	}
	r.Finish()
}

type worker struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	enc *json.Encoder
	dec *json.Decoder
}

func newWorker() *worker {
	w := &worker{cmd: exec.Command(os.Args[0], "child")}
	w.cmd.Stderr = os.Stderr
	w.in, _ = w.cmd.StdinPipe()
	out, _ := w.cmd.StdoutPipe()
	if err := w.cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	w.enc, w.dec = json.NewEncoder(w.in), json.NewDecoder(out)
	return w
}

func (w *worker) do(d *Data) (v Verdict, err error) {
	if err = w.enc.Encode(d); err == nil {
		err = w.dec.Decode(&v)
	}
	return
}

// e2e writes datasets whose tables are then compiled into the lookup.
func e2e(real *Data, dir string) {
	var few []Data
	seen := map[string]bool{}
	for _, d := range datasets(real, false) {
		n := d.Name
		if i := strings.IndexAny(n, "0123456789"); i > 0 {
			n = n[:i]
		}
		if !seen[n] && !strings.HasPrefix(n, "real data without") && !strings.HasPrefix(n, "real data, only") {
			seen[n] = true
			few = append(few, d)
		}
	}
	for i, d := range few {
		sub := filepath.Join(dir, fmt.Sprintf("d%02d", i))
		if err := d.write(sub); err != nil {
			os.Exit(2)
		}
		os.WriteFile(filepath.Join(sub, "name"), []byte(d.Name), 0o644)
		if err := os.WriteFile(filepath.Join(sub, "expected"), d.expected(nil), 0o644); err != nil {
			os.Exit(2)
		}
	}
}
