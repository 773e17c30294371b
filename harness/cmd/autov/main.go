// autov checks the autoversion package (C10, C11), built with some Go release.
//
//	autov C10|C11 quick|thorough RESULT.json   (environment: AUTOV_EXPECT=15|17, if it is not the version of the release that this is built with)
//	autov replay FILE
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strconv"
	"strings"
	"time"
	"unicode"

	auto "github.com/apparentlymart/go-textseg/autoversion/textseg"
	v15 "github.com/apparentlymart/go-textseg/v15/textseg"
	v17 "github.com/apparentlymart/go-textseg/v17/textseg"
	"verif.local/harness/explore"
	"verif.local/harness/kit"
	"verif.local/harness/spec"
	"verif.local/harness/ucd"
)

func expected() int {
	if s := os.Getenv("AUTOV_EXPECT"); s != "" {
		n, err := strconv.Atoi(s)
		if err != nil {
			panic(err)
		}
		return n
	}
	n, err := strconv.Atoi(strings.Split(unicode.Version, ".")[0])
	if err != nil {
		panic(err)
	}
	return n
}

func reference(v int) explore.ScanFunc {
	switch v {
	case 15:
		return v15.ScanGraphemeClusters
	case 17:
		return v17.ScanGraphemeClusters
	}
	panic(fmt.Sprint("no reference for Unicode ", v))
}

func main() {
	if len(os.Args) == 3 && os.Args[1] == "replay" {
		raw, err := os.ReadFile(os.Args[2])
		var v kit.Replay
		if err == nil {
			err = json.Unmarshal(raw, &v)
		}
		if err != nil {
			os.Exit(2)
		}
		switch v.Kind {
		case "version":
			if auto.UnicodeMajorVersion != expected() {
				os.Exit(1)
			}
			os.Exit(0)
		case "tokens":
			os.Exit(replayTokens(&v))
		case "script":
			os.Exit(replayScript(&v))
		case "overlap":
			os.Exit(replayOverlap(&v))
		case "utf8":
			os.Exit(replayUTF8(&v))
		}
		os.Exit(explore.ReplayRef(os.Args[2], auto.ScanGraphemeClusters, reference(expected())))
	}
	prop, thorough, out := os.Args[1], os.Args[2] == "thorough", os.Args[3]
	limit := 200 * time.Second
	if thorough {
		limit = 250 * time.Second
	}
	k := kit.New(prop, thorough, out, limit)
	switch prop {
	case "C10":
		c10(k, thorough)
	case "C11":
		c11(k, thorough)
	default:
		os.Exit(2)
	}
	k.Finish()
}

// differing returns characters that the two versions treat differently.
func differing() []rune {
	var ret []rune
	contexts := [][2]string{{"", ""}, {"a", ""}, {"", "\u0301"}, {"\U0001F600\u200D", ""}, {"\u0915\u094D", ""}, {"", "\u094D\u0915"}, {"\u1100", ""}, {"\U0001F1E6", ""}, {"", "a"}}
	seen := map[string]bool{}
	for r := rune(0); r <= unicode.MaxRune; r++ {
		if !ucd.Valid(r) {
			continue
		}
		sig := ""
		for i, c := range contexts {
			b := []byte(c[0] + string(r) + c[1])
			n15, _, _ := v15.ScanGraphemeClusters(b, true)
			n17, _, _ := v17.ScanGraphemeClusters(b, true)
			if n15 != n17 {
				sig += fmt.Sprint(i, n15-n17, " ")
			}
		}
		if sig != "" && !seen[sig] {
			seen[sig] = true
			ret = append(ret, r)
		}
	}
	return ret
}

func c10(k *kit.Run, thorough bool) {
	v := expected()
	k.Count("expected_version", v)
	k.Count("unicode_version_of_this_build", unicode.Version)
	if auto.UnicodeMajorVersion != v {
		k.Fail(kit.Replay{Kind: "version", Message: fmt.Sprintf("UnicodeMajorVersion is %d, but this build's Unicode version is %d (unicode.Version %s)", auto.UnicodeMajorVersion, v, unicode.Version)})
		return
	}
	const _ int = auto.UnicodeMajorVersion // a constant
	x := &explore.X{Run: k, M: spec.NewModel(), Scan: auto.ScanGraphemeClusters, Ref: reference(v), Import: "github.com/apparentlymart/go-textseg/autoversion/textseg"}
	frags := append(explore.Chars(false), explore.Malformed()...)
	d := differing()
	for _, r := range d {
		frags = append(frags, explore.Frag{Name: fmt.Sprintf("differs(U+%04X)", r), Bytes: []byte(string(r)), Char: true})
	}
	k.Count("kinds_of_characters_that_differ_between_versions", len(d))
	k.ParallelN("nothing", "the empty input, nil and not, with either atEOF", 1, 1, func(w *kit.Worker, _ int) {
		for _, b := range [][]byte{nil, {}, make([]byte, 0, 8)} {
			for _, eof := range []bool{false, true} {
				w.Calls++
				w.S["inputs"]++
				a1, t1, e1 := x.Scan(b, eof)
				a2, t2, e2 := x.Ref(b, eof)
				if a1 != a2 || (t1 == nil) != (t2 == nil) || len(t1) != len(t2) || e1 != e2 {
					k.Fail(kit.Replay{Kind: "scan", EOF: eof, Message: fmt.Sprintf("no input: got (%d, %v, %v), want (%d, %v, %v)", a1, t1, e1, a2, t2, e2)})
				}
			}
		}
	})
	all := explore.AllBytes(0, 255)
	x.ByteTree("bytes", "all byte strings of up to 3 bytes, with either atEOF", [][]byte{all, all, all})
	if thorough {
		x.ByteTree("key bytes", "all strings of up to 5 bytes next to the limits of the byte classes", [][]byte{explore.KeyBytes(), explore.KeyBytes(), explore.KeyBytes(), explore.KeyBytes(), explore.KeyBytes()})
		x.Tree("fragments", frags, 4)
	} else {
		x.Tree("fragments", frags, 3)
	}
	x.Sweep("every character")
	x.Sizes("buffer sizes")
}
