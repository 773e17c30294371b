// Package ucd holds the oracle's own copy of the Unicode 17.0 properties that
// matter for grapheme cluster segmentation.
package ucd

import "unicode/utf8"

// Class is one of the 18 combinations of Grapheme_Cluster_Break,
// Extended_Pictographic and Indic_Conjunct_Break which Unicode 17.0 assigns.
type Class uint8

const (
	Other       Class = iota // GCB=Other, InCB=None
	CR                       // GCB=CR
	LF                       // GCB=LF
	Control                  // GCB=Control
	Extend                   // GCB=Extend, InCB=Extend
	ZWJ                      // GCB=ZWJ, InCB=Extend
	RI                       // GCB=Regional_Indicator
	Prepend                  // GCB=Prepend
	SpacingMark              // GCB=SpacingMark
	L                        // GCB=L
	V                        // GCB=V
	T                        // GCB=T
	LV                       // GCB=LV
	LVT                      // GCB=LVT
	ExtPict                  // GCB=Other, Extended_Pictographic
	Consonant                // GCB=Other, InCB=Consonant
	Linker                   // GCB=Extend, InCB=Linker
	ExtendPlain              // GCB=Extend, InCB=None
	NumClasses  = 18
)

var names = [NumClasses]string{"Other", "CR", "LF", "Control", "Extend", "ZWJ", "RI", "Prepend", "SpacingMark", "L", "V", "T", "LV", "LVT", "ExtPict", "Consonant", "Linker", "ExtendPlain"}

func (c Class) String() string { return names[c] }

// GCB returns the Grapheme_Cluster_Break value name.
func (c Class) GCB() string {
	switch c {
	case ExtPict, Consonant, Other:
		return "Other"
	case Linker, ExtendPlain:
		return "Extend"
	case RI:
		return "Regional_Indicator"
	default:
		return names[c]
	}
}

// InCB returns the Indic_Conjunct_Break value name.
func (c Class) InCB() string {
	switch c {
	case Extend, ZWJ:
		return "Extend"
	case Linker:
		return "Linker"
	case Consonant:
		return "Consonant"
	default:
		return "None"
	}
}

var table [0x110000]Class

func init() {
	for i := 0; i < len(data); i += 3 {
		for c := data[i]; c <= data[i+1]; c++ {
			table[c] = Class(data[i+2])
		}
	}
}

// Of returns the class of a code point.
func Of(r rune) Class { return table[r] }

// Valid reports whether r is a Unicode scalar value.
func Valid(r rune) bool { return r >= 0 && r < 0x110000 && (r < 0xd800 || r > 0xdfff) }

// Edges returns every scalar value at, or next to, an end of a range of equal class.
func Edges() []rune {
	var ret []rune
	for r := rune(0); r < 0x110000; r++ {
		if !Valid(r) {
			continue
		}
		if r == 0 || r == 0x10ffff || table[r] != table[r-1] || table[r] != table[r+1] || r == 0xd7ff || r == 0xe000 {
			ret = append(ret, r)
		}
	}
	return ret
}

// Letters returns one sample per class (perClass 1), or one per class and UTF-8 length (perClass 2).
// For each class the sample is a well-known member, so that counterexamples are easy to read.
func Letters(byLength bool) []Letter {
	base := [NumClasses]rune{'a', '\r', '\n', 0, 0x301, 0x200d, 0x1f1e6, 0x600, 0x903, 0x1100, 0x1161, 0x11a8, 0xac00, 0xac01, 0x1f600, 0x915, 0x94d, 0x200c}
	var ret []Letter
	for c := Class(0); c < NumClasses; c++ {
		if table[base[c]] != c {
			panic("bad sample for " + names[c])
		}
		ret = append(ret, NewLetter(base[c]))
	}
	if !byLength {
		return ret
	}
	for c := Class(0); c < NumClasses; c++ {
		for n := 1; n <= 4; n++ {
			if n == utf8.RuneLen(base[c]) {
				continue
			}
			// Take the middle member, to be away from block starts.
			var members []rune
			for r := rune(0); r < 0x110000; r++ {
				if Valid(r) && table[r] == c && utf8.RuneLen(r) == n {
					members = append(members, r)
				}
			}
			if len(members) > 0 {
				ret = append(ret, NewLetter(members[len(members)/2]))
			}
		}
	}
	return ret
}

// Letter is a character used to build test texts.
type Letter struct {
	Rune  rune
	Class Class
	Bytes []byte
}

// NewLetter describes r.
func NewLetter(r rune) Letter { return Letter{r, table[r], []byte(string(r))} }
