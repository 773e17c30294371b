package spec

import (
	"fmt"

	. "verif.local/harness/ucd"
)

// Kind says how the start of a buffer decodes.
type Kind uint8

const (
	Strict     Kind = iota // a Unicode scalar value in well-formed UTF-8
	Wild                   // structurally complete, but overlong, a surrogate or out of range: left open by the documentation
	Invalid                // one byte that cannot start a structurally valid sequence
	Incomplete             // a proper prefix of a structurally valid sequence
)

// Structure applies the structural UTF-8 rule: length from the lead byte, and continuation bytes.
// It returns the length of the unit (for Incomplete, of the bytes present).
func Structure(b []byte) (Kind, int) {
	n := 0
	switch c := b[0]; {
	case c <= 0x7f:
		return Strict, 1
	case c >= 0xc0 && c <= 0xdf:
		n = 2
	case c >= 0xe0 && c <= 0xef:
		n = 3
	case c >= 0xf0 && c <= 0xf7:
		n = 4
	default:
		return Invalid, 1
	}
	for i := 1; i < n; i++ {
		if i == len(b) {
			return Incomplete, i
		}
		if b[i] < 0x80 || b[i] > 0xbf {
			return Invalid, 1
		}
	}
	return Strict, n // to be refined by Unit
}

// Unit decodes the start of a non-empty buffer.
func Unit(b []byte) (Kind, int, Class) {
	k, n := Structure(b)
	if k != Strict {
		return k, n, 0
	}
	var r rune
	switch n {
	case 1:
		r = rune(b[0])
	case 2:
		r = rune(b[0]&0x1f)<<6 | rune(b[1]&0x3f)
		if r < 0x80 {
			return Wild, n, 0
		}
	case 3:
		r = rune(b[0]&0x0f)<<12 | rune(b[1]&0x3f)<<6 | rune(b[2]&0x3f)
		if r < 0x800 || r >= 0xd800 && r <= 0xdfff {
			return Wild, n, 0
		}
	case 4:
		r = rune(b[0]&0x07)<<18 | rune(b[1]&0x3f)<<12 | rune(b[2]&0x3f)<<6 | rune(b[3]&0x3f)
		if r < 0x10000 || r > 0x10ffff {
			return Wild, n, 0
		}
	}
	return Strict, n, Of(r)
}

const allClasses = 1<<NumClasses - 1

// Model decides which results ScanGraphemeClusters may give.
type Model struct {
	*Auto
	partial map[uint32]uint32 // incomplete sequence -> classes of the scalar values it can become
}

func pkey(b []byte) uint32 {
	k := uint32(1)
	for _, c := range b {
		k = k<<8 | uint32(c)
	}
	return k
}

// NewModel builds the model's tables.
func NewModel() *Model {
	m := &Model{NewAuto(), map[uint32]uint32{}}
	for r := rune(0x80); r < 0x110000; r++ {
		if !Valid(r) {
			continue
		}
		b := []byte(string(r))
		for i := 1; i < len(b); i++ {
			m.partial[pkey(b[:i])] |= 1 << Of(r)
		}
	}
	return m
}

// Accept is the set of allowed advances: A always, and B and C too if they are not negative. (0 means "need more".)
type Accept struct {
	A, B, C int
	// Wild is set if the documentation leaves the outcome open, so that the set is a choice between readings of it.
	Wild bool
}

// Has reports whether adv is allowed.
func (a Accept) Has(adv int) bool {
	return adv == a.A || adv == a.B && adv >= 0 || adv == a.C && adv >= 0
}

func (a Accept) String() string {
	s := fmt.Sprintf("%d", a.A)
	if a.B >= 0 && a.B != a.A {
		s += fmt.Sprintf(" or %d", a.B)
	}
	if a.C >= 0 && a.C != a.A && a.C != a.B {
		s += fmt.Sprintf(" or %d", a.C)
	}
	return s
}

// First returns the allowed advances for a call with buffer b.
func (m *Model) First(b []byte, eof bool) Accept {
	if len(b) == 0 {
		return Accept{0, -1, -1, false}
	}
	k, n, c := Unit(b)
	switch k {
	case Invalid:
		return Accept{1, -1, -1, false}
	case Incomplete:
		if eof {
			return Accept{1, -1, -1, false}
		}
		if m.partial[pkey(b[:n])] == 0 {
			// Only sequences that the documentation leaves open can follow, which could be rejected at once.
			return Accept{0, 1, -1, true}
		}
		return Accept{0, -1, -1, false}
	case Wild:
		// Either an 'Other' character, or n invalid bytes.
		a := m.rest(b, n, int(Other), eof)
		w := a.A
		return Accept{w, 1, n, true}
	}
	return m.rest(b, n, int(c), eof)
}

// Within returns the state after valid text b, or -1 if there is a boundary within it.
func (m *Model) Within(b []byte) int {
	state := -1
	for p := 0; p < len(b); {
		k, n, c := Unit(b[p:])
		switch {
		case k != Strict || state >= 0 && m.Break[state]>>c&1 == 1:
			return -1
		case state < 0:
			state = int(c)
		default:
			state = int(m.Next[state][c])
		}
		p += n
	}
	return state
}

// From is First for a buffer of which b[:pos] is within the first cluster and leads to the given state.
func (m *Model) From(b []byte, pos, state int, eof bool) Accept { return m.rest(b, pos, state, eof) }

func (m *Model) rest(b []byte, pos, state int, eof bool) Accept {
	for {
		if pos == len(b) {
			if eof {
				return Accept{pos, -1, -1, false}
			}
			if m.Break[state] == allClasses {
				return Accept{0, pos, -1, false} // may be early: nothing can join
			}
			return Accept{0, -1, -1, false}
		}
		k, n, c := Unit(b[pos:])
		switch k {
		case Invalid:
			return Accept{pos, -1, -1, false}
		case Incomplete:
			if eof {
				return Accept{pos, -1, -1, false}
			}
			if m.partial[pkey(b[pos:pos+n])]&^m.Break[state] == 0 {
				return Accept{0, pos, -1, false}
			}
			return Accept{0, -1, -1, false}
		case Wild:
			if m.Break[state]>>Other&1 == 1 {
				return Accept{pos, -1, -1, false}
			}
			// As 'Other' it joins; as invalid bytes it does not.
			a := m.rest(b, pos+n, int(m.Next[state][Other]), eof)
			return Accept{a.A, pos, a.B, true}
		}
		if m.Break[state]>>c&1 == 1 {
			return Accept{pos, -1, -1, false}
		}
		pos += n
		state = int(m.Next[state][c])
	}
}

// Classes decodes a valid text.
func Classes(b []byte) (cs []Class, ends []int) {
	for p := 0; p < len(b); {
		k, n, c := Unit(b[p:])
		if k != Strict {
			panic("not valid")
		}
		p += n
		cs = append(cs, c)
		ends = append(ends, p)
	}
	return
}

// SelfTest compares the two forms of the model on every class sequence up to the given length, and returns how many.
func SelfTest(m *Model, length int) (int, error) {
	count := 0
	var rec func(text []Class, state int) error
	rec = func(text []Class, state int) error {
		for c := Class(0); c < NumClasses; c++ {
			t := append(text, c)
			var next int
			if len(text) == 0 {
				next = int(c)
			} else {
				b := m.Break[state]>>c&1 == 1
				// Boundary looks only backwards, but treats the end of the text specially.
				if b != Boundary(append(t, Other), len(t)-1) {
					return fmt.Errorf("models disagree on %v", t)
				}
				next = int(m.Next[state][c])
			}
			count++
			if len(t) < length {
				if err := rec(t, next); err != nil {
					return err
				}
			}
		}
		return nil
	}
	return count, rec(make([]Class, 0, length+2), 0)
}
