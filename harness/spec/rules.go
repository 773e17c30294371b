// Package spec is the reference model: UAX #29 extended grapheme clusters for
// Unicode 17.0, and the documented treatment of malformed UTF-8.
//
// It is written from the text of the standard and of the library's
// documentation, not from the library's code, and comes in two forms that are
// checked against each other (SelfTest): Boundary applies the rules to a whole
// text with unbounded look-behind, and State is a finite automaton.
package spec

import . "verif.local/harness/ucd"

func isControl(c Class) bool { return c == CR || c == LF || c == Control }
func gcbExtend(c Class) bool { return c == Extend || c == Linker || c == ExtendPlain }

// Boundary reports whether there is a boundary between text[i-1] and text[i].
func Boundary(text []Class, i int) bool {
	if i == 0 || i == len(text) { // GB1, GB2
		return true
	}
	p, n := text[i-1], text[i]
	if p == CR && n == LF { // GB3
		return false
	}
	if isControl(p) || isControl(n) { // GB4, GB5
		return true
	}
	if p == L && (n == L || n == V || n == LV || n == LVT) { // GB6
		return false
	}
	if (p == LV || p == V) && (n == V || n == T) { // GB7
		return false
	}
	if (p == LVT || p == T) && n == T { // GB8
		return false
	}
	if gcbExtend(n) || n == ZWJ { // GB9
		return false
	}
	if n == SpacingMark { // GB9a
		return false
	}
	if p == Prepend { // GB9b
		return false
	}
	if n == Consonant { // GB9c
		linkers := 0
		j := i - 1
		for j >= 0 && (text[j].InCB() == "Extend" || text[j].InCB() == "Linker") {
			if text[j].InCB() == "Linker" {
				linkers++
			}
			j--
		}
		if j >= 0 && text[j] == Consonant && linkers > 0 {
			return false
		}
	}
	if n == ExtPict && p == ZWJ { // GB11
		j := i - 2
		for j >= 0 && gcbExtend(text[j]) {
			j--
		}
		if j >= 0 && text[j] == ExtPict {
			return false
		}
	}
	if n == RI { // GB12, GB13
		count := 0
		for j := i - 1; j >= 0 && text[j] == RI; j-- {
			count++
		}
		if count%2 == 1 {
			return false
		}
	}
	return true // GB999
}

// State summarises everything that the rules can ask about the text so far.
type State struct {
	Prev  Class
	RIOdd bool  // the text ends with an odd number of regional indicators
	Pict  uint8 // 1: ends with ExtPict Extend*; 2: ends with ExtPict Extend* ZWJ
	Conj  uint8 // 1: ends with Consonant [Extend]*; 2: the same with at least one Linker
}

// Start is the state after a text of one character.
func Start(c Class) State { return after(State{}, c) }

func after(s State, n Class) State {
	r := State{Prev: n}
	r.RIOdd = n == RI && !s.RIOdd
	switch {
	case n == ExtPict:
		r.Pict = 1
	case s.Pict == 1 && gcbExtend(n):
		r.Pict = 1
	case s.Pict == 1 && n == ZWJ:
		r.Pict = 2
	}
	switch {
	case n == Consonant:
		r.Conj = 1
	case s.Conj != 0 && n == Linker:
		r.Conj = 2
	case s.Conj != 0 && (n == Extend || n == ZWJ):
		r.Conj = s.Conj
	}
	return r
}

// Step feeds the next character and reports whether there is a boundary before it.
func (s State) Step(n Class) (bool, State) {
	return s.boundary(n), after(s, n)
}

func (s State) boundary(n Class) bool {
	p := s.Prev
	switch {
	case p == CR && n == LF:
		return false
	case isControl(p) || isControl(n):
		return true
	case gcbExtend(n), n == ZWJ, n == SpacingMark, p == Prepend:
		return false
	case p == L && (n == L || n == V || n == LV || n == LVT),
		(p == LV || p == V) && (n == V || n == T),
		(p == LVT || p == T) && n == T:
		return false
	case n == Consonant && s.Conj == 2:
		return false
	case n == ExtPict && s.Pict == 2:
		return false
	case n == RI && s.RIOdd:
		return false
	}
	return true
}

// Auto is State with its transitions tabulated; ids are dense, and 0..17 are Start(class).
type Auto struct {
	States []State
	Next   [][NumClasses]uint8
	Break  []uint32 // bit c: there is a boundary before class c
	// Access[i] is a shortest text that reaches state i without passing a boundary, or nil.
	Access [][]Class
	// Word[i] is a shortest text that reaches state i, boundaries allowed.
	Word [][]Class
}

// NewAuto tabulates all reachable states.
func NewAuto() *Auto {
	a := &Auto{}
	id := map[State]int{}
	add := func(s State, w []Class) int {
		if i, ok := id[s]; ok {
			return i
		}
		i := len(a.States)
		id[s] = i
		a.States = append(a.States, s)
		a.Word = append(a.Word, w)
		a.Access = append(a.Access, nil)
		return i
	}
	for c := Class(0); c < NumClasses; c++ {
		add(Start(c), []Class{c})
	}
	for i := 0; i < len(a.States); i++ {
		var row [NumClasses]uint8
		var brk uint32
		for c := Class(0); c < NumClasses; c++ {
			b, n := a.States[i].Step(c)
			row[c] = uint8(add(n, append(append([]Class{}, a.Word[i]...), c)))
			if b {
				brk |= 1 << c
			}
		}
		a.Next = append(a.Next, row)
		a.Break = append(a.Break, brk)
	}
	// Open access words, breadth first.
	var queue []int
	for c := 0; c < NumClasses; c++ {
		a.Access[c] = []Class{Class(c)}
		queue = append(queue, c)
	}
	for len(queue) > 0 {
		i := queue[0]
		queue = queue[1:]
		for c := 0; c < NumClasses; c++ {
			if a.Break[i]>>c&1 == 1 {
				continue
			}
			n := int(a.Next[i][c])
			if a.Access[n] == nil {
				a.Access[n] = append(append([]Class{}, a.Access[i]...), Class(c))
				queue = append(queue, n)
			}
		}
	}
	return a
}

// Suffixes returns a set of words such that any two states (and any two classes, as the continuation of a text)
// that differ in any future verdict differ on one of them: all one-letter words, and the longer words found by
// partition refinement.
func (a *Auto) Suffixes() [][]Class {
	var ret [][]Class
	for c := Class(0); c < NumClasses; c++ {
		ret = append(ret, []Class{c})
	}
	verdict := func(s int, w []Class) string {
		v := make([]byte, len(w))
		for i, c := range w {
			v[i] = byte('0' + a.Break[s]>>c&1)
			s = int(a.Next[s][c])
		}
		return string(v)
	}
	split := func(x, y int) bool {
		for _, w := range ret {
			if verdict(x, w) != verdict(y, w) {
				return true
			}
		}
		return false
	}
	for x := range a.States {
		for y := 0; y < x; y++ {
			if split(x, y) {
				continue
			}
			// Search for a shortest distinguishing word.
			type node struct {
				x, y int
				w    []Class
			}
			seen := map[[2]int]bool{{x, y}: true}
			q := []node{{x, y, nil}}
		search:
			for len(q) > 0 {
				n := q[0]
				q = q[1:]
				for c := Class(0); c < NumClasses; c++ {
					w := append(append([]Class{}, n.w...), c)
					if (a.Break[n.x]^a.Break[n.y])>>c&1 == 1 {
						ret = append(ret, w)
						break search
					}
					k := [2]int{int(a.Next[n.x][c]), int(a.Next[n.y][c])}
					if k[0] != k[1] && !seen[k] {
						seen[k] = true
						q = append(q, node{k[0], k[1], w})
					}
				}
			}
		}
	}
	return ret
}
