// mach checks the boundary state machine (C12): mach C12 quick|thorough RESULT.json, or mach replay FILE.
package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"time"

	"github.com/apparentlymart/go-textseg/v17/textseg/internal/charprops"
	"github.com/apparentlymart/go-textseg/v17/textseg/internal/machine"
	"verif.local/harness/kit"
	"verif.local/harness/spec"
	"verif.local/harness/ucd"
)

// props is the packed form of each class: what the lookup gives for a sample of the class.
var props [ucd.NumClasses]charprops.CharProperties

// implState is a state of the machine under test, as a comparable value.
type implState = any

func begin(c ucd.Class) implState { return machine.Begin(props[c]) }

func step(s implState, prev, next ucd.Class) (bool, implState) {
	return stepOf(machine.Begin, s, props[prev], props[next])
}

// stepOf only serves to name the type of the states.
func stepOf[S interface {
	comparable
	Transition(prev, next charprops.CharProperties) (bool, S)
}](_ func(charprops.CharProperties) S, s implState, prev, next charprops.CharProperties) (bool, implState) {
	b, n := s.(S).Transition(prev, next)
	return b, n
}

type node struct {
	impl  implState
	prev  ucd.Class
	model int
}

func classHex(cs []ucd.Class) string {
	b := make([]byte, len(cs))
	for i, c := range cs {
		b[i] = byte(c)
	}
	return hex.EncodeToString(b)
}

// run feeds a whole text and returns what is wrong.
func run(text []ucd.Class) (msg string) {
	defer func() {
		if p := recover(); p != nil {
			msg = fmt.Sprintf("panic: %v, for the classes %v", p, text)
		}
	}()
	s := begin(text[0])
	for i := 1; i < len(text); i++ {
		var b bool
		b, s = step(s, text[i-1], text[i])
		if w := spec.Boundary(append(text[:i+1:i+1], ucd.Other), i); b != w {
			return fmt.Sprintf("boundary before character %d of %v: %v, want %v", i, text[:i+1], b, w)
		}
	}
	return ""
}

func fail(r *kit.Run, text []ucd.Class, msg string) {
	r.Fail(kit.Replay{Kind: "classes", Data: classHex(text), Message: msg, Params: map[string]any{"classes": fmt.Sprint(text)}})
}

func main() {
	m := spec.NewModel()
	for i, l := range ucd.Letters(false) {
		p, n := charprops.LookupFirstChar(l.Bytes)
		if n != len(l.Bytes) {
			panic("cannot look up a sample")
		}
		props[i] = p
	}
	if len(os.Args) == 3 && os.Args[1] == "replay" {
		raw, err := os.ReadFile(os.Args[2])
		var v kit.Replay
		if err == nil {
			err = json.Unmarshal(raw, &v)
		}
		b, err2 := hex.DecodeString(v.Data)
		if err != nil || err2 != nil || len(b) == 0 {
			os.Exit(2)
		}
		var text []ucd.Class
		for _, c := range b {
			text = append(text, ucd.Class(c))
		}
		if msg := run(text); msg != "" {
			fmt.Println(msg)
			os.Exit(1)
		}
		os.Exit(0)
	}
	thorough := os.Args[2] == "thorough"
	limit := 600 * time.Second
	if thorough {
		limit = 780 * time.Second
	}
	r := kit.New(os.Args[1], thorough, os.Args[3], limit)
	n, err := spec.SelfTest(m, 5)
	if err != nil {
		panic(err)
	}
	r.Count("model_self_test_texts", n)

	// The complete product of the machine and the model.
	const maxNodes = 2000000
	r.ParallelN("product of machine and model", "all reachable (machine state, previous class, model state) triples, from every first class, breadth first to the fixpoint", 1, 1, func(w *kit.Worker, _ int) {
		seen := map[node]int{}
		var nodes []node
		var parent []int
		var text func(i int) []ucd.Class
		text = func(i int) []ucd.Class {
			if i < 0 {
				return nil
			}
			return append(text(parent[i]), nodes[i].prev)
		}
		add := func(nd node, from int) {
			if _, ok := seen[nd]; !ok {
				seen[nd] = len(nodes)
				nodes = append(nodes, nd)
				parent = append(parent, from)
			}
		}
		impl := map[implState]bool{}
		for c := ucd.Class(0); c < ucd.NumClasses; c++ {
			w.Calls++
			w.Note = fmt.Sprintf("Begin(%v)", c)
			add(node{begin(c), c, int(c)}, -1)
		}
		edges := 0
		for i := 0; i < len(nodes); i++ {
			if len(nodes) > maxNodes {
				r.Count("product_cut_off", len(nodes))
				r.Sample("the product was cut off")
				break
			}
			impl[nodes[i].impl] = true
			for c := ucd.Class(0); c < ucd.NumClasses; c++ {
				nd := nodes[i]
				w.Calls++
				edges++
				t := append(text(i), c)
				if msg := func() (msg string) {
					defer func() {
						if p := recover(); p != nil {
							msg = fmt.Sprintf("panic: %v, for the classes %v", p, t)
						}
					}()
					b, s := step(nd.impl, nd.prev, c)
					if want := m.Break[nd.model]>>c&1 == 1; b != want {
						return fmt.Sprintf("boundary before the last of %v: %v, want %v", t, b, want)
					}
					add(node{s, c, int(m.Next[nd.model][c])}, i)
					return ""
				}(); msg != "" {
					fail(r, t, msg)
					return
				}
			}
		}
		r.Count("states", len(nodes))
		r.Count("transitions", edges)
		r.Count("machine_states", len(impl))
		r.Count("model_states", len(m.States))
		w.S["product_transitions"] = uint64(edges)
	})
	depth := 6
	if thorough {
		depth = 7
	}
	r.Parallel("whole texts", fmt.Sprintf("every text of up to %d classes, each fed from its start, against the declarative rules", depth), ucd.NumClasses*ucd.NumClasses, func(w *kit.Worker, job int) {
		text := make([]ucd.Class, 2, depth+2)
		text[0], text[1] = ucd.Class(job/ucd.NumClasses), ucd.Class(job%ucd.NumClasses)
		var rec func(t []ucd.Class)
		rec = func(t []ucd.Class) {
			if r.Stopped() {
				return
			}
			if len(t) == depth {
				w.S["traces"]++
				w.Calls++
				if msg := run(t); msg != "" {
					fail(r, t, msg)
				}
				return
			}
			for c := ucd.Class(0); c < ucd.NumClasses; c++ {
				rec(append(t, c))
			}
		}
		rec(text)
	})
	// Long texts, in case the machine's states hide something (a counter, say).
	reps := 400
	if thorough {
		reps = 70000
	}
	var loops [][]ucd.Class
	for a := ucd.Class(0); a < ucd.NumClasses; a++ {
		loops = append(loops, []ucd.Class{a})
		for b := ucd.Class(0); b < ucd.NumClasses; b++ {
			loops = append(loops, []ucd.Class{a, b})
			for c := ucd.Class(0); c < ucd.NumClasses; c++ {
				loops = append(loops, []ucd.Class{a, b, c})
			}
		}
	}
	r.Parallel("long texts", fmt.Sprintf("%d loops of 1..3 classes after every first class, repeated %d times, trying every class at every position", len(loops), reps), len(loops), func(w *kit.Worker, job int) {
		lp := loops[job]
		for first := ucd.Class(0); first < ucd.NumClasses; first++ {
			s, st, prev := begin(first), int(first), first
			for i := 0; i < reps; i++ {
				if r.Stopped() {
					return
				}
				c := lp[i%len(lp)]
				for o := ucd.Class(0); o < ucd.NumClasses; o++ {
					w.Calls++
					b, _ := step(s, prev, o)
					if want := m.Break[st]>>o&1 == 1; b != want {
						t := []ucd.Class{first}
						for k := 0; k < i; k++ {
							t = append(t, lp[k%len(lp)])
						}
						fail(r, append(t, o), fmt.Sprintf("boundary before %v after %v and %d characters of the loop %v: %v, want %v", o, first, i, lp, b, want))
						return
					}
				}
				_, s = step(s, prev, c)
				st, prev = int(m.Next[st][c]), c
			}
			w.S["loops"]++
		}
	})
	// Two machines advanced alternately, in every interleaving.
	r.ParallelN("interleaved machines", "every interleaving of two texts of 5 classes out of a set that leaves every model state pending", 1, 1, func(w *kit.Worker, _ int) {
		var texts [][]ucd.Class
		for _, a := range m.Word {
			t := append([]ucd.Class{}, a...)
			for len(t) < 5 {
				t = append(t, []ucd.Class{ucd.RI, ucd.Consonant, ucd.ExtPict, ucd.ZWJ}[len(t)%4])
			}
			texts = append(texts, t)
		}
		for i := range texts {
			for j := range texts {
				for sched := 0; sched < 1<<8; sched++ {
					var k [2]int
					var s [2]implState
					var st [2]int
					tx := [2][]ucd.Class{texts[i], texts[j]}
					for x := range s {
						s[x], st[x] = begin(tx[x][0]), int(tx[x][0])
					}
					for q := 0; q < 8; q++ {
						x := sched >> q & 1
						if k[x]+1 >= len(tx[x]) {
							continue
						}
						c := tx[x][k[x]+1]
						var b bool
						w.Calls++
						b, s[x] = step(s[x], tx[x][k[x]], c)
						if want := m.Break[st[x]]>>c&1 == 1; b != want {
							fail(r, tx[x][:k[x]+2], fmt.Sprintf("interleaved with %v: boundary before the last of %v: %v", tx[1-x], tx[x][:k[x]+2], b))
							return
						}
						st[x] = int(m.Next[st[x]][c])
						k[x]++
					}
					w.S["interleavings"]++
				}
			}
			if r.Stopped() {
				return
			}
		}
	})
	r.Sample(map[string]any{"classes": "ExtPict RI RI RI", "verdicts": "break, no break, break"})
	r.Finish()
}
