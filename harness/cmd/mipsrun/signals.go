package main

import "sort"

// returnPC is where handlers of signals return to.
const returnPC = 0xfff0

const (
	sigSEGV, sigFPE, sigTRAP = 11, 8, 5
)

type altstack struct{ sp, size uint64 }

// The places of things in a ucontext.
type layout struct{ regs, pc, hi, lo, addr, mask, size uint64 }

func (m *machine) layout() layout {
	if m.wide {
		return layout{regs: 40, pc: 616, hi: 552, lo: 584, addr: 16, mask: 700, size: 768}
	}
	return layout{regs: 40, pc: 32, hi: 576, lo: 592, addr: 12, mask: 700, size: 768}
}

// deliver makes the thread go on in the handler of a signal. It reports whether there is one.
func (m *machine) deliver(t *thread, sig int, code uint32, addr uint64) bool {
	h := m.handlers[sig]
	if h < 0x10000 || t.mask>>(sig-1)&1 == 1 {
		return false
	}
	sp := t.r[29] & m.mask
	if a := t.alt; a.size > 0 && !(sp >= a.sp && sp < a.sp+a.size) {
		sp = a.sp + a.size
	}
	l := m.layout()
	sp = (sp - l.size - 128 - 64) &^ 15
	info, ctx := sp+64, sp+64+128
	m.clear(sp, 64+128+l.size)
	m.put32(info, uint32(sig))
	m.put32(info+4, code)
	if m.wide {
		m.put64(info+l.addr, addr)
	} else {
		m.put32(info+l.addr, uint32(addr))
	}
	for i := uint64(0); i < 32; i++ {
		m.put64(ctx+l.regs+8*i, t.r[i])
	}
	m.put64(ctx+l.pc, uint64(t.pc))
	m.put64(ctx+l.hi, t.hi)
	m.put64(ctx+l.lo, t.lo)
	m.put64(ctx+l.mask, t.mask)
	t.frames = append(t.frames, ctx)
	t.mask |= 1<<(sig-1) | m.masks[sig]
	t.r[4], t.r[5], t.r[6], t.r[25], t.r[29], t.r[31] = uint64(sig), info, ctx, h, sp, returnPC
	t.pc, t.npc = uint32(h), uint32(h)+4
	t.link = false
	return true
}

// sigreturn continues where the last signal came, or where its handler said.
func (m *machine) sigreturn(t *thread) {
	n := len(t.frames) - 1
	// Frames that were left for good lie below.
	ctx := t.frames[n]
	t.frames = t.frames[:n]
	l := m.layout()
	for i := uint64(1); i < 32; i++ {
		t.r[i] = m.get64(ctx + l.regs + 8*i)
		if !m.wide {
			t.r[i] = sx(uint32(t.r[i]))
		}
	}
	t.pc = uint32(m.get64(ctx + l.pc))
	t.npc = t.pc + 4
	t.hi, t.lo, t.mask = m.get64(ctx+l.hi), m.get64(ctx+l.lo), m.get64(ctx+l.mask)
	t.link = false
}

// sortSymbols is for where.
func (m *machine) sortSymbols() {
	sort.Slice(m.syms, func(i, j int) bool { return m.syms[i].Value < m.syms[j].Value })
}
