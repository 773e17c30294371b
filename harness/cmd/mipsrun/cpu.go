package main

import (
	"encoding/binary"
	"fmt"
	"math/bits"
)

// Operations. Those of two registers and an immediate, and those of three registers, have a, b, c as their fields.
const (
	opBad = iota
	opNop
	opSll
	opSrl
	opSra
	opRotr
	opSllv
	opSrlv
	opSrav
	opJr
	opJalr
	opMovz
	opMovn
	opSyscall
	opBreak
	opMfhi
	opMthi
	opMflo
	opMtlo
	opMult
	opMultu
	opDiv
	opDivu
	opAddu
	opSubu
	opAnd
	opOr
	opXor
	opNor
	opSlt
	opSltu
	opTeq
	opTne
	opBltz
	opBgez
	opBltzal
	opBgezal
	opJ
	opJal
	opBeq
	opBne
	opBlez
	opBgtz
	opAddiu
	opSlti
	opSltiu
	opAndi
	opOri
	opXori
	opLui
	opLb
	opLh
	opLwl
	opLw
	opLbu
	opLhu
	opLwr
	opSb
	opSh
	opSwl
	opSw
	opSwr
	opLl
	opSc
	opMul
	opClz
	opClo
	opSeb
	opSeh
	// 64 bits
	opDsll
	opDsrl
	opDsra
	opDrotr
	opDsllv
	opDsrlv
	opDsrav
	opDmult
	opDmultu
	opDdiv
	opDdivu
	opDaddu
	opDsubu
	opDaddiu
	opLwu
	opLd
	opSd
	opLdl
	opLdr
	opSdl
	opSdr
	opLld
	opScd
	opDclz
	opDclo
)

// zero is where results for register 0 go.
const zero = 32

type inst struct {
	op      uint8
	a, b, c uint8 // a is written (if anything is)
	imm     uint32
}

func decode(w uint32, pc uint64) inst {
	rs, rt, rd, sh := uint8(w>>21&31), uint8(w>>16&31), uint8(w>>11&31), uint32(w>>6&31)
	dst := func(r uint8) uint8 {
		if r == 0 {
			return zero
		}
		return r
	}
	simm := uint32(int32(int16(w)))
	r3 := func(op uint8) inst { return inst{op, dst(rd), rs, rt, sh} }
	shift := func(op uint8, n uint32) inst { return inst{op, dst(rd), rt, 0, n} }
	imm := func(op uint8, v uint32) inst { return inst{op, dst(rt), rs, 0, v} }
	branch := func(op uint8) inst { return inst{op, 0, rs, rt, uint32(pc) + 4 + simm<<2} }
	if w == 0 {
		return inst{op: opNop}
	}
	switch w >> 26 {
	case 0:
		switch w & 63 {
		case 0:
			return shift(opSll, sh)
		case 2:
			if rs == 1 {
				return shift(opRotr, sh)
			}
			return shift(opSrl, sh)
		case 3:
			return shift(opSra, sh)
		case 4:
			return r3(opSllv)
		case 6:
			return r3(opSrlv)
		case 7:
			return r3(opSrav)
		case 8:
			return r3(opJr)
		case 9:
			return r3(opJalr)
		case 10:
			return r3(opMovz)
		case 11:
			return r3(opMovn)
		case 12:
			return inst{op: opSyscall}
		case 13:
			return inst{op: opBreak}
		case 15:
			return inst{op: opNop} // sync: the threads take turns
		case 16:
			return r3(opMfhi)
		case 17:
			return r3(opMthi)
		case 18:
			return r3(opMflo)
		case 19:
			return r3(opMtlo)
		case 20:
			return r3(opDsllv)
		case 22:
			return r3(opDsrlv)
		case 23:
			return r3(opDsrav)
		case 24:
			return r3(opMult)
		case 25:
			return r3(opMultu)
		case 26:
			return r3(opDiv)
		case 27:
			return r3(opDivu)
		case 28:
			return r3(opDmult)
		case 29:
			return r3(opDmultu)
		case 30:
			return r3(opDdiv)
		case 31:
			return r3(opDdivu)
		case 32, 33: // nothing that is executed here relies on traps at overflows
			return r3(opAddu)
		case 34, 35:
			return r3(opSubu)
		case 36:
			return r3(opAnd)
		case 37:
			return r3(opOr)
		case 38:
			return r3(opXor)
		case 39:
			return r3(opNor)
		case 42:
			return r3(opSlt)
		case 43:
			return r3(opSltu)
		case 44, 45:
			return r3(opDaddu)
		case 46, 47:
			return r3(opDsubu)
		case 52:
			return r3(opTeq)
		case 54:
			return r3(opTne)
		case 56:
			return shift(opDsll, sh)
		case 58:
			if rs == 1 {
				return shift(opDrotr, sh)
			}
			return shift(opDsrl, sh)
		case 59:
			return shift(opDsra, sh)
		case 60:
			return shift(opDsll, sh+32)
		case 62:
			if rs == 1 {
				return shift(opDrotr, sh+32)
			}
			return shift(opDsrl, sh+32)
		case 63:
			return shift(opDsra, sh+32)
		}
	case 1:
		switch rt {
		case 0:
			return branch(opBltz)
		case 1:
			return branch(opBgez)
		case 16:
			return branch(opBltzal)
		case 17:
			return branch(opBgezal)
		}
	case 2:
		return inst{op: opJ, imm: uint32(pc+4)&0xf0000000 | w&0x3ffffff<<2}
	case 3:
		return inst{op: opJal, imm: uint32(pc+4)&0xf0000000 | w&0x3ffffff<<2}
	case 4:
		return branch(opBeq)
	case 5:
		return branch(opBne)
	case 6:
		return branch(opBlez)
	case 7:
		return branch(opBgtz)
	case 8, 9:
		return imm(opAddiu, simm)
	case 10:
		return imm(opSlti, simm)
	case 11:
		return imm(opSltiu, simm)
	case 12:
		return imm(opAndi, w&0xffff)
	case 13:
		return imm(opOri, w&0xffff)
	case 14:
		return imm(opXori, w&0xffff)
	case 15:
		return imm(opLui, w<<16)
	case 24, 25:
		return imm(opDaddiu, simm)
	case 26:
		return imm(opLdl, simm)
	case 27:
		return imm(opLdr, simm)
	case 28:
		switch w & 63 {
		case 2:
			return r3(opMul)
		case 32:
			return r3(opClz)
		case 33:
			return r3(opClo)
		case 36:
			return r3(opDclz)
		case 37:
			return r3(opDclo)
		}
	case 31:
		if w&63 == 32 {
			switch sh {
			case 16:
				return shift(opSeb, 0)
			case 24:
				return shift(opSeh, 0)
			}
		}
	case 32:
		return imm(opLb, simm)
	case 33:
		return imm(opLh, simm)
	case 34:
		return imm(opLwl, simm)
	case 35:
		return imm(opLw, simm)
	case 36:
		return imm(opLbu, simm)
	case 37:
		return imm(opLhu, simm)
	case 38:
		return imm(opLwr, simm)
	case 39:
		return imm(opLwu, simm)
	case 40:
		return inst{opSb, rt, rs, 0, simm}
	case 41:
		return inst{opSh, rt, rs, 0, simm}
	case 42:
		return inst{opSwl, rt, rs, 0, simm}
	case 43:
		return inst{opSw, rt, rs, 0, simm}
	case 44:
		return inst{opSdl, rt, rs, 0, simm}
	case 45:
		return inst{opSdr, rt, rs, 0, simm}
	case 46:
		return inst{opSwr, rt, rs, 0, simm}
	case 48:
		return imm(opLl, simm)
	case 51:
		return inst{op: opNop} // pref
	case 52:
		return imm(opLld, simm)
	case 55:
		return imm(opLd, simm)
	case 56:
		return inst{opSc, rt, rs, 0, simm}
	case 60:
		return inst{opScd, rt, rs, 0, simm}
	case 63:
		return inst{opSd, rt, rs, 0, simm}
	}
	return inst{op: opBad, imm: w}
}

// A thread's registers hold sign-extended values in programs for 32 bits, as in a 64-bit processor.
type thread struct {
	r       [64]uint64
	hi, lo  uint64
	pc, npc uint32 // the program lies in the first 4 GiB
	link    bool   // nothing has happened since LL
	tid     int
	state   int
	wake    int64 // when blocked: when to go on, in ns
	addr    uint64
	events  uint64
	mask    uint64 // blocked signals
	pending uint64
	alt     altstack
	frames  []uint64 // of signals being handled
}

// fault stops a thread. sig is the signal that it leads to.
type fault struct {
	msg string
	sig int
}

const (
	evBudget = iota
	evSyscall
	evSigreturn
)

func sx(v uint32) uint64 { return uint64(int64(int32(v))) }

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// run executes up to n instructions. After evSyscall, pc is behind the syscall instruction.
func (m *machine) run(t *thread, n int) int {
	code, base, mem, mask := m.code, m.text, m.mem, m.mask
	r := &t.r
	pc, npc := t.pc, t.npc
	be := binary.BigEndian
	for ; n > 0; n-- {
		i := (pc - base) >> 2
		if uint64(i) >= uint64(len(code)) || pc&3 != 0 {
			t.pc = pc
			if pc == returnPC && len(t.frames) > 0 {
				return evSigreturn
			}
			panic(fault{fmt.Sprintf("jump to %#x", pc), sigSEGV})
		}
		in := &code[i]
		next := npc + 4
		a, b, c := in.a&63, in.b&63, in.c&63
		switch in.op {
		case opNop:
		case opSll:
			r[a] = sx(uint32(r[b]) << (in.imm & 31))
		case opSrl:
			r[a] = sx(uint32(r[b]) >> (in.imm & 31))
		case opSra:
			r[a] = uint64(int64(int32(r[b]) >> (in.imm & 31)))
		case opRotr:
			r[a] = sx(bits.RotateLeft32(uint32(r[b]), -int(in.imm)))
		case opSllv:
			r[a] = sx(uint32(r[c]) << (r[b] & 31))
		case opSrlv:
			r[a] = sx(uint32(r[c]) >> (r[b] & 31))
		case opSrav:
			r[a] = uint64(int64(int32(r[c]) >> (r[b] & 31)))
		case opJr:
			next = uint32(r[b])
		case opJalr:
			v := uint32(r[b])
			r[a] = sx(pc + 8)
			next = v
		case opMovz:
			if r[c] == 0 {
				r[a] = r[b]
			}
		case opMovn:
			if r[c] != 0 {
				r[a] = r[b]
			}
		case opSyscall:
			t.pc, t.npc = npc, next
			return evSyscall
		case opBreak:
			t.pc = pc
			panic(fault{"break", sigTRAP})
		case opMfhi:
			r[a] = t.hi
		case opMthi:
			t.hi = r[b]
		case opMflo:
			r[a] = t.lo
		case opMtlo:
			t.lo = r[b]
		case opMult:
			v := int64(int32(r[b])) * int64(int32(r[c]))
			t.hi, t.lo = sx(uint32(v>>32)), sx(uint32(v))
		case opMultu:
			v := uint64(uint32(r[b])) * uint64(uint32(r[c]))
			t.hi, t.lo = sx(uint32(v>>32)), sx(uint32(v))
		case opDiv:
			if x, y := int32(r[b]), int32(r[c]); y != 0 {
				t.hi, t.lo = sx(uint32(int64(x)%int64(y))), sx(uint32(int64(x)/int64(y)))
			}
		case opDivu:
			if x, y := uint32(r[b]), uint32(r[c]); y != 0 {
				t.hi, t.lo = sx(x%y), sx(x/y)
			}
		case opAddu:
			r[a] = sx(uint32(r[b]) + uint32(r[c]))
		case opSubu:
			r[a] = sx(uint32(r[b]) - uint32(r[c]))
		case opAnd:
			r[a] = r[b] & r[c]
		case opOr:
			r[a] = r[b] | r[c]
		case opXor:
			r[a] = r[b] ^ r[c]
		case opNor:
			r[a] = ^(r[b] | r[c])
		case opSlt:
			r[a] = b2u(int64(r[b]) < int64(r[c]))
		case opSltu:
			r[a] = b2u(r[b] < r[c])
		case opTeq:
			if r[b] == r[c] {
				t.pc = pc
				panic(fault{"trap (division by zero, say)", sigFPE})
			}
		case opTne:
			if r[b] != r[c] {
				t.pc = pc
				panic(fault{"trap", sigTRAP})
			}
		case opBltz:
			if int64(r[b]) < 0 {
				next = in.imm
			}
		case opBgez:
			if int64(r[b]) >= 0 {
				next = in.imm
			}
		case opBltzal:
			v := r[b]
			r[31] = sx(pc + 8)
			if int64(v) < 0 {
				next = in.imm
			}
		case opBgezal:
			v := r[b]
			r[31] = sx(pc + 8)
			if int64(v) >= 0 {
				next = in.imm
			}
		case opJ:
			next = in.imm
		case opJal:
			r[31] = sx(pc + 8)
			next = in.imm
		case opBeq:
			if r[b] == r[c] {
				next = in.imm
			}
		case opBne:
			if r[b] != r[c] {
				next = in.imm
			}
		case opBlez:
			if int64(r[b]) <= 0 {
				next = in.imm
			}
		case opBgtz:
			if int64(r[b]) > 0 {
				next = in.imm
			}
		case opAddiu:
			r[a] = sx(uint32(r[b]) + in.imm)
		case opSlti:
			r[a] = b2u(int64(r[b]) < int64(int32(in.imm)))
		case opSltiu:
			r[a] = b2u(r[b] < sx(in.imm))
		case opAndi:
			r[a] = r[b] & uint64(in.imm)
		case opOri:
			r[a] = r[b] | uint64(in.imm)
		case opXori:
			r[a] = r[b] ^ uint64(in.imm)
		case opLui:
			r[a] = sx(in.imm)
		case opLb:
			t.pc = pc
			r[a] = uint64(int64(int8(mem[(r[b]+sx(in.imm))&mask])))
		case opLbu:
			t.pc = pc
			r[a] = uint64(mem[(r[b]+sx(in.imm))&mask])
		case opLh:
			t.pc = pc
			r[a] = uint64(int64(int16(be.Uint16(mem[(r[b]+sx(in.imm))&mask:]))))
		case opLhu:
			t.pc = pc
			r[a] = uint64(be.Uint16(mem[(r[b]+sx(in.imm))&mask:]))
		case opLw, opLl:
			t.pc = pc
			r[a] = sx(be.Uint32(mem[(r[b]+sx(in.imm))&mask:]))
			if in.op == opLl {
				t.link = true
			}
		case opLwu:
			t.pc = pc
			r[a] = uint64(be.Uint32(mem[(r[b]+sx(in.imm))&mask:]))
		case opLd, opLld:
			t.pc = pc
			r[a] = be.Uint64(mem[(r[b]+sx(in.imm))&mask:])
			if in.op == opLld {
				t.link = true
			}
		case opLwl:
			t.pc = pc
			p := (r[b] + sx(in.imm)) & mask
			n := p & 3
			r[a] = sx(be.Uint32(mem[p&^3:])<<(8*n) | uint32(r[a])&(1<<(8*n)-1))
		case opLwr:
			t.pc = pc
			p := (r[b] + sx(in.imm)) & mask
			n := 3 - p&3
			r[a] = sx(be.Uint32(mem[p&^3:])>>(8*n) | uint32(r[a])&^(0xffffffff>>(8*n)))
		case opSwl:
			t.pc = pc
			p := (r[b] + sx(in.imm)) & mask
			for k := uint64(0); k < 4-p&3; k++ {
				mem[p+k] = byte(uint32(r[a]) >> (24 - 8*k))
			}
		case opSwr:
			t.pc = pc
			p := (r[b] + sx(in.imm)) & mask
			for k := uint64(0); k <= p&3; k++ {
				mem[p-k] = byte(uint32(r[a]) >> (8 * k))
			}
		case opLdl:
			t.pc = pc
			p := (r[b] + sx(in.imm)) & mask
			n := p & 7
			r[a] = be.Uint64(mem[p&^7:])<<(8*n) | r[a]&(1<<(8*n)-1)
		case opLdr:
			t.pc = pc
			p := (r[b] + sx(in.imm)) & mask
			n := 7 - p&7
			r[a] = be.Uint64(mem[p&^7:])>>(8*n) | r[a]&^(^uint64(0)>>(8*n))
		case opSdl:
			t.pc = pc
			p := (r[b] + sx(in.imm)) & mask
			for k := uint64(0); k < 8-p&7; k++ {
				mem[p+k] = byte(r[a] >> (56 - 8*k))
			}
		case opSdr:
			t.pc = pc
			p := (r[b] + sx(in.imm)) & mask
			for k := uint64(0); k <= p&7; k++ {
				mem[p-k] = byte(r[a] >> (8 * k))
			}
		case opSb:
			t.pc = pc
			mem[(r[b]+sx(in.imm))&mask] = byte(r[a])
		case opSh:
			t.pc = pc
			be.PutUint16(mem[(r[b]+sx(in.imm))&mask:], uint16(r[a]))
		case opSw:
			t.pc = pc
			be.PutUint32(mem[(r[b]+sx(in.imm))&mask:], uint32(r[a]))
		case opSd:
			t.pc = pc
			be.PutUint64(mem[(r[b]+sx(in.imm))&mask:], r[a])
		case opSc, opScd:
			t.pc = pc
			p := (r[b] + sx(in.imm)) & mask
			if t.link {
				if in.op == opSc {
					be.PutUint32(mem[p:], uint32(r[a]))
				} else {
					be.PutUint64(mem[p:], r[a])
				}
			}
			if a != 0 {
				r[a] = b2u(t.link)
			}
			t.link = false
		case opMul:
			r[a] = sx(uint32(r[b]) * uint32(r[c]))
		case opClz:
			r[a] = uint64(bits.LeadingZeros32(uint32(r[b])))
		case opClo:
			r[a] = uint64(bits.LeadingZeros32(^uint32(r[b])))
		case opSeb:
			r[a] = uint64(int64(int8(r[b])))
		case opSeh:
			r[a] = uint64(int64(int16(r[b])))
		case opDsll:
			r[a] = r[b] << (in.imm & 63)
		case opDsrl:
			r[a] = r[b] >> (in.imm & 63)
		case opDsra:
			r[a] = uint64(int64(r[b]) >> (in.imm & 63))
		case opDrotr:
			r[a] = bits.RotateLeft64(r[b], -int(in.imm))
		case opDsllv:
			r[a] = r[c] << (r[b] & 63)
		case opDsrlv:
			r[a] = r[c] >> (r[b] & 63)
		case opDsrav:
			r[a] = uint64(int64(r[c]) >> (r[b] & 63))
		case opDmult:
			h, l := bits.Mul64(r[b], r[c])
			if int64(r[b]) < 0 {
				h -= r[c]
			}
			if int64(r[c]) < 0 {
				h -= r[b]
			}
			t.hi, t.lo = h, l
		case opDmultu:
			t.hi, t.lo = bits.Mul64(r[b], r[c])
		case opDdiv:
			if x, y := int64(r[b]), int64(r[c]); y == -1 {
				t.hi, t.lo = 0, uint64(-x)
			} else if y != 0 {
				t.hi, t.lo = uint64(x%y), uint64(x/y)
			}
		case opDdivu:
			if x, y := r[b], r[c]; y != 0 {
				t.hi, t.lo = x%y, x/y
			}
		case opDaddu:
			r[a] = r[b] + r[c]
		case opDsubu:
			r[a] = r[b] - r[c]
		case opDaddiu:
			r[a] = r[b] + sx(in.imm)
		case opDclz:
			r[a] = uint64(bits.LeadingZeros64(r[b]))
		case opDclo:
			r[a] = uint64(bits.LeadingZeros64(^r[b]))
		default:
			t.pc = pc
			panic(fault{fmt.Sprintf("unknown instruction %08x", in.imm), 0})
		}
		pc, npc = npc, next
	}
	t.pc, t.npc = pc, npc
	return evBudget
}
