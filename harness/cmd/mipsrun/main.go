// Command mipsrun runs a Go program that was built for linux/mips or linux/mips64 (big-endian, without floating point
// instructions): an interpreter for the instructions, and as much of Linux as the Go runtime and simple programs use.
// The threads of the program take turns, so this is one possible multiprocessor.
//
//	mipsrun PROGRAM ARGUMENT...
package main

import (
	"bytes"
	"debug/elf"
	"encoding/binary"
	"fmt"
	"math/bits"
	"os"
	"runtime/debug"
	"sort"
	"syscall"
	"time"
)

type machine struct {
	mem     []byte
	mask    uint64
	code    []inst
	text    uint32
	wide    bool // 64 bits
	threads []*thread
	lastTid int
	top     uint64 // for mmap
	start   time.Time
	syms    []elf.Symbol
	epoll   struct {
		data   uint64
		signal bool
	}
	handlers [129]uint64
	masks    [129]uint64
	rand     uint64
	trace    bool
}

const (
	ready = iota
	sleeping
	waiting // for a futex
	polling
	dead
)

const (
	eINTR, eBADF, eAGAIN, eNOMEM, eACCES, eEXIST, eINVAL, ePERM, eNOENT = 4, 9, 11, 12, 13, 17, 22, 1, 2

	eNOSYS, eTIMEDOUT = 89, 145
)

const (
	fdEvent = 1<<20 + iota
	fdEpoll
)

// unsupported is the exit status if the emulator cannot run the program.
const unsupported = 97

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "mipsrun PROGRAM ARGUMENT...")
		os.Exit(unsupported)
	}
	m := &machine{start: time.Now(), lastTid: 1000, rand: 0x9e3779b97f4a7c15, trace: os.Getenv("MIPSRUN_TRACE") != ""}
	if err := m.load(os.Args[1], os.Args[1:], os.Environ()); err != nil {
		fmt.Fprintln(os.Stderr, "mipsrun:", err)
		os.Exit(unsupported)
	}
	debug.SetPanicOnFault(true)
	debug.SetGCPercent(-1)
	os.Exit(m.schedule())
}

func (m *machine) load(path string, args, env []string) error {
	f, err := elf.Open(path)
	if err != nil {
		return err
	}
	defer f.Close()
	if f.Machine != elf.EM_MIPS || f.Data != elf.ELFDATA2MSB || f.Type != elf.ET_EXEC {
		return fmt.Errorf("%s: not a big-endian MIPS program", path)
	}
	m.wide = f.Class == elf.ELFCLASS64
	size := uint64(1) << 31
	m.mask = 1<<32 - 1
	if m.wide {
		size = 1 << 36
		m.mask = 1<<64 - 1
	}
	if m.mem, err = syscall.Mmap(-1, 0, int(size), syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_NORESERVE); err != nil {
		return err
	}
	if err = syscall.Mprotect(m.mem[:1<<16], syscall.PROT_NONE); err != nil {
		return err
	}
	end := uint64(0)
	for _, p := range f.Progs {
		if p.Type != elf.PT_LOAD {
			continue
		}
		if p.Vaddr+p.Memsz > 1<<30 {
			return fmt.Errorf("%s: lies too high", path)
		}
		if _, err = p.ReadAt(m.mem[p.Vaddr:p.Vaddr+p.Filesz], 0); err != nil {
			return err
		}
		end = max(end, p.Vaddr+p.Memsz)
		if p.Flags&elf.PF_X != 0 {
			m.text = uint32(p.Vaddr)
			for a := p.Vaddr; a < p.Vaddr+p.Filesz; a += 4 {
				m.code = append(m.code, decode(binary.BigEndian.Uint32(m.mem[a:]), a))
			}
		}
	}
	m.syms, _ = f.Symbols()
	m.sortSymbols()
	m.top = 1 << 30
	// The first stack.
	sp := uint64(1<<30 - 1<<16)
	str := func(s string) uint64 {
		sp -= uint64(len(s) + 1)
		copy(m.mem[sp:], s+"\x00")
		return sp
	}
	var av, ev []uint64
	for _, s := range args {
		av = append(av, str(s))
	}
	for _, s := range env {
		ev = append(ev, str(s))
	}
	random := str("0123456789abcdef")
	words := append([]uint64{uint64(len(av))}, av...)
	words = append(append(append(words, 0), ev...), 0)
	words = append(words, 6, 4096, 25, random, 0, 0)
	sp = (sp - 8*uint64(len(words))) &^ 63
	for i, w := range words {
		if m.wide {
			m.put64(sp+uint64(i)*8, w)
		} else {
			m.put32(sp+uint64(i)*4, uint32(w))
		}
	}
	t := &thread{pc: uint32(f.Entry), npc: uint32(f.Entry) + 4, tid: m.lastTid}
	t.r[29] = sp
	m.threads = []*thread{t}
	return nil
}

func (m *machine) put32(a uint64, v uint32) { binary.BigEndian.PutUint32(m.mem[a:], v) }
func (m *machine) put64(a uint64, v uint64) { binary.BigEndian.PutUint64(m.mem[a:], v) }
func (m *machine) get32(a uint64) uint32    { return binary.BigEndian.Uint32(m.mem[a:]) }
func (m *machine) get64(a uint64) uint64    { return binary.BigEndian.Uint64(m.mem[a:]) }

func (m *machine) where(pc uint32) string {
	i := sort.Search(len(m.syms), func(i int) bool { return m.syms[i].Value > uint64(pc) })
	for i--; i >= 0 && i > len(m.syms)-1<<20; i-- {
		s := m.syms[i]
		if s.Value+1<<20 < uint64(pc) {
			break
		}
		if uint64(pc) >= s.Value && uint64(pc) < s.Value+s.Size && elf.ST_TYPE(s.Info) == elf.STT_FUNC {
			return fmt.Sprintf("%s+%#x", s.Name, uint64(pc)-s.Value)
		}
	}
	return fmt.Sprintf("%#x", pc)
}

func (m *machine) now() int64 { return int64(time.Since(m.start)) + 1e9 }

// schedule runs the threads in turn, and returns the exit status.
func (m *machine) schedule() (code int) {
	defer func() {
		if p := recover(); p != nil {
			e, ok := p.(exit)
			if !ok {
				panic(p)
			}
			code = int(e)
		}
	}()
	for {
		ran := false
		for i := 0; i < len(m.threads); i++ {
			t := m.threads[i]
			if t.state != ready && (t.wake != 0 && m.now() >= t.wake || t.state == polling && m.epoll.signal) {
				m.unblock(t)
			}
			if t.state != ready {
				continue
			}
			ran = true
			t.link = false
			m.slice(t)
			if t.state == dead {
				m.threads = append(m.threads[:i], m.threads[i+1:]...)
				i--
			}
		}
		if len(m.threads) == 0 {
			return 0
		}
		if !ran {
			next := int64(0)
			for _, t := range m.threads {
				if t.wake != 0 && (next == 0 || t.wake < next) {
					next = t.wake
				}
			}
			if next == 0 {
				fmt.Fprintln(os.Stderr, "mipsrun: all threads are blocked")
				return unsupported
			}
			if d := next - m.now(); d > 0 {
				time.Sleep(time.Duration(d))
			}
		}
	}
}

// slice lets a thread run for a while.
func (m *machine) slice(t *thread) {
	defer func() {
		p := recover()
		if p == nil {
			return
		}
		if _, ok := p.(exit); ok {
			panic(p)
		}
		f, ok := p.(fault)
		if e, isErr := p.(error); isErr {
			f, ok = fault{e.Error(), sigSEGV}, true
		}
		if !ok {
			panic(p)
		}
		addr := uint64(0)
		if f.sig == sigSEGV {
			// The address, from the instruction. (For others than loads and stores it does not matter.)
			if i := uint64(t.pc-m.text) >> 2; i < uint64(len(m.code)) {
				in := &m.code[i]
				addr = (t.r[in.b&63] + sx(in.imm)) & m.mask
			}
		}
		if f.sig != 0 && m.deliver(t, f.sig, 1, addr) {
			return
		}
		m.die(t, f.msg)
	}()
	if p := t.pending &^ t.mask; p != 0 {
		for t.npc != t.pc+4 {
			if m.run(t, 1) != evBudget {
				break // seldom: a system call in a delay slot
			}
		}
		if t.npc == t.pc+4 {
			sig := bits.TrailingZeros64(p) + 1
			t.pending &^= 1 << (sig - 1)
			m.deliver(t, sig, 0xfffffffa, 0) // SI_TKILL
		}
	}
	for budget := 0; budget < 10 && t.state == ready; {
		switch m.run(t, 20000) {
		case evBudget:
			budget++
		case evSigreturn:
			m.sigreturn(t)
			return
		case evSyscall:
			if !m.syscall(t) {
				return
			}
		}
	}
}

func (m *machine) die(t *thread, why string) {
	fmt.Fprintf(os.Stderr, "mipsrun: the emulated program cannot go on: %s\nat %s\ncalled from %s\n", why, m.where(t.pc), m.where(uint32(t.r[31])))
	// What lies on the stack and looks like return addresses.
	for i, n := uint64(0), 0; i < 1<<14 && n < 60; i += 4 {
		if v := m.get32(t.r[29]&m.mask + i); v > m.text && v < m.text+uint32(len(m.code))*4 && v&3 == 0 {
			fmt.Fprintf(os.Stderr, "  %s\n", m.where(v))
			n++
		}
	}
	os.Exit(unsupported)
}

type exit int

// unblock ends the wait of a thread whose time is up, or for which there is an event.
func (m *machine) unblock(t *thread) {
	switch t.state {
	case sleeping:
		m.result(t, 0, 0)
	case waiting:
		m.result(t, 0, eTIMEDOUT)
	case polling:
		m.result(t, m.events(t.events), 0)
	}
	t.state, t.wake = ready, 0
}

// events delivers what there is for epoll.
func (m *machine) events(p uint64) uint64 {
	if !m.epoll.signal {
		return 0
	}
	m.put32(p, 1) // EPOLLIN
	m.put64(p+8, m.epoll.data)
	return 1
}

func (m *machine) result(t *thread, v uint64, errno int) {
	t.r[7] = 0
	if errno != 0 {
		t.r[7], v = 1, uint64(errno)
	}
	t.r[2] = v
	if !m.wide {
		t.r[2] = sx(uint32(v))
	}
}

func (m *machine) cstring(a uint64) string {
	n := bytes.IndexByte(m.mem[a:], 0)
	return string(m.mem[a : a+uint64(n)])
}
