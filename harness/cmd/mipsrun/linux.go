package main

import (
	"fmt"
	"os"
	"syscall"
	"time"
)

// What is emulated, by the numbers of 32-bit programs and those of 64-bit programs.
var calls = map[[2]int]string{}

func init() {
	for _, c := range []struct {
		n32, n64 int
		name     string
	}{
		{4001, 5058, "exit"}, {4003, 5000, "read"}, {4004, 5001, "write"}, {4005, 5002, "open"}, {4006, 5003, "close"},
		{4010, 5085, "unlink"}, {4020, 5038, "getpid"}, {4037, 5060, "kill"}, {4039, 5081, "mkdir"}, {4045, 5012, "brk"},
		{4055, 5070, "fcntl"}, {4220, 5070, "fcntl"}, {4090, 5009, "mmap"}, {4091, 5011, "munmap"}, {4104, 5036, "setitimer"},
		{4120, 5055, "clone"}, {4122, 5061, "uname"}, {4125, 5010, "mprotect"}, {4140, 5008, "lseek"}, {4162, 5023, "yield"}, {4166, 5034, "nanosleep"},
		{4192, 5153, "prctl"}, {4194, 5013, "sigaction"}, {4195, 5014, "sigprocmask"}, {4203, 5077, "getcwd"}, {4206, 5129, "sigaltstack"},
		{4213, 5004, "stat"}, {4214, 5006, "lstat"}, {4215, 5005, "fstat"}, {4217, 5026, "mincore"}, {4218, 5027, "madvise"}, {4222, 5178, "gettid"},
		{4238, 5194, "futex"}, {4240, 5196, "affinity"}, {4246, 5205, "exit_group"}, {4248, 5207, "epoll_create"}, {4249, 5208, "epoll_ctl"},
		{4263, 5222, "clock_gettime"}, {4266, 5225, "tgkill"}, {4288, 5247, "openat"}, {4289, 5248, "mkdirat"}, {4293, 5252, "fstatat"},
		{4294, 5253, "unlinkat"}, {4298, 5257, "readlinkat"}, {4313, 5272, "epoll_pwait"}, {4325, 5284, "eventfd"}, {4326, 5285, "epoll_create"},
		{4338, 5297, "prlimit"}, {4353, 5313, "getrandom"}, {4024, 5100, "getuid"}, {4049, 5105, "geteuid"}, {4047, 5102, "getgid"}, {4050, 5106, "getegid"},
		{4019, 5008, "lseek"}, {4366, 5326, "statx"},
	} {
		calls[[2]int{0, c.n32}] = c.name
		calls[[2]int{1, c.n64}] = c.name
	}
}

func hostErr(err error) int {
	e, ok := err.(syscall.Errno)
	switch {
	case !ok || err == nil:
		return 0
	case e == syscall.ENOSYS:
		return eNOSYS
	case e < 35: // the same numbers
		return int(e)
	case e == syscall.ENOTEMPTY:
		return 93
	case e == syscall.ENAMETOOLONG:
		return 78
	case e == syscall.ELOOP:
		return 90
	}
	return 5 // EIO
}

// syscall does what the thread asks for, and reports whether the thread may go on at once.
func (m *machine) syscall(t *thread) bool {
	num := int(int32(t.r[2]))
	var a [6]uint64
	for i := range a {
		switch {
		case m.wide:
			a[i] = t.r[4+i]
		case i < 4:
			a[i] = uint64(uint32(t.r[4+i]))
		default:
			a[i] = uint64(m.get32(t.r[29]&m.mask + 16 + 4*uint64(i-4)))
		}
	}
	w := 0
	if m.wide {
		w = 1
	}
	name := calls[[2]int{w, num}]
	v, errno, cont := m.call(t, name, num, a)
	if m.trace {
		fmt.Fprintf(os.Stderr, "[%d] %s(%d) %x = %#x %d\n", t.tid, name, num, a, v, errno)
	}
	if cont || t.state == ready {
		m.result(t, v, errno)
	}
	return cont
}

func (m *machine) duration(p uint64) int64 {
	if m.wide {
		return int64(m.get64(p))*1e9 + int64(m.get64(p+8))
	}
	return int64(m.get32(p))*1e9 + int64(m.get32(p+4))
}

func (m *machine) call(t *thread, name string, num int, a [6]uint64) (v uint64, errno int, cont bool) {
	cont = true
	at := func(dir, path uint64) (int, string) {
		d := int(int32(dir))
		return d, m.cstring(path)
	}
	host := func(n int, err error) (uint64, int, bool) { return uint64(n), hostErr(err), true }
	switch name {
	case "exit":
		t.state = dead
		return 0, 0, false
	case "exit_group":
		panic(exit(int32(a[0])))
	case "read":
		if a[0] == fdEvent {
			m.epoll.signal = false
			m.put64(a[1], 1)
			return 8, 0, true
		}
		return host(syscall.Read(int(a[0]), m.mem[a[1]:a[1]+a[2]]))
	case "write":
		if a[0] == fdEvent {
			m.epoll.signal = true
			return 8, 0, true
		}
		return host(syscall.Write(int(a[0]), m.mem[a[1]:a[1]+a[2]]))
	case "open", "openat":
		if name == "open" {
			a = [6]uint64{uint64(0xffffff9c), a[0], a[1], a[2]}
		}
		d, path := at(a[0], a[1])
		flags := int(a[2]) & 3
		for _, f := range [][2]int{{8, syscall.O_APPEND}, {0x100, syscall.O_CREAT}, {0x200, syscall.O_TRUNC}, {0x400, syscall.O_EXCL}, {0x10000, syscall.O_DIRECTORY}, {0x20000, syscall.O_NOFOLLOW}} {
			if int(a[2])&f[0] != 0 {
				flags |= f[1]
			}
		}
		return host(syscall.Openat(d, path, flags|syscall.O_CLOEXEC, uint32(a[3])))
	case "close":
		if a[0] >= fdEvent {
			return 0, 0, true
		}
		return host(0, syscall.Close(int(a[0])))
	case "lseek":
		if !m.wide && num == 4140 {
			off, err := syscall.Seek(int(a[0]), int64(a[1]<<32|a[2]), int(a[4]))
			m.put64(a[3], uint64(off))
			return host(0, err)
		}
		off, err := syscall.Seek(int(a[0]), int64(sx32(m.wide, a[1])), int(a[2]))
		return host(int(off), err)
	case "unlink":
		return host(0, syscall.Unlink(m.cstring(a[0])))
	case "unlinkat":
		d, path := at(a[0], a[1])
		if d != -100 {
			return 0, eNOSYS, true
		}
		if a[2]&0x200 != 0 {
			return host(0, syscall.Rmdir(path))
		}
		return host(0, syscall.Unlink(path))
	case "mkdir":
		return host(0, syscall.Mkdir(m.cstring(a[0]), uint32(a[1])))
	case "mkdirat":
		d, path := at(a[0], a[1])
		return host(0, syscall.Mkdirat(d, path, uint32(a[2])))
	case "readlinkat":
		_, path := at(a[0], a[1])
		return host(syscall.Readlink(path, m.mem[a[2]:a[2]+a[3]]))
	case "getcwd":
		return host(syscall.Getcwd(m.mem[a[0] : a[0]+a[1]]))
	case "stat", "lstat", "fstat", "fstatat":
		var st syscall.Stat_t
		var err error
		switch name {
		case "stat":
			err = syscall.Stat(m.cstring(a[0]), &st)
		case "lstat":
			err = syscall.Lstat(m.cstring(a[0]), &st)
		case "fstat":
			err = syscall.Fstat(int(a[0]), &st)
		case "fstatat":
			if d, path := at(a[0], a[1]); d != -100 {
				return 0, eNOSYS, true
			} else if a[3]&0x100 != 0 {
				err = syscall.Lstat(path, &st)
			} else {
				err = syscall.Stat(path, &st)
			}
			a[1] = a[2]
		}
		if err == nil {
			m.stat(a[1], &st)
		}
		return host(0, err)
	case "getpid":
		return 1000, 0, true
	case "gettid":
		return uint64(t.tid), 0, true
	case "getuid", "geteuid", "getgid", "getegid":
		return 0, 0, true
	case "kill", "tgkill":
		sig, to := a[1], t
		if name == "tgkill" {
			sig = a[2]
			to = nil
			for _, o := range m.threads {
				if o.tid == int(a[1]) {
					to = o
				}
			}
		}
		if to == nil || sig == 0 || sig > 64 {
			return 0, eINVAL, true
		}
		if m.handlers[sig] == 0 && sig != 21 && sig != 18 {
			panic(exit(128 + int(sig)))
		}
		if m.handlers[sig] > 1 {
			to.pending |= 1 << (sig - 1)
			if to == t {
				m.result(t, 0, 0)
				return 0, 0, false
			}
			if to.state == sleeping || to.state == polling {
				to.state, to.wake = ready, 0
				m.result(to, 0, eINTR)
			}
		}
		return 0, 0, true
	case "brk":
		return 0, 0, true
	case "fcntl":
		switch a[1] {
		case 3: // F_GETFL
			if a[0] >= fdEvent {
				return 2, 0, true
			}
			f, _, e := syscall.Syscall(syscall.SYS_FCNTL, uintptr(a[0]), 3, 0)
			if e != 0 {
				return 0, hostErr(e), true
			}
			return uint64(f & 3), 0, true
		case 1, 2, 4:
			if a[0] < fdEvent {
				if _, _, e := syscall.Syscall(syscall.SYS_FCNTL, uintptr(a[0]), 1, 0); e != 0 {
					return 0, hostErr(e), true
				}
			}
			return 0, 0, true
		}
		return 0, eINVAL, true
	case "mmap":
		size := (a[1] + 0xffff) &^ 0xffff
		if a[3]&0x800 == 0 { // not anonymous
			return 0, 19, true
		}
		if a[3]&0x10 != 0 { // fixed: it lies where there was a mapping
			m.zero(a[0], a[1])
			return a[0], 0, true
		}
		if m.top+size > uint64(len(m.mem)) {
			return 0, eNOMEM, true
		}
		v = m.top
		m.top += size
		return v, 0, true
	case "munmap":
		m.zero(a[0], a[1])
		if (a[0]+a[1]+0xffff)&^0xffff == m.top {
			m.top = (a[0] + 0xffff) &^ 0xffff
		}
		return 0, 0, true
	case "madvise":
		if a[2] == 4 { // MADV_DONTNEED
			m.zero(a[0], a[1])
		}
		return 0, 0, true
	case "mprotect", "setitimer", "prctl":
		return 0, 0, true
	case "mincore":
		return 0, eNOMEM, true
	case "sigaction":
		if a[0] == 0 || a[0] > 128 {
			return 0, eINVAL, true
		}
		h, mask := m.handlers[a[0]], m.masks[a[0]]
		if p := a[1]; p != 0 {
			if m.wide {
				m.handlers[a[0]], m.masks[a[0]] = m.get64(p+8), m.get64(p+16)
			} else {
				m.handlers[a[0]], m.masks[a[0]] = uint64(m.get32(p+4)), m.set32(p+8)
			}
		}
		if p := a[2]; p != 0 {
			if m.wide {
				m.clear(p, 32)
				m.put64(p+8, h)
				m.put64(p+16, mask)
			} else {
				m.clear(p, 24)
				m.put32(p+4, uint32(h))
				m.putSet32(p+8, mask)
			}
		}
		return 0, 0, true
	case "sigprocmask":
		old := t.mask
		if p := a[1]; p != 0 {
			set := uint64(0)
			if m.wide {
				set = m.get64(p)
			} else {
				set = m.set32(p)
			}
			switch a[0] {
			case 1:
				t.mask |= set
			case 2:
				t.mask &^= set
			case 3:
				t.mask = set
			}
		}
		if p := a[2]; p != 0 {
			m.clear(p, 16)
			if m.wide {
				m.put64(p, old)
			} else {
				m.putSet32(p, old)
			}
		}
		if t.pending&^t.mask != 0 {
			m.result(t, 0, 0)
			return 0, 0, false
		}
		return 0, 0, true
	case "sigaltstack":
		old := t.alt
		if p := a[0]; p != 0 {
			switch {
			case m.wide && m.get32(p+16)&2 == 0:
				t.alt = altstack{m.get64(p), m.get64(p + 8)}
			case !m.wide && m.get32(p+8)&2 == 0:
				t.alt = altstack{uint64(m.get32(p)), uint64(m.get32(p + 4))}
			default:
				t.alt = altstack{}
			}
		}
		if a[1] != 0 {
			if m.wide {
				m.clear(a[1], 24)
				m.put64(a[1], old.sp)
				m.put64(a[1]+8, old.size)
				if old.size == 0 {
					m.put32(a[1]+16, 2)
				}
			} else {
				m.clear(a[1], 12)
				m.put32(a[1], uint32(old.sp))
				m.put32(a[1]+4, uint32(old.size))
				if old.size == 0 {
					m.put32(a[1]+8, 2)
				}
			}
		}
		return 0, 0, true
	case "clone":
		m.lastTid++
		n := *t
		n.tid = m.lastTid
		n.pending, n.alt, n.frames = 0, altstack{}, nil
		n.r[29] = a[1]
		if !m.wide {
			n.r[29] = sx(uint32(a[1]))
		}
		m.result(&n, 0, 0)
		m.threads = append(m.threads, &n)
		return uint64(n.tid), 0, true
	case "uname":
		m.clear(a[0], 6*65)
		for i, s := range []string{"Linux", "emulated", "4.19.0", "#1", "mips", ""} {
			copy(m.mem[a[0]+uint64(i)*65:], s)
		}
		return 0, 0, true
	case "yield":
		m.result(t, 0, 0)
		return 0, 0, false
	case "nanosleep":
		t.state, t.wake = sleeping, m.now()+max(m.duration(a[0]), 1)
		return 0, 0, false
	case "clock_gettime":
		ns := time.Now().UnixNano()
		if a[0] != 0 {
			ns = m.now()
		}
		if m.wide {
			m.put64(a[1], uint64(ns/1e9))
			m.put64(a[1]+8, uint64(ns%1e9))
		} else {
			m.put32(a[1], uint32(ns/1e9))
			m.put32(a[1]+4, uint32(ns%1e9))
		}
		return 0, 0, true
	case "futex":
		switch a[1] & 0x7f {
		case 0:
			if m.get32(a[0]) != uint32(a[2]) {
				return 0, eAGAIN, true
			}
			t.state, t.addr, t.wake = waiting, a[0], 0
			if a[3] != 0 {
				t.wake = m.now() + max(m.duration(a[3]), 1)
			}
			return 0, 0, false
		case 1:
			for _, o := range m.threads {
				if o.state == waiting && o.addr == a[0] && v < a[2] {
					o.state, o.wake = ready, 0
					m.result(o, 0, 0)
					v++
				}
			}
			return v, 0, true
		}
	case "affinity":
		m.clear(a[2], a[1])
		m.mem[a[2]] = 1
		return 8, 0, true
	case "epoll_create":
		return fdEpoll, 0, true
	case "eventfd":
		return fdEvent, 0, true
	case "epoll_ctl":
		if a[2] == fdEvent {
			m.epoll.data = m.get64(a[3] + map[bool]uint64{false: 8, true: 8}[m.wide])
			return 0, 0, true
		}
		return 0, ePERM, true
	case "epoll_pwait":
		if v = m.events(a[1]); v > 0 || int32(a[3]) == 0 {
			return v, 0, true
		}
		t.state, t.events, t.wake = polling, a[1], 0
		if int32(a[3]) > 0 {
			t.wake = m.now() + int64(int32(a[3]))*1e6
		}
		return 0, 0, false
	case "getrandom":
		for i := uint64(0); i < a[1]; i++ {
			m.rand ^= m.rand << 13
			m.rand ^= m.rand >> 7
			m.rand ^= m.rand << 17
			m.mem[a[0]+i] = byte(m.rand)
		}
		return a[1], 0, true
	}
	if m.trace {
		fmt.Fprintln(os.Stderr, "no system call", num)
	}
	return 0, eNOSYS, true
}

// set32 and putSet32 access a set of signals, made of words of 32 bits.
func (m *machine) set32(p uint64) uint64 { return uint64(m.get32(p)) | uint64(m.get32(p+4))<<32 }
func (m *machine) putSet32(p, v uint64) {
	m.put32(p, uint32(v))
	m.put32(p+4, uint32(v>>32))
}

func sx32(wide bool, v uint64) uint64 {
	if wide {
		return v
	}
	return sx(uint32(v))
}

func (m *machine) clear(a, n uint64) { clear(m.mem[a : a+n]) }

// zero makes memory read as zero again.
func (m *machine) zero(a, n uint64) {
	lo, hi := (a+4095)&^4095, (a+n)&^4095
	if lo >= hi {
		clear(m.mem[a : a+n])
		return
	}
	clear(m.mem[a:lo])
	clear(m.mem[hi : a+n])
	syscall.Madvise(m.mem[lo:hi], syscall.MADV_DONTNEED)
}

func (m *machine) stat(p uint64, st *syscall.Stat_t) {
	if m.wide {
		m.clear(p, 104)
		m.put32(p, uint32(st.Dev))
		m.put64(p+16, st.Ino)
		m.put32(p+24, st.Mode)
		m.put32(p+28, uint32(st.Nlink))
		m.put64(p+56, uint64(st.Size))
		m.put32(p+64, uint32(st.Atim.Sec))
		m.put32(p+72, uint32(st.Mtim.Sec))
		m.put32(p+80, uint32(st.Ctim.Sec))
		m.put32(p+88, uint32(st.Blksize))
		m.put64(p+96, uint64(st.Blocks))
		return
	}
	m.clear(p, 104)
	m.put32(p, uint32(st.Dev))
	m.put64(p+16, st.Ino)
	m.put32(p+24, st.Mode)
	m.put32(p+28, uint32(st.Nlink))
	m.put64(p+56, uint64(st.Size))
	m.put32(p+64, uint32(st.Atim.Sec))
	m.put32(p+72, uint32(st.Mtim.Sec))
	m.put32(p+80, uint32(st.Ctim.Sec))
	m.put32(p+88, uint32(st.Blksize))
	m.put64(p+96, uint64(st.Blocks))
}
