package explore

import "syscall"

func newGuarded() guarded {
	m, err := syscall.Mmap(-1, 0, front+slack+beyond, syscall.PROT_NONE, syscall.MAP_ANON|syscall.MAP_PRIVATE|syscall.MAP_NORESERVE)
	if err == nil {
		err = syscall.Mprotect(m[:front+slack], syscall.PROT_READ|syscall.PROT_WRITE)
	}
	if err != nil {
		panic(err)
	}
	for i := range m[front : front+slack] {
		m[front+i] = 'x'
	}
	return guarded{m}
}

func (g guarded) free() { syscall.Munmap(g.mem) }
