//go:build linux && amd64

package explore

import (
	"bytes"
	"os"
	"syscall"
	"unsafe"
)

const canAlias = true

// alias returns loop, loop, ..., loop, suf of at least size+len(suf) bytes, and what gives the memory back.
func alias(loop []byte, size int, suf []byte) ([]byte, func()) {
	const page = 4096
	chunk := page * len(loop)
	for chunk < 1<<24 && chunk < size {
		chunk *= 2
	}
	chunks := (size + chunk - 1) / chunk
	total := chunks*chunk + page
	f, err := os.CreateTemp("", "alias")
	if err != nil {
		panic(err)
	}
	defer f.Close()
	os.Remove(f.Name())
	if _, err := f.Write(bytes.Repeat(loop, chunk/len(loop))); err != nil {
		panic(err)
	}
	if _, err := f.Write(append(append([]byte{}, suf...), make([]byte, page-len(suf))...)); err != nil {
		panic(err)
	}
	m, err := syscall.Mmap(-1, 0, total, syscall.PROT_NONE, syscall.MAP_ANON|syscall.MAP_PRIVATE|syscall.MAP_NORESERVE)
	if err != nil {
		panic(err)
	}
	prot := syscall.PROT_READ | syscall.PROT_WRITE
	if size > 1<<28 {
		prot = syscall.PROT_READ
	}
	base := uintptr(unsafe.Pointer(&m[0]))
	place := func(at, size, off int) {
		_, _, e := syscall.Syscall6(syscall.SYS_MMAP, base+uintptr(at), uintptr(size), uintptr(prot), syscall.MAP_PRIVATE|syscall.MAP_FIXED, f.Fd(), uintptr(off))
		if e != 0 {
			panic(e)
		}
	}
	for i := 0; i < chunks; i++ {
		place(i*chunk, chunk, 0)
	}
	place(chunks*chunk, page, chunk)
	return m[: chunks*chunk+len(suf) : chunks*chunk+len(suf)], func() { syscall.Munmap(m) }
}
