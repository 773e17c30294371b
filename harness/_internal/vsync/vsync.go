// Package vsync stands in for package sync in the instrumented copy of the library: a thread that has to wait tells the
// scheduler, so that another one runs.
package vsync

import (
	"sync"
	"sync/atomic"

	"github.com/apparentlymart/go-textseg/v17/textseg/internal/zzverif/zzsched"
)

type (
	Locker    = sync.Locker
	WaitGroup = sync.WaitGroup
)

type Map struct{ m sync.Map }

func (m *Map) Clear()                 { zzsched.Point(); m.m.Clear() }
func (m *Map) Delete(k any)           { zzsched.Point(); m.m.Delete(k) }
func (m *Map) Load(k any) (any, bool) { zzsched.Point(); return m.m.Load(k) }
func (m *Map) Store(k, v any)         { zzsched.Point(); m.m.Store(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool) {
	zzsched.Point()
	return m.m.LoadAndDelete(k)
}
func (m *Map) LoadOrStore(k, v any) (any, bool) { zzsched.Point(); return m.m.LoadOrStore(k, v) }
func (m *Map) Swap(k, v any) (any, bool)        { zzsched.Point(); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, a, b any) bool  { zzsched.Point(); return m.m.CompareAndSwap(k, a, b) }
func (m *Map) CompareAndDelete(k, a any) bool   { zzsched.Point(); return m.m.CompareAndDelete(k, a) }
func (m *Map) Range(f func(k, v any) bool) {
	m.m.Range(func(k, v any) bool { zzsched.Point(); return f(k, v) })
}

type Mutex struct{ m sync.Mutex }

func (m *Mutex) Lock() {
	zzsched.Point()
	for !m.m.TryLock() {
		zzsched.Blocked()
	}
}
func (m *Mutex) TryLock() bool { zzsched.Point(); return m.m.TryLock() }
func (m *Mutex) Unlock()       { m.m.Unlock(); zzsched.Unblocked(); zzsched.Point() }

type RWMutex struct{ m sync.RWMutex }

func (m *RWMutex) Lock() {
	zzsched.Point()
	for !m.m.TryLock() {
		zzsched.Blocked()
	}
}
func (m *RWMutex) RLock() {
	zzsched.Point()
	for !m.m.TryRLock() {
		zzsched.Blocked()
	}
}
func (m *RWMutex) TryLock() bool  { zzsched.Point(); return m.m.TryLock() }
func (m *RWMutex) TryRLock() bool { zzsched.Point(); return m.m.TryRLock() }
func (m *RWMutex) Unlock()        { m.m.Unlock(); zzsched.Unblocked(); zzsched.Point() }
func (m *RWMutex) RUnlock()       { m.m.RUnlock(); zzsched.Unblocked(); zzsched.Point() }
func (m *RWMutex) RLocker() Locker {
	return rlocker{m}
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

type Once struct {
	done atomic.Bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	zzsched.Point()
	if o.done.Load() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done.Load() {
		defer o.done.Store(true)
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

// Pool hands items out again as soon as it can.
type Pool struct {
	New   func() any
	m     Mutex
	items []any
}

func (p *Pool) Get() any {
	p.m.Lock()
	var x any
	if n := len(p.items); n > 0 {
		x, p.items = p.items[n-1], p.items[:n-1]
	}
	p.m.Unlock()
	if x == nil && p.New != nil {
		x = p.New()
	}
	return x
}

func (p *Pool) Put(x any) {
	p.m.Lock()
	p.items = append(p.items, x)
	p.m.Unlock()
}
