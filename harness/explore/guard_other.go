//go:build !linux

package explore

func newGuarded() guarded { panic("needs memory that cannot be read") }

func (g guarded) free() {}
