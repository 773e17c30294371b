//go:build !(linux && amd64)

package explore

const canAlias = false

func alias(loop []byte, size int, suf []byte) ([]byte, func()) { panic("not here") }
