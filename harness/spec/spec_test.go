package spec

import (
	"testing"
	"time"
)

func TestSelf(t *testing.T) {
	t0 := time.Now()
	m := NewModel()
	t.Log(time.Since(t0))
	n, err := SelfTest(m, 5)
	t.Log(n, err, time.Since(t0))
	op := 0
	for _, a := range m.Access {
		if a != nil {
			op++
		}
	}
	t.Log(len(m.States), op, len(m.Suffixes()), m.Suffixes()[18:])
}
