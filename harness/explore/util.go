package explore

import (
	"fmt"
	"io"
	"strings"
)

var errEOF = io.EOF

func pick(thorough bool, quick, deep int) int {
	if thorough {
		return deep
	}
	return quick
}

func pickn(thorough bool, quick, deep []int) []int {
	if thorough {
		return deep
	}
	return quick
}

func pickAlpha(thorough bool, quick, deep [][]byte) [][]byte {
	if thorough {
		return deep
	}
	return quick
}

func alpha(b []byte, n int) [][]byte {
	var ret [][]byte
	for i := 0; i < n; i++ {
		ret = append(ret, b)
	}
	return ret
}

func around2(lo, hi int) []int {
	var ret []int
	for i := lo; i <= hi; i++ {
		ret = append(ret, i)
	}
	return ret
}

func pickFrags(all []Frag, prefixes ...string) []Frag {
	var ret []Frag
	for _, p := range prefixes {
		n := len(ret)
		for _, f := range all {
			if strings.HasPrefix(f.Name, p) && (strings.HasSuffix(p, "(") || strings.HasSuffix(p, ")") || strings.HasPrefix(f.Name, p+"(")) {
				ret = append(ret, f)
			}
		}
		if len(ret) == n {
			panic(fmt.Sprintf("no fragment %s", p))
		}
	}
	return ret
}
